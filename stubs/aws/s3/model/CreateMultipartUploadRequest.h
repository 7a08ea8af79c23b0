#pragma once
#include "aws/core/Aws.h"
