#pragma once
#include "folly/dynamic.h"
