"""Opening values."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = 'opening of shared values, in value-flow normal form, against reference definitions'
FLOOR = 0
AGENT = {'ev': {'opaque': ['fbpcf::engine::communication::IPartyCommunicationAgent::.*']}}


def check(ctx):
    ctx.load(specs=['E04.cpp'])
    refine.refine(ctx, 'E04.cpp', opts=AGENT)
