"""Messages."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = 'sending and receiving of messages, in value-flow normal form, against reference definitions; round trip of packed bits reduced to canonical form'
FLOOR = 0


def check(ctx):
    ctx.load(specs=['E10.cpp', 'E10L.cpp'])
    refine.refine(ctx, 'E10.cpp', opts={'ev': {'opaque': ['fbpcf::engine::communication::InMemoryPartyCommunicationAgentHost::receive']}})
    refine.lemmas(ctx, 'E10L.cpp')
