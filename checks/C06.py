"""Plaintext execution."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = 'every operation of the plaintext schedulers, in value-flow normal form, against reference definitions'
FLOOR = 0


def check(ctx):
    ctx.load(specs=['C06.cpp'])
    refine.refine(ctx, 'C06.cpp', opts={'ev': {'opaque': ['fbpcf::engine::communication::IPartyCommunicationAgent::.*']}})
