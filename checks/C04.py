"""Deferred execution levels."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = 'gate queueing levels and deferred execution, in value-flow normal form, against reference definitions'
FLOOR = 0


def check(ctx):
    ctx.load(specs=['C04.cpp', 'C04b.cpp'])
    refine.refine(ctx, 'C04.cpp')
    refine.refine(ctx, 'C04b.cpp')
