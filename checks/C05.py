"""Immediate execution."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = 'every operation of the eager scheduler, in value-flow normal form, against reference definitions'
FLOOR = 0


def check(ctx):
    ctx.load(specs=['C05.cpp'])
    refine.refine(ctx, 'C05.cpp')
