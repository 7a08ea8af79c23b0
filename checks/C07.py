"""Statistics."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = 'what every component reports about its traffic, gates and wires, in value-flow normal form, against reference definitions'
FLOOR = 0


def check(ctx):
    ctx.load(specs=['C07.cpp'])
    refine.refine(ctx, 'C07.cpp')
