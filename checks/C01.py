"""What each deferred gate computes."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = 'compute and collect of every gate class, for all gate types at once, in value-flow normal form, against reference definitions'
FLOOR = 0


def check(ctx):
    ctx.load(specs=['C01.cpp'])
    refine.refine(ctx, 'C01.cpp')
