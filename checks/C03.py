"""Wire ownership, storage and statistics."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = 'every operation of the wire keeper and of its two storage back ends, in value-flow normal form, against reference definitions'
FLOOR = 0


def check(ctx):
    ctx.load(specs=['C03.cpp'])
    refine.refine(ctx, 'C03.cpp')
