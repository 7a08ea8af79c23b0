"""References that bits hold to wires."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = "copying, moving, assigning and destroying frontend bits over a counting scheduler, reduced to canonical form"
FLOOR = 0


def check(ctx):
    ctx.load(specs=['F03.cpp'])
    refine.lemmas(ctx, 'F03.cpp')
