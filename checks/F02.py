"""What the bits of the frontend compute."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = 'operations of the frontend bit over a scheduler in the clear, reduced to canonical decision diagrams'
FLOOR = 0


def check(ctx):
    ctx.load(specs=['F02.cpp'])
    refine.lemmas(ctx, 'F02.cpp')
