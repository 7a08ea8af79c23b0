"""Wires kept alive by gates."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = 'constructor, destructor and assignment of every gate class, in value-flow normal form, against reference definitions'
FLOOR = 0


def check(ctx):
    ctx.load(specs=['C02.cpp'])
    refine.refine(ctx, 'C02.cpp')
