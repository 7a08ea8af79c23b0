"""Bit strings."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = "bit strings act position by position: programs over a scheduler in the clear, reduced to canonical decision diagrams"
FLOOR = 0


def check(ctx):
    ctx.load(specs=['F06.cpp'])
    no = {'total': False}
    refine.lemmas(ctx, 'F06.cpp', None, {'per': {k: no for k in ('lengthsAnd', 'lengthsXor', 'lengthsMux', 'lengthsBatching', 'uneven', 'noBatch')}})
