"""Input and output of integers."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = "what goes into an integer comes out again: programs over a scheduler in the clear, reduced to canonical decision diagrams"
FLOOR = 0


def check(ctx):
    ctx.load(specs=['F04.cpp'])
    no = {'total': False}
    refine.lemmas(ctx, 'F04.cpp', None, {'per': {k: no for k in ('refusesInput', 'refusesInputBatch', 'index')}})
