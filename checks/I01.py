"""Buffered files."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = "programs that read and write through buffers of small sizes, reduced to canonical form over all bytes and placings of line ends"
FLOOR = 0
NO = {'total': False}


def check(ctx):
    ctx.load(specs=['I01.cpp'])
    refine.lemmas(ctx, 'I01.cpp', None, {'exact': True, 'per': {'refusesPastEnd': NO, 'refusesShortWrite': NO}})
