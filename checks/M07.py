"""From a union-like mapping to an intersection-like one."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = "the adapter is evaluated for both parties over every pair of mappings of a small union, with symbolic shares and a shuffler that works in the clear"
FLOOR = 0


def check(ctx):
    ctx.load(specs=['M07.cpp'])
    refine.lemmas(ctx, 'M07.cpp', None, {'exact': True, 'per': {'refusesMapping': {'total': False}}})
