"""Plain values, their bits, and batches of secret values."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = "conversions and the operations on batches of secret values, reduced to canonical decision diagrams over all input bits"
FLOOR = 0


def check(ctx):
    ctx.load(specs=['M09.cpp'])
    per = {k: {'exact': True} for k in ('sum', 'difference', 'negated', 'bits', 'fromBits', 'fromKey', 'refusesNumber')}
    for k in ('refusesNumber', 'refusesBits', 'refusesVectors'):
        per.setdefault(k, {})['total'] = False
    refine.lemmas(ctx, 'M09.cpp', None, {'per': per, 'match': {r"Intp<true, '@'>|AggregationValue": {'exact': True}}})
