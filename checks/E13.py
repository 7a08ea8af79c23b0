"""Block cipher and generators."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = "128-bit helpers reduced bit by bit to canonical decision diagrams"
FLOOR = 0


def check(ctx):
    ctx.load(specs=['E13.cpp'])
    refine.lemmas(ctx, 'E13.cpp', None, {'per': {k: {'total': False} for k in ('refusesLong', 'neverWraps')}})
    refine.refine(ctx, 'E13.cpp', None, {'ev': {'opaque': [r'fbpcf::engine::util::AsyncBuffer.*::getData']}},
                  {'AesPrg::generateRandomData': {'ev': {'opaque': [r'fbpcf::engine::util::AesPrg::getRandomDataInPlace']}}})
