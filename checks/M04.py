"""Shuffling batches of secret values."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = "the shuffler is evaluated over symbolic values with a permuter that works in the clear; permutations are drawn from every possible sequence of choices"
FLOOR = 0
EU = 'fbpcf::engine::util::'


def check(ctx):
    ctx.load(specs=['M04.cpp'])
    db = ctx.db
    refine.lemmas(ctx, 'M04.cpp', None, {'exact': True, 'ev': {'hooks': {
        'fbpcf::mpc_std_lib::util::secureRandomPermutation': refine.stand_in(db, 'spec::detail::draw'),
        EU + 'getRandomM128iFromSystemNoise': refine.stand_in(db, 'spec::detail::noise')}}})
