"""Memory shared by two parties and written at secret indexes."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = "both parties of each protocol of the memory are evaluated over symbolic shares, keys and values, the messages of the one being the inputs of the other"
FLOOR = 0
EU = 'fbpcf::engine::util::'
PER = {'refusesIndex': {'total': False}, 'refusesEntry': {'total': False}}


def check(ctx):
    ctx.load(specs=['M06.cpp'])
    db = ctx.db
    refine.lemmas(ctx, 'M06.cpp', None, {'exact': True, 'ev': {'recursion': 8, 'hooks': {
        EU + 'getRandomM128iFromSystemNoise': refine.stand_in(db, 'spec::detail::noise')}}, 'per': PER})
