"""Permutations drawn by one party, seeds drawn by two."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = "every sequence of choices is traced to the permutation it gives; the exchange for a common seed is compared with its definition"
FLOOR = 0
EU = 'fbpcf::engine::util::'


def check(ctx):
    ctx.load(specs=['M10.cpp'])
    refine.lemmas(ctx, 'M10.cpp', None, {'exact': True, 'ev': {'hooks': {EU + 'mod': refine.stand_in(ctx.db, 'spec::detail::choose'),
                                                            'BN_CTX_new': refine.stand_in(ctx.db, 'spec::detail::context')}}})
    refine.refine(ctx, 'M10.cpp', opts={'ev': {'opaque': ['fbpcf::engine::communication::IPartyCommunicationAgent::.*', EU + 'getRandom.*']}})
