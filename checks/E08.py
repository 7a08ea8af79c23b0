"""Oblivious transfer."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = 'oblivious transfer extension and correction, in value-flow normal form, against reference definitions'
FLOOR = 0
OT = 'fbpcf::engine::tuple_generator::oblivious_transfer::'
OPQ = ['fbpcf::engine::communication::IPartyCommunicationAgent::.*', 'fbpcf::engine::util::(AesPrg|Aes|Expander)::.*',
       'fbpcf::engine::util::(getRandom.*|IPrg::.*)',
       'fbpcf::engine::tuple_generator::oblivious_transfer::IknpShRandomCorrelatedObliviousTransfer::matrixTranspose',
       'fbpcf::engine::tuple_generator::oblivious_transfer::ferret::SinglePointCot::constructALayer.*']


def check(ctx):
    ctx.load(specs=['E08.cpp'])
    refine.refine(ctx, 'E08.cpp', opts={'ev': {'opaque': OPQ}}, per={'Extender::rcot': {'ev': {'opaque': OPQ + [OT + 'ExtenderBasedRandomCorrelatedObliviousTransfer::extendRcot']}},
                  'Factories::create': {'ev': {'opaque': OPQ + [OT + 'ExtenderBasedRandomCorrelatedObliviousTransfer::.*']}},
                  'Factories::createFlexible': {'ev': {'opaque': OPQ + [OT + 'IknpShRandomCorrelatedObliviousTransfer::.*']}}})
    refine.lemmas(ctx, 'E08.cpp')
