"""What secure configurations are assembled from."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = 'objects assembled by every factory of a secure engine or scheduler, in value-flow normal form, against reference definitions'
FLOOR = 0
TG = 'fbpcf::engine::tuple_generator::'
OPQ = [r'fbpcf::engine::communication::.*::create', TG + r'oblivious_transfer::create.*RcotFactory', r'fbpcf::engine::SecretShareEngine::SecretShareEngine',
       r'fbpcf::scheduler::WireKeeper::.*', r'fbpcf::scheduler::\w*Scheduler::\w*Scheduler', r'fbpcf::scheduler::GateKeeper::GateKeeper', r'fbpcf::util::MetricCollector::.*']


def check(ctx):
    ctx.load(specs=['E06.cpp'])
    refine.refine(ctx, 'E06.cpp', opts={'ev': {'opaque': OPQ}})
