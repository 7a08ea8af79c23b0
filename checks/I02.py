"""Files written to the cloud part by part."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = "uploads of several parts are evaluated against a service that refuses any pattern of requests"
FLOOR = 0
NO = {'total': False}


def check(ctx):
    ctx.load(specs=['I02.cpp', 'I02b.cpp'])
    opts = {'ev': {'hooks': {
        'fbpcf::aws::uriToObjectReference': refine.stand_in(ctx.db, 'spec::detail::reference'),
        'fbpcf::gcp::uriToObjectReference': refine.stand_in(ctx.db, 'spec::detail::place')},
        'calm': True, 'opaque': ['fbpcf::cloudio::getCloudStorageServiceString', 'fbpcf::cloudio::getCloudFileUploader']},
        'per': {'refusesStart': NO, 'refusesNoReader': NO}}
    refine.lemmas(ctx, 'I02.cpp', None, opts)
    refine.lemmas(ctx, 'I02b.cpp', None, opts)
