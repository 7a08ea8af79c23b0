"""Compaction of batches of secret values."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = "the compactor is evaluated over symbolic values for every pattern of labels of small batches, with a shuffler that rotates"
FLOOR = 0


def check(ctx):
    ctx.load(specs=['M05.cpp'])
    refine.lemmas(ctx, 'M05.cpp', None, {'exact': True, 'ev': {'recursion': 8}, 'per': {'refusesHiddenSize': {'total': False}}})
