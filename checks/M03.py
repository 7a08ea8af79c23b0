"""Permutations of batches of secret values."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = "the permutation network is evaluated over symbolic values for every order of small sizes, for the party with the order and the one without"
FLOOR = 0


def check(ctx):
    ctx.load(specs=['M03.cpp'])
    refine.lemmas(ctx, 'M03.cpp', None, {'exact': True, 'ev': {'recursion': 8}, 'per': {'refusesOrder': {'total': False}}})
