"""Integers of the frontend."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = "integer programs of the frontend over a scheduler in the clear, reduced to canonical decision diagrams"
FLOOR = 0


def check(ctx):
    ctx.load(specs=['F05.cpp'])
    refine.lemmas(ctx, 'F05.cpp')
