"""Rebatching."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = 'joining and cutting batches in every scheduler, in value-flow normal form, against reference definitions'
FLOOR = 0


def check(ctx):
    ctx.load(specs=['C01.cpp', 'C04.cpp', 'C04b.cpp', 'C08.cpp'])
    refine.refine(ctx, 'C08.cpp')
    refine.refine(ctx, 'C01.cpp', only='Rebatching')
    refine.refine(ctx, 'C04.cpp', only='atching')
    refine.refine(ctx, 'C04b.cpp', only='atching')
