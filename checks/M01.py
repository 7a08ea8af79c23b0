"""AES over bits of any kind."""
from core import *
import refine

LEVEL = 'other'
EXPLAIN = "the circuit is compared with FIPS 197: its parts for all inputs as canonical forms, their composition with the substitution uninterpreted"
FLOOR = 0
AES = 'fbpcf::mpc_std_lib::aes_circuit::AesCircuit::'


def substitution(name):
    """a byte replaced by new bits, the same bits whenever the byte is the same"""
    def h(s, obj, args, e, rt):
        loc = s.lv(args[0])
        at = [(loc[0], loc[1] + (('i', C(i)),)) for i in range(8)]
        key = tuple(s.rd(x, 'b') for x in at)
        tab = s.__dict__.setdefault('boxes', {})
        n = tab.setdefault((name, key), len(tab))
        for i, x in enumerate(at):
            s.wr(x, A('b', 'sym', '%s.%d.%d' % (name, n, i)))
        return vgx.VOID
    return h


def check(ctx):
    ctx.load(specs=['M01.cpp'])
    hooks = {AES + n: substitution(n) for n in ('sBoxInPlace', 'inverseSBoxInPlace')}
    cut = {'ev': {'hooks': hooks}}
    no = {'total': False}
    per = {k: no for k in ('refusesEncryption', 'refusesDecryption', 'refusesCounterMode')}
    per.update(rounds=cut, inverseRounds=cut)
    refine.lemmas(ctx, 'M01.cpp', None, {'per': per})
