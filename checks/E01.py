"""Linear (communication-free) share operations."""
from core import *

LEVEL = 'other'
EXPLAIN = ('Gated value-flow analysis of every communication-free share operation: the returned term is '
           'compared with the share-local operation that makes the parties\' shares reconstruct to the '
           'plaintext operation, for every party id, every value and every batch length.')
FLOOR = 0

CLS = 'fbpcf::engine::SecretShareEngine'


def party(ctx, cls=CLS):
    """the term holding this party's id, learned from the constructor"""
    from rules import id_field
    return id_field(ctx, cls)


def share_terms(op, me, a, b):
    first = lambda c: EQ(me, C(c))
    Z = lambda p, t: MUL(B2I(p), t)
    return {
        'SymmetricXOR': [X(a, b)] if b else None,
        'SymmetricPlus': [ADD(a, b)] if b else None,
        'AsymmetricXOR': [X(a, AND(first(c), b)) for c in (0, 1)] if b else None,
        'AsymmetricPlus': [ADD(a, Z(first(c), b)) for c in (0, 1)] if b else None,
        'SymmetricNOT': [NOT(a)],
        'SymmetricNeg': [NEG(a)],
        'AsymmetricNOT': [X(a, first(c)) for c in (0, 1)],
        'FreeAND': [AND(a, b)] if b else None,
        'FreeMult': [MUL(a, b)] if b else None,
    }[op]


BOOL = {'SymmetricXOR', 'AsymmetricXOR', 'SymmetricNOT', 'AsymmetricNOT', 'FreeAND'}
UNARY = {'SymmetricNOT', 'SymmetricNeg', 'AsymmetricNOT'}
OPS = ['SymmetricXOR', 'SymmetricPlus', 'AsymmetricXOR', 'AsymmetricPlus', 'SymmetricNOT', 'SymmetricNeg',
       'AsymmetricNOT', 'FreeAND', 'FreeMult']


def check(ctx):
    db = ctx.load()
    ctx.rule('Sum over parties of the returned share equals the plaintext operation: secret-secret and '
             'public-public operations apply to both operands at every party; secret-public operations add the '
             'public operand at exactly one fixed party.')
    ctx.rule('Batch operations act element by element, keep the length and refuse operands of different lengths.')
    ctx.assume('a protocol run has at least two parties, numbered from 0')
    me = party(ctx)
    for op in OPS:
        ctx.guard(op, scalar, ctx, db, me, op)
        ctx.guard('Batch' + op, batch, ctx, db, me, op)


def scalar(ctx, db, me, op):
    fn = db.one(CLS + '::compute' + op)
    ev, r = ctx.analyse(fn)
    k = 'b' if op in BOOL else 'i'
    ps = [sym(p[1] or 'arg%d' % i, k) for i, p in enumerate(fn.params)]
    want = share_terms(op, me, ps[0], ps[1] if op not in UNARY else None)
    ctx.require('compute' + op, any(same(r, w) for w in want), 'returned share is %s, expected %s' % (show(r), show(want[0])),
                fn.where(), unknown=lambda: any(unsure(r, w) for w in want))


def batch(ctx, db, me, op):
    fn = db.one(CLS + '::computeBatch' + op)
    ev, r = ctx.analyse(fn)
    kd = 'b' if op in BOOL else 'i'
    ps = [sym(p[1] or 'arg%d' % i, 'o') for i, p in enumerate(fn.params)]
    n = LEN(ps[0])
    if op not in UNARY:
        eqlen = EQ(LEN(ps[0]), LEN(ps[1]))
        ctx.require('computeBatch%s refuses operands of different lengths' % op, refuses(ev, NOT(eqlen)),
                    'operands of different lengths are accepted', fn.where())
        facts = [eqlen]
    else:
        facts = []
    i = idx_sym('i')
    got_n = given(LEN(r), facts)
    ctx.require('computeBatch%s length' % op, same(got_n, n, facts), 'result length is %s' % show(got_n),
                fn.where(), unknown=lambda: unsure(got_n, n, facts))
    facts2 = facts + [NOT(EQ0(n)), NOT(EQ0(given(n, facts)))]
    a = IDX(ps[0], i, kd)
    b = IDX(ps[1], i, kd) if op not in UNARY else None
    got = given(IDX(r, i, kd), facts2)
    want = share_terms(op, me, a, b)
    ctx.require('computeBatch' + op, any(same(got, w, facts2) for w in want), 'element i of the result is %s, expected %s' % (show(got), show(want[0])),
                fn.where(), unknown=lambda: any(unsure(got, w, facts2 + [T_.LT(i, n)]) for w in want))
