"""Input sharing: the parties' shares of a private input reconstruct to it."""
from core import *
from rules import *
import refine
import terms as T_

LEVEL = 'other'
EXPLAIN = ('Two-sided value-flow analysis of private-input sharing: the share computed by the owning party and the '
           'share computed by a peer are expressed over the pseudo-random streams created by the constructor '
           '(seed sent to a peer / seed received from a peer); the streams must pair up and cancel.')
FLOOR = 0
CLS = 'fbpcf::engine::SecretShareEngine'
SITES = [('setInput', 'b', False), ('setBatchInput', 'b', True), ('setIntegerInput', 'i', False), ('setBatchIntegerInput', 'i', True)]


def check(ctx):
    db = ctx.load(specs=['E03.cpp'])
    me_f = id_field(ctx, CLS)
    ctors = [f for f in db.funcs.values() if f.c == CLS and 'ctor' in f.d and not f.d.get('implicit') and len(f.params) > 2]
    if len(ctors) != 1:
        raise dbm.AnalysisError('constructor of the secret share engine not found')
    opq = [r'.*::getRandomM128iFromSystemNoise$']
    ev0 = ctx.evalr(opaque=opq)
    ctx.analyse(ctors[0], ev0)
    st = ev0.store[('this', CLS)]
    me = FLD(st, me_f[4], 'i')
    ex = calls(ev0, 'exchangeKeys$')
    ctx.require('keys are exchanged once at start-up', len(ex) == 1 and ex[0][0].g == TRUE, 'exchangeKeys is called %d times' % len(ex), ctors[0].where())
    if len(ex) != 1:
        return
    EX, sent = ex[0][0].res, ex[0][0].a[2][0]
    ctx.rule('owner share = value - sum over every peer p of draw(stream seeded with the key sent to p); peer share = '
             'draw(stream seeded with the key received from the owner); same draw method, same amount, same position.')
    ctx.assume('a key sent to a peer is the key that peer receives (checked separately for the communication agents)')
    ctx.assume('the random streams are deterministic functions of their seed and of the amounts drawn so far')
    # the keys sent to different peers are independent draws
    k = idx_sym('p')
    sk = T_.AT(sent, k)
    ctx.require('a fresh key per peer', T_.occurs(k, sk) and is_noise(sk), 'key sent to peer p is %s' % show(sk), ctors[0].where(), unknown=bool(opaque_in(sk)))
    ctx.require('keys for every other party and only those', sent_domain(sent, me, st, db), 'keys are sent to %s' % show(sent), ctors[0].where(), unknown=sent[0] != 'mapb')
    for name, kd, batch in SITES:
        ctx.guard(name, one, ctx, db, st, me, EX, sent, name, kd, batch)
    refine.refine(ctx, 'E03.cpp')


def is_noise(t):
    return t[0] == 'a' and t[2] == 'ev' and 'andom' in t[3]


def sent_domain(sent, me, st, db):
    """is the sent map indexed by all ids in [0, parties) except this one"""
    if sent[0] != 'mapb':
        return False
    bv = A('i', 'bv', sent[5])
    return sent[2] == bv and sent[4] == NOT(EQ(bv, me)) and sent[1][0] == 'a' and sent[1][2] == 'sym'


def seed_of(draw):
    """(prg method, seed term, owner factory) of a draw from an IPrg"""
    if not (draw[0] == 'a' and draw[2] == 'ev' and 'IPrg::' in draw[3]):
        return None
    r = draw[4]
    if r[0] == 'a' and r[2] == '*':
        r = r[3]
    if r[0] == 'a' and r[2] == 'get' and r[3].endswith('IPrgFactory::create'):
        return draw[3], r[5][0]
    return None


def one(ctx, db, st, me, EX, sent, name, kd, batch):
    fn = db.one(CLS + '::' + name)
    ev = ctx.evalr()
    ev.store[('this', CLS)] = st
    _, r = ctx.analyse(fn, ev)
    idn, vn = fn.params[0][1], fn.params[1][1]
    who = sym(idn, 'i')
    mine = EQ(who, me)
    i = idx_sym('i')
    if batch:
        v = sym(vn, 'o')
        n = LEN(v)
        facts_o, facts_p = [mine, NOT(EQ0(n))], [NOT(mine), NOT(EQ0(n))]
        ln = given(LEN(r), facts_o)
        ctx.require(name + ' owner share count', core.same(ln, n, facts_o), 'owner gets %s shares' % show(ln), fn.where(), unknown=bool(opaque_in(ln)))
        vi = IDX(v, i, kd)
        r = IDX(r, i, kd)
    else:
        v = vi = sym(vn, kd)
        n = C(1)
        facts_o, facts_p = [mine], [NOT(mine)]
        ctx.require(name + ' refuses a missing value', refuses_missing(ev, mine), 'the owner may pass no value', fn.where())
    o, p = given(r, facts_o), given(r, facts_p)
    unk = bool(opaque_in(o) or opaque_in(p))
    c, rest = coef(o, vi, kd)
    folds = [a for m in rest[1] for a in ([x for x, _ in m[0]] if rest[0] == 'z' else m)] if rest[0] in 'xz' else [rest]
    shape = c == 1 and len(folds) == 1 and folds[0][0] == 'a' and folds[0][2] == 'fold' and \
        (len(rest[1]) == 1 if rest[0] in 'xz' else True)
    if not shape:
        ctx.require(name + ' masking', False, 'owner share is %s' % show(o), fn.where(), unknown=True)
        return
    f = folds[0]
    sign = 1 if rest == f else (T_.to_z(rest).get(frozenset([(f, 1)]), 0) if kd == 'i' else 1)
    kk = A('i', 'k', 'peer')
    body = T_.subst(f[5], {A('i', 'bv', f[6]): kk})
    nfold = f[4]
    # owner side draw
    od, oi = draw_of(body)
    pd, pi, psign = None, None, 1
    pp = p
    if kd == 'i' and p[0] == 'z' and len(p[1]) == 1:
        ((m, psign),) = p[1]
        pp = next(iter(m))[0]
    pd, pi = draw_of(pp)
    if od is None or pd is None or seed_of(od) is None or seed_of(pd) is None:
        ctx.require(name + ' masks come from the paired streams', False, 'owner share is %s; peer share is %s' % (show(o), show(p)), fn.where(), unknown=True)
        return
    (om, os_), (pm, ps) = seed_of(od), seed_of(pd)
    key = KEY(EX, kk, 'i')
    ctx.require(name + ' every peer is masked', core.same(nfold, LEN(EX)) or core.same(nfold, LEN(sent)), 'masks are taken from %s peers' % show(nfold), fn.where())
    ctx.require(name + ' owner seed', core.same(os_, AT(sent, key)), 'owner masks with the stream seeded by %s' % show(os_), fn.where(), unknown=bool(opaque_in(os_)))
    ctx.require(name + ' peer seed', core.same(ps, AT(EX, who)), 'peer uses the stream seeded by %s' % show(ps), fn.where(), unknown=bool(opaque_in(ps)))
    ctx.require(name + ' shares cancel', (kd == 'b' or sign + psign == 0) and om == pm, 'owner %s mask, peer %s mask (%s / %s)' % (sign, psign, om, pm), fn.where())
    want = i if batch else C(0)
    if batch:
        ln = given(LEN(pd), facts_p)
    ctx.require(name + ' same position', oi == pi and (not batch or oi == i), 'owner uses element %s, peer %s' % (show(oi), show(pi)), fn.where())
    oa, e1 = call_args(ev, od)
    pa, e2 = call_args(ev, pd)
    if oa is None or pa is None:
        ctx.und(name + ' amount drawn', 'draw sites not identified')
    else:
        ga = [given(a, facts_o) for a in oa], [given(a, facts_p) for a in pa]
        ctx.require(name + ' amount drawn', ga[0] == ga[1] and (not batch or ga[0][:1] == [n]), 'owner draws %s, peer draws %s' % (
            [show(x) for x in ga[0]], [show(x) for x in ga[1]]), fn.where())
    nd_o = [e for e, l in flat(ev.eff, op='call') if 'IPrg::' in e.a[0] and AND(e.g, mine) != FALSE]
    nd_p = [e for e, l in flat(ev.eff, op='call') if 'IPrg::' in e.a[0] and AND(e.g, NOT(mine)) != FALSE]
    ctx.require(name + ' streams stay aligned', len(nd_o) == 1 and len(nd_p) == 1, 'draw sites: owner %d, peer %d' % (len(nd_o), len(nd_p)), fn.where())


def draw_of(t):
    if t[0] == 'a' and t[2] == 'idx':
        return t[3], t[4]
    return None, None


def refuses_missing(ev, mine):
    for e, _ in flat(ev.eff, op='throw'):
        if any(a[2] == 'bool' for a in T_.atoms(e.g)) and AND(e.g, mine) == e.g:
            return True
    return False
