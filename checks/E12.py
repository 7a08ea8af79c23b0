"""Failures of cryptographic primitives are noticed."""
from core import *
import os
from rules import flat, strip

LEVEL = 'other'
EXPLAIN = 'for every call of a fallible primitive, in every function that reaches it: with the result set to failure, the conditions of the raised errors must cover the condition of the call'
FLOOR = 0
OT = 'fbpcf/engine/tuple_generator/oblivious_transfer/'
SOURCES = [OT + 'NpBaseObliviousTransfer.cpp', 'fbpcf/primitive/mac/AesCmac.cpp', 'fbpcf/primitive/mac/S2v.cpp',
           'fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp', 'fbpcf/mpc_std_lib/util/secureRandomPermutation.cpp',
           'fbpcf/engine/util/AesPrg.cpp', 'fbpcf/engine/util/util.cpp']
# name -> results that mean failure
NULLP, ZERO, NEGZ, ALL1 = (0,), (0,), (0, -1), (2 ** 64 - 1, -1)
FALLIBLE = {}
for _n in ('BN_CTX_new BN_new BN_dup BN_CTX_get EC_GROUP_new_by_curve_name EC_POINT_new EC_POINT_hex2point EC_POINT_point2hex '
           'CMAC_CTX_new SSL_CTX_new SSL_new ENGINE_by_id EVP_CIPHER_CTX_new EVP_MD_CTX_new HMAC_CTX_new').split():
    FALLIBLE[_n] = NULLP
for _n in ('BN_lshift BN_add_word BN_add BN_mod BN_rand_range EC_GROUP_get_order EC_POINT_mul EC_POINT_add EC_POINT_copy EC_POINT_invert '
           'CMAC_Init CMAC_Update CMAC_Final ENGINE_init ENGINE_set_default SSL_CTX_load_verify_locations '
           'X509_VERIFY_PARAM_set1_host SSL_set_fd SSL_set1_host EVP_DigestInit_ex EVP_DigestUpdate EVP_DigestFinal_ex').split():
    FALLIBLE[_n] = ZERO
for _n in 'RAND_bytes RAND_priv_bytes SSL_accept SSL_connect SSL_do_handshake SSL_CTX_use_certificate_file SSL_CTX_use_certificate_chain_file SSL_CTX_use_PrivateKey_file'.split():
    FALLIBLE[_n] = NEGZ
FALLIBLE['BN_mod_word'] = ALL1
MINPROTO = 123      # SSL_CTX_ctrl(ctx, SSL_CTRL_SET_MIN_PROTO_VERSION, version, null)
SENDS = ('IPartyCommunicationAgent::sendImpl',)


def fails_of(e):
    q = strip(e.a[0])
    if q == 'SSL_CTX_ctrl':
        return ZERO if e.a[2][1] == C(MINPROTO) else None
    return FALLIBLE.get(q)


def fail(t, atom, v):
    m = {atom: C(v) if kind(atom) == 'i' else vgx.NULL}
    if kind(atom) != 'i':
        for b in T_.subterms(t):
            if type(b) is T_.T and b[0] == 'a' and b[1] == 'b' and b[2] == 'bool' and b[3] == atom:
                m[b] = FALSE
    return T_.subst(t, m)


def mentions(e, atom):
    return any(type(x) is T_.T and T_.occurs(atom, x) for x in e.a[2])


def again(t, atom):
    """does t mention the same call of another iteration?"""
    return any(x[2] == 'ev' and x[3:6] == atom[3:6] for x in T_.subterms(t) if type(x) is T_.T and x[0] == 'a' and len(x) > 5)


def judge(i, effs):
    """does an error follow whenever call i of effs fails?  (verdict, detail)"""
    e, loops = effs[i]
    atom = e.res
    if atom is None:
        return None
    ks = tuple(l[1] for l in loops)
    first_use = next((j for j in range(i + 1, len(effs)) if effs[j][0].op == 'call' and
                      (mentions(effs[j][0], atom) or strip(effs[j][0].a[0]).endswith(SENDS)) and
                      tuple(l[1] for l in effs[j][1])[:len(ks)] == ks), len(effs))
    vals, verdict = fails_of(e), (OK, '')
    for v in vals:
        g = fail(e.g, atom, v)
        left, late, fuzzy = g, g, False
        for j in range(i + 1, len(effs)):
            t, tl = effs[j]
            if t.op != 'throw':
                continue
            if tuple(l[1] for l in tl)[:len(ks)] != ks:
                if T_.occurs(atom, t.g) or again(t.g, atom):
                    fuzzy = True
                continue
            tg = fail(t.g, atom, v)
            if again(tg, atom):
                fuzzy = True
            late = AND(late, NOT(tg))
            if j < first_use:
                left = AND(left, NOT(tg))
        if left == FALSE:
            if vals is ALL1:
                return OK, ''       # one value, written in either way
            continue
        if late != FALSE:
            verdict = (UND if fuzzy else BAD), 'failure (%d) of %s raises no error' % (v, strip(e.a[0]))
            continue
        use = effs[first_use][0]
        verdict = BAD, 'failure (%d) of %s is noticed only after %s at %s' % (v, strip(e.a[0]), strip(use.a[0]), os.path.basename(use.site))
    return verdict


def check(ctx):
    ctx.load(SOURCES)
    ctx.rule('every call of a fallible OpenSSL function: result := failure ==> an error is raised, before the result is used or anything is sent')
    db = ctx.db
    runs, inl = {}, {}
    todo = [f for f in db.funcs.values() if f.body is not None and f.where().startswith('fbpcf/') and '/test/' not in f.where()]
    for f in todo:
        ev = ctx.evalr()
        try:
            ev.run(f)
        except (vgx.Unsupported, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as x:
            runs[f] = x
            continue
        runs[f] = ev
        for g in ev.analysed:
            if g != f.q and g != f.k:
                inl.setdefault(g, set()).add(f.k)
        ctx.functions |= ev.analysed
    sites, seen = {}, set()
    for f in todo:
        ev = runs[f]
        if isinstance(ev, Exception):
            continue
        effs = list(flat(ev.eff))
        for i, (e, ls) in enumerate(effs):
            if e.op == 'call' and e.a and isinstance(e.a[0], str) and fails_of(e) is not None:
                v = judge(i, effs)
                if v is None:
                    v = (BAD, 'result of %s is ignored' % strip(e.a[0]))
                sites.setdefault((e.site, strip(e.a[0])), []).append((f, v))
    for (site, q), l in sorted(sites.items()):
        roots = [x for x in l if not (inl.get(x[0].q, set()) | inl.get(x[0].k, set())) & {y[0].k for y in l if y[0] is not x[0]}] or l
        worst = [x for x in roots if x[1][0] == BAD] or [x for x in roots if x[1][0] != OK] or roots[:1]
        f, (vd, why) = worst[0]
        nm = '%s at %s' % (q, os.path.relpath(site.rsplit(':', 1)[0], dbm.REPO))
        n = sum(1 for o in ctx.obl if o['name'].startswith(nm))
        ctx.ob('%s #%d' % (nm, n + 1), vd, '%s (reached from %s)' % (why, f.q) if why else '', site)
    for f in todo:
        if isinstance(runs[f], Exception) and any(s in open(f.file).read() for s in ('openssl',)):
            ctx.und('analysis of ' + f.q, str(runs[f])[:200], f.where())
