"""Shared pieces of the checks."""
from core import *
import core


def id_field(ctx, cls, getters=('getPartyId', 'getMyId'), params=('myId', 'myid', 'myPartyId')):
    """term of the field that stores this party's id: the field the constructor
    initialises from its only plain int parameter named like an id, or from the
    first int parameter"""
    db = ctx.db
    for k, f in db.funcs.items():
        if f.c == cls and 'ctor' in f.d and not f.d.get('implicit') and f.params:
            ints = [p[1] for p, t in zip(f.params, f.ptypes()) if t.strip() in ('int', 'int32_t')]
            if not ints:
                continue
            want = [p for p in ints if p in params] or ints[:1]
            for ini in f.inits:
                pass
            ev = ctx.evalr()
            ev.run(f)
            ctx.functions |= ev.analysed
            v = ev.store.get(('this', cls))
            for name in [x[0] for x in db.fields(cls)]:
                val = T_.FLD(v, name, 'i')
                if val == sym(want[0], 'i'):
                    return A('i', 'fld', A('o', 'sym', '*this'), name)
    raise dbm.AnalysisError('no party id member found in ' + cls)


def flat(effs, loops=(), op=None):
    """(effect, enclosing loops) in program order; loops are (count, index, breaks)"""
    for e in effs:
        if e.op in ('loop', 'loopbrk'):
            n, k, body = e.a
            yield from flat(body, loops + ((n, k, e.op == 'loopbrk'),), op)
        elif e.op in ('try', 'catch') and isinstance(e.a, tuple) and e.a and isinstance(e.a[-1], list):
            yield from flat(e.a[-1], loops, op)
        elif op is None or e.op == op:
            yield e, loops


def calls(ev, pat):
    """call effects whose qualified name matches the regex"""
    import re
    rx = re.compile(pat)
    return [(e, l) for e, l in flat(ev.eff, op='call') if rx.search(strip(e.a[0]))]


def strip(q):
    return dbm.strip_targs(q)


def is_ev(t, suffix=None):
    return t[0] == 'a' and t[2] in ('ev', 'get', 'out') and (suffix is None or strip(t[3]).endswith(suffix))


def find_atoms(t, pred):
    return [a for a in T_.atoms(t) if pred(a)]


def call_args(ev, res):
    """(arguments, effect) of the call whose result is the atom res; loop indices
    of the call are renamed to those of the atom"""
    for e, loops in flat(ev.eff, op='call'):
        r = e.res
        if r is None or r[0] != 'a' or r[2] != res[2] or r[3] != res[3]:
            continue
        if r == res:
            return e.a[2], e
        if len(res) > 6 and len(r) > 6 and isinstance(r[6], tuple) and len(r[6]) == len(res[6]):
            m = {x: y for x, y in zip(r[6], res[6]) if x != y}
            if T_.subst(r, m) == res:
                return tuple(T_.subst(x, m) for x in e.a[2]), e
    return None, None


def coef(t, a, kd):
    """(c, rest) with t = c*a + rest (integers) or t = a ^ rest (booleans)"""
    if kd == 'b':
        return 1, X(t, a)
    z = T_.to_z(t)
    c = z.get(frozenset([(a, 1)]), 0)
    return c, SUB(t, MUL(C(c), a))
