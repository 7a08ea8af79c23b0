"""Refinement: a function of the repository against its reference definition.

A reference definition is a C++ function in /verif/specs, written from the
documented behaviour:  spec::<Group>::<name>(Class* self, same parameters).  Both
sides are brought into value-flow normal form and compared: returned value, final
state of the object and of reference parameters, refusals (throws) and, per
receiver, the ordered list of calls that leave the analysed code with their
arguments, guards and loop nests.  Neither side is executed.
"""
import os
import re

from core import *
import core
import ctype as ct
import terms as T_
import vg

OPS = {'ctor': None, 'dtor': None, 'op_call': 'operator()', 'op_and': 'operator&', 'op_xor': 'operator^', 'op_not': 'operator!',
       'op_or': 'operator|', 'op_plus': 'operator+', 'op_minus': 'operator-', 'op_times': 'operator*', 'op_assign': 'operator=',
       'op_index': 'operator[]', 'op_eq': 'operator==', 'op_ne': 'operator!=', 'op_lt': 'operator<', 'op_le': 'operator<=',
       'op_gt': 'operator>', 'op_ge': 'operator>=', 'op_oror': 'operator||', 'op_andand': 'operator&&'}

DBG = 0
IGNORE = [r'.*\bXLOG.*', r'.*::logging::.*', r'folly::.*xlog.*', r'.*LogStream.*', r'std::.*ostream.*', r'.*::what$', r'fmt::.*', r'folly::sformat.*',
          r'google::.*', r'.*InstrumentedMutex.*', r'std::basic_.*', r'std::cout.*', r'std::cerr.*', r'printf', r'fprintf']


def targets(db, path):
    """(reference fn, [candidate fns]) for each reference definition in the spec unit"""
    tu = db.tus.get(path)
    out = []
    for f in list(db.funcs.values()):
        if f.tu is not tu or not db_is_spec(f):
            continue
        parts = dbm.strip_targs(f.q).split('::')
        if len(parts) < 3:
            continue
        grp, name = parts[1], parts[-1]
        pts = f.ptypes()
        if grp == 'detail' or grp == 'impl':
            continue
        if grp == 'free':
            # the reference of a free function takes the same parameters
            c = [x for x in db.funcs.values() if not x.c and not db_is_spec(x) and x.q.split('::')[-1].split('<')[0] == name and norm_ts(x.ptypes()) == norm_ts(pts)]
            out.append((f, None, c))
            continue
        if not pts or not pts[0].rstrip().endswith('*'):
            continue
        cls = ct.clean(pts[0].strip()[:-1])
        cls = re.sub(r'^const\s+', '', cls.strip())
        nm = name
        if nm.startswith('static_'):
            nm = nm[7:]
        c = []
        for x in db.funcs.values():
            if x.c != cls:
                continue
            last = x.q.split('::')[-1] if 'operator' not in x.q else x.q[x.q.rindex('operator'):]
            if nm == 'ctor':
                if x.d.get('ctor') is None or 'ctor' not in x.d or x.d.get('implicit'):
                    continue
            elif nm == 'dtor':
                if not last.startswith('~'):
                    continue
            elif nm in OPS:
                if strip_op(last) != OPS[nm]:
                    continue
            elif last.split('<')[0] != nm or 'ctor' in x.d:
                continue
            c.append(x)
        exact = [x for x in c if norm_ts(x.ptypes()) == norm_ts(pts[1:])]
        if not exact:
            exact = [x for x in c if len(x.params) == len(pts) - 1] if len([x for x in c if len(x.params) == len(pts) - 1]) == 1 else []
        if len(exact) > 1:
            rv = lambda ts: [t.rstrip().endswith('&&') for t in ts]
            exact = [x for x in exact if rv(x.ptypes()) == rv(pts[1:])] or exact
        if len(exact) > 1:
            cq = lambda ts: [re.sub(r'\s+', '', t) for t in ts]
            exact = [x for x in exact if cq(x.ptypes()) == cq(pts[1:])] or exact
        if len(exact) > 1 and f.d.get('targs'):
            tn = lambda g: ','.join(str(x) for x in (g.d.get('targs') or ())).replace(' ', '')
            exact = [x for x in exact if tn(x) == tn(f)] or exact
        out.append((f, cls, exact))
    return out


def strip_op(s):
    m = re.match(r'operator\s*(\(\)|\[\]|[^\w\s(]+)', s)
    return 'operator' + m.group(1) if m else s


def norm_ts(ts):
    return [re.sub(r'\s+', '', re.sub(r'\bconst\b|&+$|^class |^struct ', '', t)) for t in ts]


def db_is_spec(f):
    return f.q.startswith('spec::')


class Side:
    def __init__(self, ev, ret, this):
        self.ev, self.ret, self.this = ev, ret, this


def run_code(ctx, fn, opts):
    ev = ctx.evalr(**opts.get('ev', {}))
    setup(ev, opts)
    r = ev.run(fn)
    ctx.functions |= ev.analysed
    return close(Side(ev, r, ('this', fn.c) if fn.c and not fn.d.get('static') else None))


def run_spec(ctx, fn, code, opts):
    ev = ctx.evalr(**opts.get('ev', {}))
    setup(ev, opts)
    args = []
    names = [p[1] or 'arg%d' % i for i, p in enumerate(code.params)]
    this = None
    if code.c:
        if not code.d.get('static'):
            this = ('this', code.c)
            ev.store.setdefault(this, A('o', 'sym', '*this'))
            ev.cls.setdefault(this, code.c)
            if 'ctor' in code.d:
                fresh_members(ctx, ev, this, code)
            args.append(ev.ptr((this, ())))
        else:
            args.append(A('o', 'sym', 'noself'))
    for nm, t in zip(names, code.ptypes()):
        v = ev.symbolic(nm, t)
        st = fn.ptypes()[len(args)]
        if v[0] == 'ptr' and not ct.is_ref(st) and not ct.is_ptr(st):
            v = ev.rd((v[1], v[2]), ct.kind_of(st))
        args.append(v)
    r = ev.run(fn, args=args)
    return close(Side(ev, r, this))


def fresh_members(ctx, ev, this, code):
    """the members before a reference constructor assigns them: references bound to
    the parameter of their type, objects default-constructed"""
    import re as _re
    for b in reversed(list(ctx.db.bases(code.c))):
        c = ctx.db.classes.get(b)
        for f in (c['fields'] if c else ()):
            name, t = f[0], f[1]
            if ct.is_ref(t):
                ps = [p for p, pt in zip(code.params, code.ptypes()) if ct.is_ref(pt) and ct.clean(pt) == ct.clean(t)]
                if len(ps) == 1:
                    ev.wr((this, (('f', name),)), ev.ptr((('P', ps[0][1]), ())))
            elif f[3] is not None and f[3][0] in ('int', 'bool', 'null', 'enum', 'str', 'flt', 'ilist', 'ctor', 'zero'):
                fr = vg.Frame(None, c['tu'], (this, ()))
                fr.fn = None
                ev.frames.append(fr)
                try:
                    ev.wr((this, (('f', name),)), ev.init_value(f[3], t))
                finally:
                    ev.frames.pop()
            elif ct.kind_of(t) == 'o' and not ct.is_ptr(t):
                ev.wr((this, (('f', name),)), ev.default_value(t))


def setup(ev, opts):
    for root, v in opts.get('store', {}).items():
        ev.store[root] = v
    if opts.get('init'):
        opts['init'](ev)


def close(side):
    """stored callables are compared by what they do"""
    ev = side.ev
    cache = {}

    def c(x):
        if isinstance(x, vg.Eff):
            x.g, x.a, x.res = c(x.g), c(x.a), c(x.res) if x.res is not None else None
            return x
        if isinstance(x, list):
            return [c(y) for y in x]
        if isinstance(x, tuple) and type(x) is T_.T:
            ls = [y for y in T_.subterms(x) if type(y) is T_.T and y[0] == 'lam']
            for y in ls:
                if y not in cache:
                    cache[y] = ev.closure(y)
            return T_.subst(x, {y: cache[y] for y in ls}) if ls else x
        if isinstance(x, tuple):
            return tuple(c(y) for y in x)
        return x
    if not ev.lams:
        return side
    side.ret = c(side.ret) if side.ret is not None else None
    for k in list(ev.store):
        if k[0] in ('P', 'H', 'G', 'this', 'N'):
            ev.store[k] = c(ev.store[k])
    ev.eff = c(ev.eff)
    return side


def spec_facts(side):
    """conditions the reference definition assumes of its inputs"""
    facts = []

    def walk(effs):
        out = []
        for e in effs:
            if e.op == 'call' and e.a[0].split('::')[-1] == 'specAssume':
                facts.append(e.a[2][0])
                continue
            if e.op in ('loop', 'loopbrk'):
                n, k, b = e.a
                e = vg.Eff(e.g, e.op, (n, k, walk(b)), e.res, e.site)
            out.append(e)
        return out
    side.ev.eff = walk(side.ev.eff)
    return facts


# ---------------------------------------------------------------- canonical heap
def canon(side, terms):
    """rename local heap roots by first use; returns renamed terms plus the
    contents of every object reached"""
    ids, order = {}, []
    ev = side.ev

    def visit(t):
        seen = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if type(x) is T_.T and x[0] == 'ptr' and x[1][0] in ('N', 'L', 'T'):
                if x[1] not in ids:
                    ids[x[1]] = len(ids)
                    order.append(x[1])
            ys = [y for y in x if isinstance(y, (tuple, frozenset)) and y not in seen]
            for y in ys:
                if isinstance(y, frozenset):
                    stack.extend(sorted(y, key=T_.rk))
                else:
                    stack.append(y)
    for t in terms:
        if isinstance(t, tuple):
            visit(t)
    content, i = [], 0
    while i < len(order):
        v = ev.store.get(order[i])
        v = v if v is not None else vg.VOID
        content.append((v, ev.cls.get(order[i])))
        visit(v)
        i += 1
    m = {}
    for t in list(terms) + [c for c, _ in content]:
        if isinstance(t, tuple):
            for x in T_.subterms(t):
                if type(x) is T_.T and x[0] == 'ptr' and x[1] in ids:
                    m[x] = mk('ptr', ('O', ids[x[1]]), x[2])
    return m, [(T_.subst(c, m), k) for c, k in content]


# ---------------------------------------------------------------- effects
class Rec:
    __slots__ = ('loops', 'g', 'op', 'a', 'res', 'site', 'id', 'key', 'pos')


def records(side, ignore):
    out = []
    rx = [re.compile(p + r'\Z') if not p.endswith('$') else re.compile(p) for p in ignore]

    def ign(q):
        q = dbm.strip_targs(q)
        return any(r.match(q) for r in rx)

    def walk(effs, loops, g):
        for e in effs:
            gg = AND(g, e.g) if not loops else AND(g, e.g)
            if e.op in ('loop', 'loopbrk'):
                n, k, b = e.a
                walk(b, loops + ((n, k, e.op),), gg)
            elif e.op in ('try', 'catch', 'async', 'mapat') and isinstance(e.a, tuple) and e.a and isinstance(e.a[-1], list):
                out_rec(e, loops, gg, (e.op, len([r for r in out if r.op == e.op])))
                walk(e.a[-1], loops + ((T_.A('i', 'region', e.op), A('i', 'k', T_.fresh()), e.op),), gg)
            elif e.op == 'call':
                if ign(e.a[0]):
                    continue
                r = e.res
                o = r[5] if r is not None and r[0] == 'a' and r[2] == 'ev' else None
                out_rec(e, loops, gg, ('call', dbm.strip_targs(e.a[0]), o))
            else:
                out_rec(e, loops, gg, (e.op,))

    def out_rec(e, loops, g, ident):
        r = Rec()
        r.loops, r.g, r.op, r.a, r.res, r.site = loops, g, e.op, e.a, e.res, e.site
        m = {k: A('i', 'k', 'L%d' % d) for d, (n, k, o) in enumerate(loops)}
        recv = e.a[1] if e.op == 'call' and e.a[1] is not None else None
        r.key = T_.subst(recv, m) if recv is not None and m else recv
        r.id = ident + (len(loops),)
        r.pos = len(out)
        out.append(r)
    walk(side.ev.eff, (), TRUE)
    return out


def merge_exclusive(recs):
    """one record for the alternatives of one call position: calls that exclude
    each other stand for the same occurrence.  Returns the records and how the
    results of merged occurrences are renamed."""
    out, ren = [], {}
    for r in recs:
        if r.op == 'call':
            peers = [s for s in out if s.op == 'call' and s.id[:2] == r.id[:2] and s.key == r.key and [l[1] for l in s.loops] == [l[1] for l in r.loops] and len(s.a[2]) == len(r.a[2])]
            last = None
            for s in peers:
                if AND(s.g, r.g) == FALSE:
                    last = last or s
                else:
                    last = None
            if last is not None:
                s = last
                s.a = (s.a[0], s.a[1], tuple(MUX(r.g, y, x) if x != y else x for x, y in zip(s.a[2], r.a[2])))
                s.g = OR(s.g, r.g)
                if r.res is not None and s.res is not None and r.res != s.res:
                    ren[r.res] = s.res
                continue
        out.append(r)
    if ren:
        # renumber: an occurrence counts only those that can precede it
        for s in out:
            subrec(s, ren)
    cnt = {}
    for s in out:
        if s.op == 'call':
            k = (s.id[1], s.key, tuple(l[1] for l in s.loops))
            n = cnt[k] = cnt.get(k, -1) + 1
            r = s.res
            if r is not None and r[0] == 'a' and r[2] == 'ev' and r[5] != n and isinstance(r[5], int):
                new = T_.A(r[1], 'ev', r[3], r[4], n, *r[6:])
                ren[r] = new
            s.id = (s.id[0], s.id[1], None if s.id[2] is None else n) + s.id[3:]
    if ren:
        full = {k: (ren.get(v, v)) for k, v in ren.items()}
        for s in out:
            subrec(s, full)
        return out, full
    return out, {}


def compare(ctx, name, code, spec, cs, ss, opts):
    """all disagreements between the two normal forms: [(what, detail, opaque)]"""
    diffs = []
    facts = list(opts.get('facts', ())) + spec_facts(ss)
    if any(FALSE == f for f in facts):
        return diffs
    skip = set(opts.get('skip', ()))
    ign = IGNORE + list(opts.get('ignore', ()))
    (r1, n1), (r2, n2) = merge_exclusive(records(cs, ign)), merge_exclusive(records(ss, ign))

    # refusals
    def thrown(recs):
        g = FALSE
        inl = []
        for r in recs:
            if r.op == 'throw':
                if r.loops:
                    inl.append(r)
                else:
                    g = OR(g, r.g)
        return g, inl
    t1, l1 = thrown(r1)
    t2, l2 = thrown(r2)
    if not opts.get('ignore_throws'):
        def anyloop(rs):
            g = FALSE
            for r in rs:
                b = r.g
                for n, k, o in reversed(r.loops):
                    if n[2] == 'region' if n[0] == 'a' else False:
                        continue
                    b = T_.ANY(n, k, b)
                g = OR(g, b)
            return g
        a1, a2 = OR(t1, anyloop(l1)), OR(t2, anyloop(l2))
        if not same(a1, a2, facts):
            diffs.append(('refusals', 'throws when %s; required: when %s' % (show(given(a1, facts))[:600], show(given(a2, facts))[:600]), unsure(a1, a2, facts)))
    facts += list(cs.ev.assume) + list(ss.ev.assume)
    for t in (t1, t2):
        if t not in (TRUE, FALSE):
            facts.append(NOT(t))
    if t1 == TRUE and t2 == TRUE:
        return diffs
    facts = [f for f in facts if not any(v[2] in ('k', 'bv') for v in T_.tvars(f))]

    # observables: returned value, object, reference parameters
    obs1, obs2, names = [], [], []

    def add(nm, a, b):
        names.append(nm)
        obs1.append(a)
        obs2.append(b)

    def through(side, v):
        return v
    isv = lambda t: t == vg.VOID
    if not (isv(cs.ret) and isv(ss.ret)):
        a, b = cs.ret, ss.ret
        add('returned value', retval(cs, a), retval(ss, b))
    if cs.this is not None and not opts.get('skip_this'):
        v1, v2 = cs.ev.store.get(cs.this), ss.ev.store.get(ss.this)
        for f, ft in [x[:2] for x in ctx.db.fields(code.c)]:
            if f in skip or (opts.get('fields') is not None and f not in opts['fields']):
                continue
            kd = ct.kind_of(ft)
            add('member ' + f, T_.FLD(v1, f, kd), T_.FLD(v2, f, kd))
    for root in sorted({r for r in list(cs.ev.store) + list(ss.ev.store) if r[0] in ('P', 'H', 'G')}, key=repr):
        if root[0] == 'G' and ('xlog' in str(root[1]).lower() or root in cs.ev.constg or root in ss.ev.constg):
            continue
        if root[0] == 'P' and root[1] in skip:
            continue
        v1 = cs.ev.store.get(root)
        v2 = ss.ev.store.get(root)
        v1 = v1 if v1 is not None else cs.ev.root_init(root)
        v2 = v2 if v2 is not None else ss.ev.root_init(root)
        if v1 == v2:
            continue
        if root[0] == 'P' and root not in cs.ev.store or root not in ss.ev.store and root[0] == 'P':
            continue
        add('object %s' % (root[1] if root[0] == 'P' else show(root[1]) if isinstance(root[1], tuple) else root[1]), v1, v2)
    if n1:
        obs1 = [T_.subst(t, n1) for t in obs1]
    if n2:
        obs2 = [T_.subst(t, n2) for t in obs2]
    m1, c1 = canon(cs, obs1 + [x for r in r1 for x in terms_of(r)])
    m2, c2 = canon(ss, obs2 + [x for r in r2 for x in terms_of(r)])
    if m1 or m2:
        obs1 = [T_.subst(t, m1) for t in obs1]
        obs2 = [T_.subst(t, m2) for t in obs2]
    if DBG: print(name, "FACTS", [show(f)[:200] for f in facts], [show(given(a,facts))[:3000] for a in obs1])
    for nm, a, b in zip(names, obs1, obs2):
        if not same(a, b, facts):
            diffs.append((nm, '%s is %s; required: %s' % (nm, show(given(a, facts))[:900], show(given(b, facts))[:900]), unsure(a, b, facts)))
    for i, ((a, k1), (b, k2)) in enumerate(zip(c1, c2)):
        if k1 != k2:
            diffs.append(('new object', 'creates a %s; required: %s' % (k1, k2), False))
        elif not same(a, b, facts):
            diffs.append(('new object', 'object #%d (%s) is %s; required: %s' % (i, k1, show(a)[:600], show(b)[:600]), unsure(a, b, facts)))
    if len(c1) != len(c2) and not diffs:
        diffs.append(('new object', 'creates %d objects; required: %d' % (len(c1), len(c2)), True))

    # calls that leave the analysed code
    drop = ('throw', 'put', 'mapat') + tuple(opts.get('drop', ()))
    r1 = [r for r in r1 if r.op not in drop and same_guard_possible(r, facts)]
    r2 = [r for r in r2 if r.op not in drop and same_guard_possible(r, facts)]
    for r, m in [(r, m1) for r in r1] + [(r, m2) for r in r2]:
        if m:
            subrec(r, m)
    by1, by2 = {}, {}
    for rs, by in ((r1, by1), (r2, by2)):
        for r in rs:
            by.setdefault((r.id, kk(r.key)), []).append(r)
    pairs = []
    for k in list(by1) + [k for k in by2 if k not in by1]:
        x, y = by1.get(k, []), by2.get(k, [])
        n = min(len(x), len(y))
        for a, b in zip(x, y):
            d = rec_diff(a, b, facts, opts)
            if d:
                diffs.append(('effect %s' % label(a), d[0] + ' (at %s)' % a.site, d[1]))
            pairs.append((a, b))
        for a in x[n:]:
            diffs.append(('effect %s' % label(a), 'does %s, which the reference does not' % rshow(a), rec_opaque(a, facts)))
        for b in y[n:]:
            diffs.append(('effect %s' % label(b), 'does not do %s' % rshow(b), rec_opaque(b, facts)))
    if not diffs:
        for i, (a, b) in enumerate(pairs):
            for c, d in pairs[i + 1:]:
                if ordered_key(a) == ordered_key(c) and (a.pos < c.pos) != (b.pos < d.pos) and given(AND(a.g, c.g), facts) != FALSE:
                    diffs.append(('order', '%s and %s happen in the wrong order' % (label(a), label(c)), False))
    return diffs


def retval(side, t):
    return t


def terms_of(r):
    if r.op == 'call':
        return ([r.a[1]] if r.a[1] is not None else []) + list(r.a[2])
    out = []

    def w(x):
        if type(x) is T_.T:
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                w(y)
    w(r.a)
    return out


def subrec(r, m):
    def s(x):
        if type(x) is T_.T:
            return T_.subst(x, m)
        if isinstance(x, tuple):
            return tuple(s(y) for y in x)
        return x
    r.a = s(r.a)
    r.key = s(r.key) if r.key is not None else None
    r.g = s(r.g)


def kk(k):
    return T_.rk(k) if k is not None else None


def ordered_key(r):
    return (kk(r.key), r.op if r.op != 'call' or r.key is not None else r.a[0], len(r.loops))


def same_guard_possible(r, facts):
    return given(r.g, facts) != FALSE


def label(r):
    if r.op == 'call':
        return r.a[0].split('::')[-1] if 'operator' not in r.a[0] else r.a[0]
    return r.op


def rshow(r):
    if r.op == 'call':
        s = '%s(%s)' % (dbm.strip_targs(r.a[0]), ', '.join(show(x)[:200] for x in r.a[2]))
    else:
        s = '%s %s' % (r.op, ', '.join(show(x)[:150] for x in terms_of(r)))
    if r.g != TRUE:
        s += ' when ' + show(r.g)[:300]
    for n, k, o in r.loops:
        s += ' for %s < %s' % (show(k), show(n)[:150])
    return s


def rec_opaque(r, facts=()):
    """can the effect NOT be shown to happen on some instance?"""
    import interp
    g = r.g
    for n, k, o in reversed(r.loops):
        if n[0] == 'a' and n[2] == 'region':
            continue
        g = T_.ANY(n, k, g)
    return interp.holds_somewhere(given(g, facts), facts, dom=DOM_()) is not True


def DOM_():
    import core
    return core.DOM[0]


def rec_diff(a, b, facts, opts):
    m = {}
    for (n1, k1, o1), (n2, k2, o2) in zip(a.loops, b.loops):
        if o1 != o2:
            return 'loop leaves early differently', True
        x = T_.subst(n2, m) if m else n2
        if not same(n1, x, facts):
            return '%s is repeated %s times; required: %s' % (label(a), show(n1)[:300], show(x)[:300]), unsure(n1, x, facts)
        m[k2] = k1
    g2 = T_.subst(b.g, m) if m else b.g
    if not same(a.g, g2, facts):
        return '%s happens when %s; required: when %s' % (label(a), show(given(a.g, facts))[:400], show(given(g2, facts))[:400]), unsure(a.g, g2, facts)
    fs = list(facts) + ([a.g] if a.g != TRUE else [])
    t1, t2 = terms_of(a), terms_of(b)
    if len(t1) != len(t2):
        return '%s has %d operands; required: %d' % (label(a), len(t1), len(t2)), True
    for i, (x, y) in enumerate(zip(t1, t2)):
        y = T_.subst(y, m) if m else y
        if not same(x, y, fs):
            return 'operand %d of %s is %s; required: %s' % (i, label(a), show(given(x, fs))[:500], show(given(y, fs))[:500]), unsure(x, y, fs + [T_.LT(k, n) for n, k, o in a.loops if o == 'loop' and n[2:3] != ('region',)])
    if a.op not in ('call',):
        s1, s2 = strs(a.a), strs(b.a)
        if s1 != s2 and a.op not in ('async', 'try', 'catch'):
            return '%s %s; required: %s' % (a.op, s1, s2), True
    return None


def strs(x):
    if isinstance(x, str):
        return (x,)
    if type(x) is T_.T or not isinstance(x, tuple):
        return ()
    return sum((strs(y) for y in x), ())


# ---------------------------------------------------------------- entry
def refine(ctx, unit, only=None, opts=None, per=None):
    """every reference definition of /verif/specs/<unit> against the repository"""
    opts = opts or {}
    per = per or {}
    path = os.path.join(VERIF, 'specs', unit)
    if not ctx.db.spec_ok.get(path, True):
        ctx.und('reference definitions ' + unit, 'do not parse against the current declarations: ' + ctx.db.spec_err.get(path, '')[:600])
        return
    for g in ctx.db.spec_gone.get(path, ()):
        ctx.und('reference ' + g, 'does not fit the current declarations')
    ts = targets(ctx.db, path)
    jobs = []
    for sp, cls, cands in ts:
        nm = '::'.join(dbm.strip_targs(sp.q).split('::')[1:])
        if only and not re.search(only, nm):
            continue
        o = dict(opts)
        o.update(per.get(nm, {}))
        inst = ''
        if cls and '<' in cls:
            inst = ' ' + cls[cls.index('<'):][:80]
        elif '<' in sp.q:
            inst = ' ' + sp.q[sp.q.index('<'):][:80]
        nm = nm + inst + '(' + ','.join(t.split('::')[-1][:24] for t in sp.ptypes()[1 if cls else 0:]) + ')'
        if len(cands) != 1:
            ctx.und(nm, '%d matching definitions in the repository' % len(cands))
            continue
        jobs.append((nm, one, ctx, nm, cands[0], sp, o))
    ctx.batch(jobs)


def enum_dom(ctx, code):
    """value -> enumerators, for parameters and members of enumeration type"""
    byname = {}
    if not hasattr(ctx, '_enumf'):
        m = {}
        for c in ctx.db.classes:
            for f, ft in [x[:2] for x in ctx.db.fields(c)]:
                m.setdefault(f, set()).add(ct.clean(ft))
        ctx._enumf = {f: next(iter(v)) for f, v in m.items() if len(v) == 1 and next(iter(v)) in ctx.db.enums}
    byname.update(ctx._enumf)
    for f, ft in [x[:2] for x in ctx.db.fields(code.c)] if code.c else ():
        if ct.clean(ft) in ctx.db.enums:
            byname[f] = ct.clean(ft)
    ps = {p[1]: ct.clean(t) for p, t in zip(code.params, code.ptypes()) if ct.clean(t) in ctx.db.enums}

    def dom(base):
        if base[0] != 'a':
            return None
        n = base[3] if base[2] == 'sym' else base[4] if base[2] == 'fld' else None
        e = ps.get(n) if base[2] == 'sym' else byname.get(n)
        return set(ctx.db.enums[e].values()) if e else None
    return dom


def one(ctx, nm, code, sp, opts):
    if opts.get('trusted'):
        return
    core.DOM[0] = enum_dom(ctx, code)
    cs = run_code(ctx, code, opts)
    ss = run_spec(ctx, sp, code, opts)
    if ss.ev.notes and opts.get('verbose'):
        print('NOTE spec', nm, ss.ev.notes[:3])
    ds = compare(ctx, nm, code, sp, cs, ss, opts)
    if not ds:
        ctx.ok(nm, 'normal forms agree', code.where())
        return
    hard = [d for d in ds if not d[2]]
    notes = [n for n in cs.ev.notes + ss.ev.notes]
    det = '; '.join('%s' % d[1] for d in (hard or ds)[:3])
    if hard and not notes:
        ctx.bad(nm, det, code.where(), finding=nm)
    else:
        ctx.und(nm, det + (' [%s]' % '; '.join(notes[:2]) if notes else ''), code.where())


# ---------------------------------------------------------------- lemmas
def lemmas(ctx, unit, only=None, opts=None, group='lemma'):
    """every function spec::lemma::<name> of the unit states a fact about the repository's
    code: the value it returns must have the normal form `true` on every path"""
    opts = opts or {}
    path = os.path.join(VERIF, 'specs', unit)
    if not ctx.db.spec_ok.get(path, True):
        ctx.und('lemmas ' + unit, 'do not parse against the current declarations: ' + ctx.db.spec_err.get(path, '')[:600])
        return
    tu = ctx.db.tus.get(path)
    jobs = []
    for g in ctx.db.spec_gone.get(path, ()):
        ctx.und('lemma ' + g, 'does not fit the current declarations')
    n = 0
    for f in sorted((f for f in ctx.db.funcs.values() if f.tu is tu and f.q.startswith('spec::%s::' % group)), key=lambda f: f.q):
        nm = f.q[len('spec::%s::' % group):]
        if f.d.get('targs'):
            nm += f.d['targs'] if isinstance(f.d['targs'], str) else '<%s>' % ','.join(str(x) for x in f.d['targs'])
        if only and not re.search(only, nm):
            continue
        n += 1
        jobs.append((nm, lemma, ctx, nm, f, opts))
    ctx.batch(jobs)
    if not n and not only:
        ctx.und('lemmas ' + unit, 'no lemma found')


def stand_in(db, name):
    """a hook that calls the free function of this name in the place of another one"""
    def h(s, obj, args, e, rt):
        tu = s.frames[-1].tu
        fns = [f for f in db.funcs.values() if f.q == name and f.body is not None]
        if len(fns) != 1 or e[0] != 'call':
            return None
        return s.invoke(fns[0], None, s.args_for(tu.fns[e[2]], args, tu), e)
    return h


def anchored(pid):
    """the files a property is about: where a violation is reported first"""
    import json
    import db
    try:
        with open(os.path.join(db.VERIF, 'properties.jsonl')) as f:
            for l in f:
                d = json.loads(l)
                if d['id'] == pid:
                    return d['anchors']['files']
    except (OSError, ValueError, KeyError):
        pass
    return []


def lemma(ctx, nm, f, opts):
    import bits
    o = dict(opts)
    o.update(opts.get('per', {}).get(nm.split('<')[0], {}))
    for k, v in opts.get('match', {}).items():
        if re.search(k, nm):
            o.update(v)
    T_.BDD = bits.Dd()
    ctx._lemma_dd = T_.BDD
    anchors = anchored(ctx.pid)
    try:
        ev = ctx.evalr(**o.get('ev', {}))
        ev.check_bounds = True
        ev.exact = o.get("exact", False)
        setup(ev, o)
        for p, t in zip(f.params, f.ptypes()):
            w = ct.width(t)
            if w:
                bits.RANGE[T_.A('i', 'sym', p[1])] = w
        _, r = ctx.analyse(f, ev)
        site = ''
        for q in ev.order:
            g = ctx.db.funcs.get(q)
            if g is not None and not g.q.startswith('spec::') and 'SchedulerKeeper' not in g.q and '::WireId' not in g.q and g.body is not None and 'verif/stubs' not in g.where():
                site = site or g.where()
                if any(a in g.where() for a in anchors) and not g.d.get('ctor'):
                    site = '%s (%s)' % (g.where(), g.q)
                    break
        facts = spec_facts(Side(ev, r, None))
        if r is None:
            ctx.und(nm, 'no value', site)
            return
        refused = T_.FALSE
        for e, ls in rules_flat(ev.eff):
            if e.op == 'throw' and not ls:
                refused = T_.OR(refused, e.g)
        hyp = T_.TRUE
        for q in facts:
            hyp = T_.AND(hyp, q)
        goal = T_.NOT(T_.AND(hyp, T_.NOT(r)) if r != T_.TRUE else T_.FALSE)
        if o.get('total', True):
            goal = T_.AND(goal, T_.NOT(T_.AND(hyp, refused)))
        else:
            goal = T_.OR(goal, refused)
        v = goal if goal == T_.TRUE else bits.reduce(goal)
        why = ' [%s]' % '; '.join(ev.notes[:2]) if ev.notes else ''
        if v == T_.TRUE:
            ctx.ok(nm, 'reduces to true', site)
        elif v is None:
            at = bits.instance(goal, T_.BDD) if not ev.notes else None
            if at and all(plain(k) for k in at):
                ctx.bad(nm, 'does not hold for ' + ', '.join('%s=%d' % (pretty(k), b) for k, b in list(at.items())[:12]), site)
            else:
                ctx.und(nm, 'canonical form too large' + why, site)
        elif v == T_.FALSE:
            ctx.bad(nm, 'never true' + why, site) if not ev.notes else ctx.und(nm, 'reduces to false' + why, site)
        else:
            ex = ', '.join('%s=%d' % (pretty(k), b) for k, b in list(v[1].items())[:12])
            det = 'does not hold for ' + ex
            vs = [k for k in v[1]]
            if not v[2] and any(k[0] == 'bit' and k[1][0] == 'uf' for k in vs):
                at = bits.instance(goal, T_.BDD)
                if at and all(plain(k) for k in at):
                    vs = list(at)
                    det = 'does not hold for ' + ', '.join('%s=%d' % (pretty(k), b) for k, b in list(at.items())[:12])
            free = all(plain(k) for k in vs) and not v[2]
            if free and not ev.notes:
                ctx.bad(nm, det, site)
            else:
                ctx.und(nm, det + why, site)
    finally:
        T_.BDD = None


def plain(k):
    """an input, or a value read from one: free to take any value"""
    if k[0] == 'bit':
        k = k[1]
    if k[0] == 'uf':
        return False
    if k[0] == 'a' and k[2] == 'get' and k[3].startswith('spec::Src::') and not bits_numbered(k):
        return False
    return k[0] == 'a' and k[2] in ('sym', 'get', 'fld', 'idx', 'len', 'trunc') and not computed(k, [0])


def computed(k, n):
    """does the term hold anything but reads of inputs at places"""
    n[0] += 1
    if n[0] > 60:
        return True
    if isinstance(k, (tuple, frozenset)):
        if k and isinstance(k, tuple) and k[0] in ('mux', 'vec', 'cat', 'bdd', 'x', 'uf', 'tup', 'struct'):
            return True
        if len(k) > 2 and isinstance(k, tuple) and k[0] == 'a' and k[2] in ('cat', 'bigand', 'bigxor', 'and', 'eq0', 'pos', 'rep', 'map'):
            return True
        return any(computed(x, n) for x in k)
    return False


def bits_numbered(k):
    import bits
    return bits.NUMBERED(k)


def pretty(k):
    if k[0] == 'bit' and k[1][0] == 'uf':
        return 'result of %s.%d' % (k[1][1], k[2])
    if k[0] == 'bit':
        return '%s.%d' % (core.show(k[1]) if hasattr(core, 'show') else T_.show(k[1]), k[2])
    return T_.show(k)[:80]


def rules_flat(effs):
    from rules import flat as fl
    return fl(effs)
