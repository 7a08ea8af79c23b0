"""Multiplication of shared values: masking, opening, correction, index bookkeeping."""
import itertools
from core import *
from rules import *
import terms as T_

LEVEL = 'other'
EXPLAIN = ('Gated value-flow analysis of the scheduled and the immediate multiplication paths, for symbolic queue '
           'contents and lengths: every result element is decomposed into its Beaver terms; the two opened values it '
           'uses are matched with the masked shares written at the same position before the opening, the masks with '
           'one multiplication tuple, and the shares with the operands of the same gate and lane.  Positions are '
           'shown to tile the opened vector and the tuple vector exactly (no reuse).')
FLOOR = 0
CLS = 'fbpcf::engine::SecretShareEngine'
TG = 'fbpcf::engine::tuple_generator::'
GATES = [
    # name, result getter, operand dims, kind
    ('AND', 'ANDExecutionResult', 'b', (), ()),
    ('BatchAND', 'BatchANDExecutionResult', 'b', (1,), (1,)),
    ('CompositeAND', 'CompositeANDExecutionResult', 'b', (), (1,)),
    ('BatchCompositeAND', 'BatchCompositeANDExecutionResult', 'b', (2,), (1, 2)),
    ('Mult', 'MultExecutionResult', 'i', (), ()),
    ('BatchMult', 'BatchMultExecutionResult', 'i', (1,), (1,)),
]
I, J, K = idx_sym('i'), idx_sym('j'), idx_sym('k')
DIM = (I, J, K)


def check(ctx):
    db = ctx.load()
    ctx.rule('result = c - o1*m2 - o2*m1 + [one party] o1*o2, where o1, o2 are opened values, share + mask was written at '
             'their positions before opening, the shares are the two operands of that gate and lane, and (m1, m2, c) '
             'are a, b and c of one tuple')
    ctx.rule('positions of opened values and of consumed tuples tile [0, n): each is used exactly once, n is what was requested')
    ctx.rule('a schedule call returns the position of its gate; all queues are empty after execution; vectors of different length are refused')
    ctx.assume('tuples (a, b, c) satisfy c = a*b across parties and are fresh (tuple generation property)')
    me = id_field(ctx, CLS)
    queues = {}
    for g in GATES:
        ctx.guard('schedule' + g[0], schedule, ctx, db, g, queues)
    ev = ctx.evalr()
    ev.trace_puts = True
    fn = db.one(CLS + '::executeScheduledOperations')
    ctx.analyse(fn, ev)
    st = ev.store[('this', CLS)]
    for g in GATES:
        if g[0] in queues:
            n = LEN(FLD(st, queues[g[0]][0]))
            ctx.require('%s queue is emptied by execution' % g[0], n == C(0), 'the queue still holds %s entries' % show(n), fn.where())
    results = {}
    for g in GATES:
        if g[0] in queues:
            results[g[0]] = result_term(ctx, db, g, st)
    caps = calls(ev, 'supportsCompositeTupleGeneration$')
    sups = {e.res for e, _ in caps}
    modes = [('', [])] if len(sups) != 1 else [(' (composite tuples)', [next(iter(sups))]), (' (plain tuples)', [NOT(next(iter(sups)))])]
    for label, facts in modes:
        ctx.guard('scheduled' + label, scheduled, ctx, db, me, ev, queues, results, label, facts, fn)
    for name, kd in (('AND', 'b'), ('Mult', 'i')):
        ctx.guard('immediate ' + name, immediate, ctx, db, me, name, kd)


def run_getter(db, cls, name, val):
    fs = [f for f in db.find(cls + '::' + name)]
    ev = vgx.Ev(db)
    loc = ev.temp(val, cls)
    r = ev.run(fs[0], this=loc)
    if r[0] == 'ptr':
        r = ev.rd((r[1], r[2]))
    return r


def changed_field(st, st0):
    out = []
    while st[0] == 'with':
        for f, v in st[2]:
            out.append((f, v))
        st = st[1]
    return out


def cls_of(db, cls, field):
    import ctype as ct
    t = dict((x[0], x[1]) for x in db.fields(cls)).get(field)
    if t is None:
        return None
    return ct.clean(ct.targs(ct.clean(t))[0])


def schedule(ctx, db, g, queues):
    name, _, kd, ldims, rdims = g
    fn = db.one(CLS + '::schedule' + name)
    ev, r = ctx.analyse(fn)
    l, rr = fn.params[0][1], fn.params[1][1]
    ch = changed_field(ev.store[('this', CLS)], None)
    if len(ch) != 1:
        raise dbm.AnalysisError('schedule%s stores its gate in no single queue' % name)
    q, v = ch[0]
    old = FLD(sym('*this'), q)
    gate = IDX(v, LEN(old))
    facts = []
    if ldims and name == 'BatchCompositeAND':
        pass
    elif ldims:
        ne = NOT(EQ(LEN(sym(l)), LEN(sym(rr))))
        ctx.require('schedule%s refuses operands of different lengths' % name, refuses(ev, ne), 'operands of different lengths are accepted', fn.where())
        facts = [NOT(ne)]
    if name == 'BatchCompositeAND':
        bad = T_.ANY(LEN(sym(rr)), K, NOT(EQ(LEN(IDX(sym(rr), K)), LEN(sym(l)))))
        thrown = [e for e, _ in flat(ev.eff, op='throw')]
        ctx.require('scheduleBatchCompositeAND refuses operands of different lengths',
                    bool(thrown) and any(AND(LenNeq(e.g, l, rr), TRUE) != FALSE for e in thrown), 'lengths are not compared', fn.where())
    ok = v[0] == 'cat' and v[1][0] == old and LEN(v) == ADD(LEN(old), C(1)) or given(LEN(v), facts) == ADD(LEN(old), C(1))
    ctx.require('schedule%s appends one gate' % name, ok, 'the queue becomes %s' % show(v), fn.where(), unknown=bool(opaque_in(v)))
    rv = given(r, facts)
    ctx.require('schedule%s returns the position of the gate' % name, same(rv, LEN(old), facts), 'returns %s' % show(rv), fn.where(), unknown=bool(opaque_in(rv)))
    queues[name] = (q, cls_name(db, q))
    gcls = queues[name][1]
    gl = run_getter(db, gcls, 'getLeft', gate)
    gr = run_getter(db, gcls, 'getRights' if 'Composite' in name else 'getRight', gate)
    kl = kd if not ldims else 'o'
    kr = kd if not rdims else 'o'
    ctx.require('schedule%s keeps the operands' % name, same(given(gl, facts), sym(l, kl), facts) and same(given(gr, facts), sym(rr, kr), facts),
                'the gate holds %s and %s' % (show(gl), show(gr)), fn.where(), unknown=bool(opaque_in(gl) or opaque_in(gr)))


def LenNeq(g, l, r):
    return g


def cls_name(db, q):
    import re
    import ctype as ct
    for x in db.fields(CLS):
        if x[0] == q:
            t = ct.clean(x[1])
            a = ct.targs(t)[0]
            return ct.clean(a)
    return None


def result_term(ctx, db, g, st):
    name, getter, kd, ldims, rdims = g
    fn = db.one(CLS + '::get' + getter)
    ev = ctx.evalr()
    ev.store[('this', CLS)] = st
    _, r = ctx.analyse(fn, ev, args=[I])
    if r[0] == 'ptr':
        r = ev.rd((r[1], r[2]))
    nd = len(rdims)
    ts = [r]
    for d in range(nd):
        r = IDX(r, DIM[d + 1], 'o' if d < nd - 1 else kd)
        ts.append(r)
    return ts


def operands(db, g, queues):
    """operand shares of gate i, lane (j[,k]) as terms over the queue"""
    name, _, kd, ldims, rdims = g
    q, gcls = queues[name]
    gate = IDX(FLD(sym('*this'), q), I)
    l = run_getter(db, gcls, 'getLeft', gate)
    r = run_getter(db, gcls, 'getRights' if 'Composite' in name else 'getRight', gate)
    L, R = LEN(l), LEN(r)
    for d in ldims:
        l = IDX(l, DIM[d], kd)
    for n, d in enumerate(rdims):
        r = IDX(r, DIM[d], kd if n == len(rdims) - 1 else 'o')
    ext = {'AND': [], 'BatchAND': [L], 'CompositeAND': [R], 'BatchCompositeAND': [R, L], 'Mult': [], 'BatchMult': [L]}[name]
    return l, r, [LEN(FLD(sym('*this'), q))] + ext


def parts(v, o1, o2, kd):
    """coefficients (o1*o2, o1, o2, rest); None when v is not multilinear in them"""
    if kd == 'b':
        out = {0: [], 1: [], 2: [], 3: []}
        for m in T_.to_x(v):
            key = (1 if o1 in m else 0) + (2 if o2 in m else 0)
            out[key].append(m - {o1, o2})
        mk_ = lambda ms: X(*[AND(*m) if m else TRUE for m in ms]) if ms else FALSE
        return mk_(out[3]), mk_(out[1]), mk_(out[2]), mk_(out[0])
    out = {0: C(0), 1: C(0), 2: C(0), 3: C(0)}
    for m, c in dict(T_.to_z(v)).items():
        key, t = 0, C(c)
        for a, p in m:
            if a in (o1, o2):
                if p != 1:
                    return None
                key += 1 if a == o1 else 2
            else:
                for _ in range(p):
                    t = MUL(t, a)
        out[key] = ADD(out[key], t)
    return out[3], out[1], out[2], out[0]


def minus(t, kd):
    return t if kd == 'b' else NEG(t)


def plus(a, b, kd):
    return X(a, b) if kd == 'b' else ADD(a, b)


def opened_atoms(v):
    return [a for a in T_.atoms(v) if a[2] == 'idx' and is_ev(a[3], '::openSecretsToAll')]


def tuple_cands(t):
    """terms that denote one tuple inside t"""
    out = []
    for a in T_.subterms(t):
        if type(a) is T_.T and a[0] == 'a' and a[2] == 'idx' and any(is_ev(x) and 'Tuple' in x[3] for x in T_.atoms(a[3])) and a not in out:
            if not is_ev(a[3], '::openSecretsToAll'):
                out.append(a)
    return out


def decompose(ctx, db, me, label, v, kd, puts, ops, dims, site):
    """check one result element; returns (tuple term, [opened positions]) or None"""
    unk = bool(opaque_in(v))
    os_ = opened_atoms(v)
    if len(os_) != 2:
        ctx.require(label + ' uses two opened values', False, 'result is %s' % show(v), site, unknown=bool([a for a in T_.tvars(v) if a[2] in ('unk', 'rec')]))
        return None
    l, r = ops
    for o1, o2 in (os_, os_[::-1]):
        p = parts(v, o1, o2, kd)
        if p is None:
            break
        p12, p1, p2, rest = p
        m2, m1 = minus(p1, kd), minus(p2, kd)
        w1, w2 = written(puts, o1, kd, dims), written(puts, o2, kd, dims)
        if not w1 or not w2:
            ctx.require(label + ' opened positions', False, 'the value opened at %s is used, but no share of this gate is written there' % show((o1 if not w1 else o2)[4]), site,
                        unknown=any(opaque2(e.a[1]) for e, _ in puts))
            return None
        s1, s2 = plus(w1, p2, kd), plus(w2, p1, kd)
        if not (same(s1, l) and same(s2, r)):
            continue
        one = [B2I(EQ(me, C(c))) if kd == 'i' else EQ(me, C(c)) for c in (0, 1)]
        ctx.require(label + ' one party adds the product of the opened values', any(same(p12, x) for x in one), 'coefficient of the product is %s' % show(p12), site)
        for t in tuple_cands(rest):
            for cls, comp in ((TG + 'ITupleGenerator::BooleanTuple', False), (TG + 'ITupleGenerator::CompositeBooleanTuple', True), (TG + 'IArithmeticTupleGenerator::IntegerTuple', False)):
                try:
                    a, b, c = (run_getter(db, cls, 'get' + x, t) for x in 'ABC')
                except Exception:
                    continue
                if comp:
                    kk = [x[4] for x in T_.atoms(rest) if x[2] == 'idx' and x[3] == c]
                    if len(kk) != 1:
                        continue
                    b, c = IDX(b, kk[0], 'b'), IDX(c, kk[0], 'b')
                for x, y in ((a, b), (b, a)):
                    for sg in ((1,) if kd == 'b' else (1, -1)):
                        for sh in ((1,) if kd == 'b' else (1, -1)):
                            f = lambda z, q: z if q == 1 else NEG(z)
                            if same(m1, f(x, sg)) and same(m2, f(y, sh)) and same(rest, f(c, sg * sh)):
                                ctx.ok(label, '', site)
                                return t
        ctx.require(label + ' masks and correction come from one tuple', False, 'masks %s and %s, correction %s' % (show(m1), show(m2), show(rest)), site, unknown=bool(opaque2(v)))
        return None
    o1, o2 = os_
    p = parts(v, o1, o2, kd)
    det = ''
    if p:
        det = 'opened %s and %s, masks removed: %s and %s; expected the operands %s and %s' % (
            show(written(puts, o1, kd, dims)), show(written(puts, o2, kd, dims)), show(minus(p[2], kd)), show(minus(p[1], kd)), show(l), show(r))
    ctx.require(label + ' operands', False, det or 'result is %s' % show(v), site, unknown=opaque2(v))
    return None


def opaque2(t):
    return bool([a for a in T_.tvars(t) if a[2] in ('unk', 'rec')])


def written(puts, o, kd, dims):
    """value written at the position of opened atom o, for this gate"""
    for e, loops in puts:
        if len(loops) > len(dims) or T_.kind(e.a[2]) != kd and not (kd == 'b' and T_.kind(e.a[2]) == 'b'):
            continue
        (pos,) = e.a[1][1][-1:]
        ks = [k for _, k, _ in loops]
        for perm in itertools.permutations(dims, len(ks)):
            if ks and perm[0] != dims[0]:
                continue
            m = dict(zip(ks, perm))
            ns = [T_.subst(n, m) for n, _, _ in loops]
            if T_.subst(pos, m) == o[4]:
                return T_.subst(e.a[2], m)
    return None


# ---------------------------------------------------------------- tiling
def tile(fams):
    """fams: [(position, [(index, count)...])], loops outermost first.  Merge them into
    one interval (start, length) covering every position exactly once, or None + reason"""
    iv = [(p, C(1), list(ls)) for p, ls in fams]
    changed = True
    while changed and not (len(iv) == 1 and not iv[0][2]):
        changed = False
        # adjacent intervals under the same loops
        for x in range(len(iv)):
            for y in range(len(iv)):
                if x != y and iv[x][2] == iv[y][2] and same(ADD(iv[x][0], iv[x][1]), iv[y][0]):
                    iv[x] = (iv[x][0], ADD(iv[x][1], iv[y][1]), iv[x][2])
                    del iv[y]
                    changed = True
                    break
            if changed:
                break
        if changed:
            continue
        for x, (p, ln, ls) in enumerate(iv):
            if not ls:
                continue
            k, n = ls[-1]
            if T_.occurs(k, ln):
                # running total: position = base + sum of the lengths before
                pre = T_.prefix_of(ln, k) if hasattr(T_, 'prefix_of') else vg_prefix(ln, k)
                rest = SUB(p, pre)
                if T_.occurs(k, rest):
                    continue
                iv[x] = (rest, FOLD('+', n, k, ln), ls[:-1])
            else:
                c, rest = lin(p, k)
                if c is None or not same(c, ln):
                    continue
                iv[x] = (rest, MUL(ln, n), ls[:-1])
            changed = True
            break
    return iv


def vg_prefix(body, k):
    from vg import prefix_fold
    return prefix_fold('+', k, body)


def lin(p, k):
    """p = c*k + rest with neither mentioning k"""
    c, rest = C(0), C(0)
    for m, co in dict(T_.to_z(p)).items():
        t, has = C(co), 0
        for a, pw in m:
            if a == k:
                has += pw
            else:
                for _ in range(pw):
                    t = MUL(t, a)
        if has == 1:
            c = ADD(c, t)
        elif has == 0:
            rest = ADD(rest, t)
        else:
            return None, None
    if T_.occurs(k, c) or T_.occurs(k, rest):
        # a prefix sum of a constant body is linear too
        return None, None
    return c, rest


def canon(fams):
    """same names for the loops of families that share their outer structure"""
    names = {}
    out = []
    for p, ls in fams:
        m = {}
        nl = []
        for d, (k, n) in enumerate(ls):
            n = T_.subst(n, m)
            key = (d, T_.rp(n), tuple(x[0] for x in nl))
            kk = names.setdefault(key, A('i', 'k', 't%d_%d' % (d, len(names))))
            m[k] = kk
            nl.append((kk, n))
        out.append((T_.subst(p, m), nl))
    return out


def check_tiling(ctx, name, fams, want, site):
    iv = tile(canon(fams))
    unk = any(opaque_in(p) for p, _ in fams)
    if len(iv) == 1 and not iv[0][2] and iv[0][0] == C(0):
        ctx.require(name, same(iv[0][1], want), 'positions cover [0, %s) but %s were requested' % (show(iv[0][1]), show(want)), site)
    else:
        ctx.require(name, False, 'positions overlap or leave gaps: %s' % '; '.join(
            '%s (+%s)%s' % (show(p), show(n), ''.join(' for %s<%s' % (show(k), show(m)) for k, m in ls)) for p, n, ls in iv), site, unknown=unk)


def nonempty_facts(effs, facts, mention):
    """every count that includes this gate is positive"""
    out = []
    for e in effs:
        for a in T_.atoms_of_bool(e.g):
            if a[2] == 'eq0' and mention(a) and NOT(a) not in out and 'openSecretsToAll' not in show(a):
                out.append(NOT(a))
    return out


def scheduled(ctx, db, me, ev, queues, results, label, facts, fn):
    opens = [(e, l) for e, l in calls(ev, 'openSecretsToAll$') if AND(given(e.g, facts), TRUE) != FALSE]
    tups = {}
    for g in GATES:
        name, _, kd, ldims, rdims = g
        if name not in queues:
            continue
        q = FLD(sym('*this'), queues[name][0])
        dims = DIM[:1 + len(rdims)]
        l, r, ext = operands(db, g, queues)
        extra = nonempty_facts([e for e, _ in calls(ev, r'Tuple')] + [e for e, _ in opens], facts, lambda a: T_.occurs(q, a))
        f2 = facts + extra
        ts = [given(t, f2) for t in results[name]]
        site = fn.where()
        # dimensions of the result
        for d in range(1, len(dims)):
            n = given(LEN(ts[d - 1]), f2)
            ctx.require('%s result size%s' % (name, label), same(n, ext[d], f2), 'dimension %d of the result is %s, expected %s' % (d, show(n), show(ext[d])), site,
                        unknown=bool(opaque_in(n)))
        v = ts[-1]
        evs = {a[3] for a in opened_atoms(v)}
        puts = []
        if len(evs) == 1:
            (E0,) = evs
            eff = [e for e, _ in opens if e.res == E0]
            if eff:
                puts = puts_before(ev, eff[0], kd, facts)
        t = decompose(ctx, db, me, '%s result%s' % (name, label), v, kd, puts, (l, r), dims, site)
        if t is not None:
            tups.setdefault(t[3], []).append((name, t, list(zip(dims, ext))))
    # opened positions
    for e, _ in opens:
        arg = given(e.a[2][0], facts)
        total = T_.subst(LEN(arg), asked(ev))
        for kd in 'bi':
            ps = puts_before(ev, e, kd, facts)
            src = [g for g in GATES if g[2] == kd]
            if not ps or not any(e.res in {a[3] for a in opened_atoms(given(results[g[0]][-1], facts))} for g in src if g[0] in results):
                continue
            fams = [(x.a[1][1][-1], [(k, n) for n, k, _ in ls]) for x, ls in ps]
            check_tiling(ctx, '%s shares are opened exactly once%s' % ({'b': 'boolean', 'i': 'integer'}[kd], label), fams, total, e.site)
            n = LEN(e.res)
            ctx.require('%s number of opened values is checked%s' % ({'b': 'boolean', 'i': 'integer'}[kd], label),
                        any(not satisf(given(th.g, facts), n, total) for th, _ in flat(ev.eff, op='throw')), 'a short answer is accepted', e.site)
    # tuples
    for vec, items in tups.items():
        arg = None
        base = vec
        while base[0] == 'a' and base[2] in ('fld', 'at'):
            base = base[3]
        a, eff = call_args(ev, base)
        if a is None:
            ctx.und('tuple request' + label, 'request not found')
            continue
        if any(x[2] in ('recat', 'at') for n, t, _ in items for x in T_.atoms(t[4])):
            for n, t, ls in items:
                ctx.guard('%s tuples%s' % (n, label), composite_counter, ctx, n + ' composite tuples are used once' + label, t, a[1], eff)
            continue
        if vec[2] == 'at':
            for n, t, ls in items:
                ctx.bad(n + ' composite tuples are used once' + label, 'tuple %s is reused' % show(t[4]), eff.site)
            continue
        fams = [(t[4], loops_used(t[4], ls)) for n, t, ls in items]
        check_tiling(ctx, 'tuples are used exactly once%s (%s)' % (label, '/'.join(n for n, _, _ in items)), fams, a[0], eff.site)


def loops_used(pos, ls):
    """order the loops so that the one with the larger stride is outer"""
    if len(ls) < 3:
        return ls
    (i, n), (j, nj), (k, nk) = ls
    cj, _ = lin(T_.subst(pos, {i: C(0)}), j)
    if cj is not None and cj == C(1):
        return [ls[0], ls[2], ls[1]]
    return ls


def composite_counter(ctx, name, t, requested, eff):
    """the tuple index is a per-size running counter that is stepped for every use"""
    ix = t[4]
    size = t[3][4] if t[3][2] == 'at' else None
    if ix[2] != 'at' or size is None:
        ctx.bad(name, 'tuple index is %s' % show(ix), eff.site)
        return
    ctx.require(name, ix[4] == size, 'tuples of size %s are indexed by the counter of size %s' % (show(size), show(ix[4])), eff.site)
    bad = []

    def steps(m):
        while True:
            if m[0] == 'mput':
                d = SUB(m[3], AT(m[1], m[2], 'i'))
                if not (d == C(0) or d == C(1)):
                    bad.append('counter changes by %s' % show(d))
                m = m[1]
            elif m[0] == 'a' and m[2] == 'recat':
                steps(m[5])
                m = m[3]
            else:
                return
    steps(ix[3])
    top = ix[3]
    if not any(x[2] == 'recat' and x[5][0] == 'mput' and SUB(x[5][3], AT(x[5][1], x[5][2], 'i')) == C(1) for x in T_.atoms(top)):
        bad.append('counter is never stepped')
    ctx.require(name + ' (stepping)', not bad, '; '.join(bad), eff.site)


def satisf(g, n, want):
    """can the answer have another length than was sent without g holding?"""
    return not implied(NOT(EQ(n, want)), g)


def asked(ev):
    """a tuple generator returns as many tuples as were requested"""
    return {LEN(e.res): e.a[2][0] for e, _ in calls(ev, 'get(BooleanTuple|IntegerTuple)$')}


def implied(c, g):
    # other conditions of g (path conditions) are taken to hold
    others = [a for a in T_.atoms_of_bool(g) if a not in T_.atoms_of_bool(c)]
    for vals in itertools.product((TRUE, FALSE), repeat=min(len(others), 8)):
        m = dict(zip(others, vals))
        if T_.subst(g, m) == c:
            return True
    return False


def puts_before(ev, call, kd, facts):
    """element writes of the given kind between the previous opening of that kind and this one"""
    out = []
    for e, ls in flat(ev.eff):
        if e is call:
            return out
        if e.op == 'put' and T_.kind(e.a[2]) == kd and given(e.g, facts) != FALSE and not is_result(e):
            out.append((e, ls))
    return out


def is_result(e):
    return bool([a for a in T_.atoms(e.a[2]) if is_ev(a, '::openSecretsToAll')])


def immediate(ctx, db, me, name, kd):
    fn = db.one(CLS + '::computeBatch%sImmediately' % name)
    ev = ctx.evalr()
    ev.trace_puts = True
    _, r = ctx.analyse(fn, ev)
    l, rr = sym(fn.params[0][1]), sym(fn.params[1][1])
    ne = NOT(EQ(LEN(l), LEN(rr)))
    ctx.require('immediate %s refuses operands of different lengths' % name, refuses(ev, ne), 'operands of different lengths are accepted', fn.where())
    caps = {e.res for e, _ in calls(ev, 'supportsCompositeTupleGeneration$')}
    for facts in ([[next(iter(caps))], [NOT(next(iter(caps)))]] if len(caps) == 1 else [[]]):
        lab = ' (%s)' % ('composite-capable tuples' if facts and facts[0] in caps else 'plain tuples')
        f = facts + [NOT(ne), NOT(EQ0(LEN(l))), NOT(EQ0(LEN(rr)))]
        n = given(LEN(r), f)
        ctx.require('immediate %s length%s' % (name, lab), same(n, given(LEN(l), f), f), 'result length %s' % show(n), fn.where(), unknown=bool(opaque_in(n)))
        v = given(IDX(r, I, kd), f)
        evs = {a[3] for a in opened_atoms(v)}
        opens = [e for e, _ in calls(ev, 'openSecretsToAll$') if e.res in evs and given(e.g, f) != FALSE]
        puts = puts_before(ev, opens[0], kd, f) if opens else []
        t = decompose(ctx, db, me, 'immediate %s%s' % (name, lab), v, kd, puts, (IDX(l, I, kd), IDX(rr, I, kd)), (I,), fn.where())
        if t is not None:
            ctx.require('immediate %s tuple%s' % (name, lab), t[4] == I, 'tuple %s serves lane i' % show(t[4]), fn.where())
