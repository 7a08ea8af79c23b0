"""Value-graph terms and their normal forms.

Every abstract value is an immutable hashable tuple.  Smart constructors keep
terms in a normal form, so that two program fragments computing the same
function of the same inputs get the same term whatever the order or shape of
the statements that compute it.

  ('c', n)                integer constant
  ('x', {mono...})        polynomial over GF(2): booleans, and bit-vectors
                          under xor; a monomial is a frozenset of atoms
  ('z', {(mono,coef)..})  polynomial over the integers; a monomial is a
                          frozenset of (atom, power)
  ('a', kind, op, ...)    atom: kind b(ool) i(nt) v(ector register) f(loat) o(ther)
  ('vec', (..))           sequence with known elements
  ('arr', n, body)        sequence of length n, element j = body[bv := j]
  ('cat', (s..))          concatenation
  ('upd', s, i, v)        s with element i replaced
  ('tup', (..)) ('struct', cls, ((f, v)..)) ('with', base, ((f, v)..))
  ('mput', m, k, v)       map m with k -> v
  ('ptr', root, path)     pointer to a known cell
"""
import hashlib
import itertools


class T(tuple):
    """hash-consed term"""
    def __hash__(self):
        try:
            return self.h
        except AttributeError:
            self.h = tuple.__hash__(self)
            return self.h

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is T:
            return False
        return isinstance(o, tuple) and tuple.__eq__(self, o) is True

    def __ne__(self, o):
        return not self.__eq__(o)


_tab = {}


def mk(*a):
    t = _tab.get(a)
    if t is None:
        t = T(a)
        _tab[t] = t
    return t


_uid = itertools.count(1)


def fresh():
    return next(_uid)


def A(kind, op, *args):
    return mk('a', kind, op, *args)


def C(n):
    return mk('c', int(n))


TRUE = mk('x', frozenset([frozenset()]))
FALSE = mk('x', frozenset())
EMPTYSEQ = mk('vec', ())
UNKNOWN_OPS = ('unk',)
MAXMONO = 3000


def B(b):
    return TRUE if b else FALSE


def is_c(t):
    return t[0] == 'c'


def kind(t):
    h = t[0]
    if h == 'a':
        return t[1]
    if h in ('c', 'z'):
        return 'i'
    if h == 'bdd':
        return 'b'
    if h == 'x':
        k = 'b'
        for m in t[1]:
            for a in m:
                ka = kind(a)
                if ka == 'v':
                    return 'v'
                if ka != 'b':
                    k = 'i'
        return k
    if h == 'flt':
        return 'f'
    if h == 'str':
        return 'o'
    return 'o'


def sym(name, k='o'):
    return A(k, 'sym', name)


# ---------------------------------------------------------------- GF(2)
def to_x(t):
    if t[0] == 'x':
        return t[1]
    if t[0] == 'c':
        return frozenset() if t[1] == 0 else frozenset([frozenset([t])])
    return frozenset([frozenset([t])])


def from_x(s):
    if len(s) == 1:
        m = next(iter(s))
        if len(m) == 1:
            return next(iter(m))
    return mk('x', s)


def X(*ts):
    """xor"""
    for t in ts:
        if t[0] == 'bdd':
            return bdd_x(ts)
    if len(ts) == 2 and (ts[0][0] == 'c') != (ts[1][0] == 'c'):
        # a multiple of 2^k with a number below 2^k
        c, t = ts if ts[0][0] == 'c' else ts[::-1]
        if c[1] > 0 and t[0] == 'z':
            p = 1 << c[1].bit_length()
            if all(q % p == 0 for q in dict(t[1]).values()):
                return ADD(t, c)
    acc = frozenset()
    for t in ts:
        acc = acc ^ to_x(t)
    if BDD is not None and len(acc) > 48 and all(kind(x) == 'b' for m in acc for x in m):
        return bdd_x([from_x(acc)])
    return from_x(acc)


def AND(*ts):
    for t in ts:
        if t[0] == 'bdd':
            return bdd_and(ts)
    acc = frozenset([frozenset()])
    for t in ts:
        b = to_x(t)
        if BDD is not None and len(acc) * len(b) > 256 and kind(t) == 'b' and all(kind(x) == 'b' for m in acc for x in m):
            return bdd_and(ts)
        if len(acc) * len(b) > MAXMONO * 4:
            return A('b', 'bigand', frozenset([from_x(acc)]), t)
        r = set()
        for m in acc:
            for n in b:
                u = m | n
                if u in r:
                    r.discard(u)
                else:
                    r.add(u)
        acc = frozenset(r)
    acc = _simp_assume(acc)
    return from_x(acc)


def _simp_assume(s):
    # drop monomials with contradictory equality atoms  eq0(x-1)*eq0(x-2)
    bad = []
    for m in s:
        eqs = {}
        for a in m:
            if a[0] == 'a' and a[2] == 'eq0':
                base, c = split_const(a[3])
                if base in eqs and eqs[base] != c:
                    bad.append(m)
                    break
                eqs[base] = c
    if bad:
        s = frozenset(m for m in s if m not in set(bad))
    return s


def NOT(t):
    return X(TRUE, t)


def OR(a, b):
    return X(a, b, AND(a, b))


# ---- BDD hook, installed by bdd.py when a circuit is analysed
BDD = None


class TooBig(Exception):
    """a decision diagram outgrew its limit"""


def bdd_x(ts):
    acc = BDD.const(False)
    try:
        for t in ts:
            acc = BDD.xor(acc, BDD.lift(t))
    except TooBig:
        return A('b', 'bigxor', tuple(ts))
    return TRUE if acc == 1 else FALSE if acc == 0 else mk('bdd', acc)


def bdd_and(ts):
    acc = BDD.const(True)
    try:
        for t in ts:
            acc = BDD.and_(acc, BDD.lift(t))
    except TooBig:
        return A('b', 'bigand', frozenset(ts[:-1]), ts[-1])
    return TRUE if acc == 1 else FALSE if acc == 0 else mk('bdd', acc)


# ---------------------------------------------------------------- Z
def to_z(t):
    if t[0] == 'z':
        return dict(t[1])
    if t[0] == 'c':
        return {frozenset(): t[1]} if t[1] else {}
    return {frozenset([(t, 1)]): 1}


def from_z(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return C(0)
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return C(c)
        if c == 1 and len(m) == 1:
            (a, p), = m
            if p == 1:
                return a
    return mk('z', frozenset(d.items()))


def ADD(*ts):
    acc = {}
    for t in ts:
        for m, c in to_z(t).items():
            acc[m] = acc.get(m, 0) + c
    return from_z(acc)


def NEG(t):
    return from_z({m: -c for m, c in to_z(t).items()})


def SUB(a, b):
    return ADD(a, NEG(b))


def _mmul(m, n):
    d = {}
    eqs = None
    for a, p in list(m) + list(n):
        d[a] = d.get(a, 0) + p
    for a in list(d):
        if a[0] == 'a' and a[2] == 'b2i':
            d[a] = 1
            p = a[3]
            if p[0] == 'a' and p[2] == 'eq0':
                base, c = split_const(p[3])
                if eqs is None:
                    eqs = {}
                if eqs.setdefault(base, c) != c:
                    return None     # two values at once
    return frozenset(d.items())


def MUL(a, b):
    x, y = to_z(a), to_z(b)
    acc = {}
    if len(x) * len(y) > MAXMONO:
        return A('i', 'mul', frozenset([a, b]))
    for m, c in x.items():
        for n, e in y.items():
            u = _mmul(m, n)
            if u is not None:
                acc[u] = acc.get(u, 0) + c * e
    return from_z(acc)


def split_const(t):
    d = to_z(t)
    c = d.pop(frozenset(), 0)
    return from_z(d), c


_dig = {}


def rp(t):
    """structural digest: a canonical ordering key"""
    r = _dig.get(t)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x in _dig:
            stack.pop()
            continue
        todo = [y for y in x if isinstance(y, (tuple, frozenset)) and y not in _dig]
        if todo:
            stack += todo
            continue
        stack.pop()
        parts = [_dig[y] if isinstance(y, (tuple, frozenset)) else repr(y).encode() for y in x]
        if isinstance(x, frozenset):
            parts.sort()
            parts.insert(0, b'S')
        h = hashlib.blake2b(digest_size=12)
        for p in parts:
            h.update(len(p).to_bytes(4, 'little'))
            h.update(p)
        _dig[x] = h.digest()
    return _dig[t]


_rk = {}


def rk(t):
    """structural digest that ignores the kind annotation of atoms"""
    r = _rk.get(t)
    if r is not None:
        return r
    if not isinstance(t, (tuple, frozenset)):
        return repr(t).encode()
    if isinstance(t, frozenset):
        parts = [b'S'] + sorted(rk(y) for y in t)
    elif len(t) > 2 and t[0] == 'a' and type(t) is T:
        parts = [b'a'] + [rk(y) for y in t[2:]]
    else:
        parts = [rk(y) for y in t]
    h = hashlib.blake2b(digest_size=12)
    for p in parts:
        h.update(len(p).to_bytes(4, 'little'))
        h.update(p)
    r = _rk[t] = h.digest()
    return r


def _lead_sign(d):
    ms = [m for m in d if m]
    if not ms:
        return 1
    m = min(ms, key=rp)
    return 1 if d[m] > 0 else -1


NONNEG_OPS = {'len', 'k', 'bv', 'unsigned'}


def nonneg(a):
    return a[0] == 'a' and (a[2] in NONNEG_OPS or a[2] == 'b2i' or a[2] == 'max' and any(nonneg_z(x) for x in a[3]) or
                            (a[1] == 'i' and a[2] == 'sym' and len(a) > 4 and a[4] == 'u'))


def POS(d):
    """boolean: d > 0 over the integers"""
    z = to_z(d)
    if not z:
        return FALSE
    if set(z) == {frozenset()}:
        return B(z[frozenset()] > 0)
    # sign facts: all atoms non-negative
    nn = all(all(nonneg(a) for a, _ in m) for m in z if m)
    if nn:
        c0 = z.get(frozenset(), 0)
        cs = [c for m, c in z.items() if m]
        if all(c > 0 for c in cs) and c0 > 0:
            return TRUE
        if all(c < 0 for c in cs) and c0 <= 0:
            return FALSE
        if len(cs) == 1:
            (m,) = [m for m in z if m]
            if cs[0] == 1 and c0 == 0:       # n > 0  <=>  n != 0
                return NOT(EQ0(from_z({m: 1})))
            if cs[0] == -1 and c0 == 1:      # n < 1  <=>  n == 0
                return EQ0(from_z({m: 1}))
    if len(z) <= 2:
        # b2i(p) + c
        ms = [m for m in z if m]
        if len(ms) == 1 and len(ms[0]) == 1:
            (a, p), = ms[0]
            if a[0] == 'a' and a[2] == 'b2i':
                c0 = z.get(frozenset(), 0)
                k = z[ms[0]]
                t1, t0 = (k + c0) > 0, c0 > 0
                p_ = a[3]
                return X(AND(p_, B(t1)), AND(NOT(p_), B(t0)))
    if _lead_sign(z) < 0:
        # d > 0  <=>  not (1-d > 0)
        return NOT(POS(SUB(C(1), d)))
    return A('b', 'pos', from_z(z))


def EQ0(d):
    z = to_z(d)
    if not z:
        return TRUE
    if set(z) == {frozenset()}:
        return FALSE
    ms = [m for m in z if m]
    if all(len(m) == 1 and next(iter(m))[0][0] == 'a' and next(iter(m))[0][2] == 'b2i' for m in ms) and len(ms) <= 2:
        # boolean equalities
        ps = [(next(iter(m))[0][3], z[m]) for m in ms]
        c0 = z.get(frozenset(), 0)
        if len(ps) == 1:
            p, k = ps[0]
            return X(AND(p, B(k + c0 == 0)), AND(NOT(p), B(c0 == 0)))
        (p, k), (q, l) = ps
        r = FALSE
        for bp in (0, 1):
            for bq in (0, 1):
                if k * bp + l * bq + c0 == 0:
                    r = X(r, AND(p if bp else NOT(p), q if bq else NOT(q)))
        return r
    if _lead_sign(z) < 0:
        z = {m: -c for m, c in z.items()}
    # common factor
    return A('b', 'eq0', from_z(z))


def LT(a, b):
    return POS(SUB(b, a))


def LE(a, b):
    return POS(ADD(SUB(b, a), C(1)))


def EQ(a, b):
    if a == b:
        return TRUE
    ka, kb = kind(a), kind(b)
    if 'b' in (ka, kb) and ka in 'bi' and kb in 'bi':
        if ka == 'b' and kb == 'b':
            return X(TRUE, a, b)
        return EQ0(SUB(B2I(a) if ka == 'b' else a, B2I(b) if kb == 'b' else b))
    if ka == 'i' and kb == 'i':
        return EQ0(SUB(a, b))
    if a[0] in ('str', 'null') and b[0] in ('str', 'null'):
        return FALSE
    if a[0] == 'mux':
        return MUX(a[1], EQ(a[2], b), EQ(a[3], b))
    if b[0] == 'mux':
        return MUX(b[1], EQ(a, b[2]), EQ(a, b[3]))
    if b[0] == 'null' and a[0] == 'ptr' or a[0] == 'null' and b[0] == 'ptr':
        return FALSE
    return A('b', 'eq', frozenset([a, b]))


def B2I(p):
    if p == TRUE:
        return C(1)
    if p == FALSE:
        return C(0)
    if p[0] == 'x' and frozenset() in p[1]:
        return SUB(C(1), A('i', 'b2i', NOT(p)))
    return A('i', 'b2i', p)


def I2B(t):
    """int -> bool conversion (t != 0)"""
    if kind(t) == 'b':
        return t
    if t[0] == 'c':
        return B(t[1] != 0)
    return NOT(EQ0(t))


def as_bool_int(t):
    """p when t is b2i(p) (or 0/1), else None"""
    if t[0] == 'c' and t[1] in (0, 1):
        return B(t[1])
    if t[0] == 'a' and t[2] == 'b2i':
        return t[3]
    if t[0] == 'z':
        z = dict(t[1])
        c0 = z.pop(frozenset(), 0)
        if len(z) == 1 and c0 == 1:
            (m, c), = z.items()
            if c == -1 and len(m) == 1:
                (a, p), = m
                if a[0] == 'a' and a[2] == 'b2i':
                    return NOT(a[3])
    if kind(t) == 'b':
        return t
    return None


def as_bits(t):
    """{bit position: condition} when t is a number packed from separate conditions"""
    if t[0] == 'c':
        if t[1] < 0 or t[1] >> 64:
            return None
        return {i: TRUE for i in range(t[1].bit_length()) if t[1] >> i & 1}
    if kind(t) == 'b':
        return {0: t}
    if t[0] == 'a' and t[2] == 'b2i':
        return {0: t[3]}
    if t[0] == 'z':
        out, c0 = {}, 0
        for m, c in t[1]:
            if m == frozenset():
                c0 += c
                continue
            if len(m) != 1:
                return None
            (a, p), = m
            if a[0] != 'a' or a[2] != 'b2i' or p != 1:
                return None
            q = a[3]
            if c < 0:
                q, c, c0 = NOT(q), -c, c0 + c
            k = c.bit_length() - 1
            if c != 1 << k or k in out or k > 63:
                return None
            out[k] = q
        if c0 < 0:
            return None
        for i in range(c0.bit_length()):
            if c0 >> i & 1:
                if i in out:
                    return None
                out[i] = TRUE
        return out
    if t[0] == 'x':
        out = {}
        for m in t[1]:
            if len(m) != 1:
                return None
            (a,) = m
            d = as_bits(a)
            if d is None:
                return None
            for k, q in d.items():
                out[k] = X(out.get(k, FALSE), q)
        return out
    return None


def from_bits(d):
    return ADD(*[MUL(C(1 << k), B2I(q)) for k, q in sorted(d.items())]) if d else C(0)


def TRUNC(w, unsigned, v):
    d = as_bits(v)
    if d is not None and (unsigned or not any(k >= w - 1 for k in d)):
        return from_bits({k: q for k, q in d.items() if k < w})
    if v[0] == 'c':
        return None
    return A('i', 'trunc%d%s' % (w, 'u' if unsigned else 's'), v)


def _bitpack(op, a, b):
    if op in '&|^':
        if a[0] == 'c' and b[0] == 'c':
            return None
        da, db = as_bits(a), as_bits(b)
        if da is None or db is None:
            return None
        f = {'&': AND, '|': OR, '^': X}[op]
        return from_bits({k: f(da.get(k, FALSE), db.get(k, FALSE)) for k in set(da) | set(db)})
    if op in ('>>', '<<') and b[0] == 'c' and a[0] != 'c' and 0 <= b[1] < 64:
        da = as_bits(a)
        if da is None:
            return None
        s = b[1] if op == '<<' else -b[1]
        return from_bits({k + s: q for k, q in da.items() if 0 <= k + s < 64})
    return None


def BITOP(op, a, b, unsigned=True):
    ba, bb = as_bool_int(a), as_bool_int(b)
    if op in '&|^' and ba is not None and bb is not None:
        f = {'&': AND, '|': OR, '^': X}[op]
        r = f(ba, bb)
        return r if (kind(a) == 'b' and kind(b) == 'b') else B2I(r)
    if a[0] == 'c' and b[0] == 'c':
        x, y = a[1], b[1]
        try:
            if op == '&':
                return C(x & y)
            if op == '|':
                return C(x | y)
            if op == '^':
                return C(x ^ y)
            if op == '<<':
                return C(x << y)
            if op == '>>':
                return C(x >> y)
            if op == '/':
                return C(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))
            if op == '%':
                return C(abs(x) % abs(y) * (-1 if x < 0 else 1))
        except (ValueError, ZeroDivisionError):
            pass
    r = _bitpack(op, a, b)
    if r is not None:
        return r
    if op == '^':
        return X(a, b)
    if op == '&' and C(0) in (a, b):
        return C(0)
    if op == '|' and C(0) in (a, b):
        return a if b == C(0) else b
    if op == '<<' and b[0] == 'c' and 0 <= b[1] < 64:
        return MUL(a, C(1 << b[1]))
    if op == '<<' and a == C(0):
        return C(0)
    if op == '/' and b[0] == 'c' and b[1] > 0 and (b[1] & (b[1] - 1)) == 0:
        sh = b[1].bit_length() - 1
        return a if sh == 0 else A('i', 'shr', a, C(sh))
    if op == '%' and b[0] == 'c' and b[1] > 0 and (b[1] & (b[1] - 1)) == 0:
        return C(0) if b[1] == 1 else A('i', 'and', frozenset([a, C(b[1] - 1)]))
    if op == '>>':
        return a if b == C(0) else A('i', 'shr', a, b)
    if op in ('&', '|'):
        if a == b:
            return a
        return A('i', {'&': 'and', '|': 'or'}[op], frozenset([a, b]))
    if op == '<<':
        return A('i', 'shl', a, b)
    return A('i', {'/': 'div', '%': 'mod'}[op], a, b)


# ---------------------------------------------------------------- mux
def nonneg_z(t):
    return all(c >= 0 and all(nonneg(a) for a, _ in m) for m, c in to_z(t).items())


def MAXT(*ts):
    """largest of the given integers"""
    xs = []
    for t in ts:
        if t[0] == 'a' and t[2] == 'max':
            xs += t[3]
        else:
            xs.append(t)
    out = []
    for x in xs:
        drop = False
        for y in list(out):
            d = SUB(x, y)
            if d[0] == 'c' and d[1] <= 0 or nonneg_z(NEG(d)):
                drop = True
                break
            if d[0] == 'c' or nonneg_z(d):
                out.remove(y)
        if not drop:
            out.append(x)
    if len(out) == 1:
        return out[0]
    return A('i', 'max', frozenset(out))


def MUX(c, a, b):
    if a == b or c == TRUE:
        return a
    if c == FALSE:
        return b
    ka, kb = kind(a), kind(b)
    if c[0] == 'bdd' and ka in 'bv' and kb in 'bv':
        return X(b, AND(c, X(a, b)))
    if ka == 'b' and kb == 'b' or (ka in 'bv' and kb in 'bv' and ka != kb) or (ka == 'v' and kb == 'v'):
        r = X(b, AND(c, X(a, b)))
        return r
    if ka == 'i' and kb == 'i' and not (('x' in (a[0], b[0]))):
        p, x, y = c, a, b
        if c[0] == 'x' and len(c[1]) == 2 and frozenset() in c[1]:
            p, x, y = NOT(c), b, a
        if p[0] == 'a' and p[2] == 'pos':
            d = SUB(x, y)
            if p[3] == d or p[3] == ADD(d, C(1)):
                return MAXT(x, y)
            if p[3] == NEG(d) or p[3] == SUB(C(1), d):
                return SUB(ADD(x, y), MAXT(x, y))
        return ADD(b, MUL(B2I(c), SUB(a, b)))
    if c[0] == 'a' and c[2] == 'eq0' and a == EMPTYSEQ and b[0] == 'arr' and EQ0(b[1]) == c:
        return b
    if c[0] == 'x' and b == EMPTYSEQ and a[0] == 'arr' and NOT(EQ0(a[1])) == c:
        return a
    if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
        return mk('tup', tuple(MUX(c, x, y) for x, y in zip(a[1], b[1])))
    if a[0] == 'vec' and b[0] == 'vec' and len(a[1]) == len(b[1]):
        return mk('vec', tuple(MUX(c, x, y) for x, y in zip(a[1], b[1])))
    if a[0] == 'struct' and b[0] == 'struct' and a[1] == b[1] and [f for f, _ in a[2]] == [f for f, _ in b[2]]:
        return mk('struct', a[1], tuple((f, MUX(c, x, y)) for (f, x), (_, y) in zip(a[2], b[2])))
    if 'with' in (a[0], b[0]):
        ba = a[1] if a[0] == 'with' else a
        bb = b[1] if b[0] == 'with' else b
        if ba == bb:
            da = dict(a[2]) if a[0] == 'with' else {}
            db = dict(b[2]) if b[0] == 'with' else {}
            out = {}
            for f in set(da) | set(db):
                ks = kind(da[f]) if f in da else kind(db[f])
                va = da[f] if f in da else FLD(ba, f, ks)
                vb = db[f] if f in db else FLD(bb, f, ks)
                out[f] = MUX(c, va, vb)
            return WITH(ba, out)
    if a[0] == 'arr' and b[0] == 'arr' and a[1] == b[1]:
        k = A('i', 'k', fresh())
        return ARR(a[1], k, MUX(c, OPEN(a, k), OPEN(b, k)))
    if c[0] == 'x' and frozenset() in c[1]:
        return mk('mux', NOT(c), b, a)
    # nested simplification
    if a[0] == 'mux' and a[1] == c:
        a = a[2]
    if b[0] == 'mux' and b[1] == c:
        b = b[3]
    if a == b:
        return a
    return mk('mux', c, a, b)


# ---------------------------------------------------------------- binders
def height(t):
    return max((a[3] for a in tvars(t) if a[2] == 'bv'), default=0)


def CLOSE(k, body):
    h = 1 + height(body)
    return subst(body, {k: A('i', 'bv', h)}), h


def ARR(n, k, body):
    """sequence of n elements, element k is body"""
    if n[0] == 'c' and 0 <= n[1] <= 64:
        return mk('vec', tuple(subst(body, {k: C(j)}) for j in range(n[1])))
    # eta: arr(len(s), idx(s,k)) == s
    if body[0] == 'a' and body[2] == 'idx' and body[4] == k and n == LEN(body[3]) and not occurs(k, body[3]):
        return body[3]
    b, h = CLOSE(k, body)
    return mk('arr', n, b, h)


def OPEN(t, i):
    # mk('arr', n, body, h)
    return subst(t[2], {A('i', 'bv', t[3]): i})


def FOLD(op, n, k, body):
    """op-sum over k in [0,n) of body"""
    if n[0] == 'c' and 0 <= n[1] <= 64:
        f = X if op == '^' else ADD
        acc = FALSE if op == '^' and kind(body) in 'bv' else C(0)
        return f(acc, *[subst(body, {k: C(j)}) for j in range(n[1])])
    if body == FALSE or body == C(0):
        return body
    if op == '+' and not occurs(k, body):
        return MUL(n, body)
    if op == '^' and body[0] == 'x':
        if len(body[1]) > 1:
            return X(*[FOLD(op, n, k, from_x(frozenset([m]))) for m in body[1]])
        (m,) = body[1]
        free = frozenset(a for a in m if not occurs(k, a))
        if free and free != m:
            return AND(from_x(frozenset([free])), FOLD(op, n, k, from_x(frozenset([m - free]))))
    if op == '+' and body[0] == 'z':
        out = []
        for m, c in body[1]:
            free = frozenset((a, p) for a, p in m if not occurs(k, a))
            dep = m - free
            if not dep:
                out.append(MUL(n, from_z({free: c})))
            else:
                out.append(MUL(from_z({free: c}), _fold1(op, n, k, from_z({dep: 1}))))
        return ADD(*out)
    return _fold1(op, n, k, body)


def _fold1(op, n, k, body):
    b, h = CLOSE(k, body)
    return A(kind(body), 'fold', op, n, b, h)


def ANY(n, k, body):
    if body == FALSE:
        return FALSE
    if not occurs(k, body):
        return AND(body, NOT(EQ0(n)))
    b, h = CLOSE(k, body)
    return A('b', 'any', n, b, h)


def RECAT(v0, n, k, h, v1):
    """value after n steps of the recurrence h := v1(h, k) from v0, as a structural
    (uninterpreted but canonical) recurrence"""
    if n == C(0):
        return v0
    keep = False
    if v1[0] == 'cat' and len(v1[1]) >= 2 and v1[1][0] != h and v0 != EMPTYSEQ:
        # segments written side by side at the running offset: a concatenation
        p = v1[1]
        a, z = p[0], p[-1]
        if a[0] == 'slice' and a[1] == h and a[2] == C(0) and not occurs(h, a[3]):
            off = a[3]
            tail = z[0] == 'slice' and z[1] == h and z[3] in (LEN(h), LEN(v0))
            seg = CAT(*p[1:-1]) if tail else CAT(*p[1:])
            if not occurs(h, seg):
                k2 = A('i', 'k', fresh())
                ls = subst(LEN(seg), {k: k2})
                tot = FOLD('+', n, k2, ls)
                if off == FOLD('+', k, k2, ls) and (z[2] == ADD(off, LEN(seg)) if tail else True) and (tail or LEN(v0) == tot):
                    sb, sh = CLOSE(k, seg)
                    out = A('o', 'flat', n, sb, sh)
                    return out if LEN(v0) == tot else CAT(out, SLICE(v0, tot, LEN(v0)))
    if kind(h) == 'o':
        l0 = LEN(v0)
        keep = subst(LEN(v1), {A('i', 'len', h): l0}) == l0
    b, hk = CLOSE(k, v1)
    hh = hk + 1
    b = subst(b, {h: A(kind(h), 'bv', hh)})
    return A(kind(h), 'recat', v0, n, b, hk, keep)


def SREC(inits, n, k, hs, vals):
    """n steps of the simultaneous recurrence hs := vals(hs, k) from inits: a
    structural (uninterpreted but canonical) value for every component"""
    if n == C(0):
        return tuple(inits)
    m = {}
    for j, h in enumerate(hs):
        m[h] = A(kind(h), 'slot', j)
    bs = [subst(v, m) for v in vals]
    hk = 1 + max(height(b) for b in bs)
    back = {A(kind(h), 'slot', j): A(kind(h), 'bv', hk + 1 + j) for j, h in enumerate(hs)}
    back[k] = A('i', 'bv', hk)
    bs = tuple(subst(b, back) for b in bs)
    return tuple(A(kind(h), 'srec', j, n, mk('tup', tuple(inits)), mk('tup', bs), hk) for j, h in enumerate(hs))


def MU(k, c):
    """the first k at which c fails"""
    b, h = CLOSE(k, c)
    return A('i', 'mu', b, h)


VAROPS = {'k', 'head', 'slot', 'bv', 'unk', 'rec', 'uninit'}
_NONE = frozenset()
_vcache = {}


def tvars(t):
    """bound-variable-like atoms occurring in t (cached)"""
    r = _vcache.get(t)
    if r is not None:
        return r
    # iterative post-order, terms can be deep
    stack = [t]
    while stack:
        x = stack[-1]
        if x in _vcache:
            stack.pop()
            continue
        ready = True
        for y in x:
            if isinstance(y, (tuple, frozenset)) and y not in _vcache:
                stack.append(y)
                ready = False
        if not ready:
            continue
        stack.pop()
        sets = [_vcache[y] for y in x if isinstance(y, (tuple, frozenset))]
        sets = [q for q in sets if q]
        if type(x) is T and x[0] == 'a' and x[2] in VAROPS:
            sets.append(frozenset([x]))
        if not sets:
            r = _NONE
        elif len(sets) == 1:
            r = sets[0]
        else:
            r = frozenset().union(*sets)
            for q in sets:
                if len(q) == len(r):
                    r = q
                    break
        _vcache[x] = r
    return _vcache[t]


def subterms(t):
    """every distinct subterm (tuples and frozensets) of t"""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in x:
            if isinstance(y, (tuple, frozenset)) and y not in seen:
                stack.append(y)
    return seen


def atoms(t):
    """all atoms occurring in t (as a set)"""
    return {x for x in subterms(t) if type(x) is T and x[0] == 'a'}


def atoms_of_bool(p):
    """atoms of a boolean term"""
    if p[0] == 'x':
        return {a for m in p[1] for a in m if type(a) is T and a[0] == 'a'}
    if p[0] == 'a':
        return {p}
    return set()


def occurs(a, t):
    """does atom a occur in t"""
    if a[2] in VAROPS:
        return a in tvars(t)
    return a in subterms(t)


def has_op(t, *ops):
    return any(a[2] in ops for a in atoms(t))


def unknowns(t):
    return [a for a in tvars(t) if a[2] == 'unk']


# ---------------------------------------------------------------- rebuild
def subst(t, m, _c=None):
    if _c is None:
        if not m:
            return t
        _c = {}
    need = set()
    for k in m:
        if k[0] == 'a' and k[2] in VAROPS:
            need.add(k)
        else:
            tv = tvars(k)
            if not tv:
                need = None
                break
            # a term that contains k contains k's variables
            need.add(next(iter(tv)))
    return _subst(t, m, _c, need)


def _subst(t, m, c, need):
    if not isinstance(t, (tuple, frozenset)):
        return t
    if t in m:
        return m[t]
    r = c.get(t)
    if r is not None:
        return r
    if need is not None and need.isdisjoint(tvars(t)):
        c[t] = t
        return t
    r = _rebuild(t, lambda x: _subst(x, m, c, need))
    c[t] = r
    return r


def _rebuild(t, f):
    if isinstance(t, frozenset):
        return frozenset(f(x) for x in t)
    if not t:
        return t
    h = t[0]
    if h == 'c':
        return t
    if h == 'x':
        return X(*[AND(*[f(a) for a in mo]) if mo else TRUE for mo in t[1]]) if t[1] else t
    if h == 'z':
        acc = C(0)
        for mo, co in t[1]:
            p = C(co)
            for a, e in mo:
                fa = f(a)
                for _ in range(e):
                    p = MUL(p, fa)
            acc = ADD(acc, p)
        return acc
    if h == 'arr':
        k = A('i', 'k', fresh())
        return ARR(f(t[1]), k, f(OPEN(t, k)))
    if h == 'vec':
        return mk('vec', tuple(f(x) for x in t[1]))
    if h == 'tup':
        return mk('tup', tuple(f(x) for x in t[1]))
    if h == 'cat':
        return CAT(*[f(x) for x in t[1]])
    if h == 'upd':
        return UPD(f(t[1]), f(t[2]), f(t[3]))
    if h == 'mput':
        return MPUT(f(t[1]), f(t[2]), f(t[3]))
    if h == 'mux':
        return MUX(f(t[1]), f(t[2]), f(t[3]))
    if h == 'struct':
        return mk('struct', t[1], tuple((n, f(v)) for n, v in t[2]))
    if h == 'with':
        return WITH(f(t[1]), {n: f(v) for n, v in t[2]})
    if h == 'slice':
        return SLICE(f(t[1]), f(t[2]), f(t[3]))
    if h == 'lput':
        k = A('i', 'k', fresh())
        o = {A('i', 'bv', t[7]): k}
        return LPUT(f(t[1]), f(t[2]), k, f(subst(t[3], o)), f(subst(t[4], o)), f(subst(t[5], o)), t[6])
    if h == 'mapb':
        k = A('i', 'k', fresh())
        o = {A('i', 'bv', t[5]): k}
        return MAPB(f(t[1]), k, f(subst(t[2], o)), f(subst(t[3], o)), f(subst(t[4], o)))
    if h == 'bdd':
        return t
    if h == 'a':
        op = t[2]
        if op == 'len':
            return LEN(f(t[3]))
        if op == 'idx':
            return IDX(f(t[3]), f(t[4]), t[1])
        if op == 'fld':
            return FLD(f(t[3]), t[4], t[1])
        if op == 'at':
            return AT(f(t[3]), f(t[4]), t[1])
        if op == 'has':
            return HAS(f(t[3]), f(t[4]))
        if op == 'key':
            return KEY(f(t[3]), f(t[4]), t[1])
        if op == 'pos':
            return POS(f(t[3]))
        if op == 'eq0':
            return EQ0(f(t[3]))
        if op == 'eq':
            l = list(t[3])
            return EQ(f(l[0]), f(l[1]))
        if op == 'b2i':
            return B2I(f(t[3]))
        if op == 'max':
            return MAXT(*[f(x) for x in t[3]])
        if op == 'lsb':
            return LSB(f(t[3]))
        if op == 'recat':
            k, h = A('i', 'k', fresh()), A(t[1], 'head', fresh())
            body = subst(t[5], {A('i', 'bv', t[6]): k, A(t[1], 'bv', t[6] + 1): h})
            return RECAT(f(t[3]), f(t[4]), k, h, f(body))
        if op == 'mu':
            k = A('i', 'k', fresh())
            return MU(k, f(subst(t[3], {A('i', 'bv', t[4]): k})))
        if op == 'srec':
            k = A('i', 'k', fresh())
            bs = t[6][1]
            hs = [A(kind(i), 'head', fresh()) for i in t[5][1]]
            # kinds of the components are those of their bound variables
            m = {A('i', 'bv', t[7]): k}
            for j in range(len(bs)):
                for kd in 'ibvfo':
                    m[A(kd, 'bv', t[7] + 1 + j)] = A(kd, 'head', hs[j][3])
            ks = []
            for j, i in enumerate(t[5][1]):
                used = [kd for kd in 'ibvfo' if any(occurs(A(kd, 'bv', t[7] + 1 + j), b) for b in bs)]
                ks.append(A(t[1] if j == t[3] else used[0] if used else kind(i), 'head', hs[j][3]))
            return SREC([f(i) for i in t[5][1]], f(t[4]), k, ks, [f(subst(b, m)) for b in bs])[t[3]]
        if op in ('fold', 'any', 'rec'):
            if op == 'fold':
                k = A('i', 'k', fresh())
                body = subst(t[5], {A('i', 'bv', t[6]): k})
                return FOLD(t[3], f(t[4]), k, f(body))
            if op == 'any':
                k = A('i', 'k', fresh())
                body = subst(t[4], {A('i', 'bv', t[5]): k})
                return ANY(f(t[3]), k, f(body))
        if op in ('and', 'or'):
            l = list(t[3])
            return BITOP({'and': '&', 'or': '|'}[op], f(l[0]), f(l[-1]))
        if op in ('shr', 'shl', 'div', 'mod'):
            return BITOP({'shr': '>>', 'shl': '<<', 'div': '/', 'mod': '%'}[op], f(t[3]), f(t[4]))
        return mk(*t[:3], *[f(x) if isinstance(x, (tuple, frozenset)) else x for x in t[3:]])
    r = tuple(f(x) if isinstance(x, (tuple, frozenset)) else x for x in t)
    return mk(*r) if type(t) is T else r


# ---------------------------------------------------------------- sequences
def _len_under(t, env):
    if t[0] == 'a' and t[2] == 'recat':
        l0 = _len_under(t[3], env)
        if l0 is None:
            return None
        e2 = dict(env)
        e2[A('i', 'len', A(t[1], 'bv', t[6] + 1))] = l0
        return l0 if _len_under(t[5], e2) == l0 else None
    l = LEN(t)
    return subst(l, env) if env else l


def LEN(s):
    h = s[0]
    if h == 'vec':
        return C(len(s[1]))
    if h == 'arr':
        return s[1]
    if h == 'cat':
        return ADD(*[LEN(x) for x in s[1]])
    if h == 'upd':
        return LEN(s[1])
    if h == 'lput' and s[6] == 'set':
        return LEN(s[1])
    if h == 'slice':
        return SUB(s[3], s[2])
    if h == 'mux':
        return MUX(s[1], LEN(s[2]), LEN(s[3]))
    if h == 'str':
        return C(len(s[1]))
    if h == 'a' and s[2] == 'resize':
        return s[4]
    if h == 'a' and s[2] == 'newvec':
        return s[3]
    if h == 'mapb' and s[4] == TRUE and (s[2] == A('i', 'bv', s[5]) or s[2][0] == 'a' and s[2][2] == 'key' and s[2][4] == A('i', 'bv', s[5])):
        return s[1]
    if h == 'a' and s[2] == 'flat':
        k = A('i', 'k', 'len of parts', s[5])
        return FOLD('+', s[3], k, LEN(subst(s[4], {A('i', 'bv', s[5]): k})))
    if h == 'a' and s[2] == 'recat' and not s[7]:
        l0 = _len_under(s, {})
        return l0 if l0 is not None else A('i', 'len', s)
    if h == 'a' and s[2] == 'recat' and s[7]:
        return LEN(s[3])
    return A('i', 'len', s)


def decided(p):
    return p in (TRUE, FALSE)


def IDX(s, i, k='o'):
    h = s[0]
    if h == 'vec':
        if i[0] == 'c' and 0 <= i[1] < len(s[1]):
            return s[1][i[1]]
        if i[0] == 'c':
            return A(k, 'undef', s, i)
        if s[1] and all(x == s[1][0] for x in s[1]):
            return s[1][0]
        # select by index
        if len(s[1]) <= 8 and s[1] and i[0] != 'c':
            r = s[1][-1]
            for j in range(len(s[1]) - 2, -1, -1):
                r = MUX(EQ(i, C(j)), s[1][j], r)
            return r
    if h == 'arr':
        if i[0] == 'c' and s[1][0] == 'c' and not 0 <= i[1] < s[1][1]:
            return A(k, 'undef', s, i)
        return OPEN(s, i)
    if h == 'slice':
        return IDX(s[1], ADD(s[2], i), k)
    if h == 'upd':
        e = EQ(s[2], i)
        if e == TRUE:
            return s[3]
        if e == FALSE:
            return IDX(s[1], i, k)
        if s[1][0] == 'vec' and i[0] == 'c':
            return MUX(e, s[3], IDX(s[1], i, k))
    if h == 'mux':
        return MUX(s[1], IDX(s[2], i, k), IDX(s[3], i, k))
    if h == 'cat':
        off = i
        parts = list(s[1])
        for j, p in enumerate(parts):
            l = LEN(p)
            inside = LT(off, l)
            if inside == TRUE or j == len(parts) - 1:
                below = POS(ADD(off, C(1)))
                if inside == TRUE and below == TRUE:
                    return IDX(p, off, k)
                if j == len(parts) - 1 and below == TRUE:
                    return IDX(p, off, k)
                break
            if inside == FALSE:
                off = SUB(off, l)
                continue
            if off[0] == 'a' and off[2] == 'k' or True:
                break
    if h == 'lput' and s[6] == 'set':
        pass
    return A(k, 'idx', s, i)


def UPD(s, i, v):
    if s[0] == 'vec' and i[0] == 'c' and 0 <= i[1] < len(s[1]):
        l = list(s[1])
        l[i[1]] = v
        return mk('vec', tuple(l))
    if s[0] == 'upd':
        e = EQ(s[2], i)
        if e == TRUE:
            return UPD(s[1], i, v)
    if v[0] == 'a' and v[2] == 'idx' and v[3] == s and v[4] == i:
        return s
    if s[0] == 'vec' and 0 < len(s[1]) <= 8 and i[0] != 'c':
        return mk('vec', tuple(MUX(EQ(i, C(j)), v, x) for j, x in enumerate(s[1])))
    return mk('upd', s, i, v)


def CAT(*ss):
    out = []
    for s in ss:
        for p in (s[1] if s[0] == 'cat' else (s,)):
            if p[0] == 'vec' and not p[1]:
                continue
            if p[0] == 'arr' and p[1] == C(0):
                continue
            if out and out[-1][0] == 'vec' and p[0] == 'vec':
                out[-1] = mk('vec', out[-1][1] + p[1])
            elif out and out[-1][0] == 'slice' and p[0] == 'slice' and out[-1][1] == p[1] and out[-1][3] == p[2]:
                out[-1] = SLICE(p[1], out[-1][2], p[3])
            else:
                out.append(p)
    if not out:
        return mk('vec', ())
    if len(out) == 1:
        return out[0]
    return mk('cat', tuple(out))


def SLICE(s, a, b):
    if a == C(0) and b == LEN(s):
        return s
    if s[0] == 'vec' and a[0] == 'c' and b[0] == 'c' and 0 <= a[1] <= b[1] <= len(s[1]):
        return mk('vec', s[1][a[1]:b[1]])
    if a == b:
        return mk('vec', ())
    if s[0] == 'slice':
        return SLICE(s[1], ADD(s[2], a), ADD(s[2], b))
    if s[0] == 'cat':
        off = C(0)
        for j, p in enumerate(s[1]):
            nxt = ADD(off, LEN(p))
            if a == off and b == nxt:
                return p
            off = nxt
        if a == C(0):
            off = C(0)
            for j, p in enumerate(s[1]):
                off = ADD(off, LEN(p))
                if b == off:
                    return CAT(*s[1][:j + 1])
        if b == LEN(s):
            off = C(0)
            for j, p in enumerate(s[1]):
                if a == off:
                    return CAT(*s[1][j:])
                off = ADD(off, LEN(p))
    if s[0] == 'arr':
        k = A('i', 'k', fresh())
        return ARR(SUB(b, a), k, OPEN(s, ADD(a, k)))
    return mk('slice', s, a, b)


def LPUT(base, n, k, guard, idx, val, mode):
    """base after, for k in [0,n) with guard: base[idx] = val"""
    o, h = None, 1 + max(height(guard), height(idx), height(val))
    m = {k: A('i', 'bv', h)}
    return mk('lput', base, n, subst(guard, m), subst(idx, m), subst(val, m), mode, h)


# ---------------------------------------------------------------- maps
def MPUT(m, k, v):
    if m[0] == 'mput' and EQ(m[2], k) == TRUE:
        return mk('mput', m[1], k, v)
    return mk('mput', m, k, v)


def MAPB(n, k, key, val, guard=TRUE):
    h = 1 + max(height(key), height(val), height(guard))
    m = {k: A('i', 'bv', h)}
    return mk('mapb', n, subst(key, m), subst(val, m), subst(guard, m), h)


def AT(m, k, kd='o'):
    if m[0] == 'mput':
        e = EQ(m[2], k)
        if e == TRUE:
            return m[3]
        if e == FALSE:
            return AT(m[1], k, kd)
        return A(kd, 'at', m, k)
    if m[0] == 'mux':
        return MUX(m[1], AT(m[2], k, kd), AT(m[3], k, kd))
    if m[0] == 'emptymap' and kd == 'i':
        return C(0)
    if m[0] == 'mapb':
        bv = A('i', 'bv', m[5])
        kk = m[2]
        if kk == bv:
            return subst(m[3], {bv: k})
        if kk[0] == 'a' and kk[2] == 'key' and kk[4] == bv:
            v = subst(m[3], {kk: k})
            if bv not in tvars(v):
                return v
            if k[0] == 'a' and k[2] == 'key' and k[3] == kk[3]:
                return subst(m[3], {bv: k[4]})
    return A(kd, 'at', m, k)


def KEY(m, j, kd='i'):
    """j-th key of map m in iteration order"""
    if m[0] == 'mapb' and m[4] == TRUE:
        kk = m[2]
        bv = A('i', 'bv', m[5])
        if kk[0] == 'a' and kk[2] == 'key' and kk[4] == bv or kk == bv:
            return subst(kk, {bv: j})
    return A(kd, 'key', m, j)


def HAS(m, k):
    if m[0] == 'mput':
        e = EQ(m[2], k)
        if e == TRUE:
            return TRUE
        return OR(e, HAS(m[1], k))
    if m[0] == 'emptymap':
        return FALSE
    if k[0] == 'a' and k[2] == 'key' and k[3] == m:
        return TRUE
    return A('b', 'has', m, k)


# ---------------------------------------------------------------- records
def FLD(s, f, k='o'):
    h = s[0]
    if h == 'struct':
        for n, v in s[2]:
            if n == f:
                return v
    if h == 'with':
        for n, v in s[2]:
            if n == f:
                return v
        return FLD(s[1], f, k)
    if h == 'tup' and f in ('first', 'second'):
        return s[1][0 if f == 'first' else 1]
    if h == 'tup' and isinstance(f, int) and f < len(s[1]):
        return s[1][f]
    if h == 'mux':
        return MUX(s[1], FLD(s[2], f, k), FLD(s[3], f, k))
    return A(k, 'fld', s, f)


def WITH(s, d):
    if not d:
        return s
    if s[0] == 'struct':
        cur = dict(s[2])
        cur.update(d)
        return mk('struct', s[1], tuple(sorted(cur.items())))
    if s[0] == 'tup':
        l = list(s[1])
        for f, v in d.items():
            j = {'first': 0, 'second': 1}.get(f, f)
            if isinstance(j, int) and j < len(l):
                l[j] = v
        return mk('tup', tuple(l))
    if s[0] == 'with':
        cur = dict(s[2])
        cur.update(d)
        s = s[1]
    else:
        cur = dict(d)
    if 'first' in cur and 'second' in cur and len(cur) == 2:
        return mk('tup', (cur['first'], cur['second']))
    cur = {f: v for f, v in cur.items() if v != FLD(s, f, kind(v))}
    if not cur:
        return s
    return mk('with', s, tuple(sorted(cur.items(), key=lambda x: str(x[0]))))


# ---------------------------------------------------------------- bits
def LSB(t):
    if t[0] == 'x':
        return X(*[_lsbm(m) for m in t[1]]) if t[1] else FALSE
    if t == C(0):
        return FALSE
    return A('b', 'lsb', t)


def _lsbm(m):
    if not m:
        return TRUE
    out = []
    for a in m:
        out.append(a if kind(a) == 'b' else A('b', 'lsb', a))
    return AND(*out)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if isinstance(t, frozenset):
        return '{' + ', '.join(sorted(show(x) for x in t)) + '}'
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    if type(t) is not T:
        return '(' + ', '.join(show(x) for x in t) + ')'
    h = t[0]
    if h == 'c':
        return str(t[1])
    if h == 'x':
        if not t[1]:
            return 'F'
        return ' ^ '.join(sorted(('1' if not m else '&'.join(sorted(show(a) for a in m))) for m in t[1]))
    if h == 'z':
        out = []
        for m, c in t[1]:
            ms = '*'.join(sorted(show(a) + ('^%d' % p if p != 1 else '') for a, p in m))
            out.append(('%d' % c if not ms else (ms if c == 1 else '%d*%s' % (c, ms))))
        return '(' + ' + '.join(sorted(out)) + ')'
    if h == 'a':
        op = t[2]
        if op == 'sym':
            return str(t[3])
        if op == 'k':
            return 'k%s' % t[3]
        if op == 'bv':
            return '#%s' % t[3]
        if op == '*':
            return '*' + show(t[3])
        if op == 'fld':
            b = show(t[3])
            return (b + '.' if b != '*this' else '') + str(t[4])
        if op == 'idx':
            return '%s[%s]' % (show(t[3]), show(t[4]))
        if op == 'b2i':
            return '[%s]' % show(t[3])
        if op == 'pos':
            return '(%s>0)' % show(t[3])
        if op == 'eq0':
            return '(%s==0)' % show(t[3])
        return '%s(%s)' % (op, ', '.join(show(x) for x in t[3:]))
    if h == 'arr':
        return '<#%s in 0..%s: %s>' % (t[3], show(t[1]), show(t[2]))
    if h == 'vec':
        if len(t[1]) > 12:
            return '[' + ', '.join(show(x) for x in t[1][:12]) + ', ... %d]' % len(t[1])
        return '[' + ', '.join(show(x) for x in t[1]) + ']'
    if h == 'struct':
        return t[1].split('::')[-1] + '{' + ', '.join('%s=%s' % (f, show(v)) for f, v in t[2]) + '}'
    if h == 'with':
        return show(t[1]) + '{' + ', '.join('%s:=%s' % (f, show(v)) for f, v in t[2]) + '}'
    if h == 'str':
        return repr(t[1])
    return h + '(' + ', '.join(show(x) for x in t[1:]) + ')'
