"""Canonical form of finite arithmetic.

Terms over single bits and machine integers of bounded width are brought to one
canonical form: a boolean is a reduced ordered decision diagram over the free
single-bit atoms of the term, an integer is the vector of the diagrams of its
bits (two's complement, W bits).  Two expressions compute the same function of
the inputs exactly when their canonical forms are identical.
"""
import terms as T_
from terms import TooBig, A, C, TRUE, FALSE, mk, kind

W = 72
LIMIT = 4000000


def NUMBERED(t):
    """the number of a numbered input of a lemma"""
    ns = [y[1] for x in t[3:] if isinstance(x, tuple) for y in (x if x and isinstance(x[0], tuple) else (x,)) if isinstance(y, tuple) and len(y) == 2 and y[0] == 'c']
    return ns if len(ns) == 1 and 0 <= ns[0] < 60000 else None


class Dd:
    """reduced ordered decision diagrams; a node is an int, 0 = false, 1 = true"""

    def __init__(self):
        self.var = [1 << 40, 1 << 40]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self.cache = {}
        self.vars = {}
        self.names = {}
        self.syms = {}
        self.conv = None

    def node(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.var)
            if n > LIMIT:
                raise TooBig()
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.uniq[k] = n
        return n

    def v(self, name):
        i = self.vars.get(name)
        if i is None:
            i = self.vars[name] = self.rank(name)
            while i in self.names:
                i = self.vars[name] = i + 1
            self.names[i] = name
        return self.node(i, 0, 1)

    def rank(self, name):
        """numbered inputs are ordered by their number, bits of numbers by their position"""
        k, t = 0, name
        if t[0] == 'bit':
            k, t = t[2] + 1, t[1]
        if t[0] == 'a' and t[2] == 'get' and NUMBERED(t):
            n = NUMBERED(t)[0]
            return (k << 24) + (n << 8)
        if k and t[0] == 'a' and t[2] == 'sym':
            # the bits of several numbers interleaved
            n = self.syms.setdefault(t, len(self.syms))
            if n < 5000:
                return (k << 24) + ((60001 + n) << 8)
        return (1 << 36) + (len(self.names) << 4)

    def const(self, b):
        return 1 if b else 0

    def and_(self, a, b):
        if a == b:
            return a
        if a == 0 or b == 0:
            return 0
        if a == 1:
            return b
        if b == 1:
            return a
        if a > b:
            a, b = b, a
        k = (a, b, 0)
        r = self.cache.get(k)
        if r is None:
            va, vb = self.var[a], self.var[b]
            v = min(va, vb)
            a0, a1 = (self.lo[a], self.hi[a]) if va == v else (a, a)
            b0, b1 = (self.lo[b], self.hi[b]) if vb == v else (b, b)
            r = self.cache[k] = self.node(v, self.and_(a0, b0), self.and_(a1, b1))
        return r

    def xor(self, a, b):
        if a == b:
            return 0
        if a == 0:
            return b
        if b == 0:
            return a
        if a > b:
            a, b = b, a
        k = (a, b, 1)
        r = self.cache.get(k)
        if r is None:
            va, vb = self.var[a], self.var[b]
            v = min(va, vb)
            a0, a1 = (self.lo[a], self.hi[a]) if va == v else (a, a)
            b0, b1 = (self.lo[b], self.hi[b]) if vb == v else (b, b)
            r = self.cache[k] = self.node(v, self.xor(a0, b0), self.xor(a1, b1))
        return r

    def neg(self, a):
        return self.xor(a, 1)

    def or_(self, a, b):
        return self.neg(self.and_(self.neg(a), self.neg(b)))

    def ite(self, c, a, b):
        return self.xor(b, self.and_(c, self.xor(a, b)))

    def of(self, n):
        return n

    # ------------------------------------------------------------ term -> dd
    def lift(self, t):
        if self.conv is None:
            self.conv = Conv(self)
        return self.conv.b(t)

    def example(self, n):
        out = {}
        while n > 1:
            if self.lo[n] != 0:
                out[self.names[self.var[n]]] = 0
                n = self.lo[n]
            else:
                out[self.names[self.var[n]]] = 1
                n = self.hi[n]
        return out


class Conv:
    def __init__(self, dd):
        self.dd, self.mb, self.mi, self.mv, self.applied = dd, {}, {}, {}, {}
        self.unknown = []

    def b(self, t):
        r = self.mb.get(t)
        if r is None:
            r = self.mb[t] = self._b(t)
        return r

    def _b(self, t):
        d = self.dd
        h = t[0]
        if h == 'bdd':
            return d.of(t[1])
        if h == 'c':
            return d.const(t[1] != 0)
        if h == 'x':
            if kind(t) != 'b':
                return self.nz(self.i(t))
            return self.poly([(frozenset(d.var[n] for n in ns if self.single(n)), [n for n in ns if not self.single(n)])
                              for ns in ([self.b(a) for a in m] for m in t[1])])
        if h == 'mux':
            return d.ite(self.b(t[1]), self.b(t[2]), self.b(t[3]))
        if h == 'a':
            op = t[2]
            if op == 'eq0':
                if t[3][0] == 'z':
                    p, n = self.parts(t[3])
                    return d.neg(self.nz([d.xor(x, y) for x, y in zip(p, n)]))
                return d.neg(self.nz(self.i(t[3])))
            if op == 'pos':
                v = self.i(t[3])
                return d.and_(d.neg(v[-1]), self.nz(v))
            if op == 'bigand':
                r = self.b(t[4])
                for x in t[3]:
                    r = d.and_(r, self.b(x))
                return r
            if op == 'bigxor':
                r = 0
                for x in t[3]:
                    r = d.xor(r, self.b(x))
                return r
            if op == 'lsb':
                return self.i(t[3])[0]
            if op == 'idx' and t[3][0] == 'vec':
                r = self.table(t[3][1], t[4])
                if r is not None:
                    return self.nz(r)
            if t[1] == 'i':
                return self.nz(self.i(t))
            return d.v(t)
        if h == 'z':
            return self.nz(self.i(t))
        self.unknown.append(t)
        return d.v(t)

    def single(self, n):
        return self.dd.lo[n] == 0 and self.dd.hi[n] == 1

    def poly(self, ms):
        """sum of products: (variables, further factors) each"""
        d = self.dd
        pure, rest = {}, []
        for vs, ns in ms:
            if ns:
                p = 1
                for n in ns:
                    p = d.and_(p, n)
                for v in sorted(vs, reverse=True):
                    p = d.and_(d.node(v, 0, 1), p)
                rest.append(p)
            else:
                pure[vs] = pure.get(vs, 0) ^ 1
        memo = {}

        def split(s):
            if not s:
                return 0
            if len(s) == 1 and not next(iter(s)):
                return 1
            r = memo.get(s)
            if r is None:
                v = min(min(m) for m in s if m)
                lo = frozenset(m for m in s if v not in m)
                up = frozenset(m - {v} for m in s if v in m)
                r = memo[s] = d.node(v, split(lo), split(lo ^ up))
            return r
        rest.append(split(frozenset(m for m, k in pure.items() if k)))
        while len(rest) > 1:
            rest = [d.xor(*rest[i:i + 2]) if i + 1 < len(rest) else rest[i] for i in range(0, len(rest), 2)]
        return rest[0]

    def nz(self, v):
        r = 0
        for x in v:
            r = self.dd.or_(r, x)
        return r

    # ------------------------------------------------------------ 128-bit vectors
    def v(self, t):
        r = self.mv.get(t)
        if r is None:
            r = self.mv[t] = self._v(t)
            assert len(r) == 128
        return r

    def vfree(self, key):
        return [self.dd.v(('bit', key, k)) for k in range(128)]

    def _v(self, t):
        d, h = self.dd, t[0]
        if h == 'c' and t[1] == 0:
            return [0] * 128
        if h == 'x':
            r = [0] * 128
            for m in t[1]:
                p = None
                c = 1
                for a in m:
                    if kind(a) in 'bi':
                        c = d.and_(c, self.b(a))
                    else:
                        v = self.v(a)
                        p = v if p is None else [d.and_(x, y) for x, y in zip(p, v)]
                if p is None:
                    p = [1] + [0] * 127
                r = [d.xor(x, d.and_(c, y)) for x, y in zip(r, p)]
            return r
        if h == 'mux':
            c, a, b = self.b(t[1]), self.v(t[2]), self.v(t[3])
            return [d.ite(c, x, y) for x, y in zip(a, b)]
        if h == 'a' and t[2] == 'fn':
            f = VEC.get(t[3].split('::')[-1])
            if f is not None:
                r = f(self, t[4])
                if r is not None:
                    return r
            if t[3].startswith(('_mm_aes', '__builtin_ia32_aes')):
                key = ('uf', t[3], tuple(tuple(self.v(x)) if kind(x) not in 'bi' else tuple(self.i(x)) for x in t[4]))
                self.applied[key] = t
                return self.vfree(key)
        return self.vfree(t)

    # ------------------------------------------------------------ integers
    def const(self, n):
        return [n >> i & 1 for i in range(W)]

    def add(self, a, b, c=0):
        d, out = self.dd, []
        for x, y in zip(a, b):
            xy = d.xor(x, y)
            out.append(d.xor(xy, c))
            c = d.xor(d.and_(x, y), d.and_(c, xy))
        return out

    def mul(self, a, b):
        r = self.const(0)
        if sum(x != 0 for x in b) > sum(x != 0 for x in a):
            a, b = b, a
        for i, y in enumerate(b):
            if y == 0:
                continue
            r = self.add(r, [0] * i + [self.dd.and_(x, y) for x in a[:W - i]])
        return r

    def sub(self, a, b):
        if all(x == 0 for x in b):
            return a
        return self.add(a, [self.dd.neg(x) for x in b], 1)

    def parts(self, t):
        """the sums of the positive and of the negative terms"""
        r = [self.const(0), self.const(0)]
        for m, c in sorted(t[1], key=lambda mc: (len(mc[0]), abs(mc[1]))):
            p = None
            for a, k in m:
                v = self.i(a)
                for _ in range(k):
                    p = v if p is None else self.mul(p, v)
            p = self.const(abs(c)) if p is None else self.mul(p, self.const(abs(c)))
            r[c < 0] = self.add(r[c < 0], p)
        return r

    def neg(self, a):
        return self.add([self.dd.neg(x) for x in a], self.const(1))

    def i(self, t):
        r = self.mi.get(t)
        if r is None:
            r = self.mi[t] = self._i(t)
            assert len(r) == W
        return r

    def free(self, t):
        """an integer of unknown range: a vector of fresh bits"""
        n, signed = RANGE.get(t) or ((32, True) if t[0] == 'a' and t[2] == 'get' and t[3] == 'spec::Src::num' else (64, False))
        bs = [self.dd.v(('bit', t, k)) for k in range(n)]
        return bs + [bs[-1] if signed else 0] * (W - n)

    def _i(self, t):
        d = self.dd
        h = t[0]
        if h == 'c':
            return self.const(t[1])
        if kind(t) == 'b':
            return [self.b(t)] + [0] * (W - 1)
        if h == 'x':
            r = [0] * W
            for m in t[1]:
                p = None
                for a in m:
                    v = self.i(a)
                    p = v if p is None else [d.and_(x, y) for x, y in zip(p, v)]
                if p is None:
                    p = [1] * W
                r = [d.xor(x, y) for x, y in zip(r, p)]
            return r
        if h == 'z':
            p, n = self.parts(t)
            return self.sub(p, n)
        if h == 'mux':
            c, a, b = self.b(t[1]), self.i(t[2]), self.i(t[3])
            return [d.ite(c, x, y) for x, y in zip(a, b)]
        if h == 'a':
            op = t[2]
            if op == 'b2i':
                return [self.b(t[3])] + [0] * (W - 1)
            if op.startswith('trunc'):
                w, u = int(op[5:-1]), op[-1] == 'u'
                v = self.i(t[3])[:w]
                return v + [0 if u else v[-1]] * (W - w)
            if op in ('and', 'or'):
                f = d.and_ if op == 'and' else d.or_
                r = None
                for a in t[3]:
                    v = self.i(a)
                    r = v if r is None else [f(x, y) for x, y in zip(r, v)]
                return r
            if op == 'max':
                r = None
                for a in t[3]:
                    v = self.i(a)
                    if r is None:
                        r = v
                    else:
                        lt = self.sub(r, v)[-1]
                        r = [d.ite(lt, y, x) for x, y in zip(r, v)]
                return r
            if op in ('shr', 'shl'):
                v, s = self.i(t[3]), t[4]
                if s[0] == 'c':
                    return self.shift(v, op, s[1])
                sv = self.i(s)
                for k in range(7):
                    w = self.shift(v, op, 1 << k)
                    v = [d.ite(sv[k], y, x) for x, y in zip(v, w)]
                return v
            if op == 'idx' and t[3][0] == 'vec':
                r = self.table(t[3][1], t[4])
                if r is not None:
                    return r
            if op == 'fn':
                f = VINT.get(t[3])
                if f is not None:
                    r = f(self, t[4])
                    if r is not None:
                        return r
            return self.free(t)
        self.unknown.append(t)
        return self.free(t)

    def table(self, xs, i):
        """an element of a list, chosen by a number that is always within it"""
        if not 0 < len(xs) <= 1024:
            return None
        d, iv = self.dd, self.i(i)
        n = (len(xs) - 1).bit_length()
        if any(iv[n:]) or self.sub(iv, self.const(len(xs)))[-1] != 1:
            return None
        vs = [self.i(x) for x in xs]
        vs += [vs[-1]] * ((1 << n) - len(vs))
        for k in range(n):
            vs = [[d.ite(iv[k], b, a) if a != b else a for a, b in zip(vs[j], vs[j + 1])] for j in range(0, len(vs), 2)]
        return vs[0]

    def shift(self, v, op, s):
        s = min(s, W)
        if op == 'shl':
            return [0] * s + v[:W - s]
        return v[s:] + [v[-1]] * s


def imm(t):
    return t[1] if t[0] == 'c' else None


def _lanes(w):
    def f(c, a):
        out = []
        for x in reversed(a):
            out += c.i(x)[:w]
        return out if len(out) == 128 else None
    return f


def _same(w):
    return lambda c, a: c.i(a[0])[:w] * (128 // w)


def _rev(w):
    return lambda c, a: _lanes(w)(c, a[::-1])


def _bytes(left):
    def f(c, a):
        n = imm(a[1])
        if n is None:
            return None
        n, v = min(8 * (n & 255), 128), c.v(a[0])
        return [0] * n + v[:128 - n] if left else v[n:] + [0] * n
    return f


def _shift(w, left):
    def f(c, a):
        v, n, out = c.v(a[0]), imm(a[1]), []
        if n is None:
            return None
        n = w if n < 0 else min(n, w)
        for k in range(0, 128, w):
            l = v[k:k + w]
            out += [0] * n + l[:w - n] if left else l[n:] + [0] * n
        return out
    return f


def _zip(w, high):
    def f(c, a):
        x, y, out, o = c.v(a[0]), c.v(a[1]), [], 64 if high else 0
        for k in range(o, o + 64, w):
            out += x[k:k + w] + y[k:k + w]
        return out
    return f


def _shuffle(c, a):
    n, v = imm(a[1]), c.v(a[0])
    if n is None:
        return None
    return [b for k in range(4) for b in v[32 * (n >> 2 * k & 3):][:32]]


def _op(f):
    return lambda c, a: [f(c.dd, x, y) for x, y in zip(c.v(a[0]), c.v(a[1]))]


def _add(w):
    def f(c, a):
        x, y, out = c.v(a[0]), c.v(a[1]), []
        for k in range(0, 128, w):
            z = [0] * (W - w)
            out += c.add(x[k:k + w] + z, y[k:k + w] + z)[:w]
        return out
    return f


def _cmpeq(w):
    def f(c, a):
        x, y, out, d = c.v(a[0]), c.v(a[1]), [], c.dd
        for k in range(0, 128, w):
            e = 1
            for p, q in zip(x[k:k + w], y[k:k + w]):
                e = d.and_(e, d.neg(d.xor(p, q)))
            out += [e] * w
        return out
    return f


VEC = {'_mm_set_epi64x': _lanes(64), '_mm_set_epi32': _lanes(32), '_mm_set_epi16': _lanes(16), '_mm_set_epi8': _lanes(8),
       '_mm_setr_epi32': _rev(32), '_mm_setr_epi16': _rev(16), '_mm_setr_epi8': _rev(8), '_mm_set1_epi64x': _same(64), '_mm_set1_epi32': _same(32),
       '_mm_set1_epi16': _same(16), '_mm_set1_epi8': _same(8), '_mm_setzero_si128': lambda c, a: [0] * 128,
       '_mm_and_si128': _op(lambda d, x, y: d.and_(x, y)), '_mm_or_si128': _op(lambda d, x, y: d.or_(x, y)),
       '_mm_andnot_si128': _op(lambda d, x, y: d.and_(d.neg(x), y)), '_mm_xor_si128': _op(lambda d, x, y: d.xor(x, y)),
       '_mm_shuffle_epi32': _shuffle, '__builtin_ia32_pshufd': _shuffle, '_mm_add_epi64': _add(64), '_mm_add_epi32': _add(32),
       '_mm_cvtsi64_si128': lambda c, a: c.i(a[0])[:64] + [0] * 64,
       '_mm_cmpeq_epi8': _cmpeq(8), '_mm_cmpeq_epi32': _cmpeq(32)}
for _n in ('_mm_slli_si128', '_mm_bslli_si128', '__builtin_ia32_pslldqi128_byteshift'):
    VEC[_n] = _bytes(True)
for _n in ('_mm_srli_si128', '_mm_bsrli_si128', '__builtin_ia32_psrldqi128_byteshift'):
    VEC[_n] = _bytes(False)
for _w in (16, 32, 64):
    VEC['_mm_slli_epi%d' % _w] = _shift(_w, True)
    VEC['_mm_srli_epi%d' % _w] = _shift(_w, False)
for _w in (8, 16, 32, 64):
    VEC['_mm_unpacklo_epi%d' % _w] = _zip(_w, False)
    VEC['_mm_unpackhi_epi%d' % _w] = _zip(_w, True)


def _ext(w, signed=True):
    def f(c, a):
        n = imm(a[1]) if len(a) > 1 else 0
        if n is None:
            return None
        v = c.v(a[0])[w * n:][:w]
        return v + [v[-1] if signed else 0] * (W - w) if len(v) == w else None
    return f


VINT = {'__builtin_ia32_vec_ext_v16qi': _ext(8), '__builtin_ia32_vec_ext_v8hi': _ext(16), '__builtin_ia32_vec_ext_v4si': _ext(32),
        '__builtin_ia32_vec_ext_v2di': _ext(64), '_mm_extract_epi64': _ext(64), '_mm_extract_epi32': _ext(32), '_mm_extract_epi8': _ext(8, False),
        '_mm_extract_epi16': _ext(16, False), '_mm_cvtsi128_si64': _ext(64), '_mm_cvtsi128_si32': _ext(32),
        '_mm_movemask_epi8': lambda c, a: c.v(a[0])[7::8] + [0] * (W - 16), '__builtin_ia32_pmovmskb128': lambda c, a: c.v(a[0])[7::8] + [0] * (W - 16),
        '_mm_testz_si128': lambda c, a: [c.dd.neg(c.nz([c.dd.and_(x, y) for x, y in zip(c.v(a[0]), c.v(a[1]))]))] + [0] * (W - 1)}

RANGE = {}


# ---------------------------------------------------------------- instances
def _sbox():
    p = q = 1
    s = [0] * 256
    while True:
        p = p ^ (p << 1 & 255) ^ (0x1b if p & 128 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 255
        if q & 128:
            q ^= 9
        r = lambda x, k: (x << k | x >> 8 - k) & 255
        s[p] = q ^ r(q, 1) ^ r(q, 2) ^ r(q, 3) ^ r(q, 4) ^ 0x63
        if p == 1:
            break
    s[0] = 0x63
    return s


SBOX = _sbox()
INV = [SBOX.index(k) for k in range(256)]


def gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = a << 1 ^ (0x11b if a & 128 else 0)
        b >>= 1
    return r


def aes(name, args):
    """the block cipher instructions on 16 bytes"""
    n = name.replace('__builtin_ia32_', '').replace('_mm_', '').replace('_si128', '').replace('128', '')
    x = args[0]
    mix = lambda s, m: [gmul(s[c], m[0]) ^ gmul(s[c // 4 * 4 + (c + 1) % 4], m[1]) ^ gmul(s[c // 4 * 4 + (c + 2) % 4], m[2]) ^ gmul(s[c // 4 * 4 + (c + 3) % 4], m[3]) for c in range(16)]
    fwd, bwd = (2, 3, 1, 1), (14, 11, 13, 9)
    if n == 'aeskeygenassist':
        w = [x[4 * k:4 * k + 4] for k in range(4)]
        rc = args[1] & 255
        sub = lambda v: [SBOX[b] for b in v]
        rot = lambda v: v[1:] + v[:1]
        rcx = lambda v: [v[0] ^ rc] + v[1:]
        return sub(w[1]) + rcx(rot(sub(w[1]))) + sub(w[3]) + rcx(rot(sub(w[3])))
    if n == 'aesimc':
        return mix(x, bwd)
    k = args[1]
    if n in ('aesenc', 'aesenclast'):
        s = [SBOX[x[(i + 4 * (i % 4)) % 16]] for i in range(16)]
        s = s if n == 'aesenclast' else mix(s, fwd)
    elif n in ('aesdec', 'aesdeclast'):
        s = [INV[x[(i - 4 * (i % 4)) % 16]] for i in range(16)]
        s = s if n == 'aesdeclast' else mix(s, bwd)
    else:
        return None
    return [a ^ b for a, b in zip(s, k)]


class NoPoint(Exception):
    pass


class Point(Dd):
    """one assignment of the free inputs: every diagram is a constant"""

    def __init__(self, base, rng):
        Dd.__init__(self)
        self.base, self.rng, self.val, self.nodes, self.ufs = base, rng, {}, {}, {}

    def v(self, name):
        if name[0] == 'bit' and name[1][0] == 'uf':
            return self.uf(name[1])[name[2]]
        r = self.val.get(name)
        if r is None:
            r = self.val[name] = self.rng.randrange(2)
        return r

    def uf(self, key):
        args = tuple(tuple(self.of(n) if n > 1 else n for n in a) for a in key[2])
        r = self.ufs.get((key[1], args))
        if r is None:
            num = lambda bs: sum(b << i for i, b in enumerate(bs))
            vs = [[num(a[8 * k:8 * k + 8]) for k in range(16)] if len(a) == 128 else num(a[:32]) for a in args]
            out = aes(key[1], vs)
            if out is None:
                raise NoPoint()
            r = self.ufs[(key[1], args)] = [b >> k & 1 for b in out for k in range(8)]
        return r

    def of(self, n):
        if n < 2:
            return n
        r = self.nodes.get(n)
        if r is None:
            b, path = self.base, []
            m = n
            while m > 1:
                m = b.hi[m] if self.v(b.names[b.var[m]]) else b.lo[m]
            r = self.nodes[n] = m
        return r


def instance(t, base, tries=12):
    """an assignment under which t is false, as {name: bit}; the block cipher instructions act as they are"""
    import random
    rng = random.Random(5)
    for _ in range(tries):
        p = Point(base, rng)
        try:
            if Conv(p).b(t) == 0:
                return p.val
        except NoPoint:
            return None
    return None


def install():
    """let booleans of the evaluation be decision diagrams"""
    T_.BDD = Dd()
    return T_.BDD


def reduce(t):
    """TRUE / FALSE when the canonical form is constant; else (dd, node, example)"""
    d = T_.BDD or Dd()
    c = Conv(d)
    try:
        n = c.b(t)
    except (TooBig, RecursionError):
        return None
    if n == 1:
        return TRUE
    if n == 0:
        return FALSE
    return ('open', d.example(d.neg(n)), c.unknown)
