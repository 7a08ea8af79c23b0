"""Telling two normal forms apart.

Two value-graph terms that are not identical need not denote different values:
the normal form is not complete for recurrences, conditional sequences and the
like.  Before a difference is reported, both terms are instantiated: every free
atom (input, result of a call left abstract, length of an input sequence) gets
an arbitrary value, consistently on both sides, and the interpreted part of the
terms (arithmetic, sequences, folds, recurrences, maps) is reduced.  Different
results refute the equality of the terms; equal results on every instance leave
the question undecided.  Only terms of the analysis are reduced; the analysed
program is never run.
"""
import hashlib
import sys
import terms as T_
from terms import FALSE, TRUE, C


class Discard(Exception):
    pass


OPAQUE = {'unk', 'rec', 'prefix', 'uninit', 'cap', 'region', 'slot'}
BUDGET = 60000
DEBUG = False


def dig(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


class Obj:
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return 'Obj(%s)' % self.key.hex()

    def __eq__(self, o):
        return isinstance(o, Obj) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


class Lst:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)


class Rcd:
    __slots__ = ('base', 'd')

    def __init__(self, base, d):
        self.base, self.d = base, d


class Map:
    __slots__ = ('base', 'keys', 'd')

    def __init__(self, base, keys, d):
        self.base, self.keys, self.d = base, keys, d


class World:
    """one instance: arbitrary but consistent values for the free atoms"""

    def __init__(self, seed, dom=None, learned=None, consts=()):
        self.seed, self.dom = seed, dom
        # every fifth instance is sized around a constant of the terms
        self.near = consts[self.h('C') % len(consts)] if consts and seed % 5 == 4 else None
        self.memo, self.left = {}, BUDGET if self.near is None else 6 * BUDGET
        # what is known of the shape of opaque objects: sequence? kind of elements
        self.isseq, self.ek = learned or (set(), {})
        self.mode = seed % 4
        self.symval = {}

    # ---------------------------------------------------------- free values
    def h(self, *x):
        return int.from_bytes(hashlib.blake2b(repr((self.seed,) + x).encode(), digest_size=8).digest(), 'little')

    def num(self, key):
        h = self.h('n', key)
        r = h & 7
        h >>= 3
        if self.near is not None and r < 6:
            return max(0, self.near + h % 3 - 1) if r < 3 else h % (2 * self.near + 2)
        if self.mode == 0:
            return h % 3
        if r < 4:
            return h % 4
        if r < 6:
            return h % 19
        return h % (1 << 20)

    def length(self, key):
        if self.near is not None:
            k = self.h('L') % 5
            return max(0, (self.near - 1, self.near, self.near + 1, 2 * self.near, 2 * self.near + 1)[k])
        if self.mode in (0, 1):
            return self.h('L') % 4 if self.mode == 1 else 1 + self.h('L') % 3
        if self.mode == 2:
            return self.h('l', key) % 4
        return self.h('l', key) % 3

    def toint(self, v):
        if isinstance(v, int):
            return v
        if isinstance(v, Obj):
            return self.num(v.key)
        raise Discard()

    def tobool(self, v):
        if isinstance(v, int):
            if v not in (0, 1):
                return 1 if v else 0
            return v
        if isinstance(v, Obj):
            return self.h('b', v.key) & 1
        raise Discard()

    def typed(self, o, kd):
        if kd == 'b':
            return self.tobool(o)
        if kd == 'i':
            return self.toint(o)
        if kd == 'v':
            return self.toint(o) if isinstance(o, int) else self.h('v', o.key) if isinstance(o, Obj) else o
        return o

    def elem(self, o, j):
        e = Obj(dig(('idx', o.key, j)))
        kd = self.ek.get('any') if False else self.ek.get(self.root(o))
        return self.typed(e, kd) if kd else e

    def root(self, o):
        return o.key

    def seq(self, v):
        if isinstance(v, Lst):
            return v.v
        if isinstance(v, Obj):
            self.isseq.add(v.key)
            return tuple(self.elem(v, j) for j in range(self.length(v.key)))
        raise Discard()

    # ---------------------------------------------------------- canonical form
    def canon(self, v):
        if isinstance(v, int):
            return v
        if isinstance(v, Obj):
            if v.key in self.isseq:
                return ('L',) + tuple(self.canon(x) for x in self.seq(v))
            return v.key
        if isinstance(v, Lst):
            return ('L',) + tuple(self.canon(x) for x in v.v)
        if isinstance(v, Rcd):
            return ('R', self.canon(v.base) if v.base is not None else None, tuple(sorted((str(f), repr(self.canon(x))) for f, x in v.d.items())))
        if isinstance(v, Map):
            return ('M', self.canon(v.base) if v.base is not None else None, tuple(sorted((repr(self.canon(k)), repr(self.canon(x))) for k, x in v.d.items())))
        return v

    def equal(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, int) or isinstance(b, int):
            if not isinstance(a, int):
                a, b = b, a
            if isinstance(b, Obj):
                return self.toint(b) == a or a in (0, 1) and self.tobool(b) == a or self.h('v', b.key) == a
            return False
        if isinstance(a, Obj) and isinstance(b, Obj):
            return a.key == b.key or self.canon(a) == self.canon(b)
        if isinstance(a, Lst) or isinstance(b, Lst):
            if isinstance(a, (Lst, Obj)) and isinstance(b, (Lst, Obj)):
                x, y = self.seq(a), self.seq(b)
                return len(x) == len(y) and all(self.equal(p, q) for p, q in zip(x, y))
            return False
        if isinstance(a, Rcd) or isinstance(b, Rcd):
            if isinstance(a, (Rcd, Obj)) and isinstance(b, (Rcd, Obj)):
                pf = {'first': 0, 'second': 1}
                fs = {pf.get(f, f) for x in (a, b) if isinstance(x, Rcd) for f in x.d}
                if not all(self.equal(self.fld(a, f), self.fld(b, f)) for f in fs):
                    return False
                ba = a.base if isinstance(a, Rcd) else a
                bb = b.base if isinstance(b, Rcd) else b
                if ba is None or bb is None:
                    return True
                return ba.key == bb.key
            return False
        if isinstance(a, Map) or isinstance(b, Map):
            if isinstance(a, (Map, Obj)) and isinstance(b, (Map, Obj)):
                a, b = self.asmap(a), self.asmap(b)
                if len(a.keys) != len(b.keys):
                    return False
                for k in a.keys:
                    kb = self.findkey(b, k)
                    if kb is None or not self.equal(a.d[self.ck(k)], b.d[kb]):
                        return False
                return True
            return False
        return self.canon(a) == self.canon(b)

    # ---------------------------------------------------------- records, maps
    def fld(self, o, f, kd=None):
        if isinstance(o, Rcd):
            if f in o.d:
                return o.d[f]
            for g in ({'first': (0,), 'second': (1,), 0: ('first',), 1: ('second',)}.get(f) or ()):
                if g in o.d:
                    return o.d[g]
            if o.base is None:
                raise Discard()
            o = o.base
        if isinstance(o, Obj):
            f = {0: 'first', 1: 'second'}.get(f, f)
            e = Obj(dig(('fld', o.key, f)))
            return self.typed(e, kd) if kd else e
        if isinstance(o, Lst) and isinstance(f, int) and f < len(o.v):
            return o.v[f]
        raise Discard()

    def ck(self, k):
        return repr(self.canon(k))

    def asmap(self, m):
        if isinstance(m, Map):
            return m
        if isinstance(m, Obj):
            n = self.length(m.key)
            ks, at = [], self.h('mk', m.key) % 3
            for j in range(n):
                ks.append(at)
                at += 1 + self.h('mk', m.key, j) % 2
            kk = self.ek.get(('key', m.key))
            if kk == 'o':
                ks = [Obj(dig(('key', m.key, j))) for j in range(n)]
            return Map(m, ks, {self.ck(k): Obj(dig(('at', m.key, self.ck(k)))) for k in ks})
        raise Discard()

    def findkey(self, m, k):
        c = self.ck(k)
        if c in m.d:
            return c
        for q in m.keys:
            if not (isinstance(q, int) and isinstance(k, int)) and self.equal(q, k):
                return self.ck(q)
        return None

    # ---------------------------------------------------------- evaluation
    def ev(self, t, env):
        self.left -= 1
        if self.left < 0:
            raise Discard()
        bvs = [v for v in T_.tvars(t) if v[2] == 'bv'] if env else ()
        if bvs:
            mk = (t, tuple(sorted((v[3], self.ck(env[v[3]])) for v in bvs if v[3] in env)))
        else:
            mk = (t, None)
        if mk in self.memo:
            r = self.memo[mk]
            if r is Discard:
                raise Discard()
            return r
        try:
            r = self.ev1(t, env)
        except Discard:
            self.memo[mk] = Discard
            raise
        self.memo[mk] = r
        return r

    def int(self, t, env):
        return self.toint(self.ev(t, env))

    def bool(self, t, env):
        return self.tobool(self.ev(t, env))

    def count(self, t, env):
        n = self.int(t, env)
        if n > 400:
            raise Discard()
        return max(n, 0)

    def mono(self, m, env):
        """value of a conjunction, conditions first"""
        conds = [a for a in m if T_.kind(a) == 'b']
        rest = [a for a in m if T_.kind(a) != 'b']
        for a in sorted(conds, key=T_.height):
            if not self.bool(a, env):
                return None
        r = None
        for a in rest:
            v = self.ev(a, env)
            v = v if isinstance(v, int) else self.typed(v, 'v' if T_.kind(a) == 'v' else 'i')
            r = v if r is None else r & v
        return 1 if r is None else r

    def ev1(self, t, env):
        h = t[0]
        if h == 'c':
            return t[1]
        if h == 'x':
            acc = 0
            for m in t[1]:
                v = self.mono(m, env)
                if v is not None:
                    acc ^= v
            return acc
        if h == 'z':
            acc = 0
            for m, co in t[1]:
                p = co
                # conditions first: a product that is zero needs no other factor
                for a, e in sorted(m, key=lambda x: (x[0][0] != 'a' or x[0][2] != 'b2i', T_.height(x[0]))):
                    p *= self.int(a, env) ** e
                    if p == 0:
                        break
                acc += p
            return acc
        if h == 'vec':
            return Lst(self.ev(x, env) for x in t[1])
        if h == 'tup':
            return Rcd(None, {j: self.ev(x, env) for j, x in enumerate(t[1])})
        if h == 'arr':
            n = self.count(t[1], env)
            out = []
            for j in range(n):
                out.append(self.ev(t[2], {**env, t[3]: j}))
            return Lst(out)
        if h == 'cat':
            out = ()
            for x in t[1]:
                out += self.seq(self.ev(x, env))
            return Lst(out)
        if h == 'upd':
            i = self.int(t[2], env)
            s = self.seq(self.ev(t[1], env))
            if not 0 <= i < len(s):
                return Obj(dig(('oob', self.canon(Lst(s)), i)))
            return Lst(s[:i] + (self.ev(t[3], env),) + s[i + 1:])
        if h == 'slice':
            a, b = self.int(t[2], env), self.int(t[3], env)
            s = self.seq(self.ev(t[1], env))
            if not 0 <= a <= b <= len(s):
                return Obj(dig(('oobs', self.canon(Lst(s)), a, b)))
            return Lst(s[a:b])
        if h == 'mux':
            return self.ev(t[2] if self.bool(t[1], env) else t[3], env)
        if h == 'struct':
            return Rcd(None, {f: self.ev(v, env) for f, v in t[2]})
        if h == 'with':
            b = self.ev(t[1], env)
            d = {}
            if isinstance(b, Rcd):
                d = dict(b.d)
                b = b.base
            for f, v in t[2]:
                d[f] = self.ev(v, env)
            return Rcd(b, d)
        if h == 'mput':
            m = self.asmap(self.ev(t[1], env))
            k, v = self.ev(t[2], env), self.ev(t[3], env)
            c = self.findkey(m, k)
            d = dict(m.d)
            ks = m.keys
            if c is None:
                c = self.ck(k)
                ks = sorted(ks + [k]) if all(isinstance(q, int) for q in ks + [k]) else ks + [k]
            d[c] = v
            return Map(m.base, ks, d)
        if h == 'emptymap':
            return Map(None, [], {})
        if h == 'mapb':
            n = self.count(t[1], env)
            m = Map(None, [], {})
            for j in range(n):
                e = {**env, t[5]: j}
                if not self.bool(t[4], e):
                    continue
                k, v = self.ev(t[2], e), self.ev(t[3], e)
                d = dict(m.d)
                c = self.findkey(m, k)
                ks = m.keys
                if c is None:
                    c = self.ck(k)
                    ks = sorted(ks + [k]) if all(isinstance(q, int) for q in ks + [k]) else ks + [k]
                d[c] = v
                m = Map(None, ks, d)
            return m
        if h == 'lput':
            base = self.ev(t[1], env)
            n = self.count(t[2], env)
            if t[6] != 'set':
                raise Discard()
            s = list(self.seq(base))
            for j in range(n):
                e = {**env, t[7]: j}
                if not self.bool(t[3], e):
                    continue
                i = self.int(t[4], e)
                if not 0 <= i < len(s):
                    return Obj(dig(('oobl', self.canon(base), i)))
                s[i] = self.ev(t[5], e)
            return Lst(s)
        if h == 'a':
            return self.atom(t, env)
        return Obj(dig((h,) + self.args(t[1:], env)))

    def args(self, xs, env):
        out = []
        for x in xs:
            if type(x) is T_.T:
                out.append(self.canon(self.ev(x, env)))
            elif isinstance(x, tuple):
                out.append(self.args(x, env))
            elif isinstance(x, frozenset):
                out.append(tuple(sorted(repr(q) for q in self.args(tuple(x), env))))
            else:
                out.append(x)
        return tuple(out)

    def atom(self, t, env):
        kd, op = t[1], t[2]
        if op == 'bv':
            if t[3] not in env:
                raise Discard()
            v = env[t[3]]
            return self.typed(v, kd) if kd in 'bi' and not isinstance(v, int) else v
        if op in OPAQUE:
            raise Discard()
        if op == 'len':
            v = self.ev(t[3], env)
            if isinstance(v, Lst):
                return len(v.v)
            if isinstance(v, Map):
                return len(v.keys)
            if isinstance(v, Obj):
                return self.length(v.key)
            raise Discard()
        if op == 'idx':
            i = self.int(t[4], env)
            s = self.ev(t[3], env)
            if isinstance(s, Obj):
                self.isseq.add(s.key)
                if kd in 'biv':
                    self.ek[s.key] = kd
                if i < 0 or i >= self.length(s.key):
                    return self.typed(Obj(dig(('oob', s.key, i))), kd)
                return self.typed(self.elem(s, i), kd)
            s = self.seq(s)
            if 0 <= i < len(s):
                return self.typed(s[i], kd) if kd in 'bi' else s[i]
            return self.typed(Obj(dig(('oob', self.canon(Lst(s)), i))), kd)
        if op == 'fld':
            return self.typed(self.fld(self.ev(t[3], env), t[4], kd if kd in 'bi' else None), kd)
        if op == 'at':
            m = self.asmap(self.ev(t[3], env))
            k = self.ev(t[4], env)
            c = self.findkey(m, k)
            if c is None:
                return self.typed(Obj(dig(('absent', self.canon(m), self.ck(k)))), kd)
            return self.typed(m.d[c], kd)
        if op == 'has':
            m = self.asmap(self.ev(t[3], env))
            return 1 if self.findkey(m, self.ev(t[4], env)) is not None else 0
        if op == 'key':
            m = self.ev(t[3], env)
            if isinstance(m, Obj) and kd == 'o':
                self.ek[('key', m.key)] = 'o'
            m = self.asmap(m)
            j = self.int(t[4], env)
            if not 0 <= j < len(m.keys):
                return self.typed(Obj(dig(('oobk', self.canon(m), j))), kd)
            return m.keys[j]
        if op == 'pos':
            return 1 if self.int(t[3], env) > 0 else 0
        if op == 'eq0':
            return 1 if self.int(t[3], env) == 0 else 0
        if op == 'eq':
            l = [self.ev(x, env) for x in t[3]]
            return 1 if self.equal(l[0], l[-1]) else 0
        if op == 'b2i':
            return self.bool(t[3], env)
        if op == 'bool' and len(t) == 4:
            v = self.ev(t[3], env)
            return (1 if v else 0) if isinstance(v, int) else self.h('nn', repr(self.canon(v))) & 1
        if op == 'max':
            return max(self.int(x, env) for x in t[3])
        if op == 'lsb':
            v = self.ev(t[3], env)
            return (v if isinstance(v, int) else self.typed(v, 'v')) & 1
        if op == 'fold':
            n = self.count(t[4], env)
            acc = 0
            for j in range(n):
                v = self.ev(t[5], {**env, t[6]: j})
                v = self.typed(v, 'i') if not isinstance(v, int) else v
                acc = acc ^ v if t[3] == '^' else acc + v
            return acc
        if op == 'any':
            n = self.count(t[3], env)
            return 1 if any(self.bool(t[4], {**env, t[5]: j}) for j in range(n)) else 0
        if op == 'flat':
            n = self.count(t[3], env)
            out = ()
            for j in range(n):
                out += self.seq(self.ev(t[4], {**env, t[5]: j}))
            return Lst(out)
        if op == 'recat':
            v, n = self.ev(t[3], env), self.count(t[4], env)
            for j in range(n):
                v = self.ev(t[5], {**env, t[6]: j, t[6] + 1: v})
            return v
        if op == 'srec':
            j, n, hk = t[3], self.count(t[4], env), t[7]
            vs = [self.ev(x, env) for x in t[5][1]]
            for i in range(n):
                e = {**env, hk: i}
                for q, v in enumerate(vs):
                    e[hk + 1 + q] = v
                vs = [self.ev(b, e) for b in t[6][1]]
            return vs[j]
        if op == 'mu':
            for j in range(400):
                if not self.bool(t[3], {**env, t[4]: j}):
                    return j
            raise Discard()
        if op in ('and', 'or'):
            l = [self.int(x, env) for x in t[3]]
            r = l[0]
            for x in l[1:]:
                r = r & x if op == 'and' else r | x
            return r
        if op == 'bigand':
            return 1 if all(self.bool(x, env) for y in t[3:] for x in (y if isinstance(y, frozenset) else (y,))) else 0
        if op in ('shr', 'shl', 'div', 'mod'):
            a, b = self.int(t[3], env), self.int(t[4], env)
            if op in ('shr', 'shl'):
                if not 0 <= b < 64 or a < 0:
                    raise Discard()
                return a >> b if op == 'shr' else a << b
            if b == 0:
                raise Discard()
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if op == 'div' else a - q * b
        if op.startswith('trunc'):
            w, u = int(op[5:-1]), op[-1] == 'u'
            v = self.int(t[3], env) & ((1 << w) - 1)
            return v if u or v < 1 << (w - 1) else v - (1 << w)
        if op == 'newvec' and len(t) >= 5:
            n = self.count(t[3], env)
            return Lst([self.ev(t[4], env)] * n)
        if op == 'resize' and len(t) >= 6:
            s, n = self.seq(self.ev(t[3], env)), self.count(t[4], env)
            return Lst(s[:n] + (self.ev(t[5], env),) * (n - len(s)))
        # everything else is an uninterpreted function of its operands
        if kd == 'i' and self.dom is not None:
            d = self.dom(t)
            if d:
                l = sorted(d)
                return l[self.h('d', dig((op,) + self.args(t[3:], env))) % len(l)]
        o = Obj(dig((op,) + self.args(t[3:], env)))
        return self.typed(o, kd) if kd in 'biv' else o


def constants(ts):
    out, seen, work = set(), set(), list(ts)
    while work:
        t = work.pop()
        if isinstance(t, int) and not isinstance(t, bool):
            if 3 < abs(t) <= 128:
                out.add(abs(t))
        elif isinstance(t, (tuple, frozenset)):
            if id(t) in seen:
                continue
            seen.add(id(t))
            if type(t) is T_.T and t[0] == 'a' and t[2] == 'bv':
                continue
            if type(t) is T_.T and t[0] == 'a' and t[2] in ('srec', 'recat', 'fold', 'flat', 'any', 'mu'):
                # binder numbers are not constants of the program
                work.extend(x for x in t[3:] if not isinstance(x, int))
                continue
            if type(t) is T_.T and t[0] in ('arr', 'lput', 'mapb'):
                work.extend(x for x in t[1:] if not isinstance(x, int))
                continue
            work.extend(t)
    return tuple(sorted(out))


def differ(a, b, facts=(), trials=160, dom=None, want=1):
    """True when an instance that satisfies the facts gives a and b different
    values; False when none of at least a few instances does; None when too few
    could be reduced"""
    return witness([(a, b)], facts, trials, dom)


def witness(pairs, facts=(), trials=160, dom=None):
    done = 0
    lim = max(20, trials)
    consts = constants([x for p in pairs for x in p])
    if consts:
        lim *= 2
    learned = (set(), {})
    for s in range(lim):
        for rep in (0, 1) if s < 4 else (1,):
            w = World(s, dom, learned, consts)
            try:
                if not all(w.bool(f, {}) for f in facts):
                    break
                r = [(w.ev(a, {}), w.ev(b, {})) for a, b in pairs]
                ok = all(w.equal(x, y) for x, y in r)
            except (Discard, RecursionError):
                if DEBUG:
                    import traceback
                    print('discard', s, [x.lineno for x in traceback.extract_tb(sys.exc_info()[2])][-3:])
                break
            if rep == 0:
                continue
            done += 1
            if not ok:
                # the shapes learned on the way must not have caused it
                w = World(s, dom, learned, consts)
                try:
                    if all(w.bool(f, {}) for f in facts) and not all(w.equal(w.ev(a, {}), w.ev(b, {})) for a, b in pairs):
                        return True
                except (Discard, RecursionError):
                    pass
        if done >= (150 if consts else 60):
            break
    return False if done >= 3 else None


def holds_somewhere(p, facts=(), trials=160, dom=None):
    """is there an instance satisfying the facts in which p holds"""
    return witness([(p, FALSE)], facts, trials, dom)
