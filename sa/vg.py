"""Value-flow analysis: abstract interpretation of the type-checked program in
the domain of value-graph terms (terms.py).

One forward pass over every statement of a function (callees defined in the
repository are analysed in context, loops are summarised in closed form, the
two sides of a branch are joined with a gating term).  The result is the value
every location has on exit, plus the ordered list of guarded effects (calls
that leave the analysed code, throws, lock operations).  Nothing is executed
and no path is enumerated or handed to a solver.
"""
import re

from terms import *
import terms as T_
from terms import _rebuild
import ctype as ct
from db import strip_targs


class Unsupported(Exception):
    pass


class Eff:
    __slots__ = ('g', 'op', 'a', 'res', 'site')

    def __init__(self, g, op, a, res=None, site=''):
        self.g, self.op, self.a, self.res, self.site = g, op, a, res, site

    def __repr__(self):
        g = '' if self.g == TRUE else '[%s] ' % show(self.g)
        if self.op == 'call':
            q, recv, args = self.a
            return '%s%s%s(%s)' % (g, (show(recv) + ' . ') if recv is not None else '', q, ', '.join(show(x) for x in args))
        if self.op == 'loop':
            n, k, body = self.a
            return '%sloop %s<%s {%s}' % (g, show(k), show(n), '; '.join(map(repr, body)))
        return '%s%s %s' % (g, self.op, self.a if isinstance(self.a, str) else (show(self.a) if self.a is not None else ''))


class Frame:
    def __init__(self, fn, tu, this, env=None):
        self.fn, self.tu, self.this = fn, tu, this
        self.env = env if env is not None else {}
        self.live = TRUE
        self.rets = []
        self.thrown = False
        self.loops = []
        self.locks = []
        self.dead = {}      # numbering of the events on paths that have left


class Lam:
    def __init__(self, node, env, this, tu, fn):
        self.node, self.env, self.this, self.tu, self.fn = node, env, this, tu, fn


class Store(dict):
    pass


NULL = mk('null')
VOID = mk('void')
EMPTY = mk('vec', ())
EMPTYMAP = mk('emptymap')


def UNK(why, kd='o', *deps):
    return A(kd, 'unk', why, *deps)


def unk_in(t):
    return sorted({a[3] for a in tvars(t) if a[2] in ('unk', 'rec')})


def prefix_fold(op, k, d):
    """sum of d over the iterations before k"""
    if op == '+' and not occurs(k, d):
        return MUL(d, k)
    k2 = A('i', 'k', fresh())
    return FOLD(op, k, k2, subst(d, {k: k2}))


class Eval:
    def __init__(self, db, opaque=(), hooks=None, dyn=None, inline_depth=40, recursion=0, max_unroll=300, ext_pure=(), calm=False):
        self.db = db
        self.opaque = [re.compile(o + r'\Z') for o in opaque]
        self.hooks = hooks or {}
        self.dyn = dyn or {}
        self.max_unroll = max_unroll
        self.calm = calm      # only what is evaluated can throw
        self.recursion = recursion
        self.depth = inline_depth
        self.store = Store()
        self.cls = {}
        self.eff = []
        self.g = []
        self.frames = []
        self.ords = {}
        self.lams = {}
        self.loopk = ()
        self.notes = []
        self.setlocs = set()
        self.nroot = 0
        self.analysed = set()
        self.order = []
        self.ltype = {}
        self.constg = set()
        self.gval = {}
        self.steps = 0
        self.budget = 4000000
        self._opq = {}
        self.trace_puts = False   # record sequence element writes as 'put' effects
        self.assume = []     # (cond) facts that hold after `if (!cond) throw`

    # ---------------------------------------------------------------- basics
    def unk(self, why, kd='o', node=None):
        f = self.frames[-1].fn if self.frames else None
        w = '%s @%s:%s' % (why, f.q.split('::')[-1] if f else '?', node[1] if node else '?')
        self.notes.append(w)
        return UNK(w, kd)

    def ty(self, i):
        if i is None or i < 0:
            return '?'
        return self.frames[-1].tu.types[i]

    def newroot(self, tag='T', val=None, cls=None):
        self.nroot += 1
        r = (tag, self.nroot)
        if val is not None:
            self.store[r] = val
        if cls:
            self.cls[r] = cls
        return r

    def temp(self, val, cls=None):
        return (self.newroot('T', val, cls), ())

    def assuming(self, live, c):
        """c holds from here on if control is here"""
        g = live
        for x in self.g:
            g = AND(g, x)
        self.assume.append(OR(NOT(g), c))

    def guard(self):
        g = self.frames[-1].live if self.frames else TRUE
        for x in self.g:
            g = AND(g, x)
        return g

    def effect(self, op, a, res=None, node=None):
        f = self.frames[-1].fn if self.frames else None
        site = '%s:%s' % (f.file, node[1] if node else f.line) if f else ''
        e = Eff(self.guard(), op, a, res, site)
        if e.g != FALSE:
            self.eff.append(e)
        return e

    # ---------------------------------------------------------------- store
    def root_init(self, root):
        if root[0] == 'H':
            p = root[1]
            return A('o', '*', p)
        if root[0] == 'G':
            return self.gval.get(root) or A('o', 'glob', root[1])
        return A('o', 'undef', repr(root))

    def rd_root(self, root):
        v = self.store.get(root)
        if v is None:
            v = self.root_init(root)
        return v

    def step(self, v, s, kd):
        if s[0] == 'f':
            if v[0] == 'a' and v[2] == 'unk':
                return UNK(v[3], kd)
            return FLD(v, s[1], kd)
        if s[0] == 'i':
            return IDX(v, s[1], kd)
        if s[0] == 'k':
            return AT(v, s[1], kd)
        if s[0] == 'pair':
            return mk('tup', (s[1], AT(v, s[1], 'o')))
        raise Unsupported(s)

    def unpair(self, path):
        out, i = [], 0
        while i < len(path):
            if path[i][0] == 'pair' and i + 1 < len(path) and path[i + 1] == ('f', 'second'):
                out.append(('k', path[i][1]))
                i += 2
            else:
                out.append(path[i])
                i += 1
        return tuple(out)

    def rd(self, loc, kd='o'):
        root, path = loc
        path = self.unpair(path)
        v = self.rd_root(root)
        for n, s in enumerate(path):
            last = n == len(path) - 1
            if self.check_bounds and s[0] == 'i':
                self.bounds(v, s[1])
            v = self.step(v, s, kd if last else 'o')
        if not path and kd != 'o' and v[0] == 'a' and v[1] == 'o' and v[2] in ('*', 'undef', 'glob'):
            v = mk(*(v[:1] + (kd,) + v[2:]))
        return v

    def _wr(self, v, path, val):
        if not path:
            return val
        s = path[0]
        if s[0] == 'f':
            inner = self._wr(FLD(v, s[1], 'o') if len(path) > 1 else VOID, path[1:], val)
            return WITH(v, {s[1]: inner})
        if s[0] == 'i':
            inner = self._wr(IDX(v, s[1], 'o') if len(path) > 1 else VOID, path[1:], val)
            return UPD(v, s[1], inner)
        if s[0] == 'k':
            inner = self._wr(AT(v, s[1], 'o') if len(path) > 1 else VOID, path[1:], val)
            return MPUT(v, s[1], inner)
        raise Unsupported(s)

    def wr(self, loc, val):
        root, path = loc
        f = self.frames[-1] if self.frames else None
        if f is not None and f.live == FALSE:
            return
        if path and path[-1][0] == 'pair':
            # whole (key, value) element of a map
            path = path[:-1] + (('k', path[-1][1]),)
            val = FLD(val, 'second')
        path = self.unpair(path)
        if self.trace_puts and path and path[-1][0] == 'i':
            self.put_effect(root, path, val)
        if self.check_bounds:
            self.wbounds(root, path)
        self.store[root] = self._wr(self.rd_root(root), path, val)

    check_bounds = False
    exact = False       # integers wrap around, loops with a bound that depends on the data are written out

    def bounds(self, v, i):
        """an access outside a sequence of known length counts as a refusal"""
        if i[0] != 'c' or v[0] not in ('vec', 'arr', 'upd', 'cat', 'slice'):
            return
        n = LEN(v)
        if n[0] == 'c' and not 0 <= i[1] < n[1] and not self.quiet_bounds:
            self.effect('throw', (mk('str', 'out of range'),))

    quiet_bounds = 0

    def wbounds(self, root, path):
        v = self.rd_root(root)
        for s in path:
            if s[0] == 'i':
                self.bounds(v, s[1])
            if s[0] not in 'fi':
                break
            v = self.step(v, s, 'o')

    def put_effect(self, root, path, val):
        self.effect('put', (repr(root) if root[0] != 'this' else 'this',
                            mk('tup', tuple(s[1] if s[0] != 'f' else A('o', 'step', s[1]) for s in path)), val))

    def ptr(self, loc):
        return mk('ptr', loc[0], loc[1])

    def deref(self, p, cls=None):
        """location a pointer value designates"""
        if p[0] == 'ptr':
            if p[2] and p[2][-1][0][0] == 'm':
                base = p[2][:-1]
                key = KEY(self.rd((p[1], base)), p[2][-1][1], p[2][-1][0][1])
                if (p[1], base) in self.setlocs:
                    return self.temp(key)
                return (p[1], base + (('pair', key),))
            return (p[1], p[2])
        if p[0] == 'mux':
            # both sides known: read-only merge into a temporary
            a, b = self.deref(p[2]), self.deref(p[3])
            t = self.temp(MUX(p[1], self.rd(a), self.rd(b)))
            self.muxlocs = getattr(self, 'muxlocs', {})
            self.muxlocs[t[0]] = (p[1], a, b)
            return t
        if p[0] in ('null', 'void'):
            return (('H', self.unk('null deref')), ())
        if p[0] == 'mit':
            return (p[1], p[2] + (('pair', p[3]),))
        return (('H', p), ())

    # ---------------------------------------------------------------- entry
    def run(self, fn, this=None, args=None, cls=None, argkinds=None):
        """analyse fn from symbolic arguments; returns the return value"""
        if fn.c and not fn.d.get('static') and this is None:
            this = (('this', fn.c), ())
            self.store.setdefault(this[0], A('o', 'sym', '*this'))
            self.cls.setdefault(this[0], cls or fn.c)
        argv = []
        for i, p in enumerate(fn.params):
            if args is not None and i < len(args) and args[i] is not None:
                argv.append(args[i])
            else:
                argv.append(self.symbolic(p[1] or 'arg%d' % i, fn.tu.types[p[2]]))
        return self.invoke(fn, this, argv)

    def symbolic(self, name, t):
        kd = ct.kind_of(t)
        if ct.is_ref(t):
            kd = ct.kind_of(ct.clean(t))
            r = ('P', name)
            self.store.setdefault(r, self.symval(name, ct.clean(t)))
            return self.ptr((r, ()))
        return self.symval(name, t)

    def symval(self, name, t):
        return sym(name, ct.kind_of(t))

    # ---------------------------------------------------------------- calls
    def is_opaque(self, q):
        r = self._opq.get(q)
        if r is None:
            s = strip_targs(q)
            r = any(o.match(s) or o.match(q) for o in self.opaque)
            self._opq[q] = r
        return r

    def invoke(self, fn, this, argv, node=None):
        """argv: for reference parameters a ('ptr',..) term; otherwise the value"""
        self.steps += 1
        if sum(1 for f in self.frames if f.fn is fn) > self.recursion or len(self.frames) > self.depth:
            return None
        if fn.k not in self.analysed:
            self.analysed.add(fn.k)
            self.order.append(fn.k)
        fr = Frame(fn, fn.tu, this)
        n0 = self.nroot
        for p, v in zip(fn.params, argv):
            t = fn.tu.types[p[2]]
            self.bind(fr, p[0], t, v)
        if self.frames:
            outer = self.frames[-1].live
            self.g.append(outer)
        self.frames.append(fr)
        try:
            if 'ctor' in fn.d:
                self.ctor_inits(fn, this)
            self.stmt(fn.body)
        finally:
            self.frames.pop()
            if self.frames:
                self.g.pop()
        return self.leave(fr, n0)

    def wake(self, fr):
        if fr.dead:
            self.ords = dict(self.ords)
            for k, n in fr.dead.items():
                if n > self.ords.get(k, 0):
                    self.ords[k] = n

    def leave(self, fr, n0):
        """join the states of all exits of a finished frame"""
        self.wake(fr)
        ret = self.ret_value(fr)
        if fr.live == FALSE and fr.thrown and not fr.rets:
            self.throw_now()
            return ret
        if fr.live != FALSE:
            cur, rets = self.store, fr.rets
        elif fr.rets:
            cur, rets = fr.rets[-1][2], fr.rets[:-1]
        else:
            return ret
        for g, _, st in reversed(rets):
            cur = self.merge(g, st, cur, n0)
        self.store = cur
        return ret

    def merge(self, c, s1, s2, n0=None):
        """state that is s1 when c holds and s2 otherwise"""
        if c == TRUE:
            return s1
        if c == FALSE:
            return s2
        m = Store()
        for k in set(s1) | set(s2):
            a, b = s1.get(k), s2.get(k)
            if a is b:
                m[k] = a
                continue
            if n0 is not None and k[0] in ('L', 'T') and k[1] > n0:
                continue
            if a is None or b is None:
                if k[0] in ('L', 'T', 'N'):
                    m[k] = a if a is not None else b
                    continue
                a = a if a is not None else self.root_init(k)
                b = b if b is not None else self.root_init(k)
            m[k] = a if a == b else MUX(c, a, b)
        return m

    def throw_now(self):
        if self.frames:
            f = self.frames[-1]
            f.live = FALSE
            f.thrown = True

    def ret_value(self, fr):
        if not fr.rets:
            return VOID
        v = fr.rets[-1][1]
        for g, r, _ in reversed(fr.rets[:-1]):
            v = MUX(g, r, v)
        return v

    def bind(self, fr, vid, t, v):
        if ct.is_ref(t):
            if v[0] == 'ptr':
                fr.env[vid] = (v[1], v[2])
            elif v[0] == 'refmux':
                fr.env[vid] = self.deref(v[1])
            else:
                fr.env[vid] = self.temp(v)
        else:
            r = self.newroot('L', v)
            self.ltype[r] = t
            if not ct.is_ptr(t) and ct.clean(t) in self.db.classes:
                self.cls[r] = ct.clean(t)
            fr.env[vid] = (r, ())

    def ctor_inits(self, fn, this):
        done = set()
        for i in fn.inits:
            kd, name, e = i[0], i[1], i[2]
            if kd == 'm':
                ft = self.field_type(fn.c, name)
                loc = (this[0], this[1] + (('f', name),))
                if ft and ct.is_ref(ft):
                    self.wr(loc, self.ptr(self.lv(e)))
                else:
                    self.wr(loc, self.init_value(e, ft or '?', loc))
                done.add(name)
            elif kd == 'b' or kd == 'd':
                if e is not None and e[0] == 'ctor':
                    self.construct_at(e, this)
                elif e is not None:
                    v = self.ev(e)
        return

    def field_type(self, cls, name):
        for b in self.db.bases(cls):
            c = self.db.classes.get(b)
            if c:
                for f in c['fields']:
                    if f[0] == name:
                        return f[1]
        return None

    def construct_at(self, e, loc):
        """run constructor expression e on the object at loc (base / delegating)"""
        _, ln, t, cal, args, li = e[:6]
        tu = self.frames[-1].tu
        if cal >= 0:
            fi = tu.fns[cal]
            fn = self.db.funcs.get(fi['k'])
            if fn is not None and not self.is_opaque(fn.q):
                argv = self.args_for(fi, args, tu)
                self.invoke(fn, loc, argv)
                return
            if fi.get('ctor') in ('copy', 'move'):
                v = self.ev(args[0])
                self.wr(loc, v)
                return
        if args:
            self.effect('call', (strip_targs(tu.fns[cal]['q']) if cal >= 0 else 'ctor', None, tuple(self.ev(a) for a in args)), node=e)

    def default_value(self, t, node=None):
        t0 = ct.clean(t)
        k = ct.kind_of(t0)
        if k == 'b':
            return FALSE
        if k == 'i':
            return C(0)
        if k == 'v':
            return mk('x', frozenset())
        if k == 'f':
            return mk('flt', 0.0)
        n = ct.tname(t0)
        if ct.is_array(t0):
            m = re.search(r'\[(\d*)\]', t0)
            cnt = int(m.group(1) or 0)
            return self.rep(C(cnt), self.default_value(ct.elem(t0)))
        if n == 'std::array':
            a = ct.targs(t0)
            return self.rep(C(int(re.sub(r'\D', '', a[1]))), self.default_value(a[0]))
        if n in ct.SEQ or n in ct.STRS:
            return EMPTY
        if n in ct.MAPS or n in ct.SETS:
            return EMPTYMAP
        if n in ct.SMART or ct.is_ptr(t0) or n == 'std::function':
            return NULL
        if n in ('std::optional',):
            return NULL
        if n == 'std::pair':
            a = ct.targs(t0)
            return mk('tup', (self.default_value(a[0]), self.default_value(a[1])))
        if n == 'std::tuple':
            return mk('tup', tuple(self.default_value(x) for x in ct.targs(t0)))
        if t0 in self.db.enums:
            return C(0)
        c = self.db.classes.get(t0)
        if c is not None:
            return self.make_object(t0, None)
        return A('o', 'dflt', t0)

    def rep(self, n, v):
        if n[0] == 'c' and 0 <= n[1] <= 4096:
            return mk('vec', (v,) * n[1])
        k = A('i', 'k', fresh())
        return ARR(n, k, v)

    def base_object(self, cls):
        fs = {}
        for f in self.db.fields(cls):
            fs[f[0]] = None
        return fs

    def make_object(self, cls, e, ctorfn=None, argv=()):
        """value of a freshly constructed object"""
        r = self.newroot('N', None, cls)
        fl = self.db.fields(cls)
        vals = []
        for f in sorted(fl, key=lambda x: x[0]):
            vals.append((f[0], self.field_default(f)))
        self.store[r] = mk('struct', cls, tuple(vals))
        if ctorfn is not None:
            self.invoke(ctorfn, (r, ()), argv)
        else:
            # implicit default constructor: run in-class initialisers
            cur = {}
            for b in self.db.bases(cls):
                c = self.db.classes.get(b)
                if not c:
                    continue
                for f in c['fields']:
                    if f[3] is not None and f[3][0] in ('int', 'bool', 'null', 'enum', 'str', 'flt', 'ilist', 'ctor', 'zero'):
                        fr = Frame(None, c['tu'], (r, ()))
                        fr.fn = self.frames[-1].fn if self.frames else None
                        self.frames.append(fr)
                        try:
                            cur[f[0]] = self.init_value(f[3], f[1])
                        finally:
                            self.frames.pop()
            if cur:
                self.store[r] = WITH(self.store[r], cur)
        v = self.store[r]
        return v

    def field_default(self, f):
        t = ct.clean(f[1])
        if ct.is_ref(f[1]) or ct.is_ptr(t):
            return NULL
        n = ct.tname(t)
        if n in ct.SEQ or n in ct.STRS or n in ct.MAPS or n in ct.SETS or n in ct.SMART or ct.kind_of(t) in 'ib' or ct.is_array(t):
            return self.default_value(t)
        return A('o', 'dflt', t)

    def args_for(self, fi, args, tu):
        """evaluate arguments according to parameter passing"""
        out = []
        pts = fi['p']
        for i, a in enumerate(args):
            t = tu.types[pts[i]] if i < len(pts) else '?'
            if ct.is_ref(t):
                out.append(self.refarg(a, t))
            else:
                v = self.init_value(a, t)
                out.append(v)
        return out

    def refarg(self, a, t):
        loc = self.lv(a)
        return self.ptr(loc)

    def call_fn(self, fn, this, fi, args, tu, node):
        argv = self.args_for(fi, args, tu)
        return self.invoke(fn, this, argv, node)

    def fresh_ord(self, key):
        n = self.ords.get(key, 0)
        self.ords[key] = n + 1
        return n

    def opaque_call(self, q, recv, argv, rt, node, const=False, pts=()):
        """call that leaves the analysed code"""
        kd = ct.kind_of(rt)
        vals = []
        for i, v in enumerate(argv):
            t = pts[i] if i < len(pts) else '?'
            if ct.is_ref(t) and v[0] == 'ptr':
                vals.append(self.rd((v[1], v[2]), ct.kind_of(t)))
            elif v[0] == 'ptr' and ct.is_ptr(t) and self.plain_memory(t):
                # plain memory handed out: what matters is what it holds
                vals.append(self.pointee(v))
            else:
                vals.append(v)
        n = self.fresh_ord((q, recv))
        res = A(kd, 'ev', q, recv if recv is not None else NULL, n, self.loopk)
        outs = any(v[0] == 'ptr' and (ct.is_ptr(t) or ct.is_ref(t)) and not t.startswith('const ') for v, t in zip(argv, pts))
        self.effect('call', (q, recv, tuple(vals)), res if rt != 'void' or outs else None, node)
        # out-parameters
        for i, v in enumerate(argv):
            t = pts[i] if i < len(pts) else '?'
            if v[0] == 'ptr' and ((ct.is_ref(t) and not ct.const_ref(t) and not t.rstrip().endswith('&&')) or
                                  (ct.is_ptr(t) and not t.startswith('const '))):
                loc = (v[1], v[2])
                if loc[0][0] == 'H' and not loc[1]:
                    continue
                if loc[1] and loc[1][-1][0] == 'i':
                    base = (loc[0], loc[1][:-1])
                    self.wr(base, A('o', 'out', q, i, recv if recv is not None else NULL, n, self.loopk,
                                    self.rd(base) if loc[1][-1][1] != C(0) else NULL, LEN(self.rd(base))))
                else:
                    self.wr(loc, A(ct.kind_of(ct.elem(t) if ct.is_ptr(t) else ct.clean(t)), 'out', q, i, recv if recv is not None else NULL, n, self.loopk))
        return res

    def loc_type(self, loc):
        """declared type of a location, or None"""
        root, path = loc
        t = self.ltype.get(root) or self.cls.get(root)
        for s in path:
            if t is None:
                return None
            t = ct.clean(t)
            if s[0] == 'f':
                t = self.field_type(t, s[1]) if isinstance(s[1], str) else None
            elif s[0] == 'i':
                t = ct.elem(t)
            else:
                return None
        return t

    def elem_size(self, loc):
        """size of the elements of the sequence at loc, or None"""
        t = self.loc_type(loc)
        if t is None:
            return None
        t = ct.clean(t)
        if ct.tname(t) not in ('std::vector', 'std::array', 'std::basic_string', 'std::string') and not ct.is_array(t):
            return None
        e = ct.clean(ct.elem(t)) if ct.tname(t) not in ('std::basic_string', 'std::string') else 'char'
        return {'unsigned char': 1, 'char': 1, 'signed char': 1, 'std::byte': 1, 'uint8_t': 1, 'int8_t': 1, 'unsigned short': 2, 'short': 2,
                'int': 4, 'unsigned int': 4, 'uint32_t': 4, 'int32_t': 4, 'uint64_t': 8, 'int64_t': 8, 'size_t': 8, 'unsigned long': 8,
                'long': 8, '__m128i': 16}.get(e)

    def plain_memory(self, t):
        e = ct.clean(ct.elem(t))
        return e in ('void', 'bool') or ct.kind_of(e) in ('i', 'v') or e.split()[-1] in ('char',)

    def pointee(self, v):
        path = v[2]
        if path and path[-1][0] == 'i':
            return A('o', 'mem', self.rd((v[1], path[:-1])), path[-1][1])
        return A('o', 'mem', self.rd((v[1], path)))

    def recv_term(self, loc):
        root, path = loc
        if root[0] == 'H' and not path:
            return A('o', '*', root[1])
        if root in self.cls and root[0] in ('N', 'this') and not path:
            if root[0] == 'this':
                return self.rd(loc) if False else sym('*this')
        if root[0] == 'N' and not path:
            return mk('ptr', root, path)
        return self.loc_name(loc)

    def loc_name(self, loc):
        root, path = loc
        if root[0] == 'this':
            t = sym('*this')
        elif root[0] == 'H':
            t = A('o', '*', root[1])
        elif root[0] == 'P':
            t = sym(root[1])
        elif root[0] == 'G':
            t = A('o', 'glob', root[1])
        else:
            v = self.rd(loc)
            if v[0] == 'a':
                return v
            return A('o', 'local', root[0])
        for s in path:
            if s[0] == 'f':
                t = A('o', 'fld', t, s[1])
            elif s[0] == 'i':
                t = A('o', 'idx', t, s[1])
            else:
                t = A('o', 'at', t, s[1])
        return t

    # ---------------------------------------------------------------- branches
    def snapshot(self):
        return Store(self.store), dict(self.ords)

    def branch(self, c, f1, f2):
        """run f1 under c and f2 under not c, join; returns gated value of results"""
        if c == TRUE:
            return f1() if f1 else None
        if c == FALSE:
            return f2() if f2 else None
        fr = self.frames[-1]
        s0, o0 = self.snapshot()
        live0, thr0 = fr.live, fr.thrown
        nret = len(fr.rets)
        loops0 = [dict(l) for l in fr.loops]

        def side(cond, f):
            self.store = Store(s0)
            self.ords = dict(o0)
            fr.live, fr.thrown = AND(live0, cond), False
            r = None
            if fr.live != FALSE:
                # the store is split here, so writes inside need no live gating
                # for the condition itself
                self.g.append(fr.live)
                fr.live = TRUE
                n0 = len(fr.rets)
                lo0 = [(len(l['brk']), len(l['cont'])) for l in fr.loops]
                r = f() if f else None
                self.g.pop()
                # relativise returns and loop exits of this side
                cg = AND(live0, cond)
                for j in range(n0, len(fr.rets)):
                    fr.rets[j] = (AND(cg, fr.rets[j][0]),) + fr.rets[j][1:]
                for l, (b, k) in zip(fr.loops, lo0):
                    for key, st in (('brk', b), ('cont', k)):
                        for j in range(st, len(l[key])):
                            l[key][j] = (AND(cg, l[key][j][0]), l[key][j][1])
                had = len(fr.rets) > n0
            else:
                had = False
                fr.thrown = True
            return r, self.store, self.ords, fr.live, fr.thrown, had

        r1, s1, o1, l1, t1, h1 = side(c, f1)
        r2, s2, o2, l2, t2, h2 = side(NOT(c), f2)
        self.ords = {k: max(o1.get(k, 0), o2.get(k, 0)) for k in set(o1) | set(o2)}
        nc = NOT(c)
        d1, d2 = l1 == FALSE, l2 == FALSE
        if d1 != d2:
            # only one side goes on
            self.ords = o2 if d1 else o1
            for k, n in (o1 if d1 else o2).items():
                if n > fr.dead.get(k, 0):
                    fr.dead[k] = n
        if d1 and d2:
            self.store = s2
            fr.live, fr.thrown = FALSE, True if (t1 or t2) else False
            fr.thrown = t1 and t2 or thr0
            return r2
        if d1:
            self.store = s2
            fr.live = AND(live0, l2) if (t1 and not h1) else AND(live0, nc, l2)
            fr.thrown = thr0
            if t1 and not h1:
                self.assuming(live0, nc)
            return r2
        if d2:
            self.store = s1
            fr.live = AND(live0, l1) if (t2 and not h2) else AND(live0, c, l1)
            fr.thrown = thr0
            if t2 and not h2:
                self.assuming(live0, c)
            return r1
        fr.thrown = thr0
        if l1 == TRUE and l2 == TRUE:
            fr.live = live0
        else:
            fr.live = AND(live0, X(AND(c, l1), AND(nc, l2)))
        self.store = self.merge(c, s1, s2)
        if r1 is None or r2 is None:
            return r1 if r2 is None else r2
        return r1 if r1 == r2 else MUX(c, r1, r2)

    # ---------------------------------------------------------------- statements
    def stmt(self, s):
        if s is None:
            return
        fr = self.frames[-1]
        if fr.live == FALSE:
            return
        self.steps += 1
        if self.steps > self.budget:
            raise Unsupported('budget')
        getattr(self, 's_' + s[0], self.s_unknown)(s)

    def s_unknown(self, s):
        self.unk('stmt ' + str(s[0]), node=s)
        self.effect('unk', 'stmt ' + str(s[0]), node=s)

    def s_blk(self, s):
        fr = self.frames[-1]
        n = len(fr.locks)
        for x in s[2]:
            self.stmt(x)
        while len(fr.locks) > n:
            lk = fr.locks.pop()
            if lk[1]:
                self.effect('unlock', lk[0], node=s)

    def s_expr(self, s):
        self.ev(s[2])

    def s_decl(self, s):
        for d in s[2]:
            self.decl(d, s)

    def decl(self, d, node):
        vid, name, t, init, static = d[:5]
        t = self.ty(t)
        fr = self.frames[-1]
        if len(d) > 5:      # structured binding
            self.bindings(d, t, init)
            return
        if ct.is_ref(t):
            fr.env[vid] = self.lv(init)
            return
        if static:
            fr.env[vid] = (('G', fr.fn.q + '::' + name), ())
            if init is not None and t.startswith('const'):
                self.store[fr.env[vid][0]] = self.init_value(init, t)
            return
        n = ct.tname(t)
        if n in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock'):
            m = None
            if init is not None and init[0] == 'ctor' and init[4]:
                m = self.loc_name(self.lv(init[4][0]))
            r = self.newroot('L', A('o', 'lock', m if m is not None else NULL))
            fr.env[vid] = (r, ())
            if m is not None:
                self.effect('lock', m, node=node)
                fr.locks.append([m, True, vid])
            return
        r = self.newroot('L')
        self.ltype[r] = t
        if ct.clean(t) in self.db.classes and not ct.is_ptr(t):
            self.cls[r] = ct.clean(t)
        fr.env[vid] = (r, ())
        if init is None:
            self.store[r] = self.uninit(t)
        else:
            v = self.init_value(init, t)
            self.store[r] = v

    def uninit(self, t):
        if ct.is_array(t) or ct.tname(t) == 'std::array':
            return self.default_value(t)
        k = ct.kind_of(t)
        return A(k, 'uninit', ct.clean(t))

    def bindings(self, d, t, init):
        fr = self.frames[-1]
        if ct.is_ref(t):
            loc = self.lv(init)
        else:
            loc = self.temp(self.init_value(init, t))
        self.bind_at(fr, d[5], loc, t)

    def bind_at(self, fr, bs, loc, t):
        n = ct.tname(t)
        names = None
        if n == 'std::pair':
            names = ['first', 'second']
        elif n == 'std::tuple':
            names = list(range(len(bs)))
        elif ct.clean(t) in self.db.classes:
            names = [f[0] for f in self.db.fields(ct.clean(t))]
        for i, b in enumerate(bs):
            if names is not None and i < len(names):
                fr.env[b[0]] = self.sub(loc, ('f', names[i]))
            else:
                fr.env[b[0]] = self.sub(loc, ('i', C(i)))

    def sub(self, loc, s):
        root, path = loc
        if path and path[-1][0] == 'pair':
            key = path[-1][1]
            if s == ('f', 'second'):
                return (root, path[:-1] + (('k', key),))
            if s == ('f', 'first'):
                return self.temp(key)
        return (root, path + (s,))

    def s_ret(self, s):
        fr = self.frames[-1]
        v = VOID
        if s[2] is not None:
            rt = fr.fn.ret if fr.fn is not None and not isinstance(fr, LamFrame) else fr.ret
            if ct.is_ref(rt):
                v = self.ptr(self.lv(s[2]))
            else:
                v = self.init_value(s[2], rt)
        if fr.live == FALSE:
            return
        fr.rets.append((fr.live, v, self.store))
        self.store = Store(self.store)
        fr.live = FALSE

    def s_if(self, s):
        _, ln, init, cv, cond, th, el = s[:7]
        self.stmt(init) if init else None
        if cv is not None:
            self.decl(cv, s)
        c = self.cond(cond)
        self.branch(c, lambda: self.stmt(th), lambda: self.stmt(el))

    def cond(self, e):
        v = self.ev(e)
        return self.tobool(v)

    def tobool(self, v):
        k = kind(v)
        if k == 'b':
            return v
        if v[0] == 'null':
            return FALSE
        if v[0] in ('ptr', 'lam', 'fnp'):
            return TRUE
        if v[0] == 'mux':
            return MUX(v[1], self.tobool(v[2]), self.tobool(v[3]))
        if k == 'i':
            return I2B(v)
        return A('b', 'bool', v)

    def s_break(self, s):
        fr = self.frames[-1]
        fr.loops[-1]['brk'].append((fr.live, self.store))
        self.store = Store(self.store)
        fr.live = FALSE

    def s_cont(self, s):
        fr = self.frames[-1]
        fr.loops[-1]['cont'].append((fr.live, self.store))
        self.store = Store(self.store)
        fr.live = FALSE

    def s_sunk(self, s):
        self.effect('unk', s[2], node=s)

    def s_try(self, s):
        fr = self.frames[-1]
        n0 = len(self.eff)
        snap = self.snapshot()
        live0 = fr.live
        thr0 = fr.thrown
        self.effect('try', None, node=s)
        self.stmt(s[2])
        self.wake(fr)
        self.effect('endtry', None, node=s) if fr.live != FALSE else self.eff.append(Eff(self.outer_guard(), 'endtry', None))
        live1, thr1 = fr.live, fr.thrown
        if self.calm and not any(e.op == 'throw' for e in self.eff[n0:]):
            return
        for h in s[3]:
            exc = A('b', 'exc', self.fresh_ord('exc'), self.loopk)
            st1, liv, thr = self.store, fr.live, fr.thrown
            rets = fr.rets
            dead = fr.live == FALSE and fr.thrown
            # analyse the handler from the state at entry of the try block
            fr.live, fr.thrown = (live0 if not dead else live0), False
            self.store = Store(st1)
            t = self.ty(h[0][2]) if h[0] is not None else '...'
            if h[0] is not None:
                r = self.newroot('L', A('o', 'exception', ct.clean(t)))
                fr.env[h[0][0]] = (r, ())
            self.g.append(exc)
            self.effect('catch', ct.clean(t), node=s)
            nr = len(fr.rets)
            self.stmt(h[1])
            self.g.pop()
            for j in range(nr, len(fr.rets)):
                fr.rets[j] = (AND(exc, fr.rets[j][0]),) + fr.rets[j][1:]
            self.eff.append(Eff(self.outer_guard(), 'endcatch', None))
            hl, ht, hs = fr.live, fr.thrown, self.store
            if hl == FALSE:
                self.store, fr.thrown = st1, thr
                # a handler that returns or throws does not continue
                if len(fr.rets) > nr and liv != FALSE:
                    fr.live = AND(NOT(exc), liv)
                    # put handler returns before later ones: already gated
                else:
                    fr.live = liv
            elif liv == FALSE:
                self.store, fr.live, fr.thrown = hs, AND(exc, live0), False
            else:
                m = Store()
                for k in set(st1) | set(hs):
                    a, b = st1.get(k), hs.get(k)
                    if a is None or b is None:
                        m[k] = a if a is not None else b
                    else:
                        m[k] = a if a == b else MUX(exc, b, a)
                self.store, fr.live, fr.thrown = m, liv, thr

    def outer_guard(self):
        g = TRUE
        for x in self.g:
            g = AND(g, x)
        return g

    def rejoin(self, exits):
        """control leaving through break/continue meets the current state"""
        fr = self.frames[-1]
        self.wake(fr)
        for g, st in exits:
            if g == FALSE:
                continue
            if fr.live == FALSE:
                self.store, fr.live, fr.thrown = Store(st), g, False
            else:
                self.store = self.merge(g, st, self.store)
                fr.live = OR(fr.live, g)

    def s_switch(self, s):
        fr = self.frames[-1]
        if len(s) > 4 and s[4] is not None:
            self.stmt(s[4])
        v = self.ev(s[2])
        body = s[3][2] if s[3][0] == 'blk' else [s[3]]
        flat = []        # (labels, stmt)
        for x in body:
            labels = []
            while x is not None and x[0] in ('case', 'default'):
                if x[0] == 'case':
                    labels.append(self.ev(x[2]))
                    x = x[3]
                else:
                    labels.append('default')
                    x = x[2]
            flat.append((labels, x))
        cases = [l for ls, _ in flat for l in ls]
        alln = [c for c in cases if c != 'default']

        def run_from(i):
            fr.loops.append({'brk': [], 'cont': []})
            for _, x in flat[i:]:
                self.stmt(x)
            l = fr.loops.pop()
            if fr.loops:
                fr.loops[-1]['cont'] += l['cont']
            self.rejoin(l['brk'])

        todo = [(l, i) for i, (ls, _) in enumerate(flat) for l in ls]
        defi = [i for l, i in todo if l == 'default']
        todo = [(l, i) for l, i in todo if l != 'default']

        def go(j):
            if j == len(todo):
                if defi:
                    run_from(defi[0])
                return
            l, i = todo[j]
            self.branch(EQ(v, l), lambda: run_from(i), lambda: go(j + 1))
        go(0)

    # ---------------------------------------------------------------- loops
    def s_for(self, s):
        _, ln, init, cond, inc, body = s[:6]
        self.stmt(init) if init else None
        self.loop(lambda: self.cond(cond) if cond is not None else TRUE,
                  lambda: self.stmt(body), (lambda: self.ev(inc)) if inc is not None else (lambda: None), s)

    def s_while(self, s):
        cv = s[4] if len(s) > 4 else None

        def cond():
            if cv is not None:
                self.decl(cv, s)
            return self.cond(s[2])
        self.loop(cond, lambda: self.stmt(s[3]), lambda: None, s)

    def s_do(self, s):
        # body once, then while
        fr = self.frames[-1]
        fr.loops.append({'brk': [], 'cont': []})
        self.stmt(s[2])
        l = fr.loops.pop()
        self.rejoin(l['cont'])
        if fr.live != FALSE:
            c = self.probe_cond(lambda: self.cond(s[3]))
            if c == FALSE:
                self.cond(s[3])
            else:
                self.loop(lambda: self.cond(s[3]), lambda: self.stmt(s[2]), lambda: None, s)
        self.rejoin(l['brk'])

    def s_rfor(self, s):
        _, ln, d, rng, body = s[:5]
        if len(s) > 5 and s[5] is not None:
            self.stmt(s[5])
        loc = self.lv(rng)
        self.over(loc, self.node_type(rng), d, body, s)

    def over(self, loc, rt, d, body, node):
        """for (d : *loc) body"""
        fr = self.frames[-1]
        t = self.ty(d[2])
        v = self.rd(loc)
        n = ct.tname(rt)
        ismap = n in ct.MAPS or n in ct.SETS or v[0] in ('mput', 'mapb', 'emptymap')

        def bindk(k):
            if ismap:
                key = KEY(v, k, ct.kind_of(ct.targs(rt)[0]) if ct.targs(rt) else 'o')
                if n in ct.SETS:
                    el = self.temp(key)
                else:
                    el = (loc[0], loc[1] + (('pair', key),))
            else:
                el = (loc[0], loc[1] + (('i', k),))
            if len(d) > 5:
                et = ct.elem(rt) if ct.elem(rt) != '?' else t
                if not ct.is_ref(t):
                    if ismap:
                        pass
                    else:
                        el = self.temp(self.rd(el))
                self.bind_at(fr, d[5], el, 'std::pair<a, b>' if ismap and n not in ct.SETS else (ct.clean(t) if ct.clean(t) != 'auto' else et))
            elif ct.is_ref(t):
                fr.env[d[0]] = el
            else:
                if el[1] and el[1][-1][0] == 'pair':
                    fr.env[d[0]] = self.temp(mk('tup', (el[1][-1][1], self.rd((el[0], el[1][:-1] + (('k', el[1][-1][1]),))))))
                else:
                    fr.env[d[0]] = self.temp(self.rd(el, ct.kind_of(t)))
        nlen = LEN(v)
        self.counted(nlen, bindk, lambda: self.stmt(body), node)

    def counted(self, n, setk, body, node):
        """for k in [0,n): setk(k); body()"""
        fr = self.frames[-1]
        if n[0] == 'c' and n[1] <= self.unroll_limit():
            self.unrolled(n[1], setk, body)
            return
        self.summarise(None, lambda k: (setk(k), body()), None, node, n)

    def unroll_limit(self):
        # inside a loop over an unknown range only short loops are written out
        return min(self.max_unroll, 16) if self.loopk else self.max_unroll

    def unrolled(self, n, setk, body):
        fr = self.frames[-1]
        pend = []
        for j in range(n):
            if fr.live == FALSE:
                break
            fr.loops.append({'brk': [], 'cont': []})
            setk(C(j))
            body()
            l = fr.loops.pop()
            self.rejoin(l['cont'])
            pend += l['brk']
        self.rejoin(pend)

    def loop(self, cond, body, inc, node):
        fr = self.frames[-1]
        c = self.probe_cond(cond)
        if c == FALSE:
            self.cond_eval(cond)
            return
        if c == TRUE:
            # try concrete unrolling
            if self.try_unroll(cond, body, inc):
                return
        if self.exact and self.try_guarded(cond, body, inc):
            return
        self.summarise(cond, lambda k: self.body_inc(body, inc), inc, node, None)

    def body_inc(self, body, inc):
        body()

    def probe_cond(self, cond):
        s, o = self.snapshot()
        ne = len(self.eff)
        n = len(self.notes)
        c = cond()
        self.store, self.ords = s, o
        del self.eff[ne:]
        del self.notes[n:]
        return c

    def cond_eval(self, cond):
        return cond()

    def try_unroll(self, cond, body, inc):
        fr = self.frames[-1]
        s0, o0 = self.snapshot()
        ne, nn = len(self.eff), len(self.notes)
        live0, thr0 = fr.live, fr.thrown
        nr = len(fr.rets)
        gl = len(self.g)
        na = len(self.assume)
        pend = []
        ok = False
        self.store = Store(s0)
        for j in range(self.unroll_limit() + 1):
            c = cond()
            if c == FALSE:
                ok = True
                break
            if c != TRUE:
                break
            fr.loops.append({'brk': [], 'cont': []})
            body()
            l = fr.loops.pop()
            self.rejoin(l['cont'])
            pend += l['brk']
            if fr.live == FALSE:
                ok = True
                break
            inc()
        if not ok:
            self.store, self.ords = s0, o0
            del self.eff[ne:]
            del self.notes[nn:]
            del fr.rets[nr:]
            del self.assume[na:]
            fr.live, fr.thrown = live0, thr0
            return False
        self.rejoin(pend)
        return True

    def try_guarded(self, cond, body, inc):
        """one copy of the body after the other, each under the condition that the loop goes on"""
        fr = self.frames[-1]
        s0, o0 = self.snapshot()
        ne, nn, na, nr = len(self.eff), len(self.notes), len(self.assume), len(fr.rets)
        live0, thr0, gl = fr.live, fr.thrown, len(self.g)
        pend = []

        class TooLong(Exception):
            pass

        def rest(j, path):
            c = cond()
            if c[0] != 'c' and (T_.BDD is None or T_.BDD.lift(AND(path, c)) == 0):
                c = FALSE
            if c == FALSE:
                return
            if j > 70:
                raise TooLong()

            def once():
                fr.loops.append({'brk': [], 'cont': []})
                body()
                l = fr.loops.pop()
                self.rejoin(l['cont'])
                pend.extend((AND(*self.g[gl:], g) if self.g[gl:] else g, st) for g, st in l['brk'])
                if fr.live != FALSE:
                    inc()
                    rest(j + 1, AND(path, c))
            self.branch(c, once, lambda: None)

        try:
            rest(0, TRUE)
        except TooLong:
            self.store, self.ords = s0, o0
            del self.eff[ne:]
            del self.notes[nn:]
            del fr.rets[nr:]
            del self.assume[na:]
            del self.g[gl:]
            fr.live, fr.thrown = live0, thr0
            return False
        self.rejoin(pend)
        return True

    # -- closed-form summaries
    def summarise(self, cond, step, inc, node, n):
        fr = self.frames[-1]
        k = A('i', 'k', fresh())
        s0, o0 = self.snapshot()
        live0 = fr.live
        thr0 = fr.thrown
        heads = {}      # (root, fieldpath) -> head atom
        eff0 = self.eff
        notes0 = len(self.notes)
        nroot0 = self.nroot
        env0 = dict(fr.env)
        rets0 = len(fr.rets)
        loops_state = [(len(l['brk']), len(l['cont'])) for l in fr.loops]
        result = None
        saved_k = self.loopk
        na = len(self.assume)
        for it in range(8):
            self.store = Store(s0)
            self.ords = dict(o0)
            self.eff = []
            fr.env = dict(env0)
            del fr.rets[rets0:]
            del self.notes[notes0:]
            del self.assume[na:]
            for l, (b, c_) in zip(fr.loops, loops_state):
                del l['brk'][b:]
                del l['cont'][c_:]
            for (root, path), h in heads.items():
                self.store[root] = self._wr(self.rd_root(root), tuple(('f', p) for p in path), h)
            fr.live, fr.thrown = TRUE, False
            self.g.append(live0)
            self.loopk = saved_k + (k,)
            c = cond() if cond is not None else TRUE
            start = Store(self.store)
            fr.loops.append({'brk': [], 'cont': []})
            step(k)
            l = fr.loops.pop()
            self.rejoin(l['cont'])
            if inc is not None and fr.live != FALSE:
                sv = fr.live
                inc()
            self.loopk = saved_k
            self.g.pop()
            changed = []
            for root, v1 in self.store.items():
                base = s0.get(root)
                if base is None:
                    if root[0] in ('L', 'T', 'N') and root[1] > nroot0:
                        continue
                    base = self.root_init(root)
                    for (r2, path), h in heads.items():
                        if r2 == root:
                            base = self._wr(base, tuple(('f', p) for p in path), h)
                else:
                    for (r2, path), h in heads.items():
                        if r2 == root:
                            base = self._wr(base, tuple(('f', p) for p in path), h)
                self.diff(base, v1, (), root, changed)
            new = [x for x in changed if (x[0], x[1]) not in heads]
            if not new:
                result = (c, dict(((r, p), (a, b)) for r, p, a, b in changed), l)
                break
            for r, p, a, b in new:
                # drop heads below the new one
                kd = kind(a)
                if kd == 'o':
                    kb = kind(b)
                    kd = kb if kb in 'ibv' and not (b[0] in ('vec', 'arr')) else 'o'
                for q in [q for q in heads if q[0] == r and q[1][:len(p)] == p]:
                    del heads[q]
                heads[(r, p)] = A(kd, 'head', fresh())
        body_eff = self.eff
        self.eff = eff0
        if result is None:
            self.store = Store(s0)
            fr.live = live0
            self.unk('loop did not stabilise', node=node)
            for (r, p), h in heads.items():
                self.store[r] = self._wr(self.rd_root(r), tuple(('f', x) for x in p), UNK('loop', kind(h)))
            self.eff.append(Eff(self.guard(), 'loop', (UNK('loop', 'i'), k, body_eff), None, ''))
            return
        c, after, ctl = result
        post = self.store
        fr.env = env0
        init = {}
        for (r, p), h in heads.items():
            b = s0.get(r)
            if b is None:
                b = self.root_init(r)
            for f in p:
                b = FLD(b, f, kind(h))
            if b[0] == 'a' and b[1] == 'o' and kind(h) in 'ibv' and b[2] in ('fld', '*', 'idx'):
                b = mk('a', kind(h), *b[2:])
            init[(r, p)] = b
        brk = FALSE
        for g, _ in ctl['brk']:
            brk = OR(brk, g)
        rets = fr.rets[rets0:]
        del fr.rets[rets0:]
        # induction variables
        sub = {}
        for key, h in heads.items():
            a = after.get(key)
            if a is None:
                sub[h] = init[key]
                continue
            v1 = a[1]
            i0 = init[key]
            if v1[0] == 'ptr' or i0[0] == 'ptr':
                # iterator moved along a sequence
                continue
            if kind(h) == 'i':
                d = SUB(v1, h)
                if not occurs(h, d) and not any(occurs(hh, d) for hh in heads.values()) and not occurs(k, d):
                    if True:
                        if not has_op(d, 'ev', 'out') or not self._loopdep(d, k):
                            sub[h] = ADD(i0, MUL(d, k))
        # sequences whose length every iteration preserves, or grows by a constant
        lendriven = False
        for key, h in heads.items():
            if kind(h) == 'o' and key in after and h not in sub:
                lenh = A('i', 'len', h)
                l1 = LEN(after[key][1])
                if l1 == lenh:
                    sub[lenh] = LEN(init[key])
                else:
                    dl = SUB(l1, lenh)
                    if dl[0] == 'c' and dl[1] > 0 and n is None and occurs(lenh, c):
                        sub[lenh] = ADD(LEN(init[key]), MUL(dl, k))
                        lendriven = True
        fin = {}

        def sb(t):
            return subst(t, sub) if sub else t
        # pointers/iterators as induction variables
        for key, h in heads.items():
            if h in sub or key not in after:
                continue
            i0, v1 = init[key], after[key][1]
            if i0[0] == 'ptr' and i0[2] and i0[2][-1][0][0] in 'im':
                # re-run not needed only if head was used through ptr arithmetic atoms
                st = self.ptr_step(h, v1)
                if st is not None:
                    sub[h] = mk('ptr', i0[1], i0[2][:-1] + ((i0[2][-1][0], ADD(i0[2][-1][1], MUL(st, k))),))
        if any(init[key][0] == 'ptr' and heads[key] in sub for key in heads):
            r = self.rerun_with_pointers(cond, step, inc, node, heads, sub, init, k, s0, o0, live0, env0, eff0, saved_k)
            if r is not None:
                return
        cnt = n
        if cnt is None:
            cnt = self.trip(sb(c), k)
            if lendriven and cnt is not None:
                cnt = MAXT(C(0), cnt)
        # other locations
        pending = {}
        cntt = cnt if cnt is not None else A('i', 'k', fresh())
        for key, (b, v1) in after.items():
            h = heads[key]
            if h in sub:
                fin[key] = ADD(init[key], MUL(SUB(sb(v1), subst(h, sub)), cnt if cnt is not None else cntt))
                continue
            pending[key] = sb(v1)
        prog = True
        while pending and prog:
            prog = False
            for key in list(pending):
                v1 = subst(pending[key], sub) if sub else pending[key]
                h = heads[key]
                others = [hh for kk, hh in heads.items() if kk in pending and hh is not h]
                at_ = tvars(v1)
                if any(o in at_ for o in others):
                    continue
                r = self.closed(init[key], h, v1, k, cntt)
                if r is None:
                    continue
                f_, ink = r
                fin[key] = f_
                del pending[key]
                prog = True
                if ink is not None:
                    sub[h] = ink
                else:
                    # head has no closed form inside the body; keep opaque if used elsewhere
                    sub[h] = A(kind(h), 'prefix', f_, k)
                    lh = A('i', 'len', h)
            if not prog:
                # structural recurrence for a location that depends on itself only
                for key in list(pending):
                    v1 = subst(pending[key], sub) if sub else pending[key]
                    h = heads[key]
                    at_ = tvars(v1)
                    if any(hh in at_ for kk, hh in heads.items() if kk in pending and hh is not h):
                        continue
                    fin[key] = RECAT(init[key], cntt, k, h, v1)
                    k2 = A('i', 'k', fresh())
                    sub[h] = RECAT(init[key], k, k2, h, subst(v1, {k: k2}))
                    del pending[key]
                    prog = True
                    break
        if pending:
            # values that depend on each other: one simultaneous recurrence
            blank = {heads[key]: A(kind(heads[key]), 'slot', -1) for key in pending}
            vals = {key: (subst(pending[key], sub) if sub else pending[key]) for key in pending}
            order = sorted(pending, key=lambda q: (rp(init[q]), rp(subst(vals[q], blank)), str(q[1])))
            hs = [heads[q] for q in order]
            ends = SREC([init[q] for q in order], cntt, k, hs, [vals[q] for q in order])
            k2 = A('i', 'k', fresh())
            mids = SREC([init[q] for q in order], k, k2, hs, [subst(vals[q], {k: k2}) for q in order])
            for q, e, m in zip(order, ends, mids):
                fin[q] = e
                sub[heads[q]] = m
        if cnt is None:
            mu = {cntt: MU(k, sb(c))}
            fin = {q: subst(v, mu) for q, v in fin.items()}
            cntt = mu[cntt]
        self.store = Store(s0)
        # allocations made by the body survive only as anonymous heap
        for root, v1 in post.items():
            if root not in s0 and root[0] == 'N':
                self.store[root] = sb(v1)
        fr.live, fr.thrown = live0, thr0
        broke = brk != FALSE
        for key, v in fin.items():
            r, p = key
            if broke and not self.break_ok(v, heads[key]):
                v = UNK('loop with break', kind(heads[key]))
            self.store[r] = self._wr(self.rd_root(r), tuple(('f', x) for x in p), v)
        eb = self.sub_eff(body_eff, sub) if sub else body_eff
        if eb:
            self.eff.append(Eff(self.guard(), 'loop' if not broke else 'loopbrk', (cntt, k, eb), None, eb[0].site))
        if rets:
            early = Store(s0)
            for key in fin:
                r, p = key
                early[r] = self._wr(early.get(r) or self.root_init(r), tuple(('f', x) for x in p),
                                    UNK('state at early loop exit', kind(heads[key])))
        for g, v, _ in rets:
            g, v = sb(g), sb(v)
            ga = ANY(cntt, k, g)
            b, h = CLOSE(k, mk('tup', (g, v)))
            if not occurs(k, v):
                vv = v
            else:
                vv = A(kind(v), 'first', cntt, b, h)
            if v[0] == 'void':
                vv = VOID
            fr.rets.append((AND(fr.live, ga), vv, early))
            fr.live = AND(fr.live, NOT(ga))

    def _recname(self, node):
        f = self.frames[-1].fn
        return '%s:%s' % (f.q.split('::')[-1] if f else '?', node[1] if node else '?')

    def _loopdep(self, d, k):
        return any(a[2] in ('ev', 'out') and occurs(k, a) for a in atoms(d))

    def used_heads(self, after, body_eff, c, h):
        s = set()
        for b, v in after.values():
            if occurs(h, v):
                s.add(h)
        return s

    def break_ok(self, v, h):
        return kind(h) == 'b' and has_op(v, 'any')

    def ptr_step(self, h, v1):
        # v1 == padd(h, c)
        if v1[0] == 'a' and v1[2] == 'padd' and v1[3] == h:
            return v1[4]
        return None

    def rerun_with_pointers(self, cond, step, inc, node, heads, sub, init, k, s0, o0, live0, env0, eff0, saved_k):
        """second pass with moving iterators replaced by base + k: turns the loop
        into a counted one"""
        ptrs = {key: sub[h] for key, h in heads.items() if init[key][0] == 'ptr' and h in sub}
        fr = self.frames[-1]
        self.store, self.ords = Store(s0), dict(o0)
        fr.live = live0
        fr.env = dict(env0)
        # trip count from the condition with the pointers in closed form
        st = Store(s0)
        for (r, p), v in ptrs.items():
            self.store[r] = self._wr(self.rd_root(r), tuple(('f', x) for x in p), v)
        c = self.probe_cond(cond) if cond is not None else TRUE
        cnt = self.trip(c, k)
        self.store = Store(s0)
        if cnt is None:
            return None

        def step2(kk):
            for (r, p), v in ptrs.items():
                self.store[r] = self._wr(self.rd_root(r), tuple(('f', x) for x in p), subst(v, {k: kk}))
            step(kk)

        def inc2():
            inc() if inc else None
            for (r, p), v in ptrs.items():
                self.store[r] = self._wr(self.rd_root(r), tuple(('f', x) for x in p), init[(r, p)])
        self.summarise(None, step2, inc2, node, cnt)
        for (r, p), v in ptrs.items():
            self.store[r] = self._wr(self.rd_root(r), tuple(('f', x) for x in p), subst(v, {k: cnt}))
        return True

    def diff(self, a, b, path, root, out):
        if a == b:
            return
        ba = a[1] if a[0] == 'with' else a
        bb = b[1] if b[0] == 'with' else b
        if 'with' in (a[0], b[0]) and ba == bb:
            da = dict(a[2]) if a[0] == 'with' else {}
            db_ = dict(b[2]) if b[0] == 'with' else {}
            for f in sorted(set(da) | set(db_), key=str):
                va = da[f] if f in da else FLD(ba, f, kind(db_[f]))
                vb = db_[f] if f in db_ else FLD(ba, f, kind(va))
                self.diff(va, vb, path + (f,), root, out)
            return
        if a[0] == 'struct' and b[0] == 'struct' and a[1] == b[1]:
            d2 = dict(b[2])
            for f, va in a[2]:
                self.diff(va, d2[f], path + (f,), root, out)
            return
        if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
            for j, (x, y) in enumerate(zip(a[1], b[1])):
                self.diff(x, y, path + (j,), root, out)
            return
        out.append((root, path, a, b))

    def trip(self, c, k):
        """number of iterations from the continuation condition"""
        d = None
        neg = False
        if c[0] == 'x' and len(c[1]) == 2 and frozenset() in c[1]:
            (m,) = [m for m in c[1] if m]
            if len(m) == 1:
                c, neg = next(iter(m)), True
        if c[0] != 'a':
            return None
        if c[2] == 'pos':
            d = SUB(C(1), c[3]) if neg else c[3]
            z = to_z(d)
            ck = z.get(frozenset([(k, 1)]), 0)
            rest = SUB(d, MUL(C(ck), k))
            if occurs(k, rest) or ck >= 0:
                return None
            ck = -ck
            if ck == 1:
                return rest
            return BITOP('/', ADD(rest, C(ck - 1)), C(ck))
        if c[2] == 'eq0' and neg:
            d = c[3]
            z = to_z(d)
            ck = z.get(frozenset([(k, 1)]), 0)
            rest = SUB(d, MUL(C(ck), k))
            if occurs(k, rest) or ck == 0:
                return None
            if ck == 1:
                return NEG(rest)
            if ck == -1:
                return rest
            if rest[0] == 'c' and rest[1] % ck == 0:
                return C(-rest[1] // ck)
            return None
        return None

    def linear(self, t, k):
        """t = a*k + b -> (a, b)"""
        z = to_z(t)
        a = z.get(frozenset([(k, 1)]), 0)
        b = SUB(t, MUL(C(a), k))
        if occurs(k, b):
            return None
        return a, b

    def closed(self, v0, h, v1, k, n):
        """closed form (final value, value at iteration k or None) of a loop-carried
        location: head h, initial v0, value after one iteration v1"""
        if not occurs(h, v1):
            # last write wins
            if not occurs(k, v1):
                return MUX(NOT(EQ0(n)), v1, v0), None
            return MUX(NOT(EQ0(n)), subst(v1, {k: SUB(n, C(1))}), v0), None
        kd = kind(h)
        if kd in 'bv' or (kd == 'i' and v1[0] == 'x'):
            d = X(v1, h)
            if not occurs(h, d):
                return X(v0, FOLD('^', n, k, d)), X(v0, prefix_fold('^', k, d))
            if kd == 'b':
                # h or e  : v1 = h ^ e ^ h&e ;  h and e
                e = subst(v1, {h: FALSE})
                if not occurs(h, e) and subst(v1, {h: TRUE}) == TRUE:
                    return OR(v0, ANY(n, k, e)), None
                e1 = subst(v1, {h: TRUE})
                if not occurs(h, e1) and e == FALSE:
                    return AND(v0, NOT(ANY(n, k, NOT(e1)))), None
        if kd == 'i':
            d = SUB(v1, h)
            if not occurs(h, d):
                return ADD(v0, FOLD('+', n, k, d)), ADD(v0, prefix_fold('+', k, d))
        # a fixed number of components, each evolving on its own
        if v1[0] == 'upd' and v0[0] == 'vec':
            up, t = {}, v1
            while t[0] == 'upd' and t[2][0] == 'c' and 0 <= t[2][1] < len(v0[1]):
                up.setdefault(t[2][1], t[3])
                t = t[1]
            if t == h:
                fin, mid = [], []
                for j, x0 in enumerate(v0[1]):
                    if j not in up:
                        fin.append(x0)
                        mid.append(x0)
                        continue
                    kj = kind(up[j])
                    hj = A(kj, 'head', fresh())
                    xj = subst(up[j], {A(kk, 'idx', h, C(j)): hj for kk in 'obiv'})
                    r = None if occurs(h, xj) else self.closed(x0, hj, xj, k, n)
                    if r is None or r[1] is None:
                        break
                    fin.append(r[0])
                    mid.append(r[1])
                else:
                    return mk('vec', tuple(fin)), mk('vec', tuple(mid))
        # sequences
        if v1[0] == 'cat' and v1[1][0] == h and not any(occurs(h, x) for x in v1[1][1:]):
            tail = CAT(*v1[1][1:])
            if tail[0] == 'vec' and len(tail[1]) == 1:
                a = ARR(n, k, tail[1][0])
                kk = A('i', 'k', fresh())
                return CAT(v0, a), CAT(v0, mk_arr(k, kk, subst(tail[1][0], {k: kk})))
            b, hh = CLOSE(k, tail)
            return CAT(v0, A('o', 'flat', n, b, hh)), None
        lenh = A('i', 'len', h)
        if v1[0] == 'cat' and v1[1][0] == h:
            # appended element refers to the current length
            v1b = subst(v1, {lenh: ADD(LEN(v0), k)})
            if v1b != v1:
                return self.closed(v0, h, v1b, k, n)
            return None
        r = self.elementwise(v0, h, v1, k, n)
        if r is not None:
            return r
        v1l = subst(v1, {lenh: LEN(v0)})
        if v1l[0] == 'arr' and v1l[1] == LEN(v0):
            # whole sequence updated element by element in every iteration
            j = A('i', 'k', fresh())
            body = OPEN(v1l, j)
            kd = kind(body)
            hj = A(kd, 'head', fresh())
            m = {a: hj for a in atoms(body) if a[2] == 'idx' and a[3] == h and a[4] == j}
            body = subst(body, m)
            if not occurs(h, body):
                r = self.closed(IDX(v0, j, kd), hj, body, k, n)
                if r is not None:
                    return ARR(v1l[1], j, r[0]), None
        if v1[0] == 'mput':
            m = v1
            puts = []
            while m[0] == 'mput':
                puts.append((m[2], m[3]))
                m = m[1]
            if m == h and len(puts) == 1 and not occurs(h, puts[0][0]) and not occurs(h, puts[0][1]):
                if v0 == EMPTYMAP and (not occurs(k, puts[0][1]) or self.injective(puts[0][0], k)):
                    return MAPB(n, k, puts[0][0], puts[0][1]), None
                return LPUT(v0, n, k, TRUE, puts[0][0], puts[0][1], 'map'), None
        if v1[0] == 'mux' and v1[2][0] != 'mput' and v1[3][0] in ('mux', 'mput'):
            # if (c1) skip else if (c2) skip else put
            c, t = TRUE, v1
            while t[0] == 'mux':
                if t[2] == h:
                    c, t = AND(c, NOT(t[1])), t[3]
                elif t[3] == h:
                    c, t = AND(c, t[1]), t[2]
                else:
                    break
            if t[0] == 'mput':
                v1 = mk('mux', c, t, h)
        if v1[0] == 'mux':
            # conditional append / put
            c, a, b = v1[1], v1[2], v1[3]
            if a == h:
                c, a, b = NOT(c), b, a
            if b == h and a[0] == 'mput' and a[1] == h and v0 == EMPTYMAP and not occurs(h, a[2]) and not occurs(h, a[3]):
                # insertion of a new key
                has = HAS(h, a[2])
                c2 = subst(c, {has: FALSE}) if has != FALSE else c
                if not occurs(h, c2) and (not occurs(k, a[3]) or self.injective(a[2], k)):
                    return MAPB(n, k, a[2], a[3], c2), None
            if b == h and not occurs(h, c):
                if a[0] == 'cat' and a[1][0] == h and not any(occurs(h, x) for x in a[1][1:]):
                    return LPUT(v0, n, k, c, LEN(v0), CAT(*a[1][1:]), 'push'), None
                if a[0] == 'mput' and a[1] == h and not occurs(h, a[2]) and not occurs(h, a[3]):
                    if v0 == EMPTYMAP and (not occurs(k, a[3]) or self.injective(a[2], k)):
                        return MAPB(n, k, a[2], a[3], c), None
                    return LPUT(v0, n, k, c, a[2], a[3], 'map'), None
        return None

    def injective(self, key, k):
        """key takes a different value in every iteration"""
        l = self.linear(key, k)
        if l is not None and l[0] != 0:
            return True
        return key[0] == 'a' and key[2] == 'key' and key[4] == k and not occurs(k, key[3])

    def elementwise(self, v0, h, v1, k, n):
        ups = []     # (guard, idx, val)

        def peel(t, g):
            # returns list of (guard, idx, val) applied in order, or None
            if t == h:
                return []
            if t[0] == 'upd':
                a = peel(t[1], g)
                if a is None:
                    return None
                return a + [(g, t[2], t[3])]
            if t[0] == 'mux':
                a = peel(t[2], AND(g, t[1]))
                b = peel(t[3], AND(g, NOT(t[1])))
                if a is None or b is None:
                    return None
                return a + b
            return None
        ups = peel(v1, TRUE)
        if not ups:
            return None
        lenh = A('i', 'len', h)
        ups = [(subst(g, {lenh: LEN(v0)}), subst(i, {lenh: LEN(v0)}), subst(v, {lenh: LEN(v0)})) for g, i, v in ups]
        # group by index
        groups = []
        for g, i, v in ups:
            for gr in groups:
                if gr[0] == i:
                    gr[1].append((g, v))
                    break
            else:
                groups.append((i, [(g, v)]))
        cur = v0
        plans = []
        lins = []
        for i, gs in groups:
            l = self.linear(i, k)
            if l is None or l[0] == 0:
                return self.generic_put(v0, h, ups, k, n)
            own = None
            kd = kind(gs[-1][1])
            slot = A('o', 'slot', fresh())
            val = None
            # current element
            def repl(t):
                for a in list(atoms(t)):
                    if a[2] == 'idx' and a[3] == h and a[4] == i:
                        t = subst(t, {a: mk('a', a[1], 'slot', slot[3])})
                return t
            base = mk('a', kd, 'slot', slot[3])
            val = base
            for g, v in gs:
                g, v = repl(g), repl(v)
                if self.refs_upd(v, h):
                    return None
                if occurs(h, v) or occurs(h, g):
                    return self.generic_put(v0, h, ups, k, n)
                val = v if g == TRUE else MUX(g, v, val)
            plans.append((i, l, slot, kd, val))
            lins.append(l)
        if len(plans) > 1:
            if len({l[0] for l in lins}) != 1:
                return self.generic_put(v0, h, ups, k, n)
            a = lins[0][0]
            bs = [l[1] for l in lins]
            for x in range(len(bs)):
                for y in range(x):
                    dlt = SUB(bs[x], bs[y])
                    if dlt[0] != 'c' or abs(a) == 1 or dlt[1] % abs(a) == 0:
                        return self.generic_put(v0, h, ups, k, n)
        if len(plans) == 1:
            i, (a, b), slot, kd, val = plans[0]
            slots = {mk('a', kk, 'slot', slot[3]): kk for kk in 'ibvof'}

            def at(j):
                kk_ = SUB(j, b) if a == 1 else SUB(b, j)
                t = subst(val, {k: kk_})
                m = {s: IDX(v0, j, kx) for s, kx in slots.items() if occurs(s, t)}
                return subst(t, m) if m else t
            if a in (1, -1):
                lo, hi = (b, ADD(b, n)) if a == 1 else (SUB(b, SUB(n, C(1))), ADD(b, C(1)))
                L = LEN(v0)
                j = A('i', 'k', fresh())
                if lo == C(0) and (hi == L or self.same_len(hi, L)):
                    return ARR(hi, j, at(j)), None
                if v0[0] == 'vec' and lo[0] == 'c' and hi[0] == 'c':
                    r = v0
                    for x in range(lo[1], hi[1]):
                        r = UPD(r, C(x), at(C(x)))
                    return r, None
                if lo == C(0) or hi == L:
                    parts = []
                    if lo != C(0):
                        parts.append(SLICE(v0, C(0), lo))
                    parts.append(ARR(n, j, at(ADD(lo, j))))
                    if hi != L:
                        parts.append(SLICE(v0, hi, L))
                    return CAT(*parts), None
                return CAT(SLICE(v0, C(0), lo), ARR(n, j, at(ADD(lo, j))), SLICE(v0, hi, L)), None
        r = v0
        for i, (a, b), slot, kd, val in sorted(plans, key=lambda p: rp(p[0])):
            m = {}
            for kx in 'ibvof':
                s = mk('a', kx, 'slot', slot[3])
                if occurs(s, val):
                    m[s] = IDX(v0, i, kx)
            r = LPUT(r, n, k, TRUE, i, subst(val, m) if m else val, 'set')
        return r, None

    def same_len(self, a, b):
        e = EQ(a, b)
        return any(f == e or f != TRUE and AND(self.guard(), f, NOT(e)) == FALSE for f in self.assume)

    def refs_upd(self, v, h):
        return False

    def generic_put(self, v0, h, ups, k, n):
        """guarded writes at data-dependent indices; the order of iterations matters"""
        r = v0
        if len(ups) != 1:
            return None
        g, i, v = ups[0]
        if occurs(h, g) or occurs(h, i) or occurs(h, v):
            return None
        return LPUT(v0, n, k, g, i, v, 'set'), None

    def sub_eff(self, effs, m):
        out = []
        for e in effs:
            if e.op in ('loop', 'loopbrk'):
                n, k, b = e.a
                out.append(Eff(subst(e.g, m), e.op, (subst(n, m), k, self.sub_eff(b, m)), None, e.site))
            else:
                a = e.a
                if isinstance(a, tuple) and not isinstance(a, T):
                    a = tuple(subst(x, m) if isinstance(x, T) else (tuple(subst(y, m) for y in x) if isinstance(x, tuple) else x) for x in a)
                elif isinstance(a, T):
                    a = subst(a, m)
                out.append(Eff(subst(e.g, m), e.op, a, subst(e.res, m) if e.res is not None else None, e.site))
        return out


def mk_arr(n, k, body):
    b, h = CLOSE(k, body)
    return mk('arr', n, b, h)


class LamFrame(Frame):
    ret = '?'
