"""Expression half of the value-flow analysis, with models of the standard
library types and algorithms the repository uses."""
from vg import *
from vg import LamFrame
import math
import vg as _vg

REAL = {'ceil': math.ceil, 'floor': math.floor, 'log2': math.log2, 'pow': math.pow, 'sqrt': math.sqrt}


def real_of(t):
    return t[1] if t[0] == 'flt' else float(t[1]) if t[0] == 'c' and abs(t[1]) < 1 << 53 else None


def real_op(op, a, b):
    """A floating-point operation on constants."""
    x, y = real_of(a), real_of(b)
    if x is None or y is None:
        return None
    if op in ('<', '<=', '>', '>='):
        return B({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
    if op in ('+', '-', '*') or op == '/' and y:
        return mk('flt', x + y if op == '+' else x - y if op == '-' else x * y if op == '*' else x / y)
    return None


def real_fn(q, vs):
    f = REAL.get(q.split('::')[-1])
    xs = [real_of(v) for v in vs]
    if f is None or None in xs:
        return None
    try:
        return mk('flt', float(f(*xs)))
    except (ValueError, OverflowError):
        return None


PURE = {'std::max', 'std::min', 'std::abs', 'abs', 'std::ceil', 'ceil', 'std::log2', 'log2', 'std::floor', 'floor',
        'std::pow', 'pow', 'std::to_string', 'std::sqrt', 'sqrt', 'std::stoi', 'std::stoul', 'std::stoull', 'std::stoll',
        'std::stod', 'std::stof', 'std::stol', 'log2l', 'ceill', 'std::log2l', '__builtin_popcountll', '__builtin_clzll',
        'std::exp2', 'std::numeric_limits::max', 'std::numeric_limits::min', 'std::isdigit', 'isdigit',
        'std::operator+', 'std::strlen', 'strlen'}
IGNORED = re.compile(r'(folly_stub::|google::|std::basic_ostream|std::operator<<|std::endl|std::flush)')


class Ev(Eval):
    # ------------------------------------------------------------ types
    def node_type(self, e):
        """best known static type of an expression node"""
        h = e[0]
        if h == 'var':
            return self.ty(e[4])
        if h in ('gvar',):
            return self.ty(e[3])
        if h == 'mem':
            return self.ty(e[4])
        if h == 'op':
            return self.ty(e[5])
        if h == 'mcall':
            return self.ty(e[5])
        if h in ('call', 'icall'):
            return self.ty(e[4])
        if h == 'ctor':
            return self.ty(e[2])
        if h == 'ilist':
            return self.ty(e[3])
        if h in ('int',):
            return self.ty(e[3])
        if h == 'bool':
            return 'bool'
        if h == 'idx':
            return self.ty(e[4])
        if h in ('bin', 'asg', 'comma'):
            return self.ty(e[5])
        if h == 'un':
            return self.ty(e[4])
        if h == 'cast':
            return self.ty(e[4])
        if h == 'cond':
            return self.ty(e[5])
        if h == 'deref':
            return ct.elem(self.node_type(e[2]))
        if h == 'this':
            return (self.frames[-1].fn.c if self.frames[-1].fn else '?') + ' *'
        return '?'

    # ------------------------------------------------------------ lvalues
    def lv(self, e):
        h = e[0]
        m = getattr(self, 'l_' + h, None)
        if m is not None:
            r = m(e)
            if r is not None:
                return r
        return self.temp(self.ev(e))

    def l_var(self, e):
        fr = self.frames[-1]
        for f in (fr,):
            if e[2] in f.env:
                return f.env[e[2]]
        # captured implicitly or not modelled
        return (('V', e[3]), ())

    def l_gvar(self, e):
        self.const_gvar(e[2])
        return (('G', e[2]), ())

    def l_this(self, e):
        return None

    def l_mem(self, e):
        base = e[2]
        if base[0] == 'this':
            loc = self.frames[-1].this or (('this', '?'), ())
        else:
            loc = self.lv(base)
        loc = self.sub(loc, ('f', e[3]))
        if ct.is_ref(self.ty(e[4])):
            p = self.rd(loc)
            return self.deref(p)
        return loc

    def l_deref(self, e):
        if e[2][0] == 'this':
            return self.frames[-1].this
        t = self.node_type(e[2])
        v = self.ev(e[2])
        if ct.is_array(t) and v[0] != 'ptr':
            loc = self.lv(e[2])
            return (loc[0], loc[1] + (('i', C(0)),))
        return self.deref(v)

    def l_idx(self, e):
        t = self.node_type(e[2])
        i = self.toint(self.ev(e[3]))
        if ct.is_array(t):
            loc = self.lv(e[2])
            return (loc[0], loc[1] + (('i', i),))
        p = self.ev(e[2])
        return self.deref(self.padd(p, i))

    def l_cast(self, e):
        return self.lv(e[3]) if e[2] in ('NoOp', 'LValueBitCast', 'BaseToDerived', 'Dynamic', 'DerivedToBase') else None

    def l_cond(self, e):
        c = self.cond(e[2])
        if c == TRUE:
            return self.lv(e[3])
        if c == FALSE:
            return self.lv(e[4])
        r = self.branch(c, lambda: self.ptr(self.lv(e[3])), lambda: self.ptr(self.lv(e[4])))
        return self.deref(r)

    def l_asg(self, e):
        self.ev(e)
        return self.lv(e[3])

    def l_comma(self, e):
        self.ev(e[3])
        return self.lv(e[4])

    def l_un(self, e):
        if e[2] in ('++', '--'):
            self.ev(e)
            return self.lv(e[3])
        return None

    def l_call(self, e):
        tu = self.frames[-1].tu
        fi = tu.fns[e[2]]
        q = strip_targs(fi['q'])
        if q in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::launder') and len(e[3]) == 1:
            return self.lv(e[3][0])
        if q == 'std::get':
            loc = self.lv(e[3][0])
            return self.sub(loc, ('f', self.get_field(fi)))
        rt = self.ty(e[4])
        if ct.is_ref(tu.types[fi['r']]) or self.retref(fi, tu):
            v = self.ev_call(e, True)
            return self.deref(v) if v[0] in ('ptr', 'mux') or v[0] == 'a' else self.temp(v)
        return None

    def retref(self, fi, tu):
        return ct.is_ref(tu.types[fi['r']])

    def get_field(self, fi):
        i = self.get_index(fi)
        if i in (0, 1) and fi['p'] and ct.tname(self.frames[-1].tu.types[fi['p'][0]]) == 'std::pair':
            return ('first', 'second')[i]
        return i

    def get_index(self, fi):
        m = re.search(r'get<(\d+)', fi['q'])
        if m:
            return int(m.group(1))
        k = fi['k']
        m = re.match(r'_ZSt3getILm(\d+)E', k)
        if m:
            return int(m.group(1))
        return 0

    def l_mcall(self, e):
        tu = self.frames[-1].tu
        fi = tu.fns[e[3]]
        rt = tu.types[fi['r']]
        if ct.is_ref(rt) or '_Bit_reference' in rt or rt.endswith('vector<bool>::reference'):
            v = self.ev_mcall(e, True)
            if v[0] in ('ptr', 'mux') or (v[0] == 'a'):
                return self.deref(v)
            return self.temp(v)
        return None

    def l_op(self, e):
        tu = self.frames[-1].tu
        isgl = e[6]
        op, args = e[2], e[3]
        if op == '->' or op == '*' and len(args) == 1:
            r = self.op_deref(e)
            if r is not None:
                return r
        if op == '[]':
            r = self.op_index(e)
            if r is not None:
                return r
        if isgl:
            v = self.ev_op(e, True)
            if v[0] in ('ptr', 'mux') or v[0] == 'a':
                return self.deref(v)
            return self.temp(v)
        return None

    # ------------------------------------------------------------ values
    def ev(self, e):
        if e is None:
            return VOID
        self.steps += 1
        if self.steps > self.budget:
            raise Unsupported('budget')
        m = getattr(self, 'e_' + e[0], None)
        if m is None:
            return self.unk('expr ' + e[0], 'o', e)
        return m(e)

    def load(self, loc, t):
        k = ct.kind_of(t)
        root, path = loc
        if path and path[-1][0] == 'pair':
            return mk('tup', (path[-1][1], self.rd((root, path[:-1] + (('k', path[-1][1]),)))))
        v = self.rd(loc, k)
        if v[0] == 'a' and v[1] == 'o' and k != 'o' and v[2] != 'unk':
            v = mk('a', k, *v[2:])
        return v

    def e_int(self, e):
        return C(int(e[2]))

    def e_bool(self, e):
        return B(bool(e[2]))

    def e_enum(self, e):
        return C(int(e[2]))

    def e_str(self, e):
        return mk('str', e[2])

    def e_flt(self, e):
        return mk('flt', float(e[2]))

    def e_null(self, e):
        return NULL

    def e_zero(self, e):
        return self.default_value(self.ty(e[2]), e)

    def e_this(self, e):
        t = self.frames[-1].this
        return self.ptr(t) if t is not None else sym('this')

    def e_var(self, e):
        t = self.ty(e[4])
        loc = self.l_var(e)
        if ct.is_array(t):
            return self.ptr((loc[0], loc[1] + (('i', C(0)),)))
        return self.load(loc, ct.clean(t))

    def e_gvar(self, e):
        t = self.ty(e[3])
        if e[2] in ('std::nullopt', 'folly::none'):
            return NULL
        root = ('G', e[2])
        self.const_gvar(e[2], t)
        if ct.is_array(t):
            return self.ptr((root, (('i', C(0)),)))
        return self.load((root, ()), ct.clean(t))

    def const_gvar(self, name, t=''):
        """value of a namespace-scope constant"""
        root = ('G', name)
        g = self.db.gvars.get(name)
        if g is None or g['init'] is None or root in self.gval:
            return
        gt = g['tu'].types[g['t']]
        if t.startswith('const') or ' const' in t or gt.startswith('const') or ' const' in gt:
            fr = Frame(self.frames[-1].fn, g['tu'], None)
            self.frames.append(fr)
            try:
                self.gval[root] = self.init_value(g['init'], gt)
                self.constg.add(root)
            finally:
                self.frames.pop()

    def e_mem(self, e):
        t = self.ty(e[4])
        loc = self.l_mem(e)
        if ct.is_array(t):
            return self.ptr((loc[0], loc[1] + (('i', C(0)),)))
        return self.load(loc, ct.clean(t))

    def e_fn(self, e):
        return mk('fnp', self.frames[-1].tu.fns[e[2]]['k'])

    def e_mfn(self, e):
        return self.unk('member function value', 'o', e)

    def e_unk(self, e):
        return self.unk('expr ' + str(e[2]), 'o', e)

    def e_deref(self, e):
        loc = self.l_deref(e)
        return self.load(loc, self.node_type(e))

    def e_idx(self, e):
        loc = self.l_idx(e)
        return self.load(loc, self.ty(e[4]))

    def e_addr(self, e):
        if e[2][0] == 'fn':
            return self.ev(e[2])
        return self.ptr(self.lv(e[2]))

    def e_comma(self, e):
        self.ev(e[3])
        return self.ev(e[4])

    def e_stmtexpr(self, e):
        self.stmt(e[2])
        return VOID

    def e_throw(self, e):
        t = ''
        v = e[2]
        while v is not None and v[0] == 'ctor' and v[4] and ct.tname(self.ty(v[2])) == ct.tname(self.node_type(v[4][0])):
            v = v[4][0]
        if v is not None:
            t = self.node_type(v)
        self.effect('throw', ct.clean(t), node=e)
        self.throw_now()
        return VOID

    def e_delete(self, e):
        p = self.ev(e[2])
        self.effect('delete', p, node=e)
        return VOID

    def e_new(self, e):
        t = self.ty(e[2])
        if e[4] is not None:
            n = self.toint(self.ev(e[4]))
            r = self.newroot('N', self.rep(n, self.default_value(t)))
            return mk('ptr', r, (('i', C(0)),))
        if e[3] is not None and e[3][0] == 'ctor':
            return self.new_object(t, e[3])
        r = self.newroot('N', self.init_value(e[3], t) if e[3] is not None else self.default_value(t), ct.clean(t))
        return mk('ptr', r, ())

    def new_object(self, t, ctor):
        v = self.e_ctor(ctor)
        r = self.newroot('N', v, ct.clean(t))
        return mk('ptr', r, ())

    def e_lambda(self, e):
        fr = self.frames[-1]
        env = dict(fr.env)
        lid = fresh()
        for c in e[2]:
            if c[0] == 'copy':
                if c[3] is not None:
                    env[c[1]] = (self.newroot('L', self.ev(c[3])), ())
                elif c[1] in fr.env:
                    v = self.rd(fr.env[c[1]])
                    env[c[1]] = (self.newroot('L', v), ())
            elif c[0] == 'ref' and c[3] is not None:
                env[c[1]] = self.lv(c[3])
        self.lams[lid] = Lam(e, env, fr.this, fr.tu, fr.fn)
        return mk('lam', lid)

    def call_lambda(self, lam, argv, node, rt='?'):
        """argv: values or ptr terms for reference parameters"""
        L = self.lams[lam[1]]
        fr = LamFrame(L.fn, L.tu, L.this, dict(L.env))
        fr.ret = '?' if rt is None else rt
        n0 = self.nroot
        params, body = L.node[3], L.node[4]
        if body is None or len(self.frames) > self.depth:
            return self.unk('lambda without body', 'o', node)
        for p, v in zip(params, argv):
            self.bind(fr, p[0], L.tu.types[p[2]], v)
        self.g.append(self.frames[-1].live)
        self.frames.append(fr)
        try:
            self.stmt(body)
        finally:
            self.frames.pop()
            self.g.pop()
        return self.leave(fr, n0)

    def closure(self, lam, depth=0):
        """what a stored callable does: result, effects and change of the object as a term"""
        L = self.lams.get(lam[1])
        if L is None or depth > 2:
            return A('o', 'unk', 'closure')
        eff, store, ords, g, frames, cls = self.eff, dict(self.store), dict(self.ords), self.g, self.frames, dict(self.cls)
        n0, notes = self.nroot, len(self.notes)
        try:
            self.eff, self.g = [], []
            fr = Frame(L.fn, L.tu, L.this)
            self.frames = [fr]
            argv = []
            for i, p in enumerate(L.node[3]):
                t = L.tu.types[p[2]]
                v = self.symbolic('arg%d' % i, t) if not ct.is_ref(t) else self.ptr(self.temp(sym('arg%d' % i)))
                argv.append(v)
            this0 = store.get(L.this[0]) if L.this else None
            r = self.call_lambda(lam, argv, None)
            after = self.store.get(L.this[0]) if L.this else None

            def norm(x):
                if isinstance(x, Eff):
                    return mk('eff', x.g, x.op, norm(x.a), norm(x.res))
                if x is None:
                    return NULL
                if isinstance(x, list):
                    return mk('effs', *[norm(y) for y in x])
                if isinstance(x, tuple) and type(x) is not T:
                    return mk('t', *[norm(y) for y in x])
                return x
            t = A('o', 'clo', r if r is not None else NULL, norm(list(self.eff)), after if after is not None and after != this0 else NULL)
            ls = [y for y in subterms(t) if type(y) is T and y[0] == 'lam']
            if ls:
                t = subst(t, {y: self.closure(y, depth + 1) for y in ls})
            return t
        finally:
            self.eff, self.ords, self.g, self.frames, self.cls = eff, ords, g, frames, cls
            self.store.clear()
            self.store.update(store)

    def lam_params(self, f):
        if f[0] == 'lam':
            L = self.lams[f[1]]
            return [L.tu.types[p[2]] for p in L.node[3]]
        if f[0] == 'fnp':
            fn = self.db.funcs.get(f[1])
            if fn:
                return fn.ptypes()
        return None

    def apply(self, f, locs, node, rt='?'):
        """call a callable value with arguments given as locations"""
        pts = self.lam_params(f)
        argv = []
        for i, l in enumerate(locs):
            t = pts[i] if pts and i < len(pts) else '?'
            argv.append(self.ptr(l) if ct.is_ref(t) else self.load(l, ct.clean(t)))
        return self.apply_v(f, argv, node, rt)

    def apply_v(self, f, argv, node, rt='?'):
        if f[0] == 'lam':
            return self.call_lambda(f, argv, node, rt)
        if f[0] == 'fnp':
            fn = self.db.funcs.get(f[1])
            if fn is not None:
                r = self.invoke(fn, None, argv, node)
                if r is not None:
                    return r
            return self.opaque_call(f[1], None, argv, rt, node)
        if f[0] == 'fop':      # std::plus etc
            a = [self.rd((v[1], v[2])) if v[0] == 'ptr' else v for v in argv]
            return self.arith(f[1], a[0], a[1] if len(a) > 1 else None, f[2])
        if f[0] == 'mux':
            return self.branch(f[1], lambda: self.apply_v(f[2], argv, node, rt), lambda: self.apply_v(f[3], argv, node, rt))
        if f[0] == 'ptr':
            return self.apply_v(self.rd((f[1], f[2])), argv, node, rt)
        if f[0] == 'a':
            vals = tuple(self.rd((v[1], v[2])) if v[0] == 'ptr' else v for v in argv)
            n = self.fresh_ord(('fcall', f))
            r = A(ct.kind_of(rt), 'ev', 'fcall', f, n, self.loopk)
            self.effect('call', ('fcall', f, vals), r, node)
            return r
        return self.unk('call of %s' % f[0], ct.kind_of(rt), node)

    # ------------------------------------------------------------ init
    def init_value(self, e, t, loc=None):
        """value of e converted to declared type t (copy/move construction)"""
        if e is None:
            return self.default_value(t)
        if ct.is_ref(t) and not loc:
            return self.ptr(self.lv(e))
        v = self.ev(e)
        k = ct.kind_of(t)
        if k == 'b' and kind(v) != 'b':
            v = self.tobool(v)
        elif k == 'i':
            v = self.toint(v)
        return v

    def toint(self, v):
        if kind(v) == 'b' and v[0] != 'bdd':
            return B2I(v)
        return v

    def engaged(self, v):
        """does an optional hold a value?"""
        if v == NULL:
            return FALSE
        if v[0] == 'mux':
            return self.tobool(MUX(v[1], self.engaged(v[2]), self.engaged(v[3])))
        if kind(v) in ('i', 'b', 'f') or v[0] in ('struct', 'vec', 'tup', 'ptr'):
            return TRUE
        return self.tobool(v)

    def e_ctor(self, e):
        _, ln, t, cal, args = e[:5]
        li = e[5] if len(e) > 5 else 0
        t = ct.clean(self.ty(t))
        tu = self.frames[-1].tu
        fi = tu.fns[cal] if cal >= 0 else None
        n = ct.tname(t)
        key = 'ctor:' + strip_targs(t)
        if key in self.hooks:
            r = self.hooks[key](self, None, args, e, t)
            if r is not None:
                return r
        if fi is not None and fi.get('ctor') in ('copy', 'move') and len(args) >= 1:
            fn = self.db.funcs.get(fi['k'])
            if fn is None or fn.d.get('implicit') or fn.body is None or self.is_opaque(fn.q):
                v = self.ev(args[0])
                if fi['ctor'] == 'move':
                    self.moved(args[0], t)
                return v
        if n in ct.SEQ:
            return self.seq_ctor(t, n, fi, args, e, li)
        if n in ct.STRS:
            return self.str_ctor(t, fi, args, e)
        if n in ct.MAPS or n in ct.SETS:
            return self.map_ctor(t, n, args, e)
        if n in ct.SMART:
            if not args:
                return NULL
            return self.ev(args[0])
        if n in ('std::pair', 'std::tuple'):
            a = ct.targs(t)
            if not args:
                return self.default_value(t)
            if len(args) == len(a):
                vs = []
                for x, ty_ in zip(args, a):
                    vs.append(self.init_value(x, ct.clean(ty_)))
                return mk('tup', tuple(vs))
            return self.ev(args[0])
        if n in ('std::optional', 'std::function', 'std::reference_wrapper', 'std::atomic'):
            if not args:
                return NULL if n != 'std::atomic' else self.default_value(ct.targs(t)[0])
            if n == 'std::reference_wrapper':
                return self.ptr(self.lv(args[0]))
            v = self.ev(args[0])
            k = ct.kind_of(ct.targs(t)[0]) if n != 'std::function' else 'o'
            return self.tobool(v) if k == 'b' else self.toint(v) if k == 'i' else v
        if n.startswith('std::') and n.split('::')[-1] in ('plus', 'minus', 'multiplies', 'bit_xor', 'bit_and', 'logical_not',
                                                          'negate', 'equal_to', 'less', 'greater', 'bit_or', 'logical_and'):
            op = {'plus': '+', 'minus': '-', 'multiplies': '*', 'bit_xor': '^', 'bit_and': '&', 'logical_not': '!',
                  'negate': 'neg', 'equal_to': '==', 'less': '<', 'greater': '>', 'bit_or': '|', 'logical_and': '&&'}[n.split('::')[-1]]
            return mk('fop', op, ct.targs(t)[0] if ct.targs(t) else '?')
        if n.startswith('__gnu_cxx::__normal_iterator') or n.startswith('std::_Bit_') or n.startswith('std::_Rb_tree') or n.startswith('std::__detail'):
            return self.ev(args[0]) if args else NULL
        if n in ('std::basic_string_view',):
            return self.ev(args[0]) if args else EMPTY
        if n == 'std::bitset':
            return A('o', 'bitset', self.ev(args[0]) if args else C(0))
        if fi is not None:
            fn = self.db.funcs.get(fi['k'])
            if fn is not None and not self.is_opaque(fn.q):
                argv = self.args_for(fi, args, tu)
                return self.make_object(t, e, fn, argv)
            if fi.get('ctor') == 'default' and not args:
                return self.default_value(t, e) if t in self.db.classes else A('o', 'newobj', t, self.fresh_ord(('newobj', t)), self.loopk)
            if t in self.db.classes and fi.get('ctor') in ('copy', 'move'):
                return self.ev(args[0])
        argv = self.args_for(fi, args, tu) if fi is not None else [self.ev(a) for a in args]
        pts = [tu.types[p] for p in fi['p']] if fi is not None else []
        vals = tuple(self.passed(v, pts[i] if i < len(pts) else '?') for i, v in enumerate(argv))
        return A('o', 'new', t, vals)

    def passed(self, v, t):
        """what an argument carries into code that is not analysed: the object a reference designates"""
        if v[0] != 'ptr':
            return v
        if ct.is_ref(t) or t == '?':
            return self.rd((v[1], v[2]), ct.kind_of(t) if t != "?" else "o")
        return v

    def moved(self, a, t):
        """source of a move construction/assignment"""
        while a[0] == 'cast':
            a = a[3]
        if a[0] == 'call':
            fi = self.frames[-1].tu.fns[a[2]]
            if strip_targs(fi['q']) == 'std::move':
                loc = self.lv(a[3][0])
                n = ct.tname(t)
                if n in ct.SEQ or n in ct.STRS:
                    if n == 'std::array':
                        return
                    self.wr(loc, EMPTY)
                elif n in ct.MAPS or n in ct.SETS:
                    self.wr(loc, EMPTYMAP)
                elif n in ct.SMART:
                    self.wr(loc, NULL)

    def e_ilist(self, e):
        t = ct.clean(self.ty(e[3]))
        n = ct.tname(t)
        if n in ct.MAPS:
            pass
        if ct.is_array(t):
            et = ct.elem(t)
            vs = [self.init_value(x, et) for x in e[2]]
            m = re.search(r'\[(\d+)\]', t)
            cnt = int(m.group(1)) if m else len(vs)
            if len(vs) < cnt:
                vs += [self.default_value(et)] * (cnt - len(vs))
            return mk('vec', tuple(vs))
        if n == 'std::array':
            et = ct.targs(t)[0]
            if len(e[2]) == 1 and e[2][0] is not None and ct.is_array(self.node_type(e[2][0])):
                return self.ev(e[2][0])
            if not e[2]:
                return self.default_value(t)
            return mk('vec', tuple(self.init_value(x, et) for x in e[2]))
        if n in ct.SEQ:
            et = ct.elem(t)
            return mk('vec', tuple(self.init_value(x, et) for x in e[2]))
        c = self.db.classes.get(t)
        if c is not None:
            fl = self.db.fields(t)
            vals = {}
            # aggregate: bases first are not used here
            for i, f in enumerate(fl):
                if i < len(e[2]) and e[2][i] is not None:
                    vals[f[0]] = self.init_value(e[2][i], f[1])
                else:
                    vals[f[0]] = self.field_default(f)
            return mk('struct', t, tuple(sorted(vals.items())))
        if ct.kind_of(t) in 'ibf':
            return self.init_value(e[2][0], t) if e[2] else self.default_value(t)
        if ct.kind_of(t) == 'v':
            return A('v', 'vinit', tuple(self.ev(x) for x in e[2]))
        if not e[2]:
            return self.default_value(t)
        if len(e[2]) == 1:
            return self.ev(e[2][0])
        return mk('tup', tuple(self.ev(x) for x in e[2]))

    def seq_ctor(self, t, n, fi, args, e, li):
        et = ct.elem(t)
        args = [a for a in args if a is not None]
        if n == 'std::vector' and fi is not None:
            pts = fi['p']
            # trailing allocator arguments
            while args and len(args) > 1 and 'allocator' in ct.tname(ct.clean(self.node_type(args[-1]))):
                args = args[:-1]
            if args and len(args) == 1 and 'allocator' in ct.tname(ct.clean(self.node_type(args[0]))):
                args = []
        if not args:
            return self.default_value(t) if n == 'std::array' else EMPTY
        tys = [self.node_type(a) for a in args]
        if ct.kind_of(tys[0]) == 'i' and n != 'std::array' and not (args[0][0] == 'ilist' and li):
            p0 = self.frames[-1].tu.types[fi['p'][0]] if fi is not None and fi['p'] else ''
            if 'initializer_list' not in p0:
                cnt = self.toint(self.ev(args[0]))
                if len(args) == 1:
                    return self.rep(cnt, self.default_value(et))
                return self.rep(cnt, self.init_value(args[1], et))
        if len(args) == 2:
            a, b = self.ev(args[0]), self.ev(args[1])
            if n == 'folly::Range':
                return a
            return self.range_seq(a, b, e)
        v = self.ev(args[0])
        if fi is not None and fi.get('ctor') == 'move':
            self.moved(args[0], t)
        return v

    def range_seq(self, a, b, node):
        """sequence between two iterators"""
        if a[0] == 'miter':
            a = mk('ptr', self.newroot('T', a[1]), (('i', C(0)),))
        if a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1] and a[2][:-1] == b[2][:-1] and a[2] and a[2][-1][0] == 'i':
            s = self.rd((a[1], a[2][:-1]))
            return SLICE(s, a[2][-1][1], b[2][-1][1])
        if a[0] == 'ptr' and a[2] and a[2][-1][0] == 'rev':
            pass
        return A('o', 'range', a, b)

    def str_ctor(self, t, fi, args, e):
        args = [a for a in args if a is not None and 'allocator' not in ct.tname(ct.clean(self.node_type(a)))]
        if not args:
            return EMPTY
        if len(args) == 1:
            v = self.ev(args[0])
            if fi is not None and fi.get('ctor') == 'move':
                self.moved(args[0], t)
            if v[0] == 'ptr' and ct.is_ptr(self.node_type(args[0])) or ct.is_array(self.node_type(args[0])) and v[0] == 'ptr':
                return A('o', 'cstr', self.rd((v[1], v[2][:-1] if v[2] and v[2][-1][0] == 'i' else v[2])))
            return v
        vs = [self.ev(a) for a in args]
        if len(vs) == 2 and vs[0][0] == 'ptr' and kind(vs[1]) == 'i' and vs[0][2] and vs[0][2][-1][0] == 'i':
            s = self.rd((vs[0][1], vs[0][2][:-1]))
            return SLICE(s, vs[0][2][-1][1], ADD(vs[0][2][-1][1], vs[1]))
        if len(vs) == 2 and vs[0][0] == 'ptr' and vs[1][0] == 'ptr':
            return self.range_seq(vs[0], vs[1], e)
        if len(vs) == 2 and kind(vs[0]) == 'i':
            return self.rep(vs[0], vs[1])
        return A('o', 'string', tuple(vs))

    def map_ctor(self, t, n, args, e):
        args = [a for a in args if a is not None]
        if not args:
            return EMPTYMAP
        v = self.ev(args[0])
        if v[0] == 'vec':
            m = EMPTYMAP
            for x in v[1]:
                if n in ct.SETS:
                    m = MPUT(m, x, TRUE)
                else:
                    m = MPUT(m, FLD(x, 'first'), FLD(x, 'second'))
            return m
        if ct.kind_of(self.node_type(args[0])) == 'i':
            return EMPTYMAP
        if len(args) >= 2 and v[0] == 'ptr':
            s = self.range_seq(v, self.ev(args[1]), e)
            return A('o', 'setof', s) if n in ct.SETS else A('o', 'mapof', s)
        return v

    # ------------------------------------------------------------ operators
    def num(self, v):
        return self.toint(v)

    def padd(self, p, d):
        if p[0] == 'ptr':
            path = p[2]
            if path and (path[-1][0] == 'i' or path[-1][0][0] == 'm'):
                return mk('ptr', p[1], path[:-1] + ((path[-1][0], ADD(path[-1][1], d)),))
            if d == C(0):
                return p
            if not path or path[-1][0] == 'f':
                return mk('ptr', p[1], path + (('i', d),)) if False else A('o', 'padd', p, d)
        if p[0] == 'rit':
            return mk('rit', self.padd(p[1], NEG(d)))
        if p[0] == 'a' and p[2] == 'padd':
            d2 = ADD(p[4], d)
            return p[3] if d2 == C(0) else A('o', 'padd', p[3], d2)
        if p[0] == 'a':
            return p if d == C(0) else A('o', 'padd', p, d)
        if p[0] == 'mux':
            return MUX(p[1], self.padd(p[2], d), self.padd(p[3], d))
        return self.unk('pointer arithmetic', 'o')

    def ispt(self, v):
        return v[0] in ('ptr', 'rit') or (v[0] == 'a' and v[2] == 'padd')

    def arith(self, op, a, b, t='?'):
        k = ct.kind_of(t)
        if op == '!':
            return NOT(self.tobool(a))
        if op in ('&&', 'and'):
            return AND(self.tobool(a), self.tobool(b))
        if op in ('||', 'or'):
            return OR(self.tobool(a), self.tobool(b))
        if op == 'neg':
            return NEG(self.num(a))
        if op in ('==', '!='):
            r = self.equal(a, b)
            return r if op == '==' else NOT(r)
        if 'f' in (kind(a), kind(b)) or k == 'f':
            r = real_op(op, a, b)
            if r is not None:
                return r
            if op in ('<', '<=', '>', '>='):
                return A('b', 'f' + op, a, b)
            return A('f', 'f' + op, a, b)
        if self.ispt(a) or self.ispt(b):
            if op == '-' and self.ispt(b):
                if a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1] and a[2][:-1] == b[2][:-1] and a[2] and a[2][-1][0] == 'i' and b[2][-1][0] == 'i':
                    return SUB(a[2][-1][1], b[2][-1][1])
                return A('i', 'pdiff', a, b)
            if op in ('+', '-') and self.ispt(a):
                return self.padd(a, self.num(b) if op == '+' else NEG(self.num(b)))
            if op == '+':
                return self.padd(b, self.num(a))
            if op in ('<', '<=', '>', '>=') and a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1] and a[2] and b[2]:
                a, b = a[2][-1][1], b[2][-1][1]
        if op == '+' and (a[0] in ('str', 'vec', 'cat', 'arr') or b[0] in ('str',) or (a[0] == 'a' and a[2] in ('string',))):
            return CAT(a, b)
        ka, kb = kind(a), kind(b)
        if 'v' in (ka, kb):
            if op == '^':
                return X(a, b)
            return A('v', 'v' + op, a, b)
        if ka == 'o' and a[0] == 'a' or kb == 'o' and b[0] == 'a':
            if op in '+-*/%' and k == 'i' or op in ('<', '>', '<=', '>='):
                pass
        if op in ('^', '&', '|') and ka == 'b' and kb == 'b':
            return {'^': X, '&': AND, '|': OR}[op](a, b)
        a, b = self.num(a), self.num(b)
        if op == '+':
            return ADD(a, b)
        if op == '-':
            return SUB(a, b)
        if op == '*':
            return MUL(a, b)
        if op == '<':
            return LT(a, b)
        if op == '<=':
            return LE(a, b)
        if op == '>':
            return LT(b, a)
        if op == '>=':
            return LE(b, a)
        if op in ('/', '%', '&', '|', '^', '<<', '>>'):
            return BITOP(op, a, b)
        return self.unk('operator ' + op)

    def equal(self, a, b):
        nullopt = A('o', 'glob', 'std::nullopt')
        a, b = NULL if a == nullopt else a, NULL if b == nullopt else b
        if a == b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if x[0] == 'mit' and y[0] == 'mend':
                return NOT(HAS(self.rd((x[1], x[2])), x[3]))
            if x[0] == 'ptr' and y[0] == 'mend':
                if x[2] and x[2][-1][0][0] == 'm' and x[1] == y[1] and x[2][:-1] == y[2]:
                    return EQ(x[2][-1][1], LEN(self.rd((y[1], y[2]))))
            if x[0] == 'ptr' and y[0] == 'null':
                return FALSE
            if x[0] == 'null' and y[0] == 'a':
                return NOT(A('b', 'bool', y))
        if a[0] == 'ptr' and b[0] == 'ptr':
            if a[1] == b[1] and len(a[2]) == len(b[2]) and a[2] and a[2][:-1] == b[2][:-1] and a[2][-1][0] == b[2][-1][0] and a[2][-1][0][0] in 'im':
                return EQ(a[2][-1][1], b[2][-1][1])
            if a[1] != b[1] and a[1][0] in ('L', 'T', 'N') and b[1][0] in ('L', 'T', 'N', 'this'):
                return FALSE
        if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
            r = TRUE
            for x, y in zip(a[1], b[1]):
                r = AND(r, self.equal(x, y))
            return r
        if a[0] in ('vec', 'str') and b[0] in ('vec', 'str') and LEN(a) != LEN(b):
            return FALSE
        return EQ(a, b)

    def e_bin(self, e):
        op = e[2]
        if op in ('&&', '||'):
            a = self.cond(e[3])
            if op == '&&':
                if a == FALSE:
                    return FALSE
                if a == TRUE:
                    return self.cond(e[4])
                r = self.branch(a, lambda: self.cond(e[4]), lambda: FALSE)
                return r
            if a == TRUE:
                return TRUE
            if a == FALSE:
                return self.cond(e[4])
            return self.branch(a, lambda: TRUE, lambda: self.cond(e[4]))
        a = self.ev(e[3])
        b = self.ev(e[4])
        r = self.arith(op, a, b, self.ty(e[5]))
        if self.exact and op in ('+', '-', '*', '<<'):
            r = self.wrap(r, self.ty(e[5]))
        return r

    def wrap(self, v, t):
        """the value kept in an integer of the type given"""
        t = ct.clean(t)
        w = ct.SIZES.get(t)
        if not w or t in ('bool', 'double', 'float') or kind(v) != 'i' or as_bool_int(v) is not None:
            return v
        w *= 8
        u = t.startswith('unsigned')
        if v[0] == 'c':
            x = v[1] & ((1 << w) - 1)
            if not u and x >> (w - 1):
                x -= 1 << w
            return C(x)
        if not u and w >= 32 and v[0] != 'a':
            pass
        return TRUNC(w, u, v)

    def e_cond(self, e):
        c = self.cond(e[2])
        t = self.ty(e[5])
        r = self.branch(c, lambda: self.init_value(e[3], ct.clean(t)), lambda: self.init_value(e[4], ct.clean(t)))
        return r if r is not None else VOID

    def e_un(self, e):
        op = e[2]
        if op in ('++', '--', 'p++', 'p--'):
            loc = self.lv(e[3])
            t = self.ty(e[4])
            old = self.load(loc, ct.clean(t))
            d = C(1 if '+' in op else -1)
            new = self.padd(old, d) if self.ispt(old) or ct.is_ptr(t) else ADD(self.num(old), d)
            if self.exact:
                new = self.wrap(new, t)
            self.wr(loc, new)
            return old if op[0] == 'p' else new
        v = self.ev(e[3])
        if op == '!':
            return NOT(self.tobool(v))
        if op == '-':
            if kind(v) == 'f':
                return A('f', 'neg', v)
            return self.wrap(NEG(self.num(v)), self.ty(e[4])) if self.exact else NEG(self.num(v))
        if op == '+':
            return self.num(v)
        if op == '~':
            k = ct.kind_of(self.ty(e[4]))
            if k == 'v':
                return A('v', 'vnot', v)
            return self.wrap(SUB(C(-1), self.num(v)), self.ty(e[4])) if self.exact else SUB(C(-1), self.num(v))
        return self.unk('unary ' + op, 'o', e)

    def e_asg(self, e):
        op = e[2]
        t = ct.clean(self.ty(e[5]))
        if op == '=':
            v = self.init_value(e[4], t)
            loc = self.lv(e[3])
            self.wr(loc, v)
            return v
        loc = self.lv(e[3])
        old = self.load(loc, t)
        r = self.ev(e[4])
        v = self.arith(op[:-1], old, r, t)
        k = ct.kind_of(t)
        if self.exact and k == 'i':
            v = self.wrap(self.toint(v), t)
        if k == 'b':
            v = self.tobool(v)
        elif k == 'i':
            v = self.toint(v)
        self.wr(loc, v)
        return v

    def e_cast(self, e):
        kd, t = e[2], self.ty(e[4])
        if kd == 'ToVoid':
            self.ev(e[3])
            return VOID
        v = self.ev(e[3])
        if kd in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean', 'FloatingToBoolean'):
            return self.tobool(v)
        if kd == 'IntegralCast':
            v = self.toint(v) if v[0] != 'bdd' else v
            if self.exact:
                st = ct.clean(self.node_type(e[3]))
                a, b = ct.SIZES.get(st, 0), ct.SIZES.get(ct.clean(t), 0)
                us, ut = st.startswith('unsigned') or st == 'bool', ct.clean(t).startswith('unsigned')
                if a and b and (us == ut and a <= b or us and not ut and a < b):
                    return v
                return self.wrap(v, t)
            w = ct.NARROW.get(ct.clean(t))
            if w is not None:
                st = ct.clean(self.node_type(e[3]))
                if ct.NARROW.get(st, 99) == w and st.startswith('unsigned') == ct.clean(t).startswith('unsigned'):
                    return v
                if v[0] == 'c':
                    x = v[1] & ((1 << w) - 1)
                    if not ct.clean(t).startswith('unsigned') and x >> (w - 1):
                        x -= 1 << w
                    return C(x)
                if as_bool_int(v) is not None:
                    return v
                return TRUNC(w, ct.clean(t).startswith('unsigned'), v)
            return v
        if kd in ('IntegralToFloating',):
            v = self.toint(v)
            return mk('flt', float(v[1])) if v[0] == 'c' and abs(v[1]) < 1 << 53 else A('f', 'tof', v)
        if kd == 'FloatingToIntegral':
            return C(int(v[1])) if v[0] == 'flt' and abs(v[1]) < 1 << 53 else A('i', 'toi', v)
        if kd == 'NullToPointer':
            return NULL
        return v

    # ------------------------------------------------------------ calls
    def e_call(self, e):
        if e[0] == 'call' and len(e[3]) == 1 and e[2] >= 0:
            q = strip_targs(self.frames[-1].tu.fns[e[2]]['q'])
            if q in ('std::move', 'std::forward', 'std::as_const'):
                # a name for the same object: its value, even when that value is an address
                return self.ev(e[3][0])
        v = self.ev_call(e, False)
        return self.unref(v, e)

    def unref(self, v, e):
        """a call that returns a reference, used as a value"""
        if v is None:
            return self.unk('call', 'o', e)
        fi = self.frames[-1].tu.fns[e[3] if e[0] == 'mcall' else e[2]] if e[0] in ('mcall', 'call') else None
        if fi is not None and ct.is_ref(self.frames[-1].tu.types[fi['r']]) and v[0] == 'ptr':
            return self.load((v[1], v[2]), ct.clean(self.frames[-1].tu.types[fi['r']]))
        if fi is not None and v[0] == 'a' and v[1] == 'o' and v[2] in ('get', 'ev') and ct.is_ref(self.frames[-1].tu.types[fi['r']]):
            return self.load((('H', v), ()), ct.clean(self.frames[-1].tu.types[fi['r']]))
        if fi is not None and v[0] == 'ptr' and v[2] and ct.kind_of(self.frames[-1].tu.types[fi['r']]) in ('b', 'i', 'f'):
            # element of a bit vector returned by value
            return self.load((v[1], v[2]), ct.clean(self.frames[-1].tu.types[fi['r']]))
        return v

    def ev_call(self, e, wantref):
        _, ln, cal, args, t = e[:5]
        tu = self.frames[-1].tu
        fi = tu.fns[cal]
        rt = tu.types[fi['r']]
        q = strip_targs(fi['q'])
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, None, args, e, rt)
            if r is not None:
                return r
        fn = self.db.funcs.get(fi['k'])
        if fn is not None and not self.is_opaque(fn.q):
            argv = self.args_for(fi, args, tu)
            r = self.invoke(fn, None, argv, e)
            if r is not None:
                return r
            return self.opaque_call(q, None, argv, rt, e, pts=[tu.types[p] for p in fi['p']])
        m = STD.get(q)
        if m is None and q.startswith(('_mm', '__builtin_ia32_')) and not any(ct.is_ptr(tu.types[p]) for p in fi['p']):
            m = _intr
        if m is not None:
            r = m(self, e, fi, args, rt, wantref)
            if r is not None:
                return r
        if q in PURE:
            vs = tuple(self.ev(a) for a in args)
            if q in ('std::max', 'std::min') and len(vs) == 2:
                a, b = self.num(vs[0]), self.num(vs[1])
                if kind(a) == 'i' and kind(b) == 'i':
                    return MAXT(a, b) if q == 'std::max' else SUB(ADD(a, b), MAXT(a, b))
                c = LT(a, b)
                return MUX(c, b, a) if q == 'std::max' else MUX(c, a, b)
            if q == 'std::operator+' and len(vs) == 2:
                return CAT(*[mk('vec', (x,)) if kind(x) == 'i' else x for x in vs])
            r = real_fn(q, vs)
            return A(ct.kind_of(rt), 'fn', q, vs) if r is None else r
        if IGNORED.match(q):
            for a in args:
                pass
            return VOID
        argv = self.args_for(fi, args, tu)
        if fi.get('variadic'):
            argv += [self.ev(a) for a in args[len(fi['p']):]]
        return self.opaque_call(q, None, argv, rt, e, pts=[tu.types[p] for p in fi['p']])

    def e_icall(self, e):
        f = self.ev(e[2])
        pts = self.lam_params(f)
        argv = []
        for i, a in enumerate(e[3]):
            ty_ = pts[i] if pts and i < len(pts) else '?'
            argv.append(self.ptr(self.lv(a)) if ct.is_ref(ty_) else self.ev(a))
        return self.apply_v(f, argv, e, self.ty(e[4]))

    def e_mcall(self, e):
        v = self.ev_mcall(e, False)
        return self.unref(v, e)

    def dyncls(self, loc, static):
        root, path = loc
        if not path and root in self.cls:
            return self.cls[root]
        return self.dyn.get(static)

    def ev_mcall(self, e, wantref):
        _, ln, obj, cal, args, t = e[:6]
        qual = e[6] if len(e) > 6 else False
        tu = self.frames[-1].tu
        fi = tu.fns[cal]
        rt = tu.types[fi['r']]
        q = strip_targs(fi['q'])
        c = fi.get('c', '')
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, obj, args, e, rt)
            if r is not None:
                return r
        cn = ct.tname(c)
        if not fi.get('repo'):
            r = self.std_method(cn, c, q.split('::')[-1], obj, args, e, fi, rt, wantref)
            if r is not None:
                return r
        if obj[0] == 'this':
            loc = self.frames[-1].this
        else:
            loc = self.lv(obj)
        return self.member_call(loc, fi, args, e, rt, qual, q, c, tu)

    def member_call(self, loc, fi, args, e, rt, qual, q, c, tu):
        ml = getattr(self, 'muxlocs', {}).get(loc[0])
        if ml is not None and not loc[1]:
            cnd, la, lb = ml
            return self.branch(cnd, lambda: self.member_call(la, fi, args, e, rt, qual, q, c, tu),
                               lambda: self.member_call(lb, fi, args, e, rt, qual, q, c, tu))
        fn = self.db.funcs.get(fi['k'])
        if fi.get('virt') and not qual:
            d = self.dyncls(loc, ct.clean(c))
            if d is None:
                rc = None
                if loc[0][0] == 'H' or True:
                    rc = self.dyn.get(ct.clean(c))
                d = rc
            if d is not None:
                f2 = self.db.method_impl(d, fi['k'])
                if f2 is not None:
                    fn = f2
            elif self.db.overrides.get(fi['k']):
                if fn is None or True:
                    fn = None
        if fn is not None and not self.is_opaque(fn.q):
            argv = self.args_for(fi, args, tu)
            if fn.d.get('static'):
                r = self.invoke(fn, None, argv, e)
            else:
                r = self.invoke(fn, loc, argv, e)
            if r is not None:
                return r
            return self.opaque_call(q, self.recv_term(loc), argv, rt, e, pts=[tu.types[p] for p in fi['p']])
        argv = self.args_for(fi, args, tu)
        pts = [tu.types[p] for p in fi['p']]
        if strip_targs(q).endswith(('IAllocator::get', 'IAllocator::getWritableReference')):
            # both designate the record with that id
            return A(ct.kind_of(rt), 'get', 'fbpcf::scheduler::IAllocator::record', self.recv_term(loc), tuple(argv))
        if fi.get('const') and self.pure_const(q):
            vals = tuple(self.rd((v[1], v[2])) if v[0] == 'ptr' and i < len(pts) and ct.is_ref(pts[i]) else v for i, v in enumerate(argv))
            wrt = [i for i, v in enumerate(argv) if v[0] == 'ptr' and i < len(pts) and
                   (ct.is_ref(pts[i]) and not ct.const_ref(pts[i]) and not pts[i].rstrip().endswith('&&') or
                    ct.is_ptr(pts[i]) and not pts[i].startswith('const '))]
            if any(ct.is_ptr(pts[i]) for i in wrt):
                return self.opaque_call(q, self.recv_term(loc), argv, rt, e, pts=pts)
            for i in wrt:
                # what it leaves in its arguments is a function of the object and the arguments
                self.wr((argv[i][1], argv[i][2]), A(ct.kind_of(ct.clean(pts[i])), 'get', '%s#%d' % (q, i), self.recv_term(loc), vals))
            return A(ct.kind_of(rt), 'get', q, self.recv_term(loc), vals)
        return self.opaque_call(q, self.recv_term(loc), argv, rt, e, pts=pts)

    def pure_const(self, q):
        return True

    def e_op(self, e):
        op, args = e[2], e[3]
        if op in ('->',) or (op == '*' and len(args) == 1):
            loc = self.op_deref(e)
            if loc is not None:
                if op == '->':
                    return self.ptr(loc)
                return self.load(loc, ct.clean(self.ty(e[5])))
        if op == '[]':
            loc = self.op_index(e)
            if loc is not None:
                return self.load(loc, ct.clean(self.ty(e[5])))
        v = self.ev_op(e, False)
        if v is None:
            return self.unk('op ' + op, 'o', e)
        if e[6] and v[0] == 'ptr':
            return self.load((v[1], v[2]), ct.clean(self.ty(e[5])))
        return v

    def op_deref(self, e):
        a = e[3][0]
        t = ct.clean(self.node_type(a))
        n = ct.tname(t)
        fi = self.frames[-1].tu.fns[e[4]] if e[4] >= 0 else None
        if fi is not None and fi.get('repo'):
            return None
        v = self.ev(a)
        if n in ct.SMART or ct.is_ptr(t):
            return self.deref(v)
        if n in ('std::optional',):
            loc = self.lv(a)
            return loc
        if v[0] == 'ptr':
            return self.deref(v)
        if v[0] == 'rit':
            p = self.padd(v[1], C(-1))
            return self.deref(p)
        if v[0] == 'mit':
            return (v[1], v[2] + (('pair', v[3]),))
        if v[0] == 'a' or v[0] == 'mux':
            return self.deref(v)
        return None

    def op_index(self, e):
        a, i = e[3][0], e[3][1]
        fi = self.frames[-1].tu.fns[e[4]] if e[4] >= 0 else None
        if fi is not None and fi.get('repo'):
            return None
        t = ct.clean(self.node_type(a))
        n = ct.tname(t)
        if n in ct.SEQ or n in ct.STRS or n.startswith('__gnu_cxx::__normal_iterator'):
            loc = self.lv(a)
            iv = self.toint(self.ev(i))
            if n.startswith('__gnu'):
                return self.deref(self.padd(self.rd(loc), iv))
            return (loc[0], loc[1] + (('i', iv),))
        if n in ct.MAPS:
            loc = self.lv(a)
            k = self.ev(i)
            # operator[] inserts a default element when the key is missing
            m = self.rd(loc)
            h = HAS(m, k)
            if h == FALSE:
                self.wr(loc, MPUT(m, k, self.default_value(ct.targs(t)[1])))
            return (loc[0], loc[1] + (('k', k),))
        if n == 'std::unique_ptr' or ct.is_ptr(t):
            return self.deref(self.padd(self.ev(a), self.toint(self.ev(i))))
        if n == 'std::bitset':
            return self.temp(A('b', 'bitat', self.ev(a), self.ev(i)))
        return None

    def ev_op(self, e, wantref):
        op, args, cal = e[2], e[3], e[4]
        tu = self.frames[-1].tu
        fi = tu.fns[cal] if cal >= 0 else None
        if fi is None:
            return self.unk('operator ' + op, 'o', e)
        q = strip_targs(fi['q'])
        rt = tu.types[fi['r']]
        h = self.hooks.get(q)
        member = 'c' in fi and not fi.get('static')
        if h is not None:
            r = h(self, args[0] if member else None, args[1:] if member else args, e, rt)
            if r is not None:
                return r
        t0 = ct.clean(self.node_type(args[0]))
        n0 = ct.tname(t0)
        if fi.get('lam') or (op == '()' and n0 == 'std::function'):
            f = self.ev(args[0])
            if f[0] == 'lam' or f[0] == 'mux' or f[0] == 'fnp':
                pts = self.lam_params(f) or [tu.types[p] for p in fi['p']]
            else:
                pts = [tu.types[p] for p in fi['p']]
            argv = []
            for i, a in enumerate(args[1:]):
                ty_ = pts[i] if i < len(pts) else '?'
                argv.append(self.ptr(self.lv(a)) if ct.is_ref(ty_) else self.init_value(a, ct.clean(ty_) if ty_ != '?' else '?'))
            return self.apply_v(f, argv, e, rt)
        fn = self.db.funcs.get(fi['k'])
        if op == '=' and (fn is None or fn.d.get('implicit') or not fi.get('repo')) :
            if n0 in ('std::_Bit_reference',) or n0 not in ('std::ofstream',):
                v = self.init_value(args[1], ct.clean(t0) if n0 not in ('std::optional', 'std::function') else '?')
                if n0 in ('std::optional', 'std::atomic') and ct.targs(t0):
                    kk = ct.kind_of(ct.targs(t0)[0])
                    v = self.tobool(v) if kk == 'b' else self.toint(v) if kk == 'i' else v
                loc = self.lv(args[0])
                if fi['p'] and tu.types[fi['p'][0]].endswith('&&'):
                    self.moved(args[1], t0)
                if n0 in ('std::basic_string',) and kind(v) == 'i':
                    v = mk('vec', (v,))
                self.wr(loc, v)
                return self.ptr(loc)
        if fn is not None and not self.is_opaque(fn.q):
            if member:
                loc = self.lv(args[0]) if args[0][0] != 'this' else self.frames[-1].this
                return self.member_call(loc, fi, args[1:], e, rt, False, q, fi.get('c', ''), tu)
            argv = self.args_for(fi, args, tu)
            r = self.invoke(fn, None, argv, e)
            if r is not None:
                return r
            return self.opaque_call(q, None, argv, rt, e, pts=[tu.types[p] for p in fi['p']])
        if member and fi.get('repo'):
            loc = self.lv(args[0])
            return self.member_call(loc, fi, args[1:], e, rt, False, q, fi.get('c', ''), tu)
        if IGNORED.match(q):
            if op == '<<' or op == '>>':
                # stream output
                if 'folly_stub' in q or 'cout' in str(args[0]) or 'cerr' in str(args[0]) or True:
                    vs = []
                    o = self.lv(args[0])
                    for a in args[1:]:
                        vs.append(self.ev(a))
                    base = self.rd(o)
                    if 'stream' in n0 and 'NullLog' not in t0:
                        self.wr(o, A('o', 'sput', base, tuple(vs)))
                    return self.ptr(o)
        return self.std_op(op, n0, t0, args, e, fi, rt, q)

    def std_op(self, op, n0, t0, args, e, fi, rt, q):
        if op in ('++', '--'):
            loc = self.lv(args[0])
            old = self.rd(loc)
            d = C(1 if op == '++' else -1)
            kd = ct.kind_of(t0)
            if kd == 'i' or n0 == 'std::atomic':
                new = ADD(self.num(self.load(loc, ct.targs(t0)[0] if ct.targs(t0) else t0)), d)
                old = SUB(new, d)
            else:
                new = self.padd(old, d) if self.ispt(old) or old[0] == 'a' else A('o', 'next', old)
            self.wr(loc, new)
            return old if len(args) == 2 else (self.ptr(loc) if e[6] else new)
        if op in ('+=', '-=', '*=', '^=', '|=', '&='):
            loc = self.lv(args[0])
            old = self.rd(loc)
            r = self.ev(args[1])
            if n0 in ct.STRS:
                new = CAT(old, mk('vec', (r,)) if kind(r) == 'i' else r)
            elif self.ispt(old):
                new = self.arith(op[:-1], old, r)
            elif n0 == 'std::atomic' or n0 == 'std::_Bit_reference':
                tt = ct.targs(t0)[0] if ct.targs(t0) else 'bool'
                new = self.arith(op[:-1], self.load(loc, tt), r, tt)
                if tt == 'bool':
                    new = self.tobool(new)
            else:
                new = A('o', 'op' + op, old, r)
            self.wr(loc, new)
            return self.ptr(loc) if e[6] else new
        if op == '()':
            f = self.ev(args[0])
            if f[0] == 'fop':
                a = [self.ev(x) for x in args[1:]]
                return self.arith(f[1], a[0], a[1] if len(a) > 1 else None, f[2])
            if f[0] == 'a' and f[2] in ('newobj', 'new', 'dflt', 'uninit') or f[0] == 'a':
                # random device / distribution / hash object: opaque call
                loc = self.lv(args[0])
                argv = []
                tu = self.frames[-1].tu
                pts = [tu.types[p] for p in fi['p']]
                for i, a in enumerate(args[1:]):
                    ty_ = pts[i] if i < len(pts) else '?'
                    argv.append(self.ptr(self.lv(a)) if ct.is_ref(ty_) else self.ev(a))
                return self.opaque_call(q, self.recv_term(loc), argv, rt, e, pts=pts)
        vs = [self.ev(a) for a in args]
        if len(vs) == 2 and op in ('==', '!=', '<', '>', '<=', '>=', '+', '-', '^', '&', '|', '*'):
            if op == '+' and (n0 in ct.STRS or ct.tname(self.node_type(args[1])) in ct.STRS):
                return CAT(*[mk('vec', (x,)) if kind(x) == 'i' else x for x in vs])
            if kind(vs[0]) == 'o' and vs[0][0] in ('a',) and op in ('<', '>', '<=', '>=') or op in '+-*^&|' and not self.ispt(vs[0]) and kind(vs[0]) == 'o' and vs[0][2] != 'padd':
                return A(ct.kind_of(rt), 'op' + op, *vs)
            if op == '-' and kind(vs[0]) == 'o' and vs[0][0] == 'mux':
                return self.unk('iterator difference', 'i', e)
            return self.arith(op, vs[0], vs[1], rt)
        return A(ct.kind_of(rt), 'op' + op, *vs)

    # ------------------------------------------------------------ std methods
    def std_method(self, cn, c, m, obj, args, e, fi, rt, wantref):
        base = cn
        t = ct.clean(self.node_type(obj)) if obj[0] != 'this' else c
        n = ct.tname(t)
        if n not in ct.SEQ and n not in ct.MAPS and n not in ct.SETS and n not in ct.STRS and n not in ct.SMART:
            n = cn
            t = ct.clean(c)
        if n in ct.SEQ or n in ct.STRS:
            return self.seq_method(n, t, m, obj, args, e, fi, rt, wantref)
        if n in ct.MAPS or n in ct.SETS:
            return self.map_method(n, t, m, obj, args, e, fi, rt, wantref)
        if cn in ct.SMART or n in ct.SMART:
            if m == 'get':
                return self.ev(obj)
            if m == 'release':
                v = self.ev(obj)
                self.wr(self.lv(obj), NULL)
                return v
            if m == 'reset':
                loc = self.lv(obj)
                self.wr(loc, self.ev(args[0]) if args else NULL)
                return VOID
            if m == 'operator bool':
                return self.tobool(self.ev(obj))
            if m == 'swap':
                return self.swap(self.lv(obj), self.lv(args[0]))
            if m == 'lock':
                return self.ev(obj)
        if cn == 'std::optional' or cn.startswith('std::_Optional'):
            if m in ('has_value', 'operator bool', '_M_is_engaged'):
                return self.engaged(self.ev(obj))
            if m in ('value',):
                return self.ptr(self.lv(obj))
            if m == 'value_or':
                v = self.ev(obj)
                d = self.ev(args[0])
                return MUX(self.engaged(v), v, d)
            if m in ('operator->', 'operator*'):
                return self.ptr(self.lv(obj))
            if m == 'reset':
                self.wr(self.lv(obj), NULL)
                return VOID
            if m == 'emplace':
                loc = self.lv(obj)
                self.wr(loc, self.emplace_value(ct.targs(t)[0], args, e))
                return self.ptr(loc)
        if cn == 'std::_Bit_reference':
            if m == 'operator bool':
                v = self.ev(obj)
                return self.load((v[1], v[2]), 'bool') if v[0] == 'ptr' else v
            if m == 'flip':
                loc = self.lv(obj)
                self.wr(loc, NOT(self.load(loc, 'bool')))
                return VOID
        if cn == 'std::reference_wrapper':
            v = self.ev(obj)
            return v
        if cn in ('std::atomic', 'std::__atomic_base'):
            loc = self.lv(obj)
            tt = ct.targs(ct.clean(self.node_type(obj)))
            tt = tt[0] if tt else 'unsigned long'
            v = self.load(loc, tt)
            if m == 'load' or m.startswith('operator ') and m.split()[-1][0].isalpha():
                return v
            if m == 'store':
                self.wr(loc, self.init_value(args[0], tt))
                return VOID
            if m in ('operator++', 'operator--', 'operator+=', 'operator-='):
                d = C(1) if m[-2:] in ('++', '--') else self.toint(self.ev(args[0]))
                new = ADD(v, d if '+' in m else NEG(d))
                self.wr(loc, new)
                return new
            if m in ('fetch_add', 'fetch_sub'):
                d = self.toint(self.ev(args[0]))
                self.wr(loc, ADD(v, d if m == 'fetch_add' else NEG(d)))
                return v
            if m == 'exchange':
                self.wr(loc, self.init_value(args[0], tt))
                return v
        if cn in ('std::lock_guard', 'std::unique_lock'):
            loc = self.lv(obj)
            v = self.rd(loc)
            if m in ('unlock', 'lock'):
                lk = v[3] if v[0] == 'a' and v[2] == 'lock' else NULL
                self.effect(m, lk, node=e)
                for fr in self.frames:
                    for l in fr.locks:
                        if l[0] == lk:
                            l[1] = m == 'lock'
                return VOID
        if cn in ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex') and m in ('lock', 'unlock'):
            self.effect(m, self.loc_name(self.lv(obj)), node=e)
            return VOID
        if cn in ('std::future', 'std::shared_future', 'std::__basic_future'):
            if m == 'get':
                v = self.ev(obj)
                self.effect('join', v, node=e)
                if v[0] == 'fut':
                    return v[1]
                return A(ct.kind_of(rt), 'futget', v)
            if m in ('wait', 'valid'):
                v = self.ev(obj)
                if m == 'wait':
                    self.effect('join', v, node=e)
                return TRUE
        if cn in ('std::condition_variable', 'std::condition_variable_any') and m == 'wait' and len(args) == 2:
            # returns with the predicate true, judged on the state of that moment
            loc = self.lv(obj)
            lk = self.ev(args[0])
            f = self.ev(args[1])
            self.effect('call', ('std::condition_variable::wait', self.loc_name(loc), (lk, self.apply_v(f, [], e, 'bool'))), node=e)
            return VOID
        if cn == 'std::thread' and m == 'join':
            self.effect('join', self.ev(obj), node=e)
            return VOID
        if cn == 'std::exception' or m == 'what':
            return A('o', 'what', self.ev(obj))
        if cn in ('std::basic_ostringstream', 'std::basic_stringstream') and m == 'str':
            return A('o', 'sstr', self.ev(obj))
        if IGNORED.match(c) or IGNORED.match(cn):
            return VOID
        if cn.startswith('__gnu_cxx::__normal_iterator') and m == 'base':
            return self.ev(obj)
        return None

    def swap(self, a, b):
        va, vb = self.rd(a), self.rd(b)
        self.wr(a, vb)
        self.wr(b, va)
        return VOID

    def emplace_value(self, t, args, e):
        t = ct.clean(t)
        n = ct.tname(t)
        args = [a for a in args if a is not None]
        if len(args) == 1 and ct.clean(self.node_type(args[0])) == t:
            return self.ev(args[0])
        if ct.kind_of(t) in 'ibfv':
            return self.init_value(args[0], t) if args else self.default_value(t)
        if n in ('std::pair', 'std::tuple') and len(args) == len(ct.targs(t)):
            return mk('tup', tuple(self.init_value(a, ct.clean(x)) for a, x in zip(args, ct.targs(t))))
        if not args:
            return self.default_value(t)
        if n in ct.SEQ and ct.kind_of(self.node_type(args[0])) == 'i':
            cnt = self.toint(self.ev(args[0]))
            et = ct.elem(t)
            return self.rep(cnt, self.init_value(args[1], et) if len(args) > 1 else self.default_value(et))
        if n in ct.SEQ and len(args) == 2:
            return self.range_seq(self.ev(args[0]), self.ev(args[1]), e)
        if n in ct.STRS or n in ct.SMART or n in ct.SEQ:
            return self.ev(args[0])
        # constructor of a repository class
        cand = [f for f in self.db.byq.get(strip_targs(t) + '::' + strip_targs(t).split('::')[-1], [])
                if 'ctor' in f.d and len(f.params) == len(args) and f.c == t]
        if len(cand) > 1:
            ats = [ct.clean(self.node_type(a)) for a in args]
            c2 = [f for f in cand if [ct.clean(x) for x in f.ptypes()] == ats]
            cand = c2 or [f for f in cand if f.d.get('ctor') == 'other'] or cand
        if cand and not self.is_opaque(cand[0].q):
            fn = cand[0]
            argv = []
            for a, ty_ in zip(args, fn.ptypes()):
                argv.append(self.ptr(self.lv(a)) if ct.is_ref(ty_) else self.init_value(a, ty_))
            return self.make_object(t, e, fn, argv)
        if t in self.db.classes and not cand and all(True for _ in args):
            fl = self.db.fields(t)
            if len(fl) == len(args):
                return mk('struct', t, tuple(sorted((f[0], self.init_value(a, f[1])) for f, a in zip(fl, args))))
        return A('o', 'new', t, tuple(self.ev(a) for a in args))

    def seq_method(self, n, t, m, obj, args, e, fi, rt, wantref):
        loc = self.lv(obj)
        et = ct.elem(t)
        args = [a for a in args if a is not None]
        s = self.rd(loc)
        if m in ('size', 'length'):
            return LEN(s)
        if m == 'empty':
            return EQ0(LEN(s))
        if m in ('at', 'operator[]'):
            return self.ptr((loc[0], loc[1] + (('i', self.toint(self.ev(args[0]))),)))
        if m == 'front':
            return self.ptr((loc[0], loc[1] + (('i', C(0)),)))
        if m in ('back', 'top'):
            return self.ptr((loc[0], loc[1] + (('i', SUB(LEN(s), C(1))),)))
        if m in ('data', 'begin', 'cbegin', 'c_str'):
            return self.ptr((loc[0], loc[1] + (('i', C(0)),)))
        if m in ('end', 'cend'):
            return self.ptr((loc[0], loc[1] + (('i', LEN(s)),)))
        if m in ('rbegin', 'crbegin'):
            return mk('rit', self.ptr((loc[0], loc[1] + (('i', LEN(s)),))))
        if m in ('rend', 'crend'):
            return mk('rit', self.ptr((loc[0], loc[1] + (('i', C(0)),))))
        if m in ('push_back', 'push'):
            v = self.init_value(args[0], et)
            if args[0][0] == 'call':
                self.moved(args[0], et)
            if self.trace_puts:
                self.put_effect(loc[0], loc[1] + (('i', LEN(s)),), v)
            self.wr(loc, CAT(self.rd(loc), mk('vec', (v,))))
            return VOID
        if m in ('push_front', 'emplace_front'):
            v = self.init_value(args[0], et) if m == 'push_front' else self.emplace_value(et, args, e)
            self.wr(loc, CAT(mk('vec', (v,)), self.rd(loc)))
            return self.ptr((loc[0], loc[1] + (('i', C(0)),))) if m != 'push_front' else VOID
        if m in ('emplace_back', 'emplace') and not (m == 'emplace' and n == 'std::vector'):
            v = self.emplace_value(et, args, e)
            s = self.rd(loc)
            if self.trace_puts:
                self.put_effect(loc[0], loc[1] + (('i', LEN(s)),), v)
            self.wr(loc, CAT(s, mk('vec', (v,))))
            return self.ptr((loc[0], loc[1] + (('i', LEN(s)),)))
        if m == 'pop_back' or (m == 'pop' and n == 'std::stack'):
            self.wr(loc, SLICE(s, C(0), SUB(LEN(s), C(1))))
            return VOID
        if m in ('pop_front', 'pop'):
            self.wr(loc, SLICE(s, C(1), LEN(s)))
            return VOID
        if m == 'clear':
            self.wr(loc, EMPTY)
            return VOID
        if m in ('reserve', 'shrink_to_fit'):
            for a in args:
                self.ev(a)
            return VOID
        if m == 'resize':
            cnt = self.toint(self.ev(args[0]))
            dv = self.init_value(args[1], et) if len(args) > 1 else self.default_value(et)
            L = LEN(s)
            if L == C(0):
                r = self.rep(cnt, dv)
            elif cnt == L:
                r = s
            elif SUB(cnt, L)[0] == 'c' and SUB(cnt, L)[1] >= 0:
                r = CAT(s, self.rep(SUB(cnt, L), dv))
            elif L[0] == 'c' and cnt[0] == 'c':
                r = CAT(s, self.rep(SUB(cnt, L), dv)) if cnt[1] > L[1] else SLICE(s, C(0), cnt)
            else:
                r = A('o', 'resize', s, cnt, dv)
            self.wr(loc, r)
            return VOID
        if m == 'assign':
            if len(args) == 2 and ct.kind_of(self.node_type(args[0])) == 'i':
                self.wr(loc, self.rep(self.toint(self.ev(args[0])), self.init_value(args[1], et)))
            elif len(args) == 2:
                self.wr(loc, self.range_seq(self.ev(args[0]), self.ev(args[1]), e))
            else:
                self.wr(loc, self.ev(args[0]))
            return VOID
        if m == 'fill':
            self.wr(loc, self.rep(LEN(s), self.init_value(args[0], et)))
            return VOID
        if m == 'swap':
            return self.swap(loc, self.lv(args[0]))
        if m in ('insert', 'append'):
            vs = [self.ev(a) for a in args]
            if m == 'append' and len(vs) == 1:
                self.wr(loc, CAT(self.rd(loc), vs[0]))
                return self.ptr(loc)
            if m == 'append' and len(vs) == 2 and kind(vs[0]) == 'i':
                self.wr(loc, CAT(self.rd(loc), self.rep(vs[0], vs[1])))
                return self.ptr(loc)
            if m == 'append' and len(vs) == 2 and vs[0][0] == 'ptr' and kind(vs[1]) == 'i' and vs[0][2] and vs[0][2][-1][0] == 'i':
                src = self.rd((vs[0][1], vs[0][2][:-1]))
                self.wr(loc, CAT(self.rd(loc), SLICE(src, vs[0][2][-1][1], ADD(vs[0][2][-1][1], vs[1]))))
                return self.ptr(loc)
            s = self.rd(loc)
            if m == 'insert' and vs[0][0] == 'ptr' and vs[0][2] and vs[0][2][-1][0] == 'i':
                pos = vs[0][2][-1][1]
                if len(vs) == 3 and (self.ispt(vs[1]) or vs[1][0] in ('miter', 'rit')):
                    ins = self.range_seq(vs[1], vs[2], e)
                elif len(vs) == 3:
                    ins = self.rep(self.toint(vs[1]), vs[2])
                elif len(vs) == 2:
                    ins = mk('vec', (vs[1],))
                else:
                    ins = None
                if ins is not None:
                    if pos == LEN(s):
                        self.wr(loc, CAT(s, ins))
                    else:
                        self.wr(loc, CAT(SLICE(s, C(0), pos), ins, SLICE(s, pos, LEN(s))))
                    return vs[0]
        if m == 'erase':
            vs = [self.ev(a) for a in args]
            if len(vs) == 2 and all(v[0] == 'ptr' and v[2] and v[2][-1][0] == 'i' for v in vs):
                a, b = vs[0][2][-1][1], vs[1][2][-1][1]
                self.wr(loc, CAT(SLICE(s, C(0), a), SLICE(s, b, LEN(s))))
                return vs[0]
            if len(vs) == 1 and vs[0][0] == 'ptr' and vs[0][2] and vs[0][2][-1][0] == 'i':
                a = vs[0][2][-1][1]
                self.wr(loc, CAT(SLICE(s, C(0), a), SLICE(s, ADD(a, C(1)), LEN(s))))
                return vs[0]
        if m == 'substr':
            vs = [self.toint(self.ev(a)) for a in args]
            a = vs[0] if vs else C(0)
            b = LEN(s)
            if len(vs) > 1:
                b = ADD(a, vs[1])
                return A('o', 'substr', s, a, vs[1])
            return SLICE(s, a, b)
        if n in ct.STRS and m in ('find', 'rfind', 'compare', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of', 'ends_with', 'starts_with'):
            return A(ct.kind_of(rt), 'strm', m, s, tuple(self.ev(a) for a in args))
        if n in ct.STRS and m.startswith('operator basic_string_view') or m.startswith('operator std::basic_string_view'):
            return s
        if m == 'max_size' or m == 'capacity':
            return A('i', 'cap', s)
        return None

    def map_method(self, n, t, m, obj, args, e, fi, rt, wantref):
        loc = self.lv(obj)
        s = self.rd(loc)
        args = [a for a in args if a is not None]
        isset = n in ct.SETS
        if m == 'size':
            return LEN(s) if s != EMPTYMAP else C(0)
        if m == 'empty':
            return TRUE if s == EMPTYMAP else (FALSE if s[0] == 'mput' else EQ0(LEN(s)))
        if m in ('find',):
            return mk('mit', loc[0], loc[1], self.ev(args[0]))
        if m in ('end', 'cend'):
            return mk('mend', loc[0], loc[1])
        if m in ('begin', 'cbegin'):
            if isset:
                self.setlocs.add(loc)
            return mk('ptr', loc[0], loc[1] + (('m' + ct.kind_of(ct.targs(t)[0]), C(0)),))
        if m in ('count', 'contains'):
            h = HAS(s, self.ev(args[0]))
            return h if m == 'contains' else B2I(h)
        if m == 'at':
            k = self.ev(args[0])
            self.effect('mapat', mk('tup', (self.loc_name(loc) if loc[0][0] not in ('L', 'T') else s, k)), node=e)
            return self.ptr((loc[0], loc[1] + (('k', k),)))
        if m == 'operator[]':
            k = self.ev(args[0])
            return self.ptr((loc[0], loc[1] + (('k', k),)))
        if m in ('emplace', 'insert', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
            if isset:
                v = self.ev(args[0]) if args else NULL
                had = HAS(self.rd(loc), v)
                self.wr(loc, MPUT(self.rd(loc), v, TRUE))
                return mk('tup', (mk('mit', loc[0], loc[1], v), NOT(had)))
            if len(args) == 1:
                p = self.ev(args[0])
                k, v = FLD(p, 'first'), FLD(p, 'second')
            elif len(args) >= 2:
                k = self.init_value(args[0], ct.clean(ct.targs(t)[0]))
                v = self.emplace_value(ct.targs(t)[1], args[1:], e)
            else:
                return None
            cur = self.rd(loc)
            had = HAS(cur, k)
            new = MPUT(cur, k, v)
            if m != 'insert_or_assign' and had != FALSE:
                # insertion does not overwrite; a missing integer reads as 0
                if v == C(0):
                    new = MPUT(cur, k, AT(cur, k, 'i'))
                else:
                    new = MUX(had, cur, new)
            self.wr(loc, new)
            return mk('tup', (mk('mit', loc[0], loc[1], k), NOT(had)))
        if m == 'clear':
            self.wr(loc, EMPTYMAP)
            return VOID
        if m == 'erase':
            k = self.ev(args[0])
            if k[0] == 'mit':
                k = k[3]
            self.wr(loc, A('o', 'erase', s, k))
            return VOID
        if m == 'reserve':
            return VOID
        if m == 'swap':
            return self.swap(loc, self.lv(args[0]))
        return None


# ---------------------------------------------------------------- free functions
STD = {}


def std(*names):
    def d(f):
        for n in names:
            STD[n] = f
        return f
    return d


@std('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref')
def _mv(s, e, fi, args, rt, w):
    if w:
        return s.ptr(s.lv(args[0]))
    return s.ev(args[0])


@std('std::make_unique', 'std::make_shared')
def _mu(s, e, fi, args, rt, w):
    t = ct.clean(ct.targs(ct.clean(rt))[0])
    args = [a for a in args if a is not None]
    if ct.is_array(t):
        n = s.toint(s.ev(args[0]))
        r = s.newroot('N', s.rep(n, s.default_value(ct.elem(t))))
        return mk('ptr', r, (('i', C(0)),))
    v = s.emplace_value(t, args, e)
    if v[0] == 'a' and v[2] == 'new':
        r = s.newroot('N', v, t)
        return v if not s.keep_new else mk('ptr', r, ())
    r = s.newroot('N', v, t)
    return mk('ptr', r, ())


Ev.keep_new = False


@std('std::make_pair', 'std::make_tuple')
def _mp(s, e, fi, args, rt, w):
    ts = ct.targs(ct.clean(rt))
    return mk('tup', tuple(s.init_value(a, ct.clean(t)) for a, t in zip(args, ts)))


@std('std::tie')
def _tie(s, e, fi, args, rt, w):
    return mk('tie', tuple(s.ptr(s.lv(a)) for a in args))


@std('std::get')
def _get(s, e, fi, args, rt, w):
    loc = s.sub(s.lv(args[0]), ('f', s.get_field(fi)))
    return s.ptr(loc)


@std('std::swap')
def _swap(s, e, fi, args, rt, w):
    return s.swap(s.lv(args[0]), s.lv(args[1]))


@std('std::exchange')
def _exch(s, e, fi, args, rt, w):
    loc = s.lv(args[0])
    old = s.rd(loc)
    s.wr(loc, s.ev(args[1]))
    return old


@std('std::distance')
def _dist(s, e, fi, args, rt, w):
    return s.arith('-', s.ev(args[1]), s.ev(args[0]))


@std('std::next', 'std::prev')
def _next(s, e, fi, args, rt, w):
    d = s.toint(s.ev(args[1])) if len(args) > 1 and args[1] is not None else C(1)
    if 'prev' in fi['q']:
        d = NEG(d)
    return s.padd(s.ev(args[0]), d)


@std('std::begin', 'std::cbegin', 'std::data')
def _beg(s, e, fi, args, rt, w):
    loc = s.lv(args[0])
    return s.ptr((loc[0], loc[1] + (('i', C(0)),)))


@std('std::end', 'std::cend')
def _end(s, e, fi, args, rt, w):
    loc = s.lv(args[0])
    return s.ptr((loc[0], loc[1] + (('i', LEN(s.rd(loc))),)))


@std('std::size')
def _size(s, e, fi, args, rt, w):
    return LEN(s.ev(args[0]))


@std('std::back_inserter')
def _bi(s, e, fi, args, rt, w):
    return mk('binsert', s.ptr(s.lv(args[0])))


@std('std::make_move_iterator')
def _mmi(s, e, fi, args, rt, w):
    return s.ev(args[0])


def rng(s, a, b):
    """(location of sequence, start, count) of an iterator range"""
    if a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1] and a[2] and b[2] and a[2][:-1] == b[2][:-1] and a[2][-1][0] == 'i' == b[2][-1][0]:
        return (a[1], a[2][:-1]), a[2][-1][1], SUB(b[2][-1][1], a[2][-1][1])
    return None


def elem_loc(p, k, s):
    p = s.padd(p, k)
    return s.deref(p)


def out_write(s, o, k, v):
    if o[0] == 'binsert':
        loc = (o[1][1], o[1][2])
        s.wr(loc, CAT(s.rd(loc), mk('vec', (v,))))
    else:
        s.wr(elem_loc(o, k, s), v)


@std('std::transform')
def _transform(s, e, fi, args, rt, w):
    vs = [s.ev(a) for a in args]
    if len(vs) == 4:
        a, b, o, f = vs
        a2 = None
    else:
        a, b, a2, o, f = vs
    r = rng(s, a, b)
    if r is None:
        return None
    n = r[2]
    cur = [None]
    types = s.frames[-1].tu.types
    it = ct.clean(types[fi['p'][-2]])
    et = None
    if it.startswith('__gnu_cxx::__normal_iterator<'):
        et = ct.clean(ct.targs(it)[0].rstrip('* '))
    elif it.startswith('std::back_insert_iterator<'):
        et = ct.clean(ct.targs(ct.targs(it)[0])[0])

    def setk(k):
        cur[0] = k

    def body():
        k = cur[0]
        ls = [elem_loc(a, k, s)] + ([elem_loc(a2, k, s)] if a2 is not None else [])
        v = s.apply(f, ls, e)
        if v[0] == 'ptr':
            v = s.rd((v[1], v[2]))
        out_write(s, o, k, converted(s, v, et, e))
    s.counted(n, setk, body, e)
    return s.padd(o, n) if o[0] == 'ptr' else o


def converted(s, v, t, node):
    """the value as an object of type t, through a converting constructor or a conversion operator"""
    if t is None or v is None:
        return v
    db = s.db
    if '_conv' not in db.__dict__:
        db._conv = {}
        for f in db.funcs.values():
            c = f.c
            if not c or f.body is None:
                continue
            last = f.q.split('::')[-1]
            if last.startswith('operator ') and not f.params and not last.endswith(('&', '*')):
                db._conv.setdefault(c, {})[last[9:]] = f
            elif len(f.params) == 1 and f.q == c + '::' + ct.tname(c).split('::')[-1] and ct.SIZES.get(ct.clean(f.ptypes()[0])):
                db._conv.setdefault(c, {})['ctor'] = f
    if v[0] == 'struct' and t in ct.SIZES:
        m = db._conv.get(v[1], {})
        ops = [f for k, f in m.items() if k != 'ctor']
        if len(ops) == 1:
            r = s.invoke(ops[0], s.temp(v), [], node)
            return v if r is None else r
    elif t in db._conv and 'ctor' in db._conv[t] and kind(v) in 'ib':
        return s.make_object(t, node, db._conv[t]['ctor'], [v])
    return v


@std('std::for_each')
def _foreach(s, e, fi, args, rt, w):
    a, b, f = [s.ev(x) for x in args]
    r = rng(s, a, b)
    if r is None:
        return None
    cur = [None]
    s.counted(r[2], lambda k: cur.__setitem__(0, k), lambda: s.apply(f, [elem_loc(a, cur[0], s)], e), e)
    return f


@std('std::copy', 'std::move_range')
def _copy(s, e, fi, args, rt, w):
    a, b, o = [s.ev(x) for x in args]
    r = rng(s, a, b)
    if r is None:
        return None
    src = SLICE(s.rd(r[0]), r[1], ADD(r[1], r[2]))
    return put_range(s, o, src, r[2])


def put_range(s, o, src, n):
    if o[0] == 'binsert':
        loc = (o[1][1], o[1][2])
        s.wr(loc, CAT(s.rd(loc), src))
        return o
    if o[0] == 'ptr' and o[2] and o[2][-1][0] == 'i':
        loc = (o[1], o[2][:-1])
        d = s.rd(loc)
        st = o[2][-1][1]
        if st == C(0) and n == LEN(d):
            s.wr(loc, src)
        else:
            s.wr(loc, CAT(SLICE(d, C(0), st), src, SLICE(d, ADD(st, n), LEN(d))))
        return s.padd(o, n)
    return None


@std('std::copy_n')
def _copyn(s, e, fi, args, rt, w):
    a, n, o = [s.ev(x) for x in args]
    if a[0] == 'ptr' and a[2] and a[2][-1][0] == 'i':
        st = a[2][-1][1]
        return put_range(s, o, SLICE(s.rd((a[1], a[2][:-1])), st, ADD(st, n)), n)
    return None


@std('memcpy', 'std::memcpy', 'memmove')
def _memcpy(s, e, fi, args, rt, w):
    d, a, n = [s.ev(x) for x in args]
    s.effect('call', ('memcpy', None, (s.ptrval(d), s.ptrval(a), n)), node=e)
    if d[0] == 'ptr' and a[0] == 'ptr':
        dl = (d[1], d[2][:-1]) if d[2] and d[2][-1][0] == 'i' else (d[1], d[2])
        do = d[2][-1][1] if d[2] and d[2][-1][0] == 'i' else C(0)
        al = (a[1], a[2][:-1]) if a[2] and a[2][-1][0] == 'i' else (a[1], a[2])
        ao = a[2][-1][1] if a[2] and a[2][-1][0] == 'i' else C(0)
        src = s.rd(al)
        old = s.rd(dl)
        z = s.elem_size(dl)
        if z is not None and z == s.elem_size(al):
            m = to_z(n)
            if all(c % z == 0 for c in m.values()):
                m = from_z({k: c // z for k, c in m.items()})
                s.wr(dl, CAT(SLICE(old, C(0), do), SLICE(src, ao, ADD(ao, m)), SLICE(old, ADD(do, m), LEN(old))))
                return d
        s.wr(dl, A(kind(old) if kind(old) in 'v' else 'o', 'mcpy', old if do != C(0) else NULL, do, src, ao, n, LEN(old) if kind(old) == 'o' else NULL))
    elif d[0] == 'ptr':
        dl = (d[1], d[2][:-1]) if d[2] and d[2][-1][0] == 'i' else (d[1], d[2])
        do = d[2][-1][1] if d[2] and d[2][-1][0] == 'i' else C(0)
        old = s.rd(dl)
        s.wr(dl, A('o', 'mcpy', old, do, a, C(0), n, LEN(old)))
    return d


def _ptrval(s, p):
    if p[0] == 'ptr':
        return s.rd((p[1], p[2][:-1] if p[2] and p[2][-1][0] == 'i' else p[2]))
    return p


Ev.ptrval = _ptrval


@std('std::fill')
def _fill(s, e, fi, args, rt, w):
    a, b = s.ev(args[0]), s.ev(args[1])
    r = rng(s, a, b)
    if r is None:
        return None
    v = s.init_value(args[2], ct.clean(ct.elem(s.node_type(args[0]))) if False else '?')
    put_range(s, a, s.rep(r[2], v), r[2])
    return VOID


@std('std::iota')
def _iota(s, e, fi, args, rt, w):
    a, b, v = [s.ev(x) for x in args]
    r = rng(s, a, b)
    if r is None:
        return None
    k = A('i', 'k', fresh())
    put_range(s, a, ARR(r[2], k, ADD(v, k)), r[2])
    return VOID


@std('std::reverse')
def _reverse(s, e, fi, args, rt, w):
    a, b = [s.ev(x) for x in args]
    r = rng(s, a, b)
    if r is None:
        return None
    v = SLICE(s.rd(r[0]), r[1], ADD(r[1], r[2]))
    if v[0] == 'vec':
        nv = mk('vec', tuple(reversed(v[1])))
    else:
        k = A('i', 'k', fresh())
        nv = ARR(r[2], k, IDX(v, SUB(SUB(r[2], C(1)), k), 'o'))
    put_range(s, a, nv, r[2])
    return VOID


@std('std::accumulate')
def _acc(s, e, fi, args, rt, w):
    a, b = s.ev(args[0]), s.ev(args[1])
    r = rng(s, a, b)
    t = ct.clean(rt)
    if r is None:
        return None
    acc = s.temp(s.init_value(args[2], t))
    f = s.ev(args[3]) if len(args) > 3 else mk('fop', '+', t)
    cur = [None]

    def body():
        v = s.apply(f, [acc, elem_loc(a, cur[0], s)], e, t)
        k = ct.kind_of(t)
        s.wr(acc, s.tobool(v) if k == 'b' else s.toint(v) if k == 'i' else v)
    # keep the accumulator visible as a loop-carried location
    acc = (s.newroot('A', s.rd(acc)), ())
    s.counted(r[2], lambda k: cur.__setitem__(0, k), body, e)
    return s.rd(acc, ct.kind_of(t))


@std('std::all_of', 'std::any_of', 'std::none_of')
def _allof(s, e, fi, args, rt, w):
    a, b, f = [s.ev(x) for x in args]
    r = rng(s, a, b)
    if r is None:
        return None
    q = strip_targs(fi['q'])
    k = A('i', 'k', fresh())
    v = s.tobool(s.apply(f, [elem_loc(a, k, s)], e, 'bool'))
    if q == 'std::all_of':
        return NOT(ANY(r[2], k, NOT(v)))
    x = ANY(r[2], k, v)
    return x if q == 'std::any_of' else NOT(x)


@std('std::equal')
def _equal(s, e, fi, args, rt, w):
    vs = [s.ev(x) for x in args]
    r = rng(s, vs[0], vs[1])
    if r is None:
        return None
    k = A('i', 'k', fresh())
    v = s.equal(s.rd(elem_loc(vs[0], k, s)), s.rd(elem_loc(vs[2], k, s)))
    res = NOT(ANY(r[2], k, NOT(v)))
    if len(vs) > 3:
        r2 = rng(s, vs[2], vs[3])
        if r2 is None:
            return None
        res = AND(EQ(r[2], r2[2]), res)
    return res


@std('std::async')
def _async(s, e, fi, args, rt, w):
    # [policy,] callable, args...
    args = [a for a in args if a is not None]
    if 'launch' in s.node_type(args[0]):
        args = args[1:]
    f = s.ev(args[0])
    n = s.fresh_ord('async')
    tag = A('o', 'task', n, s.loopk)
    s.effect('async', tag, node=e)
    ls = [s.lv(a) for a in args[1:]]
    v = s.apply(f, ls, e, ct.targs(ct.clean(rt))[0] if ct.targs(ct.clean(rt)) else '?')
    s.effect('endasync', tag, node=e)
    return mk('fut', v, tag)


@std('std::sort', 'std::shuffle', 'std::stable_sort')
def _sort(s, e, fi, args, rt, w):
    a, b = s.ev(args[0]), s.ev(args[1])
    r = rng(s, a, b)
    if r is None:
        return None
    q = strip_targs(fi['q'])
    v = SLICE(s.rd(r[0]), r[1], ADD(r[1], r[2]))
    extra = tuple(s.ev(x) for x in args[2:])
    put_range(s, a, A('o', 'fn', q, (v,) + tuple(x for x in extra if x[0] != 'lam')), r[2])
    return VOID


# ---- SSE intrinsics used by the OT and PRG code
@std('_mm_xor_si128', '_mm256_xor_si256')
def _mxor(s, e, fi, args, rt, w):
    return X(s.ev(args[0]), s.ev(args[1]))


@std('_mm_setzero_si128')
def _mzero(s, e, fi, args, rt, w):
    return mk('x', frozenset())


def _intr(s, e, fi, args, rt, w):
    q = strip_targs(fi['q'])
    vs = tuple(s.ev(a) for a in args)
    return A(ct.kind_of(rt) if ct.kind_of(rt) != 'o' else 'v', 'fn', q, vs)


for _n in ('_mm_set_epi64x', '_mm_set1_epi64x', '_mm_and_si128', '_mm_or_si128', '_mm_aesenc_si128', '_mm_aesenclast_si128',
           '_mm_shuffle_epi32', '_mm_slli_si128', '_mm_srli_si128', '_mm_slli_epi64', '_mm_srli_epi64', '_mm_add_epi64', '_mm_extract_epi64',
           '_mm_loadu_si128', '_mm_load_si128', '_mm_set_epi32', '_mm_set1_epi32', '_mm_set_epi8', '_mm_shuffle_ps', '_mm_castsi128_ps',
           '_mm_castps_si128', '_mm_andnot_si128', '_mm_cvtsi128_si64', '_mm_aeskeygenassist_si128', '_mm_testz_si128', '_mm_cmpeq_epi8',
           '_mm_movemask_epi8', '_mm_aeskeygenassist_si128', '__builtin_ia32_aeskeygenassist128', '__builtin_ia32_pshufd',
           '__builtin_ia32_pslldqi128_byteshift', '__builtin_ia32_psrldqi128_byteshift', '_mm_setr_epi32', '_mm_set1_epi8', '_mm_cvtsi64_si128'):
    STD[_n] = _intr
