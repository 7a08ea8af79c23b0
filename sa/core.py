"""Check framework: obligations, verdicts, evidence, known findings."""
import ctypes
import importlib
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
import warnings

warnings.filterwarnings("ignore", category=DeprecationWarning)

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'checks'))

import db as dbm          # noqa: E402
import vgx                # noqa: E402
from terms import *       # noqa: E402,F401,F403
import terms as T_        # noqa: E402

OK, BAD, UND = 'discharged', 'violated', 'undecided'


class OutOfTime(BaseException):
    """an obligation took too long"""


T0 = time.time()
BUDGET, PER_JOB = 780, 300      # seconds for the whole check, for one obligation


def time_left():
    return T0 + BUDGET - time.time()


def _alarm(*_):
    raise OutOfTime()


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obl = []
        self.rules = []
        self.assumptions = []
        self.db = None
        self.functions = set()
        self.units = 0
        self.until = None

    # ---- program
    def load(self, sources=None, drivers=(), specs=()):
        self.db = dbm.load(sources, drivers, specs)
        for s, e in self.db.unread.items():
            self.und('the source ' + os.path.relpath(s, dbm.REPO), 'cannot be read with the stand-ins: ' + e[-300:])
        self.units = len(self.db.tus)
        return self.db

    def evalr(self, **kw):
        return vgx.Ev(self.db, **kw)

    def analyse(self, fn, ev=None, **kw):
        """value-flow analysis of fn; returns (ev, return value)"""
        ev = ev or self.evalr()
        r = ev.run(fn, **kw)
        self.functions |= ev.analysed
        return ev, r

    # ---- obligations
    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        self.assumptions.append(text)

    def ob(self, name, verdict, detail='', site='', finding=None):
        self.obl.append({'name': name, 'verdict': verdict, 'detail': detail[:2000], 'site': site, 'finding': finding or name})

    def ok(self, name, detail='', site=''):
        self.ob(name, OK, detail, site)

    def bad(self, name, detail, site='', finding=None):
        self.ob(name, BAD, detail, site, finding)

    def und(self, name, detail='', site=''):
        self.ob(name, UND, detail, site)

    def require(self, name, cond, detail='', site='', unknown=False):
        if cond:
            self.ok(name, '', site)
        elif unknown() if callable(unknown) else unknown:
            self.und(name, detail, site)
        else:
            self.bad(name, detail, site)

    def guard(self, name, f, *a):
        """run one obligation; an unsupported construct leaves it undecided"""
        outer = self.until is not None
        if not outer:
            self.until = time.time() + max(0, min(PER_JOB, time_left()))
        try:
            if time_left() < 0:
                raise OutOfTime()
            return f(*a)
        except OutOfTime:
            self.und(name, 'out of time')
        except T_.TooBig:
            self.und(name, 'canonical form too large')
        except dbm.AnalysisError:
            raise
        except vgx.Unsupported as x:
            self.und(name, 'unsupported: %s' % (x,))
        except RecursionError:
            self.und(name, 'term too deep')
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as x:
            tb = traceback.extract_tb(x.__traceback__)[-1]
            self.und(name, 'engine limit: %s %s at %s:%d' % (type(x).__name__, x, os.path.basename(tb.filename), tb.lineno))
        finally:
            if not outer:
                self.until = None


    def batch(self, jobs):
        """guard(*job) for every job, spread over the processors; results in order"""
        n = min(int(os.environ.get('SA_JOBS', '8')), len(jobs))
        if n < 2:
            for j in jobs:
                self.guard(*j)
            return
        sys.stdout.flush()
        rd, wr = os.pipe()
        os.set_inheritable(rd, True)
        left = list(range(len(jobs)))
        for i in left[:8000]:
            os.write(wr, i.to_bytes(4, 'little'))
        os.close(wr)
        tmp = tempfile.mkdtemp(prefix='sa-')
        kids = []
        for k in range(n):
            pid = os.fork()
            if pid:
                kids.append(pid)
                continue
            code = 1
            try:
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # end with the parent
                signal.signal(signal.SIGALRM, _alarm)
                out = []
                while True:
                    b = os.read(rd, 4)
                    if len(b) < 4:
                        break
                    i = int.from_bytes(b, 'little')
                    self.obl, self.functions, err = [], set(), None
                    signal.setitimer(signal.ITIMER_REAL, max(0.05, min(PER_JOB, time_left())))
                    try:
                        self.guard(*jobs[i])
                        signal.setitimer(signal.ITIMER_REAL, 0)
                    except OutOfTime:
                        self.und(jobs[i][0], 'out of time')
                    except dbm.AnalysisError as x:
                        err = str(x)
                    except (MemoryError, T_.TooBig):
                        self.und(jobs[i][0], 'out of memory')
                    except Exception:
                        err = 'internal error: ' + traceback.format_exc()
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    out.append((i, self.obl, self.functions, err))
                    with open('%s/%d.tmp' % (tmp, k), 'wb') as f:
                        pickle.dump(out, f)
                    os.rename('%s/%d.tmp' % (tmp, k), '%s/%d' % (tmp, k))
                code = 0
            finally:
                os._exit(code)
        os.close(rd)
        for pid in kids:
            os.waitpid(pid, 0)
        res = {}
        for f in os.listdir(tmp):
            if not f.endswith('.tmp'):
                with open(os.path.join(tmp, f), 'rb') as h:
                    for i, o, fs, err in pickle.load(h):
                        res[i] = (o, fs, err)
        shutil.rmtree(tmp, ignore_errors=True)
        errs = []
        for i in left:
            if i not in res:
                self.und(jobs[i][0], 'analysis ended early')
                continue
            o, fs, err = res[i]
            self.obl += o
            self.functions |= fs
            if err:
                errs.append(err)
        if errs:
            raise dbm.AnalysisError(errs[0])


def eq_terms(a, b):
    """'eq' / 'ne' / 'unknown' for two value-graph terms"""
    if a == b:
        return 'eq'
    if opaque_in(a) or opaque_in(b):
        return 'unknown'
    return 'ne'


def opaque_in(t):
    if not isinstance(t, tuple):
        return []
    r = [a for a in T_.tvars(t) if a[2] in ('unk', 'rec')]
    return r or [a for a in T_.atoms(t) if a[2] in ('recat', 'prefix', 'srec')]


def wrong_or_unknown(got, want):
    return opaque_in(got) or opaque_in(want)


def unsure(a, b, facts=()):
    """can the mismatch of a and b NOT be confirmed on an instance?"""
    import interp
    ca = {v for t in (a, b) for v in T_.tvars(t)}
    fs = [f for f in facts if not any(v[2] in ('k', 'bv') and v not in ca for v in T_.tvars(f))]
    return interp.differ(given(a, fs), given(b, fs), fs, dom=DOM[0]) is not True


def norm_assume(t, facts):
    """apply linear equalities established by `if (a != b) throw`"""
    for f in facts:
        if f[0] == 'a' and f[2] == 'eq0':
            z = dict(T_.to_z(f[3]))
            lens = [m for m in z if len(m) == 1 and list(m)[0][1] == 1]
            if not lens:
                continue
            # eliminate the atom with the largest digest so every caller agrees
            cand = [m for m in lens if abs(z[m]) == 1]
            if not cand:
                continue
            m = max(cand, key=lambda q: T_.rp(list(q)[0][0]))
            a = list(m)[0][0]
            rest = T_.SUB(f[3], T_.MUL(T_.C(z[m]), a))
            val = T_.NEG(rest) if z[m] == 1 else rest
            if not T_.occurs(a, val):
                t = T_.subst(t, {a: val})
    return t


def given(t, facts):
    """t under facts (booleans known to hold)"""
    t = norm_assume(t, facts)
    m = {}
    for f in facts:
        if f[0] == 'a':
            m[f] = TRUE
        elif f[0] == 'x' and len(f[1]) == 2 and frozenset() in f[1]:
            (mo,) = [q for q in f[1] if q]
            if len(mo) == 1:
                m[next(iter(mo))] = FALSE
    if DOM[0] is not None and m:
        out = {}
        for k, v in list(m.items()):
            if v == FALSE and k[2] == 'eq0':
                base, c = T_.split_const(k[3])
                out.setdefault(base, set()).add(-c)
        for base, ex in out.items():
            left = (DOM[0](base) or ex) - ex
            if len(left) == 1:
                v = C(next(iter(left)))
                t = norm_assume(t, [T_.EQ0(T_.SUB(base, v))])
                m[T_.EQ0(T_.SUB(base, v))] = TRUE
            elif len(left) == 0 and DOM[0](base):
                return TRUE if kind(t) == 'b' else t
    m = {k: v for k, v in m.items() if k != v}
    t = T_.subst(t, m) if m else t
    if m:
        mm = {}
        for x in T_.subterms(t):
            if type(x) is T_.T and x[0] == 'a' and x[2] == 'max':
                l, gone = sorted(x[3], key=T_.rk), set()
                for a in l:
                    for b in l:
                        if a != b and a not in gone and b not in gone:
                            c = T_.subst(T_.POS(T_.SUB(a, b)), m)
                            if c == TRUE:
                                gone.add(b)
                            elif c == FALSE:
                                gone.add(a)
                if gone:
                    mm[x] = T_.MAXT(*[a for a in l if a not in gone])
        if mm:
            t = T_.subst(t, mm)
    return t


DOM = [None]    # the enumerators of a value of enumeration type


def cond_atoms(t):
    """boolean atoms deciding between alternatives inside t"""
    out = set()
    for x in T_.subterms(t):
        if type(x) is not T_.T:
            continue
        if x[0] == 'mux':
            out |= {a for a in T_.atoms_of_bool(x[1])}
        elif x[0] == 'a' and x[2] == 'max':
            l = sorted(x[3], key=T_.rk)
            out |= T_.atoms_of_bool(T_.POS(T_.SUB(l[0], l[1])))
        elif x[0] == 'a' and x[2] == 'b2i':
            out |= {a for a in T_.atoms_of_bool(x[3])}
        elif x[0] == 'x':
            for m in x[1]:
                out |= {a for a in m if type(a) is T_.T and a[0] == 'a' and a[2] in ('eq0', 'pos', 'eq')}
    return {a for a in out if not any(v[2] == 'bv' for v in T_.tvars(a))}


def same(a, b, facts=(), depth=7):
    """a == b under facts, splitting on the conditions that occur in them"""
    a, b = given(a, facts), given(b, facts)
    if a == b or T_.rk(a) == T_.rk(b):
        return True
    if depth == 0:
        return False
    cs = cond_atoms(a) | cond_atoms(b)
    cs = sorted(cs, key=lambda c: (c[2] != 'eq0', T_.rp(c)))
    if not cs:
        return False
    c = cs[0]
    if DOM[0] is not None and c[2] == 'eq0':
        base, _ = T_.split_const(c[3])
        dom = DOM[0](base)
        if dom:
            eqs = [T_.EQ0(T_.SUB(base, C(v))) for v in sorted(dom)]
            return all(e == FALSE or same(a, b, tuple(facts) + (e,) + tuple(NOT(x) for x in eqs if x != e), depth - 1) for e in eqs)
    return same(a, b, tuple(facts) + (c,), depth - 1) and same(a, b, tuple(facts) + (NOT(c),), depth - 1)


def refuses(ev, cond):
    """does the analysed function throw whenever cond holds (before doing harm)?"""
    g = FALSE
    for e in ev.eff:
        if e.op == 'throw':
            g = OR(g, e.g)
    return AND(cond, NOT(g)) == FALSE


def elem(t, i, kd='o'):
    return T_.IDX(t, i, kd)


def idx_sym(name):
    return T_.A('i', 'k', name)


def field_of(term, ctor_param=None):
    return term


def known_findings():
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


CUR = [None]


def run(pid, tier):
    t0 = time.time()
    ctx = CUR[0] = Ctx(pid, tier)
    mod = importlib.import_module(pid)
    err = None
    try:
        mod.check(ctx)
    except dbm.AnalysisError as x:
        err = 'analysis broken: %s' % x
        if ctx.db is not None and ctx.db.unread:
            ctx.und('the rest of the analysis', err)
            err = None
    except OutOfTime:
        ctx.und('the rest of the analysis', 'out of time')
    except Exception:
        err = 'internal error: ' + traceback.format_exc()
    ctx.until = T0 + 10 * BUDGET       # only reporting is left
    known = {k['id']: k for k in known_findings() if k.get('property') == pid and k.get('status', 'open') == 'open'}
    viol, kf = [], []
    for o in ctx.obl:
        if o['verdict'] == BAD:
            if o['finding'] in known:
                kf.append(o)
            else:
                viol.append(o)
    n_ok = sum(1 for o in ctx.obl if o['verdict'] == OK)
    n_und = sum(1 for o in ctx.obl if o['verdict'] == UND)
    floor = getattr(mod, 'FLOOR', 1)
    if err is None and not viol and n_ok + len(kf) < floor:
        err = 'only %d obligations discharged (at least %d expected): %s' % (
            n_ok, floor, '; '.join('%s (%s)' % (o['name'], o['detail'][:200]) for o in ctx.obl if o['verdict'] == UND)[:3000])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rep = os.path.join(VERIF, 'evidence', pid + '.violations.json')
    if os.path.exists(rep):
        os.remove(rep)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': mod.LEVEL,
        'coverage': {
            'explanation': mod.EXPLAIN,
            'obligations': len(ctx.obl), 'discharged': n_ok, 'undecided': n_und,
            'known_findings': len(kf),
            'translation_units': ctx.units,
            'functions_analysed': len(ctx.functions),
            'rules': ctx.rules,
            'violated': [{'obligation': o['name'], 'site': o['site'], 'detail': o['detail']} for o in viol],
            'samples': [{'obligation': o['name'], 'verdict': o['verdict'], 'site': o['site'], 'detail': o['detail'][:300]}
                        for o in ctx.obl][:400],
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': ctx.assumptions,
        'violations': len(viol),
    }
    if os.environ.get('SA_FNS') and ctx.db is not None:
        with open(os.environ['SA_FNS'], 'w') as f:
            json.dump(sorted({(x.file, x.line, x.q) for x in ctx.db.funcs.values() if x.k in ctx.functions or x.q in ctx.functions}), f)
    if err:
        ev['coverage']['error'] = err[:2000]
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for o in kf:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, o['finding'], known[o['finding']].get('what', o['detail'])[:300]))
    if viol:
        with open(rep, 'w') as f:
            json.dump(viol, f, indent=1)
        for o in viol[:20]:
            print('%s: %s: %s: %s' % (o['site'], pid, o['name'], o['detail'][:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if err:
        print('ERROR %s: %s' % (pid, err))
        return 2
    print('%s: %d obligations, %d discharged, %d undecided, %d known findings, %d functions, %.1fs' %
          (pid, len(ctx.obl), n_ok, n_und, len(kf), len(ctx.functions), time.time() - t0))
    for o in [o for o in ctx.obl if o['verdict'] == UND][:int(os.environ.get('SA_SHOW', '12'))]:
        print('  undecided: %s: %s' % (o['name'], o['detail'][:300]))
    return 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 30)
    out = []
    t = threading.Thread(target=lambda: out.append(run(pid, tier)))
    t.start()
    while t.is_alive():
        t.join(1)
        c = CUR[0]
        if c is not None and time.time() > (c.until or T0 + BUDGET) + 15 and t.is_alive():
            # an obligation decided in this process takes too long: leave it undecided
            c.until = time.time() + 30
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(OutOfTime))
    sys.stdout.flush()
    os._exit(out[0] if out else 2)


if __name__ == '__main__':
    main()
