"""Program database: parses /repo's current sources (plus the template drivers
in /verif/drivers) with the clang-based extractor and loads the result."""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

import ctype as ct

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')

FLAGS = ['-std=c++20', '-march=haswell', '-mno-avx512f', '-maes', '-mrdseed', '-DNDEBUG',
         '-include', 'cstdint', '-include', 'functional', '-include', 'stdexcept',
         '-include', 'vector', '-include', 'memory', '-include', 'cstring', '-include', 'string',
         '-include', 'map', '-include', 'atomic', '-include', 'optional',
         '-w', '-I' + REPO, '-I' + os.path.join(VERIF, 'stubs'),
         '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


class AnalysisError(Exception):
    pass


def extractor():
    src = os.path.join(VERIF, 'tools', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'extract-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.tmp%d' % os.getpid()
    cmd = ['g++', '-O1', '-fno-rtti', '-std=c++17', '-w', src, '-I/usr/lib/llvm-18/include',
           '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS',
           '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '/usr/lib/llvm-18/lib/libLLVM-18.so',
           '-Wl,-rpath,/usr/lib/llvm-18/lib', '-o', tmp]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('extractor does not build: ' + r.stderr[-2000:])
    os.rename(tmp, out)
    return out


def repo_sources():
    out = []
    for d in ('fbpcf',):
        for p, ds, fs in os.walk(os.path.join(REPO, d)):
            ds[:] = sorted(x for x in ds if x not in ('test', 'tests', 'test_util', '_build'))
            for f in sorted(fs):
                if f.endswith('.cpp') and 'Test' not in f and 'Benchmark' not in f:
                    out.append(os.path.join(p, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'fbpcf'), os.path.join(VERIF, 'stubs'), os.path.join(VERIF, 'drivers'), os.path.join(VERIF, 'specs')):
        for p, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.cpp', '.hpp', '.inc')) or base.endswith('stubs'):
                    q = os.path.join(p, f)
                    h.update(q.encode())
                    h.update(open(q, 'rb').read())
    h.update(open(os.path.join(VERIF, 'tools', 'extract.cpp'), 'rb').read())
    h.update(repr(FLAGS).encode())
    h.update(b'3')
    return h.hexdigest()[:20]


class Fn:
    __slots__ = ('tu', 'd', 'k', 'q', 'c', 'file', 'line', 'params', 'body', 'inits')

    def __init__(self, tu, d):
        self.tu, self.d = tu, d
        self.k, self.q, self.c = d['k'], d['q'], d.get('c', '')
        self.file, self.line = d['file'], d['line']
        self.params, self.body = d['p'], d['body']
        self.inits = d.get('inits', [])

    @property
    def ret(self):
        return self.tu.types[self.d['r']]

    def ptypes(self):
        return [self.tu.types[p[2]] for p in self.params]

    def where(self):
        return '%s:%d' % (os.path.relpath(self.file, REPO), self.line)

    def __repr__(self):
        return '<%s %s>' % (self.q, self.where())


class TU:
    def __init__(self, path, d):
        self.path = path
        self.types = d['types']
        self.fns = d['fns']
        self.uninst = d['uninst']
        self.errors = d['errors']


class DB:
    def __init__(self):
        self.tus = {}
        self.funcs = {}     # key -> Fn
        self.byq = {}       # qualified name (without template args) -> [Fn]
        self.classes = {}   # name -> dict
        self.enums = {}
        self.gvars = {}
        self.derived = {}   # class -> set(direct subclasses)
        self.overrides = {}  # method key -> [overriding keys]
        self.uninst = {}

    def add(self, path, d):
        tu = TU(path, d)
        self.tus[path] = tu
        for f in d['funcs']:
            if f['k'] in self.funcs:
                continue
            fn = Fn(tu, f)
            self.funcs[fn.k] = fn
            self.byq.setdefault(strip_targs(fn.q), []).append(fn)
            for o in f.get('ov', []):
                self.overrides.setdefault(o, []).append(fn.k)
        for c in d['classes']:
            if c['q'] in self.classes:
                continue
            c['bases'] = [tu.types[b] for b in c['bases']]
            for fl in c['fields']:
                fl[1] = tu.types[fl[1]]
            for m in c['methods']:
                m[7] = tu.types[m[7]]
            c['tu'] = tu
            self.classes[c['q']] = c
            for b in c['bases']:
                self.derived.setdefault(b, set()).add(c['q'])
        for e in d['enums']:
            self.enums[e['q']] = {n: int(v) for n, v in e['e']}
            if e['q'] not in ct.ENUMS:
                ct.ENUMS.add(e['q'])
                ct.kind_of.cache_clear()
        for g in d['gvars']:
            if g['q'] not in self.gvars or (g['init'] is not None and self.gvars[g['q']]['init'] is None):
                g['tu'] = tu
                self.gvars[g['q']] = g
        for u in d['uninst']:
            self.uninst.setdefault((u['file'], u['line']), u['q'])

    def find(self, q, **kw):
        """functions with qualified name q (template arguments ignored)"""
        r = self.byq.get(strip_targs(q), [])
        if 'cls' in kw:
            r = [f for f in r if f.c == kw['cls']]
        if 'nparams' in kw:
            r = [f for f in r if len(f.params) == kw['nparams']]
        if 'ptype' in kw:
            r = [f for f in r if any(kw['ptype'] in t for t in f.ptypes())]
        return r

    def one(self, q, **kw):
        r = self.find(q, **kw)
        if len(r) != 1:
            raise AnalysisError('anchor %s %s: %d definitions found' % (q, kw or '', len(r)))
        return r[0]

    def bases(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            if x in self.classes:
                todo += self.classes[x]['bases']
        return out

    def subclasses(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            todo += sorted(self.derived.get(x, ()))
        return out

    def fields(self, c):
        out = []
        for b in reversed(self.bases(c)):
            if b in self.classes:
                out += self.classes[b]['fields']
        return out

    def method_impl(self, cls, key):
        """the definition that a virtual call of method `key` reaches on dynamic class cls"""
        cand = {key}
        todo = [key]
        while todo:
            k = todo.pop()
            for o in self.overrides.get(k, []):
                if o not in cand:
                    cand.add(o)
                    todo.append(o)
        for b in self.bases(cls):
            for k in cand:
                f = self.funcs.get(k)
                if f is not None and f.c == b:
                    return f
        return None


def strip_targs(q):
    if '<' not in q:
        return q
    out, d, i = [], 0, 0
    while i < len(q):
        ch = q[i]
        if q.startswith('operator', i) and (i == 0 or q[i - 1] == ':') and i + 8 < len(q) and not (q[i + 8].isalnum() or q[i + 8] == '_'):
            j = i + 8
            while j < len(q) and q[j] in '<>=+-*/%&|^!~[]()':
                j += 1
            if d == 0:
                out.append(q[i:j])
            i = j
            continue
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return ''.join(out)


def _extract(args):
    exe, src, out, extra = args
    # a specification also says what the stand-ins it drives do
    stand = '' if src.startswith(REPO + '/') else ','.join(os.path.join(VERIF, 'stubs', d) + '/' for d in ('aws', 'google')) + ','
    r = subprocess.run([exe, out, src, REPO + '/,' + stand + os.path.join(VERIF, 'drivers') + '/,' + os.path.join(VERIF, 'specs') + '/,' + os.path.join(BUILD, 'pruned') + '/', '--'] + FLAGS + extra,
                       capture_output=True, text=True, timeout=600)
    return src, r.returncode, r.stderr


def items(text):
    """(start, end) of the declarations at namespace level, preprocessor lines left out"""
    n, i, depth, start = len(text), 0, [], None
    out = []
    line0 = True
    while i < n:
        c = text[i]
        if line0 and c == '#':
            while i < n and text[i] != '\n':
                i += 2 if text[i] == '\\' and i + 1 < n else 1
            continue
        if c == '\n':
            line0 = True
            i += 1
            continue
        if c not in ' \t':
            line0 = False
        if text.startswith('//', i):
            while i < n and text[i] != '\n':
                i += 1
            continue
        if c in '"\'' and not (c == "'" and i and text[i - 1].isdigit()):
            if start is None:
                start = i
            i += 1
            while i < n and text[i] != c:
                i += 2 if text[i] == '\\' else 1
            i += 1
            continue
        ns = not any(d == 'x' for d in depth)
        if c == '{':
            if ns and start is not None and re.match(r'namespace\b', text[start:i].strip()):
                depth.append('n')
                start = None
            else:
                depth.append('x')
        elif c == '}':
            d = depth.pop() if depth else 'n'
            if d == 'x' and not any(q == 'x' for q in depth):
                h = text[start:i]
                head = h[:h.index('{')] if '{' in h else h
                if not re.match(r'\s*(struct|class|enum|union)\b', head) and '=' not in re.sub(r'operator\s*=+', '', head).split('(')[0]:
                    out.append((start, i + 1))
                    start = None
            elif d == 'n':
                start = None
        elif c == ';' and ns:
            if start is not None:
                out.append((start, i + 1))
            start = None
        elif not c.isspace() and start is None and ns:
            start = i
        i += 1
    return out


def prune(text, lines):
    """blank the declarations that cover the given lines; returns (text, their first lines)"""
    gone = []
    pos = [0]
    for l in text.split('\n'):
        pos.append(pos[-1] + len(l) + 1)
    for a, b in items(text):
        la = text.count('\n', 0, a) + 1
        lb = text.count('\n', 0, b) + 1
        if any(la <= x <= lb for x in lines):
            gone.append(' '.join(text[a:b].split())[:80])
            text = text[:a] + re.sub(r'[^\n]', ' ', text[a:b]) + text[b:]
    return text, gone


def salvage(exe, src, out, err):
    """a unit of reference definitions some of which no longer fit the declarations of the
    repository: the others still apply"""
    d = os.path.join(BUILD, 'pruned')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, os.path.basename(src))
    text = open(src).read()
    dropped = []
    for _ in range(8):
        lines = {int(m) for m in re.findall(r'%s:(\d+):\d+: (?:fatal )?error' % re.escape(os.path.basename(src)), err)}
        lines |= {int(m) for m in re.findall(r'%s:(\d+):\d+: note: in instantiation of' % re.escape(os.path.basename(src)), err)} if not lines else set()
        text, gone = prune(text, lines)
        if not gone:
            return None
        dropped += gone
        with open(p, 'w') as f:
            f.write(text)
        _, rc, err = _extract((exe, p, out, ['-fno-access-control', '-I' + os.path.dirname(src)]))
        if rc == 0 and os.path.exists(out):
            with open(out) as f:
                if not json.load(f)['errors']:
                    return dropped
    return None


def load(sources=None, drivers=(), specs=(), verbose=False):
    """sources: iterable of repo-relative .cpp (None = every non-test source)"""
    exe = extractor()
    srcs = repo_sources() if sources is None else [os.path.join(REPO, s) for s in sources]
    missing = [s for s in srcs if not os.path.exists(s)]
    srcs = [s for s in srcs if s not in missing] + [os.path.join(VERIF, 'drivers', d) for d in drivers]
    spec = [os.path.join(VERIF, 'specs', d) for d in specs]
    srcs = srcs + spec
    h = tree_hash()
    cache = os.path.join(BUILD, 'cache-' + h)
    if not os.path.isdir(cache):
        for old in glob.glob(os.path.join(BUILD, 'cache-*')):
            if old != cache:
                shutil.rmtree(old, ignore_errors=True)
        os.makedirs(cache, exist_ok=True)
    jobs = []
    outs = []
    spec_err = {}
    spec_gone = {}
    unread = {s: 'no such file' for s in missing}         # sources that the stand-ins do not cover
    for s in srcs:
        o = os.path.join(cache, hashlib.sha256(s.encode()).hexdigest()[:16] + '.json')
        outs.append((s, o))
        if not os.path.exists(o):
            jobs.append((exe, s, o + '.tmp%d' % os.getpid(), ['-fno-access-control'] if s in spec else []))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for (src, rc, err), j in zip(ex.map(_extract, jobs), jobs):
            if src in spec and (rc != 0 or not os.path.exists(j[2]) or ': error: ' in err):
                gone = salvage(exe, src, j[2], err)
                if gone is None:
                    spec_err[src] = err[-1500:]
                    continue
                with open(j[2]) as f:
                    o = json.load(f)
                o['gone'] = gone
                with open(j[2], 'w') as f:
                    json.dump(o, f)
                os.rename(j[2], j[2].rsplit('.tmp', 1)[0])
                continue
            if rc != 0 or not os.path.exists(j[2]):
                unread[src] = err[-600:]
                continue
            os.rename(j[2], j[2].rsplit('.tmp', 1)[0])
    db = DB()
    for s, o in outs:
        if s in spec_err or s in unread:
            continue
        with open(o) as f:
            d = json.load(f)
        if s in spec and d['errors']:
            spec_err[s] = str(d['errors'])[:1500]
            continue
        if d.get('gone'):
            spec_gone[s] = d['gone']
        if d['errors'] and s not in spec:
            unread[s] = str(d['errors'])[:600]
            continue
        db.add(s, d)
    db.unread = unread
    # what a specification says of the stand-ins holds in every unit that calls them
    known = {k for k, f in db.funcs.items() if '/stubs/' in f.d.get('file', '')}
    if known:
        for t in db.tus.values():
            for fi in t.fns:
                if not fi.get('repo') and fi.get('k') in known:
                    fi['repo'] = True
    db.spec_err = spec_err
    db.spec_gone = spec_gone
    db.spec_ok = {s: s not in spec_err for s in spec}
    bad = [p for p, t in db.tus.items() if t.errors]
    if bad:
        raise AnalysisError('parse errors in ' + ', '.join(bad))
    return db


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == 'setup':
        extractor()
        drv = [os.path.basename(d) for d in sorted(glob.glob(os.path.join(VERIF, 'drivers', '*.cpp')))]
        spc = [os.path.basename(d) for d in sorted(glob.glob(os.path.join(VERIF, 'specs', '*.cpp')))]
        db = load(None, drv, spc)
        print('parsed %d translation units, %d functions, %d classes' % (len(db.tus), len(db.funcs), len(db.classes)))
