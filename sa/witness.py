"""Programs that must not build.

A witness is a pair of programs that differ only in the offending type or call.
The twin must build and the witness must not: then it is the offence, and nothing
else, that the compiler refuses.  Nothing is executed: the compiler only checks
types (-fsyntax-only, templates instantiated).  A twin that no longer builds
decides nothing about its witness.
"""
import concurrent.futures
import os
import re
import subprocess
import tempfile
import shutil

import db as dbm

CLANG = '/usr/lib/llvm-18/bin/clang++'


def clang():
    for c in (CLANG, shutil.which('clang++-18'), shutil.which('clang++')):
        if c and os.path.exists(c):
            return c
    raise dbm.AnalysisError('no clang++')


class Builder:
    def __init__(self, prelude):
        self.dir = tempfile.mkdtemp(prefix='wit-')
        h = os.path.join(self.dir, 'all.h')
        with open(h, 'w') as f:
            f.write(prelude)
        self.pch = os.path.join(self.dir, 'all.pch')
        r = subprocess.run([clang()] + dbm.FLAGS + ['-x', 'c++-header', h, '-o', self.pch], capture_output=True, text=True)
        self.broken = r.stderr[-800:] if r.returncode else ''

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def builds(self, n, text):
        p = os.path.join(self.dir, 'p%d.cpp' % n)
        with open(p, 'w') as f:
            f.write(text)
        r = subprocess.run([clang()] + dbm.FLAGS + ['-include-pch', self.pch, '-fsyntax-only', '-fno-caret-diagnostics', p], capture_output=True, text=True)
        os.unlink(p)
        if r.returncode not in (0, 1):
            return None, r.stderr[-300:]
        e = [l for l in r.stderr.splitlines() if 'error:' in l]
        return r.returncode == 0, (e[0] if e else '')[:300]


def run(ctx, prelude, pairs, sites=lambda n: ''):
    """pairs: (name, twin or None, witness, what the witness would do, anchor)"""
    b = Builder(prelude)
    try:
        if b.broken:
            for n, *_ in pairs:
                ctx.und(n, 'the headers do not build: ' + b.broken[-200:])
            return
        texts = []
        for i, (n, twin, wit, what, anchor) in enumerate(pairs):
            texts += [twin, wit]
        uniq = {}
        for t in texts:
            uniq.setdefault(t, len(uniq))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = dict(zip(uniq, ex.map(lambda kv: b.builds(kv[1], kv[0]), list(uniq.items()))))
        for n, twin, wit, what, anchor in pairs:
            g, ge = res[twin]
            w, we = res[wit]
            if not g:
                ctx.und(n, 'the matching allowed program does not build: ' + ge, sites(anchor))
            elif w is None:
                ctx.und(n, 'the compiler gave up: ' + we, sites(anchor))
            elif w:
                ctx.bad(n, 'builds, and must not: ' + what + ' -- ' + ' '.join(wit.split())[:300], sites(anchor))
            else:
                ctx.ok(n, 'refused: ' + re.sub(r'^\S+?:\d+:\d+: ', '', we), sites(anchor))
    finally:
        b.close()
