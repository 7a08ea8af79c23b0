"""Transport security."""
from core import *
import refine
from rules import flat, strip

LEVEL = 'other'
EXPLAIN = 'ordered effects of every constructor of the socket agent: what is set on the TLS context before the handshake, on which condition, with which arguments; and what the factory passes on'
FLOOR = 0
COM = 'fbpcf/engine/communication/'
AGENT = 'fbpcf::engine::communication::SocketPartyCommunicationAgent'
FACT = AGENT + 'Factory'
OPQ = [AGENT + '::SocketPartyCommunicationAgent', 'fbpcf::util::MetricCollector::.*', AGENT + '::(send|recv)Impl']
MINPROTO, MAXPROTO, TLS13 = 123, 124, 0x304


def q(e):
    return strip(e.a[0]) if isinstance(e.a[0], str) else ''


def implied(g, h):
    """does condition g imply condition h?"""
    return AND(g, NOT(h)) == FALSE


def noname(ctx, t, what):
    """does t mention the parameter or member called what?"""
    return any(type(x) is T_.T and x[0] == 'a' and (x[2] == 'sym' and x[3] == what or x[2] == 'fld' and x[4] == what) for x in T_.subterms(t))


def agent(ctx, f):
    nm = 'constructor at %s' % f.where().split('/')[-1].split(':')[0] + ' (%s)' % ', '.join(p[1] for p in f.params)
    ev, _ = ctx.analyse(f)
    effs = [e for e, _ in flat(ev.eff)]
    calls = [(i, e) for i, e in enumerate(effs) if e.op == 'call']
    hs = [(i, e) for i, e in calls if q(e) in ('SSL_accept', 'SSL_connect', 'SSL_do_handshake')]
    flag = [p[1] for p in f.params if p[1] == 'useTls']
    info = [(p[1], t) for p, t in zip(f.params, f.ptypes()) if 'TlsInfo' in t]
    if info:
        use = A('b', 'fld', A('o', 'sym', info[0][0]), 'useTls')
    elif flag:
        use = A('b', 'sym', flag[0])
    else:
        return ctx.und(nm, 'no TLS switch among the parameters', f.where())
    site = f.where()
    client = any('string' in t for t in f.ptypes()[:1])
    on = FALSE
    for i, h in hs:
        on = OR(on, h.g)
    if on not in (FALSE,) and not noname(ctx, on, 'useTls') and on != TRUE:
        return ctx.und(nm, 'condition of the handshake: %s' % T_.show(on)[:200], site)
    ctx.require(nm + ': handshake whenever TLS is asked for', implied(use, on), 'TLS handshake only if %s' % T_.show(on)[:200], site)
    this = ev.store.get(('this', f.c))
    ssl = T_.FLD(this, 'ssl_') if this is not None else None
    for i, e in calls:
        if q(e) in ('fdopen',):
            ctx.require(nm + ': plain streams only without TLS', AND(e.g, use) == FALSE, 'plain stream opened if %s' % T_.show(e.g)[:200], e.site)
    for mode in ('r', 'w'):
        got = FALSE
        for i, e in calls:
            if q(e) == 'fdopen' and T_.show(e.a[2][1]).startswith("'" + mode):
                got = OR(got, e.g)
        ctx.require(nm + ': plain connection opened (%s) without TLS' % mode, implied(NOT(use), got), 'opened only if %s' % T_.show(got)[:200], site)
    for i, h in hs:
        n = nm + ': ' + q(h)
        s = h.a[2][0]
        mk_ = [(j, e) for j, e in calls if q(e) == 'SSL_new' and e.res == s]
        if not mk_:
            ctx.und(n, 'origin of the TLS object not found: %s' % T_.show(s)[:200], h.site)
            continue
        jn, new = mk_[0]
        c = new.a[2][0]
        cn = [(j, e) for j, e in calls if q(e) == 'SSL_CTX_new' and e.res == c]
        if not cn:
            ctx.und(n, 'origin of the TLS context not found: %s' % T_.show(c)[:200], h.site)
            continue
        role = 'client' if q(h) == 'SSL_connect' else 'server'
        ctx.require(n + ' in the right role', (role == 'client') == client, '%s constructor performs %s' % ('client' if client else 'server', q(h)), h.site)
        m = T_.show(cn[0][1].a[2][0])
        ctx.require(n + ' with the method of the role', role in m or 'TLS_method' in m or 'ev(' not in m, 'context made with %s' % m[:120], cn[0][1].site)
        def before(names, pred, cond, upto, what):
            got = FALSE
            for j, e in calls:
                if q(e) in names and j < upto and pred(e):
                    got = OR(got, e.g)
            ctx.require(n + ': ' + what, implied(AND(h.g, cond), got), 'only if %s' % T_.show(got)[:200], h.site)
        def on_ctx(e):
            return e.a[2][0] == c
        # (a) version
        before(('SSL_CTX_ctrl',), lambda e: on_ctx(e) and e.a[2][1] == C(MINPROTO) and e.a[2][2][0] == 'c' and e.a[2][2][1] >= TLS13, TRUE, jn, 'version 1.3 or later required first')
        low = [e for j, e in calls if q(e) in ('SSL_CTX_ctrl', 'SSL_ctrl') and j < i and e.a[2][0] in (c, s) and
               (e.a[2][1] == C(MINPROTO) and not (e.a[2][2][0] == 'c' and e.a[2][2][1] >= TLS13) or
                e.a[2][1] == C(MAXPROTO) and e.a[2][2][0] == 'c' and 0 < e.a[2][2][1] < TLS13)]
        ctx.require(n + ': version never lowered', not low, 'version set to %s' % (T_.show(low[0].a[2][2]) if low else ''), low[0].site if low else '')
        # (b) credentials of the server
        if role == 'server':
            paths = [('certPath', 'keyPath')] if info else [('cert.pem', 'key.pem')]
            def names_path(e, p):
                t = T_.show(e.a[2][1])
                return (not info or noname(ctx, e.a[2][1], p)) and (info or 'tlsDir' in t)
            cert, key = paths[0]
            before(('SSL_CTX_use_certificate_file', 'SSL_CTX_use_certificate_chain_file'), lambda e: on_ctx(e) and names_path(e, cert), TRUE, jn, 'own certificate loaded')
            before(('SSL_CTX_use_PrivateKey_file',), lambda e: on_ctx(e) and names_path(e, key), TRUE, jn, 'own key loaded')
            if info:
                pw = [e for j, e in calls if 'ifstream' in T_.show(e.a[1] if e.a[1] is not None else vgx.NULL)]
                if pw:
                    ctx.require(n + ': passphrase read from its file', any(noname(ctx, e.a[1], 'passphrasePath') for e in pw), 'read from %s' % T_.show(pw[0].a[1])[:200], pw[0].site)
        # (c) the client verifies whom it talks to
        if role == 'client' and info:
            root = T_.FLD(A('o', 'sym', info[0][0]), 'rootCaCertPath')
            some = NOT(T_.EQ0(T_.LEN(root)))
            before(('SSL_CTX_load_verify_locations',), lambda e: on_ctx(e) and noname(ctx, e.a[2][1], 'rootCaCertPath'), some, jn, 'configured root certificate trusted')
            before(('SSL_CTX_set_verify', 'SSL_set_verify'), lambda e: (on_ctx(e) or e.a[2][0] == s) and e.a[2][1][0] == 'c' and e.a[2][1][1] & 1, TRUE, i, 'peer certificate demanded')
            prm = [e.res for j, e in calls if q(e) in ('SSL_CTX_get0_param', 'SSL_get0_param') and (on_ctx(e) or e.a[2][0] == s)]
            before(('X509_VERIFY_PARAM_set1_host', 'SSL_set1_host'), lambda e: (e.a[2][0] in prm or e.a[2][0] == s) and noname(ctx, e.a[2][1], f.params[0][1]), TRUE, i, 'host name of the peer checked')
        weak = [e for j, e in calls if q(e) in ('SSL_CTX_set_verify', 'SSL_set_verify') and e.a[2][0] in (c, s) and (e.a[2][1] == C(0) or len(e.a[2]) > 2 and e.a[2][2] != vgx.NULL)]
        if role == 'client' and info:
            ctx.require(n + ': verification never replaced', not weak, 'verification changed', weak[0].site if weak else '')
        # (d) the connection handshaken is the one used
        if ssl is not None:
            for cond in (use,):
                got = T_.subst(ssl, {use: TRUE})
                ctx.require(n + ': the verified connection carries the data', got == s, 'data goes over %s' % T_.show(got)[:200], h.site, unknown=bool(opaque_in(got)))
            got = T_.subst(ssl, {use: FALSE})
            ctx.require(n + ': none without TLS', got == vgx.NULL, 'TLS object without TLS: %s' % T_.show(got)[:200], h.site, unknown=bool(opaque_in(got)))
        fds = [(j, e) for j, e in calls if q(e) == 'SSL_set_fd' and e.a[2][0] == s and j < i]
        fd = fds and T_.show(fds[0][1].a[2][1])
        ctx.require(n + ': over the connected socket', bool(fds) and ('socket' in fd if client else 'accept' in fd), 'TLS runs over %s' % (fd or 'nothing')[:200], h.site)
    if not hs:
        ctx.bad(nm + ': no handshake', 'no TLS handshake in this constructor', site)


def factory(ctx, f):
    """every agent the factory makes gets the factory's TLS configuration"""
    ev = ctx.evalr(opaque=OPQ)
    ev.run(f)
    ctx.functions |= ev.analysed
    mine = T_.FLD(A('o', 'sym', '*this'), 'tlsInfo_')
    seen = set()
    for v in ev.store.values():
        for x in T_.subterms(v):
            if type(x) is T_.T and x[0] == 'a' and x[2] == 'new' and x[3] == AGENT:
                seen.add(x)
    name = f.q.split('::')[-1]
    for x in sorted(seen, key=T_.rk):
        side = 'client' if noname(ctx, x[4][0], 'address') else 'server'
        ctx.require('%s: %s end is made with the configured TLS' % (name, side), any(y == mine for y in x[4]), 'made with %s' % ', '.join(T_.show(y)[:60] for y in x[4]), f.where())
    ctx.require('%s makes agents' % name, len(seen) >= 2, 'found %d' % len(seen), f.where(), unknown=True)


def made(ctx, f):
    """the configuration given to the factory is the one it keeps"""
    nm = 'factory constructor (%s)' % ', '.join(p[1] for p in f.params)
    ev = ctx.evalr(opaque=OPQ + [FACT + '::setupInitial.*'])
    ev.run(f)
    ctx.functions |= ev.analysed
    this = ev.store.get(('this', f.c))
    got = T_.FLD(this, 'tlsInfo_')
    info = [p[1] for p, t in zip(f.params, f.ptypes()) if 'TlsInfo' in t]
    site = f.where()
    if info:
        want = A('o', 'sym', info[0])
        flds = ('useTls', 'rootCaCertPath', 'certPath', 'keyPath', 'passphrasePath')
        ctx.require(nm + ' keeps the configuration', got == want or all(T_.FLD(got, x, 'b' if x == 'useTls' else 'o') == T_.FLD(want, x, 'b' if x == 'useTls' else 'o') for x in flds), 'keeps %s' % T_.show(got)[:200], site, unknown=bool(opaque_in(got)))
    else:
        u = T_.FLD(got, 'useTls', 'b')
        flag = [p[1] for p in f.params if p[1] == 'useTls']
        want = A('b', 'sym', 'useTls') if flag else FALSE
        ctx.require(nm + ' keeps the switch', u == want, 'keeps %s' % T_.show(u)[:200], site, unknown=bool(opaque_in(u)))
        if flag:
            for x in ('certPath', 'keyPath', 'passphrasePath'):
                v = T_.FLD(got, x)
                ctx.require(nm + ' keeps ' + x, noname(ctx, v, 'tlsDir'), 'keeps %s' % T_.show(v)[:200], site, unknown=bool(opaque_in(v)))
    used = [e for e, _ in flat(ev.eff, op='call') if '::setupInitialConnection' in q(e)]
    return used


def check(ctx):
    ctx.load([COM + 'SocketPartyCommunicationAgent.cpp', COM + 'SocketPartyCommunicationAgentFactory.cpp'], specs=['E11.cpp'])
    ctx.rule('handshake <=> TLS asked for; before it: minimum version 1.3, own credentials, trusted root, peer demanded, host checked; only the handshaken connection carries data')
    fs = [f for f in ctx.db.funcs.values() if f.c == AGENT and 'ctor' in f.d and not f.d.get('implicit') and f.params and f.body is not None]
    for f in fs:
        ctx.guard('constructor at ' + f.where(), agent, ctx, f)
    n = 0
    for f in ctx.db.funcs.values():
        if f.c == FACT and f.body is not None:
            if 'ctor' in f.d:
                if not f.d.get('implicit') and f.params:
                    ctx.guard(f.q, made, ctx, f)
            elif not f.d.get('implicit') and f.q.split('::')[-1] in ('create', 'setupInitialConnection'):
                ctx.guard(f.q, factory, ctx, f)
    refine.refine(ctx, 'E11.cpp')
