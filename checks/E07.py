"""Multiplication tuples."""
from core import *
import refine
import vg

LEVEL = 'other'
EXPLAIN = 'generation of multiplication tuples, in value-flow normal form, against reference definitions'
FLOOR = 0
NS = 'fbpcf::engine::tuple_generator::'
GEN = [(NS + 'TupleGenerator', 'asyncBuffer_', 'generateTuples'), (NS + 'ArithmeticTupleGenerator', 'asyncBuffer_', 'generateTuples'),
       (NS + 'TwoPartyTupleGenerator', 'booleanTupleBuffer_', 'generateNormalTuples'),
       (NS + 'TwoPartyTupleGenerator', 'rcotBuffer_', 'generateRcotResults')]


def buffers(ctx):
    """what refills a buffer is the generation function of its kind, for the size asked for"""
    for cls, buf, gen in GEN:
        nm = '%s refilled by %s' % (buf, gen)
        cs = [f for f in ctx.db.funcs.values() if f.c == cls and 'ctor' in f.d and not f.d.get('implicit') and f.params]
        if len(cs) != 1 or not any(f.c == cls and f.q.endswith('::' + gen) for f in ctx.db.funcs.values()):
            ctx.und(nm, 'constructor or generation function not found')
            continue
        ctx.guard(nm, buffer, ctx, nm, cs[0], cls, buf, gen)


def buffer(ctx, nm, c, cls, buf, gen):
    ev = ctx.evalr(opaque=[cls + '::generate.*'])
    ev.run(c)
    ctx.functions |= ev.analysed
    v = T_.FLD(ev.store[('this', cls)], buf)
    f = T_.FLD(v, 'generateData_')
    site = c.where()
    if f[0] != 'lam':
        ctx.und(nm, 'refill function is %s' % T_.show(f)[:200], site)
        return
    clo = ev.closure(f)
    r = clo[3]
    calls = [e for e in clo[4][1:] if e[0] == 'eff' and e[2] == 'call' and '::generate' in e[3][1]]
    if len(calls) != 1 or r[0] != 'fut':
        ctx.und(nm, T_.show(r)[:300], site)
        return
    q, args = calls[0][3][1], calls[0][3][3]
    ctx.require(nm, q.split('::')[-1] == gen and calls[0][1] == TRUE and args == T_.mk('t', sym('arg0', 'i')) and r[1] == calls[0][4],
                'refilled by %s(%s)' % (q, ', '.join(T_.show(a) for a in args[1:])), site)
    if cls.endswith('TwoPartyTupleGenerator'):
        turn(ctx, nm, clo, ev.store[('this', cls)], cls, gen, site)
    sz = T_.FLD(v, 'bufferSize_', 'i')
    ctx.require(nm + ' size', sz == sym(c.params[-1][1], 'i'), T_.show(sz)[:200], site)


def turn(ctx, nm, clo, v, cls, gen, site):
    """a refill queues the kind its generation function waits for, so that no generation waits for ever and both
    parties' generations use the correlated transfers in the order in which they were started"""
    nm += ' turn'
    fn = [f for f in ctx.db.funcs.values() if f.c == cls and f.q.endswith('::' + gen)]
    ev = ctx.evalr(opaque=['.*::rcot', cls + '::expand.*'])
    ev.run(fn[0])
    ctx.functions |= ev.analysed
    w = [e for e in ev.eff if e.op == 'call' and 'condition_variable' in str(e.a[0]) and '::wait' in str(e.a[0])]
    fld = 'toGenerate_'
    q = T_.FLD(clo[5], fld)
    if len(w) != 1 or q[0] not in ('vec', 'cat'):
        ctx.und(nm, 'no single wait, or queue is %s' % T_.show(q)[:200], site)
        return
    cond = [x for x in w[0].a[2] if type(x) is T_.T and T_.kind(x) == 'b']
    last = T_.IDX(q, T_.SUB(T_.LEN(q), T_.C(1)), 'i')
    c = cond and T_.subst(cond[0], {y: last for y in subterms(cond[0]) if type(y) is T_.T and y[0] == 'a' and y[2] == 'idx' and y[4] == T_.C(0)})
    if c not in (TRUE, FALSE):
        ctx.und(nm, T_.show(c)[:300], site)
        return
    ctx.require(nm, c == TRUE, 'queues %s, but %s waits for %s' % (T_.show(last), gen, T_.show(cond[0])), site)
    before = T_.FLD(v, fld)
    ctx.require(nm + ' in order', T_.SLICE(q, T_.C(0), T_.SUB(T_.LEN(q), T_.C(1))) == before, '%s becomes %s' % (T_.show(before), T_.show(q)), site)


def check(ctx):
    ctx.load(specs=['E07.cpp'])
    opq = ['fbpcf::engine::util::AesPrg::getRandom.*', 'fbpcf::engine::util::Aes::.*', 'fbpcf::engine::communication::IPartyCommunicationAgent::.*', 'fbpcf::engine::util::AsyncBuffer.*::getData']
    gen = ['fbpcf::engine::tuple_generator::(TupleGenerator|ArithmeticTupleGenerator|TwoPartyTupleGenerator)::(\\w*TupleGenerator|generate.*)']
    refine.refine(ctx, 'E07.cpp', opts={'ev': {'opaque': opq}}, per={'TwoParty::getCompositeTuple': {'ev': {'opaque': opq + gen + [NS + 'TwoPartyTupleGenerator::expandRCOTResults']}}, 'Factory::create': {'ev': {'opaque': opq + gen}}})
    buffers(ctx)
