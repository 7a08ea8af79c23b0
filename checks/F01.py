"""Secret values cannot be read, leaked into public types or mixed across schedulers: such programs do not build."""
from core import *
import witness

LEVEL = 'other'
EXPLAIN = "pairs of programs differing only in the offending type: the type checker must accept one and refuse the other"
FLOOR = 0

PRELUDE = '''#include "fbpcf/frontend/MPCTypes.h"
#include "fbpcf/frontend/BitString.h"
#include <iostream>
using namespace fbpcf::frontend;
template <class A, class B> struct same { static constexpr bool value = false; };
template <class A> struct same<A, A> { static constexpr bool value = true; };
template <class T> struct plain { using type = T; };
template <class T> struct plain<const T> { using type = T; };
template <class T> struct plain<T&> { using type = typename plain<T>::type; };
template <class T> struct plain<T&&> { using type = typename plain<T>::type; };
template <class A, class B> void must() { static_assert(same<typename plain<A>::type, typename plain<B>::type>::value); }
template <class T> T& val();
'''


def kinds():
    for b in ('false', 'true'):
        yield 'bit' + b, 'Bit', lambda s, i, b=b: 'Bit<%s, %d, %s>' % (s, i, b), b
        yield 'string' + b, 'BitString', lambda s, i, b=b: 'BitString<%s, %d, %s>' % (s, i, b), b
        yield 'signed' + b, 'Int', lambda s, i, b=b: 'Int<true, 8, %s, %d, %s>' % (s, i, b), b
        yield 'unsigned' + b, 'Int', lambda s, i, b=b: 'Int<false, 8, %s, %d, %s>' % (s, i, b), b


def fn(body):
    return 'void f() { %s }\n' % body


def pairs():
    out = []

    def add(name, twin, wit, what, anchor):
        out.append((name, fn(twin), fn(wit), what, anchor))
    for kn, cls, T, b in kinds():
        S, P = T('true', 0), T('false', 0)
        nb = 'Batch' if b == 'true' else ''
        kn = cls + ('' if cls != 'Int' else '.' + kn.replace('true', '').replace('false', '')) + ('.batch' if b == 'true' else '')
        bit = lambda s, i: 'Bit<%s, %d, %s>' % (s, i, b)
        # reading
        add(kn + ': reading a secret', 'val<%s>().getValue();' % P, 'val<%s>().getValue();' % S, 'the cleartext of a secret can be read without opening it', cls + '::getValue')
        add(kn + ': reading what a secret was combined with', 'val<%s>().openToParty(0).getValue();' % S, 'auto x = val<%s>(); x.getValue();' % S, 'a secret can be read without opening it', cls + '::getValue')
        # public <- secret
        for how, e in (('assigning', 'val<%s>() = val<%s>();'), ('initialising', '%s x(val<%s>());'), ('converting', '%s x = val<%s>();'), ('moving', 'val<%s>() = std::move(val<%s>());')):
            add(kn + ': %s a public value from a secret' % how, e % (P, P), e % (P, S), 'a secret flows into a public value', cls)
            add(kn + ': %s across schedulers' % how, e % (S, S), e % (S, T('true', 1)), 'a value of one computation flows into another', cls)
        if cls != 'BitString':
            ops2 = ['&', '^', '|'] if cls == 'Bit' else ['+', '-', '<', '>', '<=', '>=', '==']
        else:
            ops2 = ['&', '^']
        boolean = ('<', '>', '<=', '>=', '==')
        for o in ops2:
            for s, t in (('true', 'true'), ('true', 'false'), ('false', 'true'), ('false', 'false')):
                e = 'val<%s>() ' + o + ' val<%s>()'
                sec = 'true' if 'true' in (s, t) else 'false'
                R = bit(sec, 0) if o in boolean else T(sec, 0)
                other = bit('false', 0) if o in boolean else P
                nm = '%s: %s %s %s' % (kn, {'true': 'secret', 'false': 'public'}[s], o, {'true': 'secret', 'false': 'public'}[t])
                if sec == 'true':
                    add(nm + ' is secret', '%s r = %s;' % (R, e % (T(s, 0), T(t, 0))), '%s r = %s;' % (other, e % (T(s, 0), T(t, 0))), 'the result of an operation on a secret is public', cls + '::operator' + o)
                    add(nm + ' cannot be read', '(%s).openToParty(0);' % (e % (T(s, 0), T(t, 0))), '(%s).getValue();' % (e % (T(s, 0), T(t, 0))), 'the result of an operation on a secret can be read', cls + '::operator' + o)
                add(nm + ' across schedulers', e % (T(s, 0), T(t, 0)) + ';', e % (T(s, 0), T(t, 1)) + ';', 'values of different computations are combined', cls + '::operator' + o)
                B2 = lambda i, x=T, q=t: x(q, i)
                flip = T(t, 0)[:T(t, 0).rindex(',')] + (', false>' if b == 'true' else ', true>')
                add(nm + ' of a batch and a single value', e % (T(s, 0), T(t, 0)) + ';', e % (T(s, 0), flip) + ';', 'a batch and a single value are combined', cls + '::operator' + o)
                if cls == 'Int':
                    add(nm + ' of different widths', e % (T(s, 0), T(t, 0)) + ';', e % (T(s, 0), T(t, 0).replace(' 8,', ' 9,')) + ';', 'integers of different widths are combined', cls + '::operator' + o)
                    sg = T(t, 0)
                    sg = sg.replace('Int<true', 'Int<false') if 'Int<true' in sg else sg.replace('Int<false', 'Int<true')
                    add(nm + ' of different signedness', e % (T(s, 0), T(t, 0)) + ';', e % (T(s, 0), sg) + ';', 'signed and unsigned integers are combined', cls + '::operator' + o)
        if cls != 'Bit':
            for c, s, t in ((c, s, t) for c in ('true', 'false') for s in ('true', 'false') for t in ('true', 'false')):
                e = 'val<%s>().mux(val<%s>(), val<%s>())'
                nm = '%s: mux %s %s %s' % (kn, *({'true': 'secret', 'false': 'public'}[q] for q in (c, s, t)))
                if 'true' in (c, s, t):
                    add(nm + ' is secret', '%s r = %s;' % (S, e % (T(s, 0), bit(c, 0), T(t, 0))), '%s r = %s;' % (P, e % (T(s, 0), bit(c, 0), T(t, 0))), 'a selection depending on a secret is public', cls + '::mux')
                add(nm + ' with the choice of another scheduler', e % (T(s, 0), bit(c, 0), T(t, 0)) + ';', e % (T(s, 0), bit(c, 1), T(t, 0)) + ';', 'values of different computations are combined', cls + '::mux')
                add(nm + ' with the other value of another scheduler', e % (T(s, 0), bit(c, 0), T(t, 0)) + ';', e % (T(s, 0), bit(c, 0), T(t, 1)) + ';', 'values of different computations are combined', cls + '::mux')
        else:
            for s, t in (('true', 'true'), ('true', 'false'), ('false', 'true'), ('false', 'false')):
                for V in ('std::vector<%s>', 'std::array<%s, 3>'):
                    e = 'val<%s>() & val<%s>()'
                    nm = '%s: %s & %s of %s' % (kn, {'true': 'secret', 'false': 'public'}[s], V % '', {'true': 'secret', 'false': 'public'}[t])
                    if 'true' in (s, t):
                        add(nm + ' is secret', '%s r = %s;' % (V % S, e % (T(s, 0), V % T(t, 0))), '%s r = %s;' % (V % P, e % (T(s, 0), V % T(t, 0))), 'the result of an operation on a secret is public', cls + '::operator&')
                    add(nm + ' across schedulers', e % (T(s, 0), V % T(t, 0)) + ';', e % (T(s, 0), V % T(t, 1)) + ';', 'values of different computations are combined', cls + '::operator&')
        # one operand
        add(kn + ': not of a secret is secret', '%s r = %s;' % ((S, '!val<%s>()' % S) if cls != 'Int' else (bit('true', 0), '!val<%s>()[0]' % S)), '%s r = %s;' % ((P, '!val<%s>()' % S) if cls != 'Int' else (bit('false', 0), '!val<%s>()[0]' % S)), 'the negation of a secret is public', cls)
        if cls == 'Int':
            if 'Int<true' in S:
                add(kn + ': minus of a secret is secret', '%s r = -val<%s>();' % (S, S), '%s r = -val<%s>();' % (P, S), 'minus a secret is public', 'Int::operator-')
                add(kn + ': the absolute value of a secret is secret', '%s r = abs(val<%s>());' % (S, S), '%s r = abs(val<%s>());' % (P, S), 'the absolute value of a secret is public', 'abs')
            for g in ('min', 'max'):
                for s, t in (('true', 'false'), ('false', 'true'), ('true', 'true')):
                    e = 'fbpcf::frontend::%s(val<%s>(), val<%s>())' % (g, T(s, 0), T(t, 0))
                    add('%s: %s of %s %s is secret' % (kn, g, s, t), '%s r = %s;' % (S, e), '%s r = %s;' % (P, e), 'the %s of a secret is public' % g, g)
            add(kn + ': a cast secret is secret', 'auto r = val<%s>().template cast<16>(); r = %s();' % (S, S.replace(' 8,', ' 16,')), 'auto r = val<%s>().template cast<16>(); r = %s();' % (S, P.replace(' 8,', ' 16,')), 'casting a secret makes it public', 'Int::cast')
            add(kn + ': a cast secret stays with its scheduler', 'val<%s>() = val<%s>().template cast<16>();' % (S.replace(' 8,', ' 16,'), S), 'val<%s>() = val<%s>().template cast<16>();' % (T('true', 1).replace(' 8,', ' 16,'), S), 'casting moves a value to another computation', 'Int::cast')
        if cls != 'Bit':
            add(kn + ': a bit of a secret is secret', '%s r = val<%s>()[0];' % (bit('true', 0), S), '%s r = val<%s>()[0];' % (bit('false', 0), S), 'a bit of a secret is public', cls + '::operator[]')
            add(kn + ': putting a secret bit into a public value', 'val<%s>()[0] = val<%s>();' % (P, bit('false', 0)), 'val<%s>()[0] = val<%s>();' % (P, bit('true', 0)), 'a secret bit is stored in a public value', cls + '::operator[]')
            add(kn + ': putting a bit of another scheduler in', 'val<%s>()[0] = val<%s>();' % (S, bit('true', 0)), 'val<%s>()[0] = val<%s>();' % (S, bit('true', 1)), 'values of different computations are combined', cls + '::operator[]')
        # opening goes through openToParty, inputs keep their secrecy
        add(kn + ': opening keeps the scheduler', '%s r = val<%s>().openToParty(0);' % (P, S), '%s r = val<%s>().openToParty(0);' % (T('false', 1), S), 'an opened value moves to another computation', cls + '::openToParty')
        sh = {'Bit': 'extractBit', 'BitString': 'extractStringShare', 'Int': 'extractIntShare'}[cls]
        add(kn + ': a share recovers to a secret only', '%s r(val<%s>().%s());' % (S, S, sh), '%s r(val<%s>().%s());' % (P, S, sh), 'a share is turned into a public value', cls)
        add(kn + ': a share returns to its scheduler', '%s r(val<%s>().%s());' % (S, S, sh), '%s r(val<%s>().%s());' % (T('true', 1), S, sh), 'a share moves to another computation', cls)
        add(kn + ': a public value has no share', 'val<%s>().%s();' % (S, sh), 'val<%s>().%s();' % (P, sh), 'a share is taken from a public value', cls + '::' + sh)
        add(kn + ': a public value is not opened', 'val<%s>().openToParty(0);' % S, 'val<%s>().openToParty(0);' % P, 'a public value is opened', cls + '::openToParty')
        raw = {'Bit': 'bool', 'BitString': 'bool', 'Int': 'int64_t' if 'Int<true' in S else 'uint64_t'}[cls]
        if b == 'true':
            raw = 'std::vector<%s>' % raw
        if cls == 'BitString':
            raw = 'std::vector<%s>' % raw
        add(kn + ': a private input makes a secret', '%s x(val<%s>(), 0);' % (S, raw), '%s x(val<%s>(), 0);' % (P, raw), "one party's input becomes public", cls)
        add(kn + ': a public input does not make a secret', '%s x(val<%s>());' % (P, raw), '%s x(val<%s>());' % (S, raw), 'a secret without an owner', cls)
        if b == 'true':
            add(kn + ': batching across schedulers', 'val<%s>().batchingWith(val<std::vector<%s>>());' % (S, S), 'val<%s>().batchingWith(val<std::vector<%s>>());' % (S, T('true', 1)), 'values of different computations are joined', cls + '::batchingWith')
            add(kn + ': batching public with secret', 'val<%s>().batchingWith(val<std::vector<%s>>());' % (P, P), 'val<%s>().batchingWith(val<std::vector<%s>>());' % (P, S), 'secrets are joined into a public batch', cls + '::batchingWith')
            add(kn + ': cutting keeps secrecy', 'std::vector<%s> r = val<%s>().unbatching(nullptr);' % (S, S), 'std::vector<%s> r = val<%s>().unbatching(nullptr);' % (P, S), 'parts of a secret batch are public', cls + '::unbatching')
        # control flow
        for how, e in (('branching on', 'if (%s) {}'), ('as a condition', 'auto q = (%s) ? 1 : 2; (void)q;'), ('as a number', 'int q = %s; (void)q;'), ('short-circuiting', 'bool q = (%s) && true; (void)q;'), ('as an index', 'std::vector<int> q(4); q[%s] = 1;'), ('looping on', 'while (%s) {}')):
            add(kn + ': %s a secret' % how, e % 'true', e % ('val<%s>()' % S), 'a secret decides the course of the program', cls)
        add(kn + ': printing a secret', 'std::cout << 1;', 'std::cout << val<%s>();' % S, 'a secret can be printed', cls)
    # the game's names for its types
    for b in ('false', 'true'):
        for nm, a, c in (('SecBit', 'SecBit<%s>' % b, 'PubBit<%s>' % b), ('SecSignedInt', 'SecSignedInt<8, %s>' % b, 'PubSignedInt<8, %s>' % b), ('SecUnsignedInt', 'SecUnsignedInt<8, %s>' % b, 'PubUnsignedInt<8, %s>' % b)):
            add('MpcGame: %s%s is secret' % (nm, '.batch' if b == 'true' else ''), 'val<MpcGame<0>::%s>().getValue();' % c, 'val<MpcGame<0>::%s>().getValue();' % a, 'a type named secret is public', 'MpcGame')
            add('MpcGame: %s%s of two games' % (nm, '.batch' if b == 'true' else ''), 'val<MpcGame<0>::%s>() = val<MpcGame<0>::%s>();' % (a, a), 'val<MpcGame<0>::%s>() = val<MpcGame<1>::%s>();' % (a, a), 'values of different games are mixed', 'MpcGame')
        for nm in ('Bool', 'Char', '32Int', '64Int', 'UnsignedChar', 'Unsigned32Int', 'Unsigned64Int'):
            add('MPCTypes: Sec%s%s is secret' % (nm, '.batch' if b == 'true' else ''), 'val<MPCTypes<0, %s>::Pub%s>().getValue();' % (b, nm), 'val<MPCTypes<0, %s>::Sec%s>().getValue();' % (b, nm), 'a type named secret is public', 'MPCTypes')
    return out


def check(ctx):
    where = {}

    def site(n):
        return {'MpcGame': 'fbpcf/frontend/mpcGame.h', 'MPCTypes': 'fbpcf/frontend/MPCTypes.h', 'BitString': 'fbpcf/frontend/BitString.h', 'Bit': 'fbpcf/frontend/Bit.h'}.get(n.split('::')[0], 'fbpcf/frontend/Int.h') + ' ' + n
    ctx.rule('each offending program is refused by the type checker while its twin, differing only in the offending type, is accepted')
    witness.run(ctx, PRELUDE, pairs(), site)
