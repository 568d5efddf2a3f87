"""Further library models: random numbers (as unconstrained choices), strings, locks, lists."""
import re
from terms import *
from prove import *
from symex import *
import symex
import eigen_models as em
import std_models as sm


def c_engine(ex, st, t, callee, args, n):
    a = [ex.rv(st, x) for x in args]
    return Opaque('prng:%d' % next(symex._oid), 'prng', {'seed': a[0] if a else None})


def c_bernoulli(ex, st, t, callee, args, n):
    p = em.numof(ex.rv(st, args[0])) if args and args[0]['k'] != 'CXXDefaultArgExpr' else Num(Q(1, 2))
    return Opaque('bernoulli:%d' % next(symex._oid), 'bernoulli', {'p': p})


def h_bernoulli(ex, st, callee, obj, argn, n):
    if base_name(callee['fn']) != 'operator()':
        return NotImplemented
    d = ex.load(st, obj)
    for a in argn:
        ex.eval(st, a)
    b = ind_bool('coin!%d' % next(symex._oid))
    p = d.info['p'].p
    st.assume(ONE - b * ind_le(p))                       # heads only with positive probability
    st.assume(ONE - (ONE - b) * ind_le(ONE - p))         # tails only below probability one
    return BoolV(b)


def c_dist(ex, st, t, callee, args, n):
    return Opaque('dist:%d' % next(symex._oid), t.split('<')[0], {'args': [ex.rv(st, x) for x in args if x['k'] != 'CXXDefaultArgExpr'], 't': t})


def h_dist(ex, st, callee, obj, argn, n):
    if base_name(callee['fn']) != 'operator()':
        return NotImplemented
    d = ex.load(st, obj)
    for a in argn:
        g = ex.load(st, ex.eval(st, a))
        sd = g.info.get('seed') if isinstance(g, Opaque) and g.cls == 'prng' else None
        ex.seeds.append((st.clone(), sd.p if isinstance(sd, Num) else None))
    integer = 'int' in d.cls
    k = next(symex._oid)
    it = ex.loop_stack[:]
    v = app('draw!%d' % k, *it, sort='I' if integer else 'R') if it else V('draw!%d' % k, 'I' if integer else 'R')
    a = [em.numof(x).p for x in d.info['args']]
    lo = a[0] if a else ZERO
    if integer:
        if len(a) < 2:
            raise Unsupported('uniform_int_distribution bounds')
        ex.oblige(st, 'random range is not empty', 'cond', ind_le(lo - a[1]), n.get('l'))
        st.assume(ind_le(lo - v))
        st.assume(ind_le(v - a[1]))
    else:
        hi = a[1] if len(a) > 1 else ONE
        if lo == ZERO:
            declare('draw!%d' % k, 'pos')       # a draw of exactly zero has probability zero (documented assumption)
        st.assume(ind_le(lo - v))
        st.assume(ONE - ind_le(hi - v))
    return Num(v, 'I' if integer else 'R')


def h_engine(ex, st, callee, obj, argn, n):
    nm = base_name(callee['fn'])
    if nm == 'operator()':
        return Num(V('rnd!%d' % next(symex._oid)), 'I')
    if nm in ('min', 'max'):
        return Num(V('rnd-' + nm), 'I')
    return NotImplemented


def iters(ex, st, args):
    a = [ex.load(st, x) if isinstance(x, Ref) else x for x in args]
    if len(a) < 2 or not all(isinstance(x, Opaque) and x.cls == 'iter' for x in a[:2]) or a[0].info['oid'] != a[1].info['oid']:
        raise Unsupported('iterator range')
    v = st.heap[a[0].info['oid']]
    if not isinstance(v, Arr) or v.items is not None or v.mat is not None:
        raise Unsupported('iterator range over %r' % (v,))
    return a[0].info['oid'], v, a[0].info['pos'], a[1].info['pos'], a[2:]


def put(st, oid, v, b, e, p, d):
    inside = ind_le(b - RI) * ind_le(RI - e + 1)
    if b.const() == 0 and e == v.size:
        inside = ONE
    st.heap[oid] = Arr(v.size, None, inside * p + (ONE - inside) * v.p, inside * d + (ONE - inside) * v.d, v.s, v.et)


def h_range(ex, st, callee, obj, argn, n):
    """std::iota, std::fill, std::reverse, std::shuffle over a vector of numbers"""
    nm = base_name(callee['fn'])
    oid, v, b, e, rest = iters(ex, st, [ex.eval(st, a) for a in argn])
    if nm == 'iota':
        x = em.numof(rest[0])
        put(st, oid, v, b, e, x.p + RI - b, x.d)
    elif nm == 'fill':
        x = em.numof(rest[0])
        put(st, oid, v, b, e, x.p, x.d)
    elif nm == 'reverse':
        k = {'ri_': b + e - 1 - RI}
        put(st, oid, v, b, e, subst(v.p, k), subst(v.d, k))
    else:
        # assumed contract: some permutation of the range
        f = 'perm!%d' % next(symex._oid)
        declare(f, 'nonneg')
        UPPER[f] = e - b - 1
        ex.notes.add('std::shuffle permutes its range (assumed)')
        ex.perms = getattr(ex, 'perms', []) + [(f, b, e)]
        k = {'ri_': b + app(f, RI - b, sort='I')}
        put(st, oid, v, b, e, subst(v.p, k), subst(v.d, k))
    return VOID


def c_string(ex, st, t, callee, args, n):
    if not args:
        return Str([])
    v = ex.rv(st, args[0])
    if isinstance(v, Str):
        return v
    if isinstance(v, EPtr):
        import std_io
        return Str(std_io.cstring(ex, st, v))
    if isinstance(v, Num) and len(args) > 1 and v.p.const() is not None:
        import std_io
        return Str((std_io.num_cell(ex.rv(st, args[1])),) * int(v.p.const()))
    raise Unsupported('string construction')


def install(ex, add):
    ex.seeds = []           # seeds of the generators that numbers were drawn from
    for t in ('std::linear_congruential_engine', 'std::mersenne_twister_engine', 'std::default_random_engine', 'std::mt19937'):
        sm.CTORS[t] = c_engine
    sm.CTORS['std::bernoulli_distribution'] = c_bernoulli
    for t in ('std::uniform_int_distribution', 'std::uniform_real_distribution'):
        sm.CTORS[t] = c_dist
    sm.CTORS['std::basic_string'] = c_string
    add(r'std::bernoulli_distribution::', h_bernoulli)
    add(r'std::uniform_(int|real)_distribution<', h_dist)
    add(r'std::(linear_congruential|mersenne_twister)_engine<', h_engine)
    add(r'std::(iota|fill|reverse|shuffle|random_shuffle)$', h_range)
    import std_io
    std_io.install(ex, add)
    import std_conc
    std_conc.install(ex, add)
