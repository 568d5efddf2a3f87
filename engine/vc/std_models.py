"""Models of the C and C++ standard library functions used by the code under contract."""
import re
from terms import *
from prove import *
from symex import *
import symex
import eigen_models as em

NAN = V('NaN', 'R')
INF = V('INF', 'R')


def scalar_fn(f):
    def h(ex, st, callee, obj, argn, n):
        vs = [ex.rv(st, a) for a in argn]
        return f(*[em.numof(v) for v in vs])
    return h


def h_pow(ex, st, callee, obj, argn, n):
    x, y = [em.numof(ex.rv(st, a)) for a in argn]
    if y.p.is_int() and y.p.const() is None and st.ctx().entails(ind_le(-y.p)):
        # a whole non-negative exponent: repeated multiplication
        return Num(mk_prod('pw_', y.p, x.p), 'R', x.d * y.d)
    return f_pow(x, y)


def f_pow(x, y):
    c = y.p.const()
    if c is not None and c.denominator == 1 and 0 <= c <= 8:
        return Num(x.p ** int(c), 'R', x.d * y.d)
    cx = x.p.const()
    return Num(app('pow', x.p, y.p), 'R', x.d * y.d)


def f_lgamma(x):
    return Num(app('lgamma', x.p), 'R', x.d * (ONE - ind_le(x.p)))


def f_max(x, y):
    c = ind_le(x.p - y.p)
    return Num(c * y.p + (ONE - c) * x.p, x.s, x.d * y.d)


def f_min(x, y):
    c = ind_le(x.p - y.p)
    return Num(c * x.p + (ONE - c) * y.p, x.s, x.d * y.d)


def ctor_candidates(ex, cls, nargs):
    fs = [f for f in ex.prog.funcs.values() if f.get('ctor') and f.get('cls') == cls and not f.get('impl')
          and len(f['params']) == nargs]
    return fs


def arg_score(pt, at):
    p, a = strip_type(pt), strip_type(at)
    if p == a:
        return 3
    if p.startswith('Eigen::Matrix') and a.startswith('Eigen::'):
        return 2
    if (is_int_type(p) or is_float_type(p)) and (is_int_type(a) or is_float_type(a) or a == 'bool'):
        return 2 if is_int_type(p) == is_int_type(a) else 1
    if p.startswith('std::shared_ptr') and a.startswith('std::shared_ptr'):
        return 2
    if p.startswith('std::function'):
        return 1
    if p.startswith('std::basic_string') and (a.startswith('const char') or a.startswith('char')):
        return 1
    return 0


def new_object(ex, st, cls, argvals, argtypes, n=None):
    """construct repo class cls with given argument values; returns oid"""
    fs = ctor_candidates(ex, cls, len(argvals))
    if not fs:
        # constructors whose remaining parameters have default arguments
        fs = [f for f in ex.prog.funcs.values() if f.get('ctor') and f.get('cls') == cls and not f.get('impl')
              and len(f['params']) > len(argvals) and all(p.get('c') or p.get('def') for p in f['params'][len(argvals):])]
    if not fs:
        if not argvals and cls in ex.prog.records:
            s = ex.new_struct(st, cls)
            o = ex.alloc(st, s)
            ex.default_init_fields(st, o, cls)
            return o
        if len(argvals) == 1 and isinstance(ex.load(st, argvals[0]), Struct) and ex.load(st, argvals[0]).cls == cls:
            return ex.alloc(st, ex.copy_struct(st, ex.load(st, argvals[0])))
        raise Unsupported('no constructor of %s with %d arguments' % (cls[:80], len(argvals)))
    if len(fs) > 1 and not argvals:
        raise Unsupported('ambiguous default constructor of ' + cls[:80])
    f = max(fs, key=lambda f: sum(arg_score(p['t'], t) for p, t in zip(f['params'], argtypes)))
    s = ex.construct_repo(st, cls, f, argvals)
    return ex.alloc(st, s)


def h_make_shared(ex, st, callee, obj, argn, n):
    t = strip_type(n['t'])
    m = re.match(r'std::shared_ptr<(.*)>$', t)
    cls = strip_type(m.group(1))
    if cls not in ex.prog.records:
        v = None
        if argn or cls.startswith('Eigen::'):
            v = construct_std(ex, st, cls, None, argn, n)
        if v is None or v is NotImplemented:
            v = ex.std_default(st, cls) if not argn else None
        if v is None:
            raise Unsupported('make_shared of %s' % cls[:80])
        return Ptr(ex.alloc(st, v))
    args = [ex.eval(st, a) for a in argn]
    args = [a if isinstance(a, (Ref, ElemRef, ArrElem)) else a for a in args]
    return Ptr(new_object(ex, st, cls, args, [a['t'] for a in argn], n))


def h_ptr_cast(ex, st, callee, obj, argn, n):
    return ex.rv(st, argn[0])


def h_shared(ex, st, callee, obj, argn, n):
    name = base_name(callee['fn'])
    if name in ('operator->', 'get'):
        return ex.load(st, obj)
    if name == 'operator*':
        return ex.deref(st, ex.load(st, obj), n)
    if name == 'operator=':
        v = ex.rv(st, argn[0])
        ex.store(st, obj, v)
        return obj
    if name == 'operator bool':
        return ex.to_bool(st, ex.load(st, obj))
    if name == 'reset' and not argn:
        ex.store(st, obj, Ptr(None))
        return VOID
    return NotImplemented


def h_vector(ex, st, callee, obj, argn, n):
    name = base_name(callee['fn'])
    r = obj
    while isinstance(r, Ref) and isinstance(st.heap[r.oid], (Ref, Ptr)):
        w = st.heap[r.oid]
        r = w if isinstance(w, Ref) else Ref(w.oid)
    if not isinstance(r, Ref):
        v = ex.load(st, obj)
        if isinstance(v, Arr):
            r = Ref(ex.alloc(st, v))
        else:
            return NotImplemented
    a = st.heap[r.oid]
    if not isinstance(a, Arr):
        return NotImplemented
    if name in ('operator[]', 'at'):
        i = ex.rv(st, argn[0])
        ex.oblige(st, 'index within bounds in std::vector', 'cond', ind_le(-i.p) * ind_le(i.p - a.size + 1), n.get('l'))
        return ArrElem(r.oid, i.p, not callee.get('cst'))
    if name == 'size':
        return Num(a.size, 'I')
    if name == 'empty':
        return BoolV(ind_eq(a.size))
    if name == 'back':
        return ArrElem(r.oid, a.size - 1, not callee.get('cst'))
    if name == 'data':
        return EPtr(r.oid, ZERO)
    if name == 'front':
        return ArrElem(r.oid, ZERO, not callee.get('cst'))
    if name == 'clear':
        st.heap[r.oid] = Arr(0, [] if a.items is not None else None, ZERO, ONE, a.s, a.et)
        return VOID
    if name in ('push_back', 'emplace_back'):
        v = ex.rv(st, argn[0]) if argn else None
        if a.items is not None:
            st.heap[r.oid] = Arr(a.size + 1, list(a.items) + [v], et=a.et)
            return VOID
        e = ind_eq(RI - a.size)
        v = em.numof(v)
        st.heap[r.oid] = Arr(a.size + 1, None, e * v.p + (ONE - e) * a.p, e * v.d + (ONE - e) * a.d, a.s, a.et)
        return VOID
    if name == 'resize':
        iv = [ex.rv(st, x) for x in argn]
        nsz = iv[0].p
        if a.items is not None and nsz.const() is not None and not is_int_type(a.et) and not is_float_type(a.et):
            k = int(nsz.const())
            items = list(a.items)[:k]
            while len(items) < k:
                items.append(Ref(ex.alloc(st, ex.default_value(st, a.et))))
            st.heap[r.oid] = Arr(nsz, items, et=a.et)
            return VOID
        if is_int_type(a.et) or is_float_type(a.et):
            s = 'I' if is_int_type(a.et) else 'R'
            val = iv[1].p if len(iv) > 1 else ZERO
            a2 = sym_arr(ex, st, a)
            if a.size == nsz:
                return VOID
            keep = ind_le(RI - a2.size + 1)
            cx = em.rng_ctx(st, (RI, nsz))
            st.heap[r.oid] = Arr(nsz, None, simp(keep * a2.p + (ONE - keep) * val, cx), simp(keep * a2.d + (ONE - keep), cx), s, a.et)
            return VOID
        if a.mat is not None:
            # kept elements unchanged, new ones are empty matrices
            m = ex.unpinned(st, a).mat
            k = ind_le(V('ki_') - a.size + 1)
            if st.ctx().entails(ind_le(nsz - a.size)):
                k = ONE
            st.heap[r.oid] = Arr(nsz, None, a.p, a.d, a.s, a.et, MatVal(k * m.rows, k * m.cols, m.p, m.d, m.s))
            return VOID
        raise Unsupported('vector resize')
    if name in ('reserve', 'shrink_to_fit'):
        for x in argn:
            ex.eval(st, x)
        return VOID
    if name in ('begin', 'end', 'cbegin', 'cend'):
        return Opaque('iter:%s:%s' % (name[-5:] if name.endswith('begin') else 'end', r.oid), 'iter', {'oid': r.oid, 'pos': ZERO if 'begin' in name else a.size})
    if name == 'operator=':
        v = ex.rv(st, argn[0])
        st.heap[r.oid] = ex.copy_arr(st, v) if isinstance(v, Arr) else v
        return r
    return NotImplemented


def sym_arr(ex, st, a):
    """symbolic form of a scalar array"""
    if a.items is None:
        return a
    p, d = ZERO, ZERO
    s = 'I' if is_int_type(a.et) else 'R'
    for k, it in enumerate(a.items):
        v = ex.load(st, it)
        p = p + ind_eq(RI - k) * v.p
        d = d + ind_eq(RI - k) * v.d
    return Arr(a.size, None, p, d, s, a.et)


def elem_type(t, prefix):
    inner = t[len(prefix) + 1:]
    depth = 0
    for i, c in enumerate(inner):
        if c == '<':
            depth += 1
        elif c == '>':
            if depth == 0:
                return inner[:i].strip()
            depth -= 1
        elif c == ',' and depth == 0:
            return inner[:i].strip()
    return inner


def construct_std(ex, st, t, callee, args, n):
    if t.startswith('Eigen::'):
        return em.construct_eigen(ex, st, t, callee, args, n)
    if t.startswith('std::shared_ptr<') or t.startswith('std::unique_ptr<'):
        if not args:
            return Ptr(None)
        v = ex.rv(st, args[0])
        return v
    if t.startswith('std::function<'):
        if not args:
            return Ptr(None)
        return ex.rv(st, args[0])
    if t.startswith('std::vector<'):
        et = elem_type(t, 'std::vector')
        if not args or (n.get('copy') is None and n.get('move') is None and args[0]['t'].startswith('std::allocator')):
            return empty_vec(et)
        x = ex.rv(st, args[0])
        if isinstance(x, Arr):
            return ex.copy_arr(st, x)
        if isinstance(x, Num) and (is_int_type(et) or is_float_type(et)):
            val = ZERO
            if len(args) > 1 and args[1]['k'] != 'CXXDefaultArgExpr':
                w = ex.rv(st, args[1])
                if isinstance(w, Num):
                    val = w.p
            if strip_type(et) in ('char', 'unsigned char', 'signed char') and x.p.const() is not None and x.p.const() <= 4096:
                return Arr(x.p, [Num(val, 'I')] * int(x.p.const()), et=et)
            return Arr(x.p, None, val, ONE, 'I' if is_int_type(et) else 'R', et)
        if isinstance(x, Num):
            c = x.p.const()
            if c is not None:
                return Arr(c, [Ref(ex.alloc(st, ex.default_value(st, et))) for _ in range(int(c))], et=et)
            return Arr(x.p, None, None, ONE, 'X', et)
        raise Unsupported('construct ' + t[:80])
    h = CTORS.get(t.split('<')[0])
    if h is not None:
        return h(ex, st, t, callee, args, n)
    return NotImplemented


CTORS = {}


def empty_vec(et):
    if is_int_type(et) or is_float_type(et):
        return Arr(0, None, ZERO, ONE, 'I' if is_int_type(et) else 'R', et)
    return Arr(0, [], et=et)


def std_default(ex, st, tt):
    if tt.startswith(('std::shared_ptr<', 'std::unique_ptr<', 'std::function<')):
        return Ptr(None)
    if tt.startswith('std::vector<'):
        return empty_vec(elem_type(tt, 'std::vector'))
    if tt.endswith('*'):
        return Opaque('uninit-ptr', tt)
    if tt.startswith(('std::mutex', 'std::condition_variable', 'std::mt19937', 'std::mersenne', 'std::random_device', 'std::linear_cong',
                      'std::minstd')):
        return Opaque('lib:%s:%d' % (tt.split('<')[0], next(symex._oid)), tt.split('<')[0])
    if tt.startswith('std::basic_string'):
        return Str([])
    h = DEFAULTS.get(tt.split('<')[0])
    if h:
        return h(ex, st, tt)
    return None


DEFAULTS = {}


def e_new(ex, st, n):
    raise Unsupported('new')


def install(ex):
    ex.construct_std = lambda st, t, callee, args, n: construct_std(ex, st, t, callee, args, n)
    ex.std_default = lambda st, tt: std_default(ex, st, tt)
    ex.global_models = {}
    R = re.compile

    def add(rx, h):
        ex.models.append((R(rx), h))
    for nm in ('log', 'std::log'):
        add(nm + '$', scalar_fn(em.f_log))
    for nm in ('exp', 'std::exp'):
        add(nm + '$', scalar_fn(em.f_exp))
    for nm in ('sqrt', 'std::sqrt'):
        add(nm + '$', scalar_fn(em.f_sqrt))
    for nm in ('fabs', 'std::abs', 'std::fabs', 'abs'):
        add(nm + '$', scalar_fn(em.f_abs))
    for nm in ('lgamma', 'std::lgamma'):
        add(nm + '$', scalar_fn(f_lgamma))
    for nm in ('pow', 'std::pow'):
        add(nm + '$', h_pow)
    add('std::max$', scalar_fn(f_max))
    add('std::min$', scalar_fn(f_min))
    add('__builtin_nanf?$', lambda ex, st, c, o, a, n: Num(NAN, 'R'))
    add('__builtin_(inff?|huge_val)$', lambda ex, st, c, o, a, n: Num(INF, 'R'))
    add(r'std::make_shared', h_make_shared)
    add(r'std::(static|dynamic|const)_pointer_cast', h_ptr_cast)
    add(r'std::(__shared_ptr_access|__shared_ptr|shared_ptr|unique_ptr)<', h_shared)
    add(r'std::vector<', h_vector)
    add(r'std::array<', h_vector)
    add(r'std::function<.*>::operator\(\)$', lambda ex, st, c, o, a, n: ex.call_value(st, ex.load(st, o), [ex.eval(st, x) for x in a], n))
    add(r'std::operator(==|!=)', h_ptr_cmp)
    import std_more
    std_more.install(ex, add)


def h_ptr_cmp(ex, st, callee, obj, argn, n):
    op = re.search(r'operator(==|!=)', callee['fn']).group(1)
    xs = [ex.rv(st, a) for a in argn]
    return ex.binop(st, op, xs[0], xs[1], n)
