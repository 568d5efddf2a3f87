"""Models of the Eigen operations used by the code under contract.

Each operation is given its documented mathematical meaning on matrices whose
entries are real (or integer) terms; Eigen itself is trusted to implement it.
Size requirements that Eigen only asserts in debug builds become obligations.
"""
import os, re
from terms import *
from prove import *
import prove
from symex import *
import symex

FAC = prove.FAC     # argmax symbols: name -> (body poly over am_, n poly, params tuple)


def nz(v):
    return v.const() is not None


def is_scalar(v):
    return isinstance(v, (Num, BoolV))


def numof(v):
    if isinstance(v, BoolV):
        return Num(v.p, 'I', v.d)
    return v


def const_mat(rows, cols, v, arr=False):
    return Mat(rows, cols, lambda st, i, j: v, arr=arr, s=v.s)


def mat_of_obj(ex, st, oid):
    mv = st.heap[oid]
    rows, cols = mv.rows, mv.cols

    def el(s, i, j):
        m = s.heap[oid]
        p, d = m.at(i, j)
        return Num(p, m.s, d)
    lv = LV(oid, lambda i, j: (i, j), lambda I, J: ONE, lambda I, J: (I, J), True)
    return Mat(rows, cols, el, lv=lv, s=mv.s)


def as_mat(ex, st, x):
    if isinstance(x, Mat):
        return x
    if isinstance(x, MatVal):
        o = ex.alloc(st, x)
        m = mat_of_obj(ex, st, o)
        return Mat(m.rows, m.cols, m.el, arr=m.arr, s=m.s)
    if isinstance(x, Ref):
        v = st.heap[x.oid]
        if isinstance(v, (Ref, Mat)):
            return as_mat(ex, st, v)
        if isinstance(v, MatVal):
            return mat_of_obj(ex, st, x.oid)
        if isinstance(v, Ptr):
            return as_mat(ex, st, Ref(v.oid))
    if isinstance(x, ArrElem):
        y = elem_obj(ex, st, x)
        return as_mat(ex, st, ex.load(st, x) if y is x else y)
    raise Unsupported('matrix expected, got %r' % (x,))


def elem_obj(ex, st, x):
    """the object behind an element of a std::vector or array of matrices that may be written"""
    if isinstance(x, ArrElem):
        a = st.heap[x.oid]
        if getattr(a, 'items', None) is not None and P(x.i).const() is not None:
            k = int(P(x.i).const())
            if 0 <= k < len(a.items) and isinstance(a.items[k], Ref):
                return a.items[k]
        if x.mut and getattr(a, 'mat', None) is not None:
            return ex.pin(st, x.oid, x.i)
    return x


def try_mat(ex, st, x):
    try:
        return as_mat(ex, st, x)
    except Unsupported:
        return None


def rng_ctx(st, *pairs):
    hy = []
    for v, n in pairs:
        hy += [ind_le(-v), ind_le(v - n + 1)]
    return st.ctx().extend(*hy)


def settle(st, v, *pairs, cap=None):
    """simplify a value under index ranges; discharge its definedness when possible"""
    cx = rng_ctx(st, *pairs) if pairs else st.ctx()
    p = simp(v.p, cx)
    d = v.d
    if d.const() != 1:
        d = simp(d, cx)
        if d.const() != 1 and cx.entails(d):
            d = ONE
        if len(d.t) > (cap or DCAP):
            # assert-then-assume: definedness becomes an obligation at this point
            s2 = st.clone()
            s2.pc = list(cx.hyps)
            s2._ctx = cx
            EX[0].oblige(s2, 'value is defined (no division by zero, log of a non-positive number or uninitialised read)',
                         'cond', d)
            d = ONE
    if isinstance(v, BoolV):
        return BoolV(p, d)
    return Num(p, v.s, d)


def materialize(ex, st, m, int_elem=None):
    v = numof(m.el(st, RI, CI))
    v = settle(st, v, (RI, m.rows), (CI, m.cols))
    return MatVal(m.rows, m.cols, v.p, v.d, int_elem or m.s)


def same_size(ex, st, a, b, n, what):
    for x, y in ((a.rows, b.rows), (a.cols, b.cols)):
        if x != y:
            ex.oblige(st, 'matrix sizes agree in ' + what, 'cond', ind_eq(x - y), n and n.get('l'))


def bounds(ex, st, i, n_, n, what):
    ex.oblige(st, 'index within bounds in ' + what, 'cond', ind_le(-i) * ind_le(i - n_ + 1), n and n.get('l'))


def store_view(ex, st, m, el, n=None):
    """m(i,j) := el(i,j) for all coefficients of view m (el gives Num)"""
    if m.lv is None:
        raise Unsupported('assignment to a read-only expression')
    o = m.lv.oid
    mv = st.heap[o]
    if m.lv.whole:
        v = settle(st, numof(el(st, RI, CI)), (RI, mv.rows), (CI, mv.cols))
        st.heap[o] = MatVal(mv.rows, mv.cols, v.p, v.d, mv.s)
        return
    mem = m.lv.mem(RI, CI)
    bi, bj = m.lv.back(RI, CI)
    v = numof(el(st, bi, bj))
    nv = Num(mem * v.p + (ONE - mem) * mv.p, mv.s, mem * v.d + (ONE - mem) * mv.d)
    nv = settle(st, nv, (RI, mv.rows), (CI, mv.cols), cap=24)
    st.heap[o] = MatVal(mv.rows, mv.cols, nv.p, nv.d, mv.s)


def store_elem(ex, st, er, v):
    m = er.mat
    if m.lv is None:
        raise Unsupported('store to read-only coefficient')
    o = m.lv.oid
    mv = st.heap[o]
    I, J = m.lv.fwd(er.i, er.j)
    e = ind_eq(RI - I) if mv.rows.const() != 1 else ONE
    if mv.cols.const() != 1:
        e = e * ind_eq(CI - J)
    v = numof(ex.load(st, v))
    if mv.s == 'I' and v.s == 'R':
        v = Num(v.p if v.p.is_int() else app('trunc', v.p, sort='I'), 'I', v.d)
    if v.d.const() != 1:
        v = settle(st, v)
    nv = Num(e * v.p + (ONE - e) * mv.p, mv.s, e * v.d + (ONE - e) * mv.d)
    nv = settle(st, nv, (RI, mv.rows), (CI, mv.cols), cap=24)
    st.heap[o] = MatVal(mv.rows, mv.cols, nv.p, nv.d, mv.s)


def view(m, rows, cols, fwd, mem, back, arr=None):
    """sub-view of m: fwd maps view indices to m indices"""
    def el(st, i, j):
        return m.el(st, *fwd(i, j))
    lv = None
    if m.lv is not None:
        L = m.lv

        def f2(i, j):
            return L.fwd(*fwd(i, j))

        def mem2(I, J):
            a, b = L.back(I, J)
            return L.mem(I, J) * mem(a, b)

        def back2(I, J):
            return back(*L.back(I, J))
        lv = LV(L.oid, f2, mem2, back2, False)
    return Mat(rows, cols, el, arr=m.arr if arr is None else arr, lv=lv, s=m.s, boolean=m.boolean)


def vcol(m, j):
    if m.cols.const() == 1:
        return view(m, m.rows, 1, lambda i, _: (i, ZERO), lambda I, J: ONE, lambda I, J: (I, ZERO))
    return view(m, m.rows, 1, lambda i, _: (i, j), lambda I, J: ind_eq(J - j), lambda I, J: (I, ZERO))


def vrow(m, i):
    if m.rows.const() == 1:
        return view(m, 1, m.cols, lambda _, j: (ZERO, j), lambda I, J: ONE, lambda I, J: (ZERO, J))
    return view(m, 1, m.cols, lambda _, j: (i, j), lambda I, J: ind_eq(I - i), lambda I, J: (ZERO, J))


def vseg(m, s, n):
    if m.cols.const() == 1:
        return view(m, n, 1, lambda i, j: (i + s, ZERO), lambda I, J: ind_le(s - I) * ind_le(I - s - n + 1),
                    lambda I, J: (I - s, ZERO))
    return view(m, 1, n, lambda i, j: (ZERO, j + s), lambda I, J: ind_le(s - J) * ind_le(J - s - n + 1),
                lambda I, J: (ZERO, J - s))


def vblock(m, r, c, nr, nc):
    return view(m, nr, nc, lambda i, j: (i + r, j + c),
                lambda I, J: ind_le(r - I) * ind_le(I - r - nr + 1) * ind_le(c - J) * ind_le(J - c - nc + 1),
                lambda I, J: (I - r, J - c))


def transpose(m):
    return view(m, m.cols, m.rows, lambda i, j: (j, i), lambda I, J: ONE, lambda I, J: (J, I))


def ew(ex, st, op, a, b, n):
    same_size(ex, st, a, b, n, 'coefficient-wise ' + op)
    boolean = op in ('<', '>', '<=', '>=', '==', '!=', '&&', '||')

    def el(s, i, j):
        return sop(ex, s, op, a.el(s, i, j), b.el(s, i, j))
    srt = 'I' if (a.s == 'I' and b.s == 'I') else 'R'
    return Mat(a.rows, a.cols, el, arr=a.arr, s='I' if boolean else srt, boolean=boolean)


def sop(ex, st, op, x, y):
    x, y = numof(x), numof(y)
    if op == '&&':
        return Num(x.p * y.p, 'I', x.d * y.d)
    if op == '||':
        return Num(x.p + (ONE - x.p) * y.p, 'I', x.d * y.d)
    r = ex.num_op(st, op, x, y)
    return numof(r)


def scal(ex, st, op, a, v, n, left=False):
    v = numof(v)
    boolean = op in ('<', '>', '<=', '>=', '==', '!=')

    def el(s, i, j):
        x = a.el(s, i, j)
        return sop(ex, s, op, v, x) if left else sop(ex, s, op, x, v)
    return Mat(a.rows, a.cols, el, arr=a.arr, s='I' if boolean else ('I' if a.s == 'I' and v.s == 'I' else 'R'), boolean=boolean)


def product(ex, st, a, b, n):
    if a.cols != b.rows:
        ex.oblige(st, 'inner dimensions agree in matrix product', 'cond', ind_eq(a.cols - b.rows), n and n.get('l'))

    if b.diag is not None or a.diag is not None:
        def el(s, i, j):
            if b.diag is not None:
                return sop(ex, s, '*', a.el(s, i, j), b.diag.el(s, j, ZERO))
            return sop(ex, s, '*', a.diag.el(s, i, ZERO), b.el(s, i, j))
        return Mat(a.rows, b.cols, el, s='R' if a.s == 'R' or b.s == 'R' else 'I')

    def el(s, i, j):
        k = fresh('s')
        x, y = a.el(s, i, k), b.el(s, k, j)
        p = mk_sum(varname(k), a.cols, x.p * y.p)
        d = ONE
        dd = x.d * y.d
        if dd.const() != 1:
            d = ind_forall(varname(k), a.cols, dd)
        return Num(p, 'R' if a.s == 'R' or b.s == 'R' else 'I', d)
    return Mat(a.rows, b.cols, el, s='R' if a.s == 'R' or b.s == 'R' else 'I')


def reduce_sum(ex, st, m):
    i, j = fresh('s'), fresh('s')
    v = numof(m.el(st, i, j))
    cx = rng_ctx(st, (i, m.rows), (j, m.cols))
    vp = simp(v.p, cx)
    p = mk_sum(varname(i), m.rows, mk_sum(varname(j), m.cols, vp))
    d = v.d
    if d.const() != 1:
        d = simp(d, cx)
        if d.const() != 1:
            d = ind_forall(varname(i), m.rows, ind_forall(varname(j), m.cols, d))
    return Num(p, 'I' if p.is_int() and m.s == 'I' else m.s, d)


def argmax(body, var, n, minimum=False):
    """index of the first largest entry of body over var in [0,n)"""
    b = subst(body, {var: V('am_')})
    if minimum:
        b = -b
    import hashlib
    key = b.key + '|' + n.key
    ps = sorted((b.fv | n.fv) - {'am_'}, key=lambda x: (re.search(r'(?<![\w!])' + re.escape(x) + r'(?![\w!])', key) or re.search('$', key)).start())
    # the name of the function does not depend on the names of its parameters
    mp = {x: V('$%d' % k, var_sort(b, x) or var_sort(n, x) or 'I') for k, x in enumerate(ps)}
    h = hashlib.sha256((subst(b, mp).key + '|' + subst(n, mp).key).encode()).hexdigest()[:10]
    f = 'argmax_' + h
    FAC[f] = (b, n, tuple(ps))
    args = []
    for x in ps:
        # sorts of the free variables
        srt = var_sort(b, x) or var_sort(n, x) or 'I'
        args.append(V(x, srt))
    return app(f, *args, sort='I')


MAXV = {}


def maxval(body, v1, n1, v2, n2, minimum=False):
    """largest entry of a matrix (a function of the free variables of its entries)"""
    import hashlib
    b = subst(body, {v1: V('am_'), v2: V('an_')})
    if minimum:
        b = -b
    ps = sorted((b.fv | n1.fv | n2.fv) - {'am_', 'an_'})
    f = 'maxval_' + hashlib.sha256((b.key + '|' + n1.key + '|' + n2.key).encode()).hexdigest()[:10]
    MAXV[f] = (b, n1, n2, tuple(ps))
    args = [V(x, var_sort(b, x) or var_sort(n1, x) or var_sort(n2, x) or 'I') for x in ps]
    r = app(f, *args)
    return -r if minimum else r


def max_value(ex, st, m):
    return maxval(m.p, 'ri_', m.rows, 'ci_', m.cols)


def var_sort(p, name):
    c = collect(p, lambda a: a.kind == 'v' and a.data[0] == name)
    for a in c.values():
        return a.sort
    return None


def argmax_facts(atom, at=()):
    """facts about an argmax atom: range, and domination at the given indices"""
    b, n, ps = FAC[atom.data[0]]
    mp = dict(zip(ps, atom.data[1]))
    am = P(atom)
    n2 = subst(n, mp)
    out = [ind_le(-am), ind_le(am - n2 + 1)]
    bm = subst(b, dict(mp, am_=am))
    for i in at:
        bi = subst(b, dict(mp, am_=i))
        out.append(ind_le(bi - bm))
    return out


def fval(name, m):
    """value of a pure function of a whole matrix: its entries are an argument over the bound indices bi_, bj_"""
    symex.GHOSTS.add(name)
    return app(name, m.rows, m.cols, subst(m.p, {'ri_': V('bi_'), 'ci_': V('bj_')}))


def plain_dims(t):
    m = re.search(r'(?:Matrix|Array)<[^,<>]+, (-?\d+), (-?\d+)', t)
    if not m:
        raise Unsupported('dims of ' + t[:80])
    return int(m.group(1)), int(m.group(2))


def ivals(ex, st, argn):
    return [ex.rv(st, a) for a in argn]


def h_eigen(ex, st, callee, obj, argn, n):
    fn = callee['fn']
    name = base_name(fn)
    name = re.sub(r'<.*>$', '', name) if not name.startswith('operator') else name
    opname = name[8:].strip() if name.startswith('operator') else None
    if name == 'operator()' or name == 'operator[]':
        m = as_mat(ex, st, obj)
        iv = ivals(ex, st, argn)
        if len(iv) == 2:
            i, j = iv[0].p, iv[1].p
            bounds(ex, st, i, m.rows, n, 'operator()')
            bounds(ex, st, j, m.cols, n, 'operator()')
            return ElemRef(m, i, j)
        i = iv[0].p
        if m.cols.const() == 1:
            bounds(ex, st, i, m.rows, n, 'coefficient access')
            return ElemRef(m, i, ZERO)
        if m.rows.const() == 1:
            bounds(ex, st, i, m.cols, n, 'coefficient access')
            return ElemRef(m, ZERO, i)
        # column-major linear index
        q, r = app('idiv', i, m.rows, sort='I'), app('imod', i, m.rows, sort='I')
        bounds(ex, st, i, m.rows * m.cols, n, 'linear coefficient access')
        return ElemRef(m, r, q)
    if opname and 'VectorwiseOp' in fn:
        return vw_op(ex, st, opname, ex.load(st, obj), argn, n)
    if opname is not None:
        ops = ([obj] if obj is not None else []) + [ex.eval(st, a) for a in argn]
        if opname in ('=', '+=', '-=', '*=', '/='):
            return assign(ex, st, opname, ops[0], ops[1], fn, n)
        if len(ops) == 1:
            if opname == '-':
                m = as_mat(ex, st, ops[0])
                return m.like(lambda s, i, j: Num(-m.el(s, i, j).p, m.s, m.el(s, i, j).d))
            if opname == '!':
                m = as_mat(ex, st, ops[0])
                return m.like(lambda s, i, j: Num(ONE - m.el(s, i, j).p, 'I', m.el(s, i, j).d), boolean=True)
            # conversion operator (inner product to scalar)
            m = try_mat(ex, st, ops[0])
            if m is not None and not opname[0] in '<>=+-*/&|^~':
                return m.el(st, ZERO, ZERO)
            raise Unsupported('Eigen unary ' + opname)
        return eig_binop(ex, st, opname, ops[0], ops[1], n, fn)
    f = METH.get(name)
    if f is None:
        raise Unsupported('Eigen function ' + fn[:140])
    return f(ex, st, callee, obj, argn, n)


def eig_binop(ex, st, op, x, y, n, fn=''):
    a = try_mat(ex, st, x)
    b = try_mat(ex, st, y)
    if a is not None and b is not None:
        if op == '*' and not a.arr and not b.arr and 'ArrayBase' not in fn:
            return product(ex, st, a, b, n)
        if a.arr != b.arr and op in '+-' and False:
            raise Unsupported('mixing array and matrix')
        if op == '==' and not a.arr:
            k, l = fresh('q'), fresh('q')
            va, vb = a.el(st, k, l), b.el(st, k, l)
            c = ind_forall(varname(k), a.rows, ind_forall(varname(l), a.cols, ind_eq(va.p - vb.p)))
            return BoolV(c, ONE)
        return ew(ex, st, op, a, b, n)
    if a is not None:
        v = ex.load(st, y)
        if is_scalar(v):
            return scal(ex, st, op, a, v, n)
    if b is not None:
        v = ex.load(st, x)
        if is_scalar(v):
            return scal(ex, st, op, b, v, n, left=True)
    raise Unsupported('Eigen operator %s on %r, %r' % (op, x, y))


def assign(ex, st, op, x, y, fn, n):
    if isinstance(x, ArrElem) and st.heap[x.oid].items is not None and P(x.i).const() is not None:
        it = st.heap[x.oid].items[int(P(x.i).const())]
        if isinstance(it, Ref):
            x = it
    if isinstance(x, ArrElem) and getattr(st.heap[x.oid], 'mat', None) is not None:
        # an element of a std::vector of matrices: an object of its own from here on
        x = ex.pin(st, x.oid, x.i)
    isobj = isinstance(x, Ref) and isinstance(deep(st, x), MatVal)
    dst = as_mat(ex, st, x)
    src = try_mat(ex, st, y)
    if src is None:
        v = ex.load(st, y)
        if not is_scalar(v):
            raise Unsupported('assign %r to matrix' % (v,))
        v = numof(v)
        if op == '=':
            store_view(ex, st, dst, lambda s, i, j: v, n)
        else:
            store_view(ex, st, dst, lambda s, i, j: sop(ex, s, op[0], dst.el(s, i, j), v), n)
        return x
    if op == '=':
        if isobj and fn.startswith(('Eigen::Matrix<', 'Eigen::NoAlias<Eigen::Matrix<')):
            o = deep_ref(st, x).oid
            old = st.heap[o]
            fixed = plain_fixed(fn)
            nv = materialize(ex, st, src, old.s)
            st.heap[o] = nv
            return x
        same_size(ex, st, dst, src, n, 'assignment')
        store_view(ex, st, dst, lambda s, i, j: src.el(s, i, j), n)
        return x
    if op == '*=' and not dst.arr and not src.arr and 'ArrayBase' not in fn:
        src2 = product(ex, st, dst, src, n)
        store_view(ex, st, dst, lambda s, i, j: src2.el(s, i, j), n)
        return x
    same_size(ex, st, dst, src, n, op)
    store_view(ex, st, dst, lambda s, i, j: sop(ex, s, op[0], dst.el(s, i, j), src.el(s, i, j)), n)
    return x


def plain_fixed(fn):
    return False


def deep(st, x):
    while isinstance(x, Ref):
        x = st.heap[x.oid]
    return x


def deep_ref(st, x):
    while isinstance(st.heap[x.oid], Ref):
        x = st.heap[x.oid]
    return x


def vw_op(ex, st, op, vw, argn, n):
    if not isinstance(vw, VW):
        raise Unsupported('vectorwise on %r' % (vw,))
    m = vw.m
    v = as_mat(ex, st, ex.eval(st, argn[0]))
    o = op[0] if op != '=' else '='
    if vw.dim == 'col':     # v is a column vector applied to every column
        ex.oblige(st, 'vector length agrees in colwise()', 'cond', ind_eq(v.rows - m.rows) * ind_eq(v.cols - 1), n.get('l'))
        at = lambda s, i, j: v.el(s, i, ZERO)
    else:
        ex.oblige(st, 'vector length agrees in rowwise()', 'cond', ind_eq(v.cols - m.cols) * ind_eq(v.rows - 1), n.get('l'))
        at = lambda s, i, j: v.el(s, ZERO, j)
    if op in ('+', '-', '*', '/'):
        return Mat(m.rows, m.cols, lambda s, i, j: sop(ex, s, op, m.el(s, i, j), at(s, i, j)), arr=m.arr, s='R' if 'R' in (m.s, v.s) else 'I')
    if op in ('+=', '-=', '*=', '/='):
        store_view(ex, st, m, lambda s, i, j: sop(ex, s, o, m.el(s, i, j), at(s, i, j)), n)
        return vw
    if op == '=':
        store_view(ex, st, m, lambda s, i, j: at(s, i, j), n)
        return vw
    raise Unsupported('vectorwise ' + op)


METH = {}


def meth(*names):
    def w(f):
        for x in names:
            METH[x] = f
        return f
    return w


@meth('rows')
def _(ex, st, c, obj, argn, n):
    return Num(as_mat(ex, st, obj).rows, 'I')


@meth('cols')
def _(ex, st, c, obj, argn, n):
    return Num(as_mat(ex, st, obj).cols, 'I')


@meth('size')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    return Num(m.rows * m.cols, 'I')


@meth('array')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    return Mat(m.rows, m.cols, m.el, True, m.lv, m.s, boolean=m.boolean)


@meth('matrix', 'eval', 'noalias', 'derived', 'nestByValue')
def _(ex, st, c, obj, argn, n):
    nm = base_name(c['fn'])
    if nm == 'noalias':
        # assigning to it may change the size of a matrix object
        obj = elem_obj(ex, st, obj)
        if isinstance(obj, Ref) and isinstance(deep(st, obj), MatVal):
            return obj
    m = as_mat(ex, st, obj)
    if nm == 'eval':
        return materialize(ex, st, m)
    return Mat(m.rows, m.cols, m.el, False if nm == 'matrix' else m.arr, m.lv, m.s, boolean=m.boolean)


@meth('transpose', 'adjoint')
def _(ex, st, c, obj, argn, n):
    return transpose(as_mat(ex, st, obj))


@meth('col')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    j = ex.rv(st, argn[0]).p
    bounds(ex, st, j, m.cols, n, 'col()')
    return vcol(m, j)


@meth('row')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    i = ex.rv(st, argn[0]).p
    bounds(ex, st, i, m.rows, n, 'row()')
    return vrow(m, i)


@meth('segment')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    s, k = [x.p for x in ivals(ex, st, argn)]
    tot = m.rows if m.cols.const() == 1 else m.cols
    ex.oblige(st, 'segment within bounds', 'cond', ind_le(-s) * ind_le(-k) * ind_le(s + k - tot), n.get('l'))
    return vseg(m, s, k)


@meth('head')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    k = ex.rv(st, argn[0]).p
    tot = m.rows if m.cols.const() == 1 else m.cols
    ex.oblige(st, 'head within bounds', 'cond', ind_le(-k) * ind_le(k - tot), n.get('l'))
    return vseg(m, ZERO, k)


@meth('tail')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    k = ex.rv(st, argn[0]).p
    tot = m.rows if m.cols.const() == 1 else m.cols
    ex.oblige(st, 'tail within bounds', 'cond', ind_le(-k) * ind_le(k - tot), n.get('l'))
    return vseg(m, tot - k, k)


def _blk(ex, st, m, r, c, nr, nc, n):
    ex.oblige(st, 'block within bounds', 'cond', ind_le(-r) * ind_le(-c) * ind_le(r + nr - m.rows) * ind_le(c + nc - m.cols) *
              ind_le(-nr) * ind_le(-nc), n.get('l'))
    return vblock(m, r, c, nr, nc)


@meth('block')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    r, cc, nr, nc = [x.p for x in ivals(ex, st, argn)]
    return _blk(ex, st, m, r, cc, nr, nc, n)


@meth('leftCols')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    return _blk(ex, st, m, ZERO, ZERO, m.rows, ex.rv(st, argn[0]).p, n)


@meth('rightCols')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    k = ex.rv(st, argn[0]).p
    return _blk(ex, st, m, ZERO, m.cols - k, m.rows, k, n)


@meth('topRows')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    return _blk(ex, st, m, ZERO, ZERO, ex.rv(st, argn[0]).p, m.cols, n)


@meth('sum')
def _(ex, st, c, obj, argn, n):
    v = ex.load(st, obj) if not isinstance(obj, Mat) else obj
    if isinstance(v, VW):
        m = v.m
        if v.dim == 'row':
            def el(s, i, j):
                k = fresh('s')
                x = numof(m.el(s, i, k))
                d = ONE if x.d.const() == 1 else ind_forall(varname(k), m.cols, x.d)
                return Num(mk_sum(varname(k), m.cols, x.p), m.s, d)
            return Mat(m.rows, 1, el, arr=m.arr, s=m.s)

        def el(s, i, j):
            k = fresh('s')
            x = numof(m.el(s, k, j))
            d = ONE if x.d.const() == 1 else ind_forall(varname(k), m.rows, x.d)
            return Num(mk_sum(varname(k), m.rows, x.p), m.s, d)
        return Mat(1, m.cols, el, arr=m.arr, s=m.s)
    return reduce_sum(ex, st, as_mat(ex, st, obj))


@meth('mean')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    v = reduce_sum(ex, st, m)
    return ex.num_op(st, '/', Num(v.p, 'R', v.d), Num(m.rows * m.cols, 'R'))


@meth('count')
def _(ex, st, c, obj, argn, n):
    return reduce_sum(ex, st, as_mat(ex, st, obj))


@meth('any')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    i, j = fresh('q'), fresh('q')
    v = numof(m.el(st, i, j))
    return BoolV(ONE - ind_forall(varname(i), m.rows, ind_forall(varname(j), m.cols, ONE - v.p)))


@meth('all')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    i, j = fresh('q'), fresh('q')
    v = numof(m.el(st, i, j))
    return BoolV(ind_forall(varname(i), m.rows, ind_forall(varname(j), m.cols, v.p)))


@meth('squaredNorm')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    return reduce_sum(ex, st, m.like(lambda s, i, j: sop(ex, s, '*', m.el(s, i, j), m.el(s, i, j))))


@meth('norm')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    v = reduce_sum(ex, st, m.like(lambda s, i, j: sop(ex, s, '*', m.el(s, i, j), m.el(s, i, j))))
    return Num(app('sqrt', v.p), 'R', v.d)


@meth('lpNorm')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    ta = c.get('ta') or ''
    mm = re.search(r'(-?\d+)', ta) or re.search(r'lpNorm<\s*(-?\d+)', c['fn'])
    if not mm:
        raise Unsupported('lpNorm order ' + ta)
    k = int(mm.group(1))
    if k == 1:
        return reduce_sum(ex, st, m.like(lambda s, i, j: f_abs(m.el(s, i, j))))
    if k == 2:
        return METH['norm'](ex, st, c, obj, argn, n)
    if k == -1:
        mv = materialize(ex, st, m)
        return Num(fval('norm_inf', mv), 'R', mv.d if mv.d.const() is not None else ZERO)
    raise Unsupported('lpNorm')


@meth('dot')
def _(ex, st, c, obj, argn, n):
    a = as_mat(ex, st, obj)
    b = as_mat(ex, st, ex.eval(st, argn[0]))
    if a.cols.const() != 1:
        a = transpose(a)
    if b.cols.const() != 1:
        b = transpose(b)
    same_size(ex, st, a, b, n, 'dot')
    return reduce_sum(ex, st, Mat(a.rows, 1, lambda s, i, j: sop(ex, s, '*', a.el(s, i, j), b.el(s, i, j))))


@meth('value')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    ex.oblige(st, 'value() of a 1x1 expression', 'cond', ind_eq(m.rows - 1) * ind_eq(m.cols - 1), n.get('l'))
    return m.el(st, ZERO, ZERO)


@meth('cwiseProduct')
def _(ex, st, c, obj, argn, n):
    return ew(ex, st, '*', as_mat(ex, st, obj), as_mat(ex, st, ex.eval(st, argn[0])), n)


@meth('asDiagonal')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    v = m if m.cols.const() == 1 else transpose(m)
    r = Mat(v.rows, v.rows, lambda s, i, j: Num(ind_eq(i - j) * numof(v.el(s, i, ZERO)).p, v.s, numof(v.el(s, i, ZERO)).d), s=v.s)
    r.diag = v
    return r


def _minmax(sign):
    def h(ex, st, c, obj, argn, n):
        m = as_mat(ex, st, obj)
        y = ex.eval(st, argn[0])
        b = try_mat(ex, st, y)
        if b is None:
            v = numof(ex.load(st, y))
            b = Mat(m.rows, m.cols, lambda s, i, j: v, s=v.s)
        else:
            same_size(ex, st, m, b, n, 'coefficient-wise min/max')

        def el(s, i, j):
            x, y = numof(m.el(s, i, j)), numof(b.el(s, i, j))
            less = ind_le(x.p - y.p)        # x <= y
            return Num(y.p + less * (x.p - y.p) if sign < 0 else x.p + less * (y.p - x.p), 'I' if (x.s, y.s) == ('I', 'I') else 'R', x.d * y.d)
        return m.like(el, s='I' if (m.s, b.s) == ('I', 'I') else 'R')
    return h


METH['cwiseMin'] = METH['min'] = _minmax(-1)
METH['cwiseMax'] = METH['max'] = _minmax(1)


@meth('transposeInPlace')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    v = materialize(ex, st, transpose(m))
    if m.lv is None or not m.lv.whole:
        raise Unsupported('transposeInPlace of a view')
    st.heap[m.lv.oid] = v
    return VOID


@meth('prod')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    i, j = fresh('s'), fresh('s')
    v = numof(m.el(st, i, j))
    cx = rng_ctx(st, (i, m.rows), (j, m.cols))
    p = mk_prod(varname(i), m.rows, mk_prod(varname(j), m.cols, simp(v.p, cx)))
    d = ONE if v.d.const() == 1 else ind_forall(varname(i), m.rows, ind_forall(varname(j), m.cols, v.d))
    return Num(p, v.s, d)


@meth('cwiseQuotient')
def _(ex, st, c, obj, argn, n):
    return ew(ex, st, '/', as_mat(ex, st, obj), as_mat(ex, st, ex.eval(st, argn[0])), n)


def f_abs(v):
    return Num(tabs(v.p), v.s, v.d)


def f_log(v):
    return Num(tlog(v.p), 'R', v.d * (ONE - ind_le(v.p)))


def f_exp(v):
    return Num(texp(v.p), 'R', v.d)


def f_sqrt(v):
    return Num(app('sqrt', v.p), 'R', v.d * ind_le(-v.p))


def f_square(v):
    return Num(v.p * v.p, v.s, v.d)


def f_inverse(v):
    return Num(inv(v.p), 'R', v.d * (ONE - ind_eq(v.p)))


for _nm, _f in (('abs', f_abs), ('cwiseAbs', f_abs), ('log', f_log), ('exp', f_exp), ('sqrt', f_sqrt),
                ('square', f_square), ('inverse', f_inverse), ('cwiseInverse', f_inverse), ('abs2', f_square), ('cwiseAbs2', f_square)):
    def _mk1(f):
        def h(ex, st, c, obj, argn, n):
            m = as_mat(ex, st, obj)
            return m.like(lambda s, i, j: f(numof(m.el(s, i, j))), s='R')
        return h
    METH[_nm] = _mk1(_f)


@meth('cast')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    t = n['t']
    q = re.search(r'scalar_cast_op<[^,]+, ([a-z ]+)', t)
    s = 'I' if (q.group(1) if q else c.get('ta') or t).strip().startswith(('int', 'long', 'unsigned', 'short', 'bool')) else 'R'
    if s == 'R' or m.s == 'I':
        return Mat(m.rows, m.cols, lambda s_, i, j: Num(numof(m.el(s_, i, j)).p, s, numof(m.el(s_, i, j)).d), arr=m.arr, s=s)
    return Mat(m.rows, m.cols, lambda s_, i, j: Num(app('trunc', m.el(s_, i, j).p, sort='I'), 'I', m.el(s_, i, j).d), arr=m.arr, s='I')


@meth('unaryExpr')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    f = ex.rv(st, argn[0])

    def el(s, i, j):
        ex.quiet += 1
        try:
            v = ex.pure_call(s, f, [m.el(s, i, j)])
        finally:
            ex.quiet -= 1
        return numof(ex.load(s, v))
    return m.like(el, s='R')


@meth('binaryExpr')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    b = as_mat(ex, st, ex.eval(st, argn[0]))
    f = ex.rv(st, argn[1])
    same_size(ex, st, m, b, n, 'binaryExpr')

    def el(s, i, j):
        ex.quiet += 1
        try:
            v = ex.pure_call(s, f, [m.el(s, i, j), b.el(s, i, j)])
        finally:
            ex.quiet -= 1
        return numof(ex.load(s, v))
    return m.like(el, s='R')


@meth('select')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    xs = []
    for a in argn:
        x = ex.eval(st, a)
        mm = try_mat(ex, st, x)
        if mm is None:
            v = numof(ex.load(st, x))
            mm = const_mat(m.rows, m.cols, v)
        xs.append(mm)
    a, b = xs

    def el(s, i, j):
        cnd = numof(m.el(s, i, j))
        x, y = numof(a.el(s, i, j)), numof(b.el(s, i, j))
        return Num(cnd.p * x.p + (ONE - cnd.p) * y.p, x.s, cnd.d * (cnd.p * x.d + (ONE - cnd.p) * y.d))
    return Mat(m.rows, m.cols, el, arr=m.arr, s=a.s)


@meth('rowwise')
def _(ex, st, c, obj, argn, n):
    return VW(as_mat(ex, st, obj), 'row')


@meth('colwise')
def _(ex, st, c, obj, argn, n):
    return VW(as_mat(ex, st, obj), 'col')


@meth('diagonal')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    ex.oblige(st, 'diagonal of a square matrix', 'cond', ind_eq(m.rows - m.cols), n.get('l'))
    return Mat(m.rows, 1, lambda s, i, j: m.el(s, i, i), s=m.s)


@meth('trace')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    return reduce_sum(ex, st, Mat(m.rows, 1, lambda s, i, j: m.el(s, i, i), s=m.s))


@meth('fill', 'setConstant')
def _(ex, st, c, obj, argn, n):
    v = numof(ex.rv(st, argn[-1]))
    if len(argn) > 1:
        METH['resize'](ex, st, c, obj, argn[:-1], n)
    m = as_mat(ex, st, obj)
    store_view(ex, st, m, lambda s, i, j: v, n)
    return obj


def _setv(val):
    def h(ex, st, c, obj, argn, n):
        if argn:
            METH['resize'](ex, st, c, obj, argn, n)
        m = as_mat(ex, st, obj)
        store_view(ex, st, m, lambda s, i, j: Num(val, m.s), n)
        return obj
    return h


METH['setZero'] = _setv(0)
METH['setOnes'] = _setv(1)


def uninit(st, rows, cols, s):
    return MatVal(rows, cols, app('uninit%d' % next(symex._oid), RI, CI, sort=s), ZERO, s)


def _shape(ex, st, c, iv, fn, old=None):
    """(rows, cols) from constructor-like arguments for the plain type in fn"""
    if len(iv) == 2:
        return iv[0].p, iv[1].p
    r, cc = plain_dims(fn)
    if len(iv) == 1:
        if cc == 1:
            return iv[0].p, ONE
        if r == 1:
            return ONE, iv[0].p
        raise Unsupported('one dimension for a matrix')
    if r < 0 or cc < 0:
        raise Unsupported('dims')
    return P(r), P(cc)


@meth('resize')
def _(ex, st, c, obj, argn, n):
    iv = ivals(ex, st, argn)
    r, cc = _shape(ex, st, c, iv, c['fn'])
    x = deep_ref(st, obj)
    old = st.heap[x.oid]
    if isinstance(old, Mat):
        ex.oblige(st, 'resize of a Ref keeps its size', 'cond', ind_eq(old.rows - r) * ind_eq(old.cols - cc), n.get('l'))
        return VOID
    if old.rows == r and old.cols == cc:
        return VOID
    st.heap[x.oid] = uninit(st, r, cc, old.s)
    return VOID


@meth('conservativeResize')
def _(ex, st, c, obj, argn, n):
    iv = ivals(ex, st, argn)
    r, cc = _shape(ex, st, c, iv, c['fn'])
    x = deep_ref(st, obj)
    old = st.heap[x.oid]
    if old.rows == r and old.cols == cc:
        return VOID
    u = uninit(st, r, cc, old.s)
    keep = ONE
    if old.rows != r:
        keep = keep * ind_le(RI - old.rows + 1)
    if old.cols != cc:
        keep = keep * ind_le(CI - old.cols + 1)
    nv = Num(keep * old.p + (ONE - keep) * u.p, old.s, keep * old.d)
    nv = settle(st, nv, (RI, r), (CI, cc))
    st.heap[x.oid] = MatVal(r, cc, nv.p, nv.d, old.s)
    return VOID


def _nullary(val):
    def h(ex, st, c, obj, argn, n):
        iv = ivals(ex, st, argn)
        if val is None:
            v = iv[-1]
            iv = iv[:-1]
        else:
            v = None
        t = c['fn']
        m = re.search(r'(?:Matrix|Array)<([^,<>]+), (-?\d+), (-?\d+)', t)
        s = 'I' if m and m.group(1) in INT_TYPES else 'R'
        r, cc = _shape(ex, st, c, iv, t)
        if v is None:
            v = Num(val, s)
        else:
            v = Num(v.p, s, v.d)
        return Mat(r, cc, lambda s_, i, j: v, s=s, arr='Array<' in t)
    return h


METH['Zero'] = _nullary(0)
METH['Ones'] = _nullary(1)
METH['Constant'] = _nullary(None)


@meth('Identity')
def _(ex, st, c, obj, argn, n):
    r, cc = _shape(ex, st, c, ivals(ex, st, argn), c['fn'])
    return Mat(r, cc, lambda s, i, j: Num(ind_eq(i - j), 'R'))


@meth('maxCoeff', 'minCoeff')
def _(ex, st, c, obj, argn, n):
    m = as_mat(ex, st, obj)
    mn = base_name(c['fn']).startswith('min')
    if m.cols.const() == 1:
        k = fresh('q')
        v = numof(m.el(st, k, ZERO))
        nn = m.rows
    elif m.rows.const() == 1:
        k = fresh('q')
        v = numof(m.el(st, ZERO, k))
        nn = m.cols
    else:
        if argn:
            raise Unsupported('index of matrix maximum')
        ex.oblige(st, 'maxCoeff of a non-empty matrix', 'cond', ind_le(ONE - m.rows) * ind_le(ONE - m.cols), n.get('l'))
        k, l = fresh('q'), fresh('q')
        v = numof(m.el(st, k, l))
        body = simp(v.p, rng_ctx(st, (k, m.rows), (l, m.cols)))
        return Num(maxval(body, varname(k), m.rows, varname(l), m.cols, mn), m.s, v.d)
    ex.oblige(st, 'maxCoeff of a non-empty vector', 'cond', ind_le(ONE - nn), n.get('l'))
    body = simp(v.p, rng_ctx(st, (k, nn)))
    am = argmax(body, varname(k), nn, mn)
    st.assume(ind_le(-am) * ind_le(am - nn + 1))
    if argn:
        x = ex.eval(st, argn[0])
        x = ex.load(st, x) if isinstance(x, Ref) and isinstance(ex.load(st, x), Ptr) else x
        tgt = Ref(x.oid) if isinstance(x, Ptr) else x
        ex.store(st, tgt, Num(am, 'I'))
    if body.const() is not None:
        val = body
    else:
        val = subst(body, {varname(k): am})
    dd = ONE if v.d.const() == 1 else ind_forall(varname(k), nn, v.d)
    return Num(val, m.s, dd)


@meth('swap')
def _(ex, st, c, obj, argn, n):
    a = as_mat(ex, st, obj)
    b = as_mat(ex, st, ex.eval(st, argn[0]))
    va = materialize(ex, st, a)
    vb = materialize(ex, st, b)
    store_view(ex, st, a, lambda s, i, j: Num(*_pv(vb, i, j)), n)
    store_view(ex, st, b, lambda s, i, j: Num(*_pv(va, i, j)), n)
    return VOID


def _pv(mv, i, j):
    p, d = mv.at(i, j)
    return p, mv.s, d


def map_vector(ex, st, t, v, n):
    """the elements of an array read as a vector (not written through)"""
    r, c = plain_dims(t)
    if 'Stride<' in t and 'Stride<0, 0>' not in t or len(v) != 2 or not isinstance(v[0], EPtr) or not isinstance(v[1], Num) or 1 not in (r, c) or not isinstance(st.heap.get(v[0].oid), Arr):
        raise Unsupported('Eigen::Map')
    oid, off, size = v[0].oid, v[0].i, v[1].p
    ex.oblige(st, 'mapped elements within the array', 'cond', ind_le(-size) * ind_le(-off) * ind_le(off + size - st.heap[oid].size), n.get('l'))

    def el(s, i, j):
        return numof(ex.load(s, ArrElem(oid, off + (i if c == 1 else j))))
    return Mat(size if c == 1 else ONE, ONE if c == 1 else size, el, s=ex.elem_sort(t))


def construct_eigen(ex, st, t, callee, args, n):
    """CXXConstructExpr of an Eigen type"""
    if t.startswith('Eigen::Ref<') or t.startswith('Eigen::Map<') or t.startswith('Eigen::ArrayWrapper') or \
            t.startswith('Eigen::MatrixWrapper') or t.startswith('Eigen::Block') or t.startswith('Eigen::CwiseBinaryOp') or \
            t.startswith('Eigen::CwiseUnaryOp') or t.startswith('Eigen::Transpose') or t.startswith('Eigen::Product') or \
            t.startswith('Eigen::CwiseNullaryOp') or t.startswith('Eigen::PartialReduxExpr') or t.startswith('Eigen::VectorBlock'):
        if t.startswith('Eigen::Map<'):
            return map_vector(ex, st, t, [ex.rv(st, a) for a in args[:2]], n)
        x = ex.eval(st, args[0])
        if t.startswith('Eigen::Ref<') and not t.startswith('Eigen::Ref<const'):
            m = as_mat(ex, st, x)
            return m
        return as_mat(ex, st, x)
    if t.startswith('Eigen::VectorwiseOp'):
        return ex.rv(st, args[0])
    if t.startswith(('Eigen::Matrix<', 'Eigen::Array<')):
        s = ex.elem_sort(t)
        arr = t.startswith('Eigen::Array<')
        if not args:
            return ex.default_mat(t)
        vals = [ex.eval(st, a) for a in args]
        m = try_mat(ex, st, vals[0]) if len(vals) == 1 else None
        if m is not None:
            return materialize(ex, st, m, s)
        iv = [ex.load(st, v) for v in vals]
        if all(is_scalar(v) for v in iv) and len(iv) <= 2:
            r, c = _shape(ex, st, callee, iv, t)
            for x in (r, c):
                if x.const() is None:
                    ex.oblige(st, 'non-negative matrix size', 'cond', ind_le(-x), n.get('l'))
            return uninit(st, r, c, s)
        raise Unsupported('construct ' + t[:60])
    raise Unsupported('construct ' + t[:100])


DCAP = 3
EX = [None]


def install(ex):
    EX[0] = ex
    ex.as_mat = lambda st, x: as_mat(ex, st, x)
    ex.materialize = lambda st, m, int_elem=None: materialize(ex, st, m, int_elem)
    ex.store_elem = lambda st, er, v: store_elem(ex, st, er, v)

    def bx(st, op, x, y, n):
        if isinstance(x, (Mat, MatVal)) or isinstance(y, (Mat, MatVal)):
            return eig_binop(ex, st, op, x, y, n)
        return None
    ex.binop_ext = bx
    ex.models.append((re.compile(r'Eigen::'), h_eigen))
