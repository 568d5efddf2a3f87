from checklib import *
import conf
INST = VERIF + '/harness/inst.cpp'


def mk_norm(which):
    def unit(u):
        R, C = u.size('R', 0), u.size('C', 0)
        m = u.mat('m', R, C)
        f = u.fn(MU + 'normalize_' + which)
        mm = lambda r, c: app('m', r, c)
        for st, k, v in u.run(f, None, [Ref(m)]):
            def spec(r, c):
                i = fresh('i')
                s = mk_sum(varname(i), R, mm(i, c)) if which == 'cols' else mk_sum(varname(i), C, mm(r, i))
                z = ind_eq(s)
                return z * mm(r, c) + (ONE - z) * mm(r, c) * inv(s)
            u.eq_mat(st, 'every %s divided by its own non-zero sum' % which[:-1], st.heap[m], R, C, spec)
    return unit


def mk_sum_scaled(which):
    def unit(u):
        R, C = u.size('R', 0), u.size('C', 0)
        n, o = (R, C) if which == 'rows' else (C, R)
        x = u.mat('x', R, C)
        y = u.mat('y', n, ONE)
        r = u.ex.alloc(u.st, MatVal(*((ONE, o) if which == 'rows' else (o, ONE)), app('r', CI if which == 'rows' else RI)))
        f = u.fn(MU + 'sum_%s_scaled' % which, pred=lambda f: 'double' in (f.get('ta') or f['fn']))
        for st, k, v in u.run(f, None, [Ref(x), Ref(y), Ref(r)]):
            i = fresh('i')
            if which == 'rows':
                u.eq_mat(st, 'output row plus weighted rows', st.heap[r], ONE, C,
                         lambda a, b: app('r', b) + mk_sum(varname(i), R, app('y', i) * app('x', i, b)))
            else:
                u.eq_mat(st, 'output column plus weighted columns', st.heap[r], R, ONE,
                         lambda a, b: app('r', a) + mk_sum(varname(i), C, app('y', i) * app('x', a, i)))
            u.same(st, 'matrix', x)
            u.same(st, 'weights', y)
    return unit


def prod_nz(u):
    R, C = u.size('R', 0), u.size('C', 0)
    x = u.mat('x', R, C)
    f = u.fn(MU + 'product_of_nonzeros')
    for st, k, v in u.run(f, None, [Ref(x)]):
        i, j = fresh('i'), fresh('j')
        z = ind_eq(app('x', i, j))
        u.eq_num(st, 'product of the non-zero entries', v,
                 mk_prod(varname(j), C, mk_prod(varname(i), R, z + (ONE - z) * app('x', i, j))))
        u.same(st, 'matrix', x)


def reshape_mv(u):
    R, C = u.size('R', 0), u.size('C', 0)
    # any matrix can be written through its column-by-column enumeration xf
    x = u.ex.alloc(u.st, MatVal(R, C, app('xf', CI * R + RI)))
    v = u.mat('v', R * C, ONE)

    def at(it):
        d = ind_le(RI - it * R + 1)
        return d * app('xf', RI) + (ONE - d) * app('v', RI)
    u.ex.ghosts.append(loops.Ghost('copied columns', R * C, ONE, at, lambda it: at(it + 1)))
    f = [g for g in u.prog.find(MU + 'reshape_into') if is_mat(g['params'][0]['t'])][0]
    for st, k, _ in u.run(f, None, [Ref(x), Ref(v)]):
        u.eq_mat(st, 'entry (r,c) lands at c*rows+r', st.heap[v], R * C, ONE, lambda r, c: app('xf', r))
        u.same(st, 'matrix', x)


def reshape_vm(u):
    R, C = u.size('R', 0), u.size('C', 0)
    v = u.mat('v', R * C, ONE)
    x = u.mat('x', R, C)
    f = [g for g in u.prog.find(MU + 'reshape_into') if not is_mat(g['params'][0]['t'])][0]
    for st, k, _ in u.run(f, None, [Ref(v), Ref(x)]):
        u.eq_mat(st, 'entry (r,c) comes from c*rows+r', st.heap[x], R, C, lambda r, c: app('v', c * R + r))
        u.same(st, 'vector', v)


def is_mat(t):
    return t.replace(' ', '').count('-1') >= 4 or 'Dynamic,Dynamic' in t.replace(' ', '')


def div_op(u):
    f = u.fn(MU + 'CwiseScalarDivideByMatrix<double>::operator()')
    o = u.ex.alloc(u.st, Struct(f['cls'], {'y_': u.num('y')}))
    x = u.num('x')
    for st, k, v in u.run(f, Ref(o), [Ref(x)]):
        xv = V('x', 'R')
        u.eq_num(st, 'y/x, or 0 for x = 0', v, (ONE - ind_eq(xv)) * V('y', 'R') * inv(xv))


def conformance(rng, tier):
    T = conf.Tester(['d_math.cpp'], [])
    n = {'quick': 150, 'thorough': 3000, 'deep': 3000}[tier]

    def shape():
        return [(int(rng.integers(0, 5)), int(rng.integers(0, 6))), (int(rng.choice([1, 2, 7, 33, 70])), int(rng.choice([1, 3, 17, 65])))][int(rng.random() < .15)]

    def entries(r, c):
        m = rng.normal(size=(r, c)) * 10.0 ** float(rng.integers(-3, 4))
        if rng.random() < .5:
            m = np.round(rng.normal(size=(r, c)) * 2)
        if rng.random() < .1:
            m = rng.choice([-1, 1], (r, c)) * 10.0 ** rng.uniform(-40, 1, (r, c))
        m[rng.random((r, c)) < .25] = 0
        if r and c and rng.random() < .4:
            m[:, rng.integers(c)] = 0
        if r and c and rng.random() < .4:
            m[rng.integers(r), :] = 0
        if rng.random() < .3:
            m = np.abs(m)
        if r > 1 and c and rng.random() < .2:
            j = rng.integers(c); m[:, j] = 0; m[0, j] = 1.5; m[1, j] = -1.5
        if r and c > 1 and rng.random() < .2:
            i = rng.integers(r); m[i, :] = 0; m[i, 0] = 1.5; m[i, 1] = -1.5
        return m
    np.seterr(all='ignore')
    for k in range(n):
        r, c = shape()
        if rng.random() < .05:
            r, c = (conf.hint(rng, r, 1), min(c, 6)) if rng.random() < .5 else (min(r, 6), conf.hint(rng, c, 1))
        m = entries(r, c)
        s = m.sum(0)
        T.case(('normalize_cols', m), m=np.where(s == 0, m, m / np.where(s == 0, 1, s)) if r and c else m,
               skip=bool(np.any((s != 0) & (np.abs(s) < 1e-9 * np.abs(m).sum(0)))))
        s = m.sum(1)[:, None]
        T.case(('normalize_rows', m), m=np.where(s == 0, m, m / np.where(s == 0, 1, s)) if r and c else m,
               skip=bool(np.any((s != 0) & (np.abs(s) < 1e-9 * np.abs(m).sum(1)[:, None]))))
        w = entries(c, 1)[:, 0]; q = entries(r, 1)[:, 0]
        mm = m.copy()
        if rng.random() < .5:
            mm[:, w == 0] = rng.choice([np.nan, np.inf])
        keep = w != 0
        T.case(('sum_cols_scaled', mm, w, q), r=(q + mm[:, keep] @ w[keep])[:, None], x=mm, y=w[:, None])
        w = entries(r, 1)[:, 0]; q = entries(c, 1)[:, 0]
        mm = m.copy()
        if rng.random() < .5:
            mm[w == 0, :] = rng.choice([np.nan, np.inf])
        keep = w != 0
        T.case(('sum_rows_scaled', mm, w, q), r=(q + w[keep] @ mm[keep, :])[None, :], x=mm, y=w[:, None])
        mm = np.clip(m, -3, 3)
        T.case(('product_of_nonzeros', mm), v=np.prod(mm[mm != 0]), x=mm)
        T.case(('reshape_mv', m), v=m.reshape(-1, 1, order='F'), x=m)
        v = entries(r * c, 1)[:, 0]
        T.case(('reshape_vm', v, r, c), m=v.reshape(r, c, order='F'), v=v[:, None])
        a, b = float(rng.normal()), float(rng.choice([0, 0.0, -0.0, 1.0, rng.normal()]))
        T.case(('div_op', a, b), v=a / b if b else 0.0)
    return T.finish()


CHECK = Check('C26', [INST], [
    ('normalize_rows', mk_norm('rows')), ('normalize_cols', mk_norm('cols')),
    ('sum_rows_scaled', mk_sum_scaled('rows')), ('sum_cols_scaled', mk_sum_scaled('cols')),
    ('product_of_nonzeros', prod_nz), ('reshape_into(matrix,vector)', reshape_mv), ('reshape_into(vector,matrix)', reshape_vm),
    ('CwiseScalarDivideByMatrix', div_op)], conformance)
