"""Contracts of the numpy format: units of C20, and the contracts of << and >> that callers (C21) are checked against."""
from estep import *
import ast, re
import std_io, std_models
import eigen_models as em
from std_io import Stream, Content, DataPtr

NPY = NS + 'numpy_format::'
CT = {'i1': 'signed char', 'i2': 'short', 'i4': 'int', 'i8': 'long', 'u1': 'unsigned char', 'u2': 'unsigned short', 'u4': 'unsigned int',
      'u8': 'unsigned long', 'f4': 'float', 'f8': 'double'}
MAGIC = tuple(b'\x93NUMPY\x01\x00')


def sort_of(t):
    return 'I' if t[0] in 'iu' else 'R'


def writer(u, t):
    return u.fn(NPY + 'operator<<', pred=lambda f: 'NumpyOutput<%s>' % CT[t] in f['params'][1]['t'])


def reader(u, t):
    return u.fn(NPY + 'operator>>', pred=lambda f: 'NumpyInput<%s>' % CT[t] in f['params'][1]['t'])


def digits(u, x, n):
    """x has exactly n decimal digits"""
    u.ex.ndig[x] = n
    u.st.assume(ind_le(-x) if n == 1 else ind_le(P(10 ** (n - 1)) - x))
    u.st.assume(ind_le(x - (10 ** n - 1)))


def matrix(u, st, t, R, C, row):
    """any matrix: written through the enumeration of its coefficients in storage order"""
    p = app('xf', RI * C + CI if row else CI * R + RI, sort=sort_of(t))
    return u.ex.alloc(st, MatVal(R, C, p, ONE, sort_of(t)))


def stream(u, st, segs=(), pos=0):
    k = 'file!%d' % next(symex._oid)
    st.heap[k] = Content(segs)
    return u.ex.alloc(st, Stream(k, 24, pos))


def text(cells, marks):
    """cells as text, with numbers standing for the symbolic ones"""
    out, i = [], 0
    while i < len(cells):
        c = cells[i]
        if isinstance(c, int):
            out.append(chr(c))
            i += 1
            continue
        if c[0] != 'dig' or c[2] != 0 or [x for x in cells[i:i + c[3]]] != [('dig', c[1], k, c[3]) for k in range(c[3])]:
            return None
        marks.append(c[1])
        out.append('%d' % (10 ** 12 + len(marks) - 1))
        i += c[3]
    return ''.join(out)


def parse(segs):
    """the array at the start of segs: (descr, fortran, shape, raw segment, rest) or an error text"""
    if segs[:8] != MAGIC:
        return 'magic and version'
    if len(segs) < 10 or not all(isinstance(c, int) for c in segs[8:10]):
        return 'header length'
    n = segs[8] + 256 * segs[9]
    h = segs[10:10 + n]
    if len(h) != n or not all(std_io.single(c) for c in h):
        return 'header shorter than announced'
    if (n + 10) % 16 or h[-1] != 10:
        return 'header not padded to a multiple of 16 bytes and ended by a newline'
    marks = []
    s = text(h, marks)
    try:
        d = ast.literal_eval(s.strip())
    except Exception:
        return 'header is not a literal'
    if not isinstance(d, dict) or set(d) != {'descr', 'fortran_order', 'shape'} or not isinstance(d['shape'], tuple):
        return 'header keys'
    shape = [marks[x - 10 ** 12] if x >= 10 ** 12 else P(x) for x in d['shape']]
    rest = segs[10 + n:]
    if not rest or rest[0][0] != 'raw':
        return 'no data behind the header'
    return d['descr'], d['fortran_order'], shape, rest[0], rest[1:]


def output_of(u, st, t, m, row):
    """NumpyOutput built from the matrix by the real constructor"""
    cls = NPY + 'NumpyOutput<%s>' % CT[t]
    fs = [f for f in u.prog.funcs.values() if f.get('ctor') and f.get('cls') == cls and len(f['params']) == 1 and
          re.search(r'Eigen::Matrix<%s, *-1, *-1, *%d' % (CT[t], row), f['params'][0]['t'])]
    if not fs:
        raise Unsupported('constructor of ' + cls)
    return u.ex.alloc(st, u.ex.construct_repo(st, cls, fs[0], [Ref(m)]))


def call(u, st, f, args, obj=None):
    return u.ex.explore(lambda s: u.ex.invoke(s, f, obj, args), st)


def method(u, cls, name, **k):
    return u.fn(cls + '::' + name, **k)


def write_read(u, t, row, R, C):
    st = u.st
    m = matrix(u, st, t, R, C, row)
    no = output_of(u, st, t, m, row)
    o = stream(u, st, PRE)
    key = st.heap[o].key
    for s, k, v in call(u, st, writer(u, t), [Ref(o), Ref(no)]):
        if k == 'throw':
            u.holds(s, 'writing succeeds', ZERO)
            continue
        segs = s.heap[key].segs
        u.holds(s, 'what the stream held before is kept', ONE if segs[:len(PRE)] == PRE else ZERO)
        r = parse(segs[len(PRE):])
        u.holds(s, 'well-formed version 1.0 array: ' + (r if isinstance(r, str) else 'ok'), ZERO if isinstance(r, str) else ONE)
        if isinstance(r, str):
            continue
        descr, fo, shape, raw, rest = r
        u.holds(s, 'descr names the type and byte order', ONE if descr == '<' + t or t[1] == '1' and descr == '|' + t else ZERO)
        u.holds(s, 'shape of two dimensions and nothing behind the array', ONE if len(shape) == 2 and not rest else ZERO)
        if len(shape) != 2:
            continue
        u.holds(s, 'shape is the shape of the matrix', ind_eq(shape[0] - R) * ind_eq(shape[1] - C))
        u.holds(s, 'as many entries as the shape says', ind_eq(raw[2] - R * C) * (ONE if raw[3] == CT[t] else ZERO))
        i, j = fresh('i'), fresh('j')
        u.eq(u.idx(s, i, R, j, C), 'entries in the declared order', subst(raw[1], {'ri_': i + j * R if fo else i * C + j}),
             subst(s.heap[m].p, {'ri_': i, 'ci_': j}))
        u.same(s, 'matrix', m)
        # and back
        check_read(u, s, t, segs, R, C, 1 if fo else 0, lambda q: subst(raw[1], {'ri_': q}), tail=MAGIC, pos=len(PRE))


def check_read(u, st, t, segs, R, C, fort, entry, tail=(), pos=0, one=False, again=False):
    cls = NPY + 'NumpyInput<%s>' % CT[t]
    st = st.clone()
    o = stream(u, st, segs + tuple(tail), pos)
    ni = std_models.new_object(u.ex, st, cls, [], [])
    if again:           # the object has read another array before
        A, B = u.size('Aprev', 0), u.size('Bprev', 0)
        for x in (A, B, A * B):
            st.assume(ind_le(x - (2 ** 31 - 1)))
        as_read(u.ex, st, t, 1 - fort, [A, B] if one else [A], app('xprev', RI, sort=sort_of(t)), ni)
    for s, k, v in call(u, st, reader(u, t), [Ref(o), Ref(ni)]):
        if k == 'throw':
            u.holds(s, 'the array is read', ZERO)
            continue
        u.holds(s, 'the stream is left behind the array', ONE if s.heap[o].pos == len(segs) else ZERO)
        for s1, _, sh in call(u, s, method(u, cls, 'shape'), [], Ref(ni)):
            a = u.ex.load(s1, sh)
            for s2, _, fo in call(u, s1, method(u, cls, 'fortran_contiguous'), [], Ref(ni)):
                fo = u.ex.load(s2, fo)
                for s3, _, dp in call(u, s2, method(u, cls, 'data'), [], Ref(ni)):
                    dp = u.ex.load(s3, dp)
                    fl = std_io.flat(u.ex, s3, dp)
                    if fl is None:
                        raise Unsupported('data of the array')
                    f, d, cnt, et = fl
                    want = [R] if one else [R, C]
                    u.eq(s3, 'dimensions', a.size, P(len(want)))
                    for q, x in enumerate(want):
                        aid = sh.oid if isinstance(sh, Ref) else u.ex.alloc(s3, a)
                        u.eq(s3, 'dimension %d' % q, u.ex.arr_get(s3, aid, P(q)).p, x)
                    u.eq(s3, 'number of entries', cnt, R * C)
                    i, j, q = fresh('i'), fresh('j'), fresh('q')
                    u.eq(u.idx(s3, q, R * C), 'entries are set', subst(d, {'ri_': q}), ONE)
                    if one or fo.p.const() == fort:
                        u.eq(u.idx(s3, q, R * C), 'entries', subst(f, {'ri_': q}), entry(q))
                    else:
                        at = lambda fo: i + j * R if fo else i * C + j
                        u.eq(u.idx(s3, i, R, j, C), 'entries', subst(f, {'ri_': fo.p * at(1) + (ONE - fo.p) * at(0)}), entry(at(fort)))


# ---------------------------------------------------------------- what numpy writes

def cells(ex, x):
    c = P(x).const()
    if c is not None:
        return tuple(str(int(c)).encode())
    n = ex.ndig[x]
    return tuple(('dig', x, k, n) for k in range(n))


def numpy_text(ex, t, big, fort, shape, align, version=1, growth=False):
    """magic, version, length and header of numpy's own writer"""
    b = lambda s: tuple(s.encode())
    order = '|' if t[1] == '1' else '>' if big else '<'
    h = b("{'descr': '%s%s', 'fortran_order': %s, 'shape': (" % (order, t, 'True' if fort else 'False'))
    for k, d in enumerate(shape):
        h += (b(', ') if k else ()) + cells(ex, d)
    h += b(',), }' if len(shape) == 1 else '), }')
    if growth and shape:
        h += (32,) * (21 - len(cells(ex, shape[-1 if fort else 0])))
    pre = 10 if version == 1 else 12
    h += (32,) * (-(pre + len(h) + 1) % align) + (10,)
    ln = len(h)
    return tuple(b'\x93NUMPY') + (version, 0) + tuple((ln >> (8 * i)) & 255 for i in range(2 if version == 1 else 4)) + h


def swapped(t, x):
    n = int(t[1])
    return std_io.from_bytes([std_io.byte_of(x, n - 1 - k) for k in range(n)], CT[t])


def cases(u, fn, dims):
    """fn for every digit count of the dimensions that their product below 2^31 allows"""
    base = u.st
    R, C = u.size('R', 0), u.size('C', 0) if dims == 2 else ONE
    if dims == 2:
        for x in (R, C, R * C):
            u.st.assume(ind_le(x - (2 ** 31 - 1)))
    else:
        u.st.assume(ind_le(R - (2 ** 31 - 1)))
    base = u.st
    for a in range(1, 11):
        for b in range(1, 11 if dims == 2 else 2):
            if a + b > 11:
                continue
            u.st = base.clone()
            u.ex.ndig = {}
            digits(u, R, a)
            if dims == 2:
                digits(u, C, b)
            fn(R, C)
    u.st = base


def u_roundtrip(t, row):
    def unit(u):
        cases(u, lambda R, C: write_read(u, t, row, R, C), 2)
    return unit


def u_numpy(t, big, fort, dims, align=64):
    def unit(u):
        def one(R, C):
            f = app('xf', RI, sort=sort_of(t))
            raw = ('raw', swapped(t, f) if big else f, R * C, CT[t])
            segs = PRE + numpy_text(u.ex, t, big, fort, [R, C] if dims == 2 else [R], align, growth=align == 64) + (raw,)
            check_read(u, u.st, t, segs, R, C, fort, lambda q: app('xf', q, sort=sort_of(t)), tail=MAGIC, pos=len(PRE),
                       one=dims == 1, again=True)
        cases(u, one, dims)
    return unit


PRE = (1, 2, ('raw', ZERO, ONE, 'int'))


def u_swap(t):
    def unit(u):
        N = u.size('N', 0)
        st = u.st
        a = u.ex.alloc(st, Arr(N, None, app('xf', RI, sort=sort_of(t)), ONE, sort_of(t), CT[t]))
        f = u.fn(NPY + 'swap_endianess', ta=CT[t])
        i = fresh('i')
        for s, k, v in call(u, st, f, [EPtr(a, ZERO), Num(N, 'I')]):
            s = u.idx(s, i, N)
            r = s.heap[a]
            u.eq(s, 'every entry with its bytes reversed', subst(r.p, {'ri_': i}), swapped(t, app('xf', i, sort=sort_of(t))))
            u.eq(s, 'size', r.size, N)
    return unit


def u_order(u):
    f = u.fn(NPY + 'is_big_endian')
    for s, k, v in u.run(f, None, []):
        u.holds(s, 'this machine is little endian', ONE - v.p)


def u_refuse(t):
    def unit(u):
        R, C = u.size('R', 0), u.size('C', 0)
        u.ex.ndig = {R: 1, C: 1}          # the refusal comes before the shape is looked at
        n = 0
        cls = NPY + 'NumpyInput<%s>' % CT[t]

        def refused(what, segs):
            st = u.st.clone()
            o = stream(u, st, segs)
            ni = std_models.new_object(u.ex, st, cls, [], [])
            for s, k, v in call(u, st, reader(u, t), [Ref(o), Ref(ni)]):
                u.holds(s, what, ONE if k == 'throw' else ZERO)
        for o in CT:
            if o != t:
                for big in (0, 1):
                    refused('an array of type %s is refused' % o,
                            numpy_text(u.ex, o, big, 0, [R, C], 64) + (('raw', app('xf', RI, sort=sort_of(o)), R * C, CT[o]),))
        for v in range(2, 256):
            refused('format version %d is refused' % v,
                    numpy_text(u.ex, t, 0, 0, [R, C], 64, version=v) + (('raw', app('xf', RI, sort=sort_of(t)), R * C, CT[t]),))
    return unit


def u_convert(t, kind, fort, dims):
    """a NumpyInput holding any array (as left by the reader's contract) to an Eigen matrix"""
    def unit(u):
        R = u.size('R', 0)
        C = u.size('C', 0) if dims == 2 and kind != 'V' else ONE
        u.st.assume(ind_le(R * C - (2 ** 31 - 1)))
        u.st.assume(ind_le(R - (2 ** 31 - 1)))
        u.st.assume(ind_le(C - (2 ** 31 - 1)))
        st = u.st
        cls = NPY + 'NumpyInput<%s>' % CT[t]
        ni = as_read(u.ex, st, t, fort, [R, C] if dims == 2 else [R], app('xf', RI, sort=sort_of(t)))
        opt = {'F': '-1; -1; 0', 'C': '-1; -1; 1', 'V': '-1; 1; 0'}[kind]
        f = u.fn(cls + '::operator Matrix', ta=opt)
        i, j = fresh('i'), fresh('j')
        for s, k, v in u.run(f, Ref(ni), [], st):
            s = u.idx(s, i, R, j, C)
            u.eq(s, 'rows', v.rows, R)
            u.eq(s, 'columns', v.cols, C)
            x = Num(*[v.at(i, j)[0], 'R', v.at(i, j)[1]])
            u.eq(s, 'entries', x.p, app('xf', i + j * R if fort else i * C + j, sort=sort_of(t)))
            u.eq(s, 'every entry is set', x.d, ONE)
    return unit


def as_read(ex, st, t, fort, shape, f, into=None):
    """NumpyInput as the reader leaves it after an array of that shape and content: the reader's own body on numpy's text, where the
    number of digits (which the reader was shown not to depend on) is left open"""
    cls = NPY + 'NumpyInput<%s>' % CT[t]
    old = ex.ndig
    ex.ndig = {x: 1 for x in shape if x.const() is None}
    try:
        size = ONE
        for x in shape:
            size = size * x
        segs = numpy_text(ex, t, 0, fort, shape, 64) + (('raw', f, size, CT[t]),)
        key = 'file!%d' % next(symex._oid)
        st.heap[key] = Content(segs)
        o = ex.alloc(st, Stream(key, 24, 0))
        ni = into if into is not None else std_models.new_object(ex, st, cls, [], [])
        fs = [g for g in ex.prog.find(NPY + 'operator>>') if 'NumpyInput<%s>' % CT[t] in g['params'][1]['t']]
        if not fs:
            raise Unsupported('reader of ' + t)
        ex.invoke(st, fs[0], None, [Ref(o), Ref(ni)])
        return ni
    finally:
        ex.ndig = old


# ---------------------------------------------------------------- contracts for callers

def type_of(cls):
    return [t for t, c in CT.items() if '<%s>' % c in cls][0]


def contracts(u):
    """callers see the contracts of << and >>, which C20's units prove of their bodies"""
    ex = u.ex

    def put(ex, st, callee, obj, args, n):
        if 'NumpyOutput<' not in callee['pt'][1]:
            return NotImplemented
        no = args[1] if isinstance(args[1], Ref) else Ref(ex.alloc(st, ex.load(st, args[1])))
        cls = ex.load(st, no).cls
        get = lambda nm: ex.invoke(st, ex.prog.find(cls + '::' + nm)[0], no, [])
        sh = get('shape')
        so = sh.oid if isinstance(sh, Ref) else ex.alloc(st, sh)
        k = ex.load(st, sh).size.const()
        if k is None:
            raise Unsupported('shape')
        shape = [ex.arr_get(st, so, P(q)).p for q in range(int(k))]
        f, d, cnt, et = std_io.flat(ex, st, ex.load(st, get('data')))
        size = ONE
        for x in shape:
            size = size * x
        ex.oblige(st, 'the array holds as many entries as its shape says', 'cond', ind_le(size - cnt), n.get('l'))
        if d.const() != 1:
            ex.oblige_def(st, d, 'written entries are set', n)
        fo = ex.load(st, get('fortran_contiguous')).p.const()
        o, s = std_io.deep(st, args[0])
        std_io.emit(ex, st, o, (('npy', type_of(cls), int(fo), tuple(shape), f),))
        return args[0]

    def get(ex, st, callee, obj, args, n):
        if 'NumpyInput<' not in callee['pt'][1]:
            return NotImplemented
        o, s = std_io.deep(st, args[0])
        segs = st.heap[s.key].segs
        if not s.mode & 8:
            raise Unsupported('read from a stream open for writing')
        if s.pos >= len(segs):
            raise ThrowEx('std::runtime_error')
        g = segs[s.pos]
        if not isinstance(g, tuple) or g[0] != 'npy':
            raise Unsupported('read in the middle of an array')
        t = type_of(callee['pt'][1])
        if g[1] != t:
            raise ThrowEx('std::runtime_error')
        size = ONE
        for x in g[3]:
            size = size * x
        for x in g[3] + (size,):
            ex.oblige(st, 'dimensions fit an int', 'cond', ind_le(x - (2 ** 31 - 1)), n.get('l'))
        r = args[1]
        while isinstance(r, Ref) and isinstance(st.heap[r.oid], Ref):
            r = st.heap[r.oid]
        as_read(ex, st, t, g[2], list(g[3]), g[4], into=r.oid)
        st.heap[o] = st.heap[o].but(pos=s.pos + 1)
        return args[0]
    ex.contracts[NPY + 'operator<<'] = put
    ex.contracts[NPY + 'operator>>'] = get


def logical(seg, i, j):
    """entry (i, j) of an array in a file"""
    sh = seg[3]
    R, C = sh[0], sh[1] if len(sh) > 1 else ONE
    return subst(seg[4], {'ri_': i + j * R if seg[2] else i * C + j})


def u_wrappers(t, kind):
    """save and load, through streams and through files"""
    def unit(u):
        contracts(u)
        R = u.size('R', 0)
        C = u.size('C', 0) if kind != 'V' else ONE
        for x in (R, C, R * C):
            u.st.assume(ind_le(x - (2 ** 31 - 1)))
        st = u.st
        row = 1 if kind == 'C' else 0
        m = matrix(u, st, t, R, C, row)
        opt = {'F': '-1; -1; 0', 'C': '-1; -1; 1', 'V': '-1; 1; 0'}[kind]
        i, j = fresh('i'), fresh('j')
        for dst in ('stream', 'path'):
            fs = [f for f in u.prog.find(NPY + 'save') if f.get('ta') == CT[t] + '; ' + opt and ('basic_string' in f['params'][0]['t']) == (dst == 'path')]
            ls = [f for f in u.prog.find(NPY + 'load') if f.get('ta') == CT[t] + '; ' + opt and ('basic_string' in f['params'][0]['t']) == (dst == 'path')]
            if not fs or not ls:
                continue
            s0 = st.clone()
            if dst == 'path':
                where = Str([('str', 'path')])
                key = std_io.file_key(where)
                s0.heap[key] = Content((1, 2, 3))       # an older file
                arg = Ref(u.ex.alloc(s0, where))
            else:
                o = stream(u, s0)
                key = s0.heap[o].key
                arg = Ref(o)
            for s, k, v in call(u, s0, fs[0], [arg, Ref(m)]):
                segs = s.heap[key].segs
                ok = k != 'throw' and len(segs) == 1 and segs[0][0] == 'npy' and segs[0][1] == t and len(segs[0][3]) == 2
                u.holds(s, 'save to a %s: one array' % dst, ONE if ok else ZERO)
                if not ok:
                    continue
                g = segs[0]
                u.holds(s, 'save to a %s: shape' % dst, ind_eq(g[3][0] - R) * ind_eq(g[3][1] - C))
                u.eq(u.idx(s, i, R, j, C), 'save to a %s: entries' % dst, logical(g, i, j), subst(s.heap[m].p, {'ri_': i, 'ci_': j}))
                if dst == 'stream':
                    s.heap[o] = s.heap[o].but(pos=0)
                for s1, k1, v1 in call(u, s, ls[0], [arg]):
                    u.holds(s1, 'load from a %s succeeds' % dst, ZERO if k1 == 'throw' else ONE)
                    if k1 == 'throw':
                        continue
                    w = u.ex.load(s1, v1)
                    u.eq(s1, 'load from a %s: rows' % dst, w.rows, R)
                    u.eq(s1, 'load from a %s: columns' % dst, w.cols, C)
                    p, d = u.ex.as_mat(s1, v1), None
                    x = em.numof(p.el(s1, i, j))
                    u.eq(u.idx(s1, i, R, j, C), 'load from a %s: entries' % dst, x.p, subst(s.heap[m].p, {'ri_': i, 'ci_': j}))
                    u.eq(u.idx(s1, i, R, j, C), 'load from a %s: entries are set' % dst, x.d, ONE)
    return unit
