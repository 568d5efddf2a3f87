"""Strings, streams, files and raw bytes.

A string is a sequence of cells: a byte (int), one digit of a number whose digit count is fixed ('dig', value, k, n), or an opaque
segment.  A stream's content is the same plus raw segments ('raw', element function of ri_, count, element type).  Files live in
the heap under a key made of their path.  Byte order: the little-endian one of the machine the checks run on."""
import re
from terms import *
from prove import *
from symex import *
import symex
import eigen_models as em
import std_models as sm

SIZES = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8,
         'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8}
THROWN = {'std::invalid_argument': ('std::logic_error', 'std::exception'), 'std::out_of_range': ('std::logic_error', 'std::exception'),
          'std::runtime_error': ('std::exception',), 'std::logic_error': ('std::exception',)}


class Content:
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __eq__(self, o):
        return isinstance(o, Content) and o.segs == self.segs

    def __hash__(self):
        return hash(self.segs)


class Stream:
    __slots__ = ('key', 'mode', 'pos', 'gcount', 'width', 'fill')

    def __init__(self, key, mode, pos=0, gcount=0, width=0, fill=32):
        self.key, self.mode, self.pos, self.gcount, self.width, self.fill = key, mode, pos, gcount, width, fill

    def tup(self):
        return (self.key, self.mode, self.pos, self.gcount, self.width, self.fill)

    def but(self, **k):
        d = dict(zip(self.__slots__, self.tup()))
        d.update(k)
        return Stream(**d)

    def __eq__(self, o):
        return isinstance(o, Stream) and o.tup() == self.tup()

    def __hash__(self):
        return hash(self.tup())


class DataPtr:
    """pointer to the coefficients of a matrix"""
    __slots__ = ('oid', 'row', 'et')

    def __init__(self, oid, row, et):
        self.oid, self.row, self.et = oid, row, et

    def __eq__(self, o):
        return isinstance(o, DataPtr) and (o.oid, o.row) == (self.oid, self.row)

    def __hash__(self):
        return hash(self.oid)


def byte_of(x, k):
    c = x.const()
    if c is not None and c.denominator == 1:
        return P((int(c) >> (8 * k)) & 255)
    a = as_atom(x)
    if a is not None and a.kind == 'a' and a.data[0].startswith('frombytes_') and k < len(a.data[1]):
        return a.data[1][k]
    return app('byte', x, P(k), sort='I')


def from_bytes(bs, t):
    cs = [b.const() for b in bs]
    if t in INT_TYPES and all(c is not None for c in cs):
        v = sum(int(c) << (8 * i) for i, c in enumerate(cs))
        if not t.startswith('unsigned') and t != 'size_t' and v >= 1 << (8 * len(bs) - 1):
            v -= 1 << (8 * len(bs))
        return P(v)
    ats = [as_atom(b) for b in bs]
    if all(a is not None and a.kind == 'a' and a.data[0] == 'byte' and a.data[1][1].const() == i for i, a in enumerate(ats)):
        x = ats[0].data[1][0]
        if all(a.data[1][0] == x for a in ats):
            return x
    return app('frombytes_' + t.replace(' ', '_'), *bs, sort='I' if t in INT_TYPES else 'R')


RESIMP['byte'] = lambda f, a: byte_of(a[0], int(a[1].const()))
RESIMP['frombytes'] = lambda f, a: from_bytes(a, f[len('frombytes_'):].replace('_', ' '))


class UnionV:
    """a union as its bytes"""
    def __init__(self, fields, bytes_):
        self.fields, self.bytes = fields, bytes_

    def __eq__(self, o):
        return isinstance(o, UnionV) and o.bytes == self.bytes and o.fields == self.fields

    def __hash__(self):
        return 1


class UField(LVal):
    def __init__(self, oid, t):
        self.oid, self.t = oid, t

    def get(self, ex, st):
        u = st.heap[self.oid]
        m = re.match(r'(.*)\[(\d+)\]$', self.t)
        if m:
            return self
        if not isinstance(u, UnionV):
            raise Unsupported('read of a union that may not be set')
        if any(b is None for b in u.bytes[:SIZES[self.t]]):
            ex.oblige(st, 'union read before it is set', 'cond', ZERO)
            raise Infeasible()
        return Num(from_bytes(u.bytes[:SIZES[self.t]], self.t), 'I' if self.t in INT_TYPES else 'R')

    def put(self, ex, st, v):
        u = st.heap[self.oid]
        k = SIZES[self.t]
        if isinstance(u, UnionV):
            rest = u.bytes[k:]
        elif self.full == k:
            rest = []
        else:
            raise Unsupported('partial store to a union')
        st.heap[self.oid] = UnionV(self.fields, [byte_of(v.p, i) for i in range(k)] + rest)


class UByte(LVal):
    def __init__(self, oid, k):
        self.oid, self.k = oid, k

    def get(self, ex, st):
        u = st.heap[self.oid]
        if not isinstance(u, UnionV):
            raise Unsupported('read of a union that may not be set')
        if u.bytes[self.k] is None:
            ex.oblige(st, 'union read before it is set', 'cond', ZERO)
            raise Infeasible()
        return Num(u.bytes[self.k], 'I')

    def put(self, ex, st, v):
        u = st.heap[self.oid]
        if not isinstance(u, UnionV):
            raise Unsupported('partial store to a union')
        b = list(u.bytes)
        c = v.p.const()
        b[self.k] = v.p if c is None else P(int(c) & 255)
        st.heap[self.oid] = UnionV(u.fields, b)


def union_type(ex, st, t):
    r = st.frame.get('rec:' + t) or ex.prog.records.get(t)
    return r if r is not None and r.get('union') else None


def type_size(t):
    t = strip_type(t)
    m = re.match(r'(.*)\[(\d+)\]$', t)
    if m:
        return type_size(m.group(1)) * int(m.group(2))
    if t not in SIZES:
        raise Unsupported('size of ' + t)
    return SIZES[t]


def new_union(ex, st, r, init=None):
    fs = {f['n']: strip_type(f['t']) for f in r['fields']}
    size = max(type_size(t) for t in fs.values())
    b = [None] * size
    if init is not None:
        t = strip_type(r['fields'][0]['t'])
        for i in range(SIZES[t]):
            b[i] = byte_of(init.p, i)
    return UnionV(fs, b)


def union_field(ex, st, ref, u, name, fields):
    f = UField(ref.oid, fields[name])
    f.fields = fields
    f.full = max(type_size(t) for t in fields.values())
    return f


# ---------------------------------------------------------------- cells

def cell_num(st, c):
    if isinstance(c, int):
        return Num(c - 256 if c > 127 else c, 'I')       # char is signed here
    if c[0] == 'dig':
        v = app('digch', c[1], P(c[2]), P(c[3]), sort='I')
        st.assume(ind_le(P(48) - v))
        st.assume(ind_le(v - 57))
        return Num(v, 'I')
    raise Unsupported('one byte of %s' % (c[0],))


def num_cell(v):
    c = v.p.const()
    if c is not None:
        return int(c) & 255
    a = as_atom(v.p)
    if a is not None and a.kind == 'a' and a.data[0] == 'digch':
        return ('dig', a.data[1][0], int(a.data[1][1].const()), int(a.data[1][2].const()))
    raise Unsupported('character value')


def single(c):
    return isinstance(c, int) or c[0] == 'dig'


def known(segs):
    return all(single(c) for c in segs)


def to_text(ex, st, v, t=''):
    """cells printed by operator<< for v of type t"""
    if isinstance(v, Str):
        return v.segs
    if isinstance(v, EPtr):
        return cstring(ex, st, v)
    if isinstance(v, Num) and strip_type(t) in ('char', 'unsigned char', 'signed char'):
        return (num_cell(v),)
    if isinstance(v, Num) and v.s == 'I':
        return decimal(ex, st, v)
    raise Unsupported('printing %r' % (v,))


def decimal(ex, st, v):
    if v.d.const() != 1:
        ex.oblige_def(st, v.d, 'printed value')
    c = v.p.const()
    if c is not None:
        return tuple(str(int(c)).encode())
    n = getattr(ex, 'ndig', {}).get(v.p)
    if n is None:
        return (('dec', v.p, 0, 32),)
    return tuple(('dig', v.p, k, n) for k in range(n))


def pad(segs, w, fill):
    if not w:
        return segs
    if known(segs):
        return (fill,) * max(0, w - len(segs)) + tuple(segs)
    if len(segs) == 1 and segs[0][0] == 'dec':
        return (('dec', segs[0][1], w, fill),)
    raise Unsupported('padding')


def cstring(ex, st, p):
    """bytes from p to the terminating zero"""
    if isinstance(p, Str):
        return p.segs
    if not isinstance(p, EPtr):
        raise Unsupported('C string at %r' % (p,))
    a = st.heap[p.oid]
    k = P(p.i).const()
    if not isinstance(a, Arr) or a.items is None or k is None:
        raise Unsupported('C string in a symbolic array')
    out = []
    for it in a.items[int(k):]:
        v = ex.load(st, it)
        if v.d.const() != 1:
            ex.oblige_def(st, v.d, 'string')
        c = num_cell(v)
        if c == 0:
            return tuple(out)
        out.append(c)
    raise Unsupported('unterminated string')


def str_eq(a, b):
    if a.segs == b.segs:
        return ONE
    if known(a.segs) and known(b.segs):
        if len(a.segs) != len(b.segs):
            return ZERO
        for x, y in zip(a.segs, b.segs):
            if x == y:
                continue
            if isinstance(x, int) and isinstance(y, int):
                return ZERO
            o = x if isinstance(x, int) else y
            if isinstance(o, int) and not 48 <= o <= 57:
                return ZERO
            raise Unsupported('comparison of symbolic digits')
        return ONE
    raise Unsupported('comparison of unknown strings')


def npos(p, size):
    c = P(p).const()
    if c is None:
        raise Unsupported('symbolic position in a string')
    return int(c)


NPOS = 2 ** 64 - 1


def the_str(ex, st, obj):
    v = ex.load(st, obj)
    if isinstance(v, Ptr):
        v = st.heap[v.oid]
    if not isinstance(v, Str):
        raise Unsupported('string operation on %r' % (v,))
    return v


def h_string(ex, st, callee, obj, argn, n):
    nm = base_name(callee['fn'])
    if nm in ('operator=', 'assign'):
        v = ex.rv(st, argn[0])
        ex.store(st, obj, Str(cstring(ex, st, v)) if isinstance(v, EPtr) else v)
        return obj
    s = the_str(ex, st, obj)
    if nm in ('size', 'length', 'empty'):
        if not known(s.segs):
            raise Unsupported('length of an unknown string')
        return BoolV(ONE if not s.segs else ZERO) if nm == 'empty' else Num(len(s.segs), 'I')
    if nm in ('c_str', 'data'):
        return s
    if nm in ('append', 'operator+=', 'push_back'):
        v = ex.rv(st, argn[0])
        if len(argn) > 1:
            if isinstance(v, Num) and v.p.const() is not None:
                v = Str((num_cell(ex.rv(st, argn[1])),) * int(v.p.const()))
            else:
                raise Unsupported('append')
        ex.store(st, obj, Str(s.segs + tuple(to_text(ex, st, v, 'char'))))
        return obj
    if not known(s.segs):
        raise Unsupported('%s of an unknown string' % nm)
    if nm == 'substr':
        a = [ex.rv(st, x) for x in argn]
        p = npos(a[0].p, 0) if a else 0
        if p > len(s.segs):
            raise ThrowEx('std::out_of_range')
        k = npos(a[1].p, 0) % 2 ** 64 if len(a) > 1 else NPOS
        return Str(s.segs[p:p + k])
    if nm in ('operator[]', 'at'):
        k = npos(ex.rv(st, argn[0]).p, 0)
        if nm == 'at' and k >= len(s.segs):
            raise ThrowEx('std::out_of_range')
        ex.oblige(st, 'index within the string', 'cond', ONE if 0 <= k <= len(s.segs) else ZERO, n.get('l'))
        if not 0 <= k <= len(s.segs):
            raise Infeasible()
        if 'const' not in callee.get('fn', '') and False:
            pass
        return cell_num(st, s.segs[k] if k < len(s.segs) else 0)
    if nm in ('find_last_of', 'find_first_of', 'find', 'rfind'):
        v = ex.rv(st, argn[0])
        want = (num_cell(v),) if isinstance(v, Num) else to_text(ex, st, v)
        if len(want) != 1 and nm in ('find', 'rfind'):
            k = len(want)
            hits = [i for i in range(len(s.segs) - k + 1) if s.segs[i:i + k] == tuple(want)]
            if any(48 <= x <= 57 for x in want if isinstance(x, int)):
                raise Unsupported('search for digits')
        else:
            if any(not isinstance(x, int) or 48 <= x <= 57 for x in want):
                raise Unsupported('search for digits')
            hits = [i for i, c in enumerate(s.segs) if c in want]
        if len(argn) > 1 and argn[1]['k'] != 'CXXDefaultArgExpr':
            q = npos(ex.rv(st, argn[1]).p, 0)
            hits = [i for i in hits if (i >= q if nm in ('find', 'find_first_of') else i <= q)]
        if not hits:
            return Num(NPOS, 'I')
        return Num(hits[-1] if nm in ('find_last_of', 'rfind') else hits[0], 'I')
    if nm == 'compare' and len(argn) == 1:
        e = str_eq(s, Str(to_text(ex, st, ex.rv(st, argn[0]))))
        return Num(ZERO if e == ONE else ONE, 'I')
    return NotImplemented


def h_plus(ex, st, callee, obj, argn, n):
    xs = [ex.rv(st, a) for a in argn]
    if any(isinstance(x, Str) for x in xs):
        return Str(sum((tuple(to_text(ex, st, x, 'char')) for x in xs), ()))
    return NotImplemented


def h_stoi(ex, st, callee, obj, argn, n):
    s = ex.rv(st, argn[0])
    if not isinstance(s, Str) or not known(s.segs):
        raise Unsupported('number in an unknown string')
    out = ex.eval(st, argn[1]) if len(argn) > 1 and argn[1]['k'] != 'CXXDefaultArgExpr' else None
    if len(argn) > 2 and argn[2]['k'] != 'CXXDefaultArgExpr' and ex.rv(st, argn[2]).p.const() != 10:
        raise Unsupported('stoi base')
    k = 0
    sg = s.segs
    while k < len(sg) and sg[k] in (32, 9, 10, 11, 12, 13):
        k += 1
    neg = False
    if k < len(sg) and sg[k] in (43, 45):
        neg = sg[k] == 45
        k += 1
    b = k
    while k < len(sg) and (not isinstance(sg[k], int) or 48 <= sg[k] <= 57):
        k += 1
    if k == b:
        raise ThrowEx('std::invalid_argument')
    ds = sg[b:k]
    if all(isinstance(c, int) for c in ds):
        v = P(int(bytes(ds)))
    elif all(not isinstance(c, int) and c[1] == ds[0][1] and c[3] == len(ds) and c[2] == i for i, c in enumerate(ds)):
        v = ds[0][1]
    else:
        raise Unsupported('part of a number')
    if out is not None:
        o = ex.load(st, out) if isinstance(out, Ref) else out
        if isinstance(o, Ptr) and o.oid is not None:
            st.heap[o.oid] = Num(k, 'I')
    if base_name(callee['fn']) == 'stoi':
        ex.oblige(st, 'number fits an int', 'cond', ind_le(v - (2 ** 31 - 1)), n.get('l'))
    return Num(-v if neg else v, 'I')


# ---------------------------------------------------------------- streams

def deep(st, x):
    r = x
    while isinstance(r, (Ref, Ptr)) and isinstance(st.heap.get(r.oid), (Ref, Ptr)):
        r = st.heap[r.oid]
    if isinstance(r, Ptr):
        r = Ref(r.oid)
    if not isinstance(r, Ref) or not isinstance(st.heap.get(r.oid), Stream):
        raise Unsupported('stream')
    return r.oid, st.heap[r.oid]


def file_key(path):
    return 'file!%r' % (path.segs,)


def emit(ex, st, oid, segs):
    s = st.heap[oid]
    st.heap[s.key] = Content(st.heap[s.key].segs + tuple(segs))


def c_sstream(ex, st, t, callee, args, n):
    key = 'file!%d' % next(symex._oid)
    st.heap[key] = Content(())
    a = [x for x in args if x['k'] != 'CXXDefaultArgExpr']
    if a:
        v = ex.rv(st, a[0])
        if isinstance(v, Str):
            if 'istring' not in t:
                raise Unsupported('string stream with initial text')
            st.heap[key] = Content(v.segs)
        elif not isinstance(v, Num):
            raise Unsupported('stream construction')
    return Stream(key, 24)


def c_fstream(ex, st, t, callee, args, n):
    a = [ex.rv(st, x) for x in args if x['k'] != 'CXXDefaultArgExpr']
    if not a:
        raise Unsupported('stream without a file')
    p = a[0] if isinstance(a[0], Str) else Str(cstring(ex, st, a[0]))
    mode = int(em.numof(a[1]).p.const()) if len(a) > 1 else {'std::basic_ofstream': 16, 'std::basic_ifstream': 8}.get(t.split('<')[0], 24)
    if 'ofstream' in t:
        mode |= 16
    if 'ifstream' in t:
        mode |= 8
    k = file_key(p)
    if mode & 16 and not mode & 8 and not mode & 1:
        st.heap[k] = Content(())
    elif k not in st.heap:
        raise Unsupported('file that is not known to exist')
    elif mode & 16 and mode & 8 and st.heap[k].segs:
        raise Unsupported('file open for reading and writing')
    return Stream(k, mode)


def h_insert(ex, st, callee, obj, argn, n):
    """std::operator<<(stream, text)"""
    x = ex.eval(st, argn[0])
    oid, s = deep(st, x)
    v = ex.rv(st, argn[1])
    if isinstance(v, Opaque) and v.cls == 'manip':
        st.heap[oid] = s.but(**v.info)
        return x
    segs = to_text(ex, st, v, argn[1]['t'] if isinstance(v, Num) else '')
    emit(ex, st, oid, pad(segs, s.width, s.fill))
    st.heap[oid] = st.heap[oid].but(width=0)
    return x


def h_ostream(ex, st, callee, obj, argn, n):
    nm = base_name(callee['fn'])
    oid, s = deep(st, obj)
    if nm == 'operator<<':
        v = ex.rv(st, argn[0])
        if isinstance(v, Opaque) and v.name.startswith('fn:'):
            if 'endl' in v.name:
                emit(ex, st, oid, (10,))
            return obj
        emit(ex, st, oid, pad(to_text(ex, st, v), s.width, s.fill))
        st.heap[oid] = st.heap[oid].but(width=0)
        return obj
    if nm == 'tellp':
        segs = st.heap[s.key].segs
        if not known(segs):
            raise Unsupported('position in an unknown text')
        return Num(len(segs), 'I')
    if nm == 'put':
        emit(ex, st, oid, (num_cell(ex.rv(st, argn[0])),))
        return obj
    if nm == 'write':
        p = ex.rv(st, argn[0])
        k = em.numof(ex.rv(st, argn[1])).p
        emit(ex, st, oid, raw_read(ex, st, p, k, argn[0]))
        return obj
    if nm in ('flush', 'close'):
        return VOID
    return NotImplemented


def pointee(n):
    """type of what a char pointer expression really points to"""
    t = n['t']
    while n['k'] in ('ImplicitCastExpr', 'CXXReinterpretCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'ParenExpr', 'CXXConstCastExpr'):
        n = n['c'][0]
        t = n['t']
    return strip_type(strip_type(t).rstrip('*').strip())


def flat(ex, st, p):
    """(element function of ri_, definedness, count, element type) behind a data pointer"""
    if isinstance(p, DataPtr):
        m = st.heap[p.oid]
        if not isinstance(m, MatVal):
            raise Unsupported('data of a view')
        mp = {'ci_': RI - V('ri__') * m.cols} if p.row else {'ri_': V('ri__') - CI * m.rows}
        if p.row:
            f, d = [subst(subst(x, {'ri_': V('ri__')}), {'ci_': RI - V('ri__') * m.cols}) for x in (m.p, m.d)]
            bad = 'ri__'
        else:
            f, d = [subst(subst(x, {'ri_': V('rj__') - CI * m.rows}), {'rj__': RI}) for x in (m.p, m.d)]
            bad = 'ci_'
        if bad in f.fv or bad in d.fv:
            if m.rows.const() == 0 or m.cols.const() == 0:
                f, d = ZERO, ONE
            elif m.cols.const() == 1:
                f, d = subst(m.p, {'ci_': ZERO}), subst(m.d, {'ci_': ZERO})
            elif m.rows.const() == 1:
                f, d = [subst(subst(x, {'ri_': ZERO}), {'ci_': RI}) for x in (m.p, m.d)]
            else:
                raise Unsupported('flat view of a matrix')
        return f, d, m.rows * m.cols, p.et
    if isinstance(p, EPtr):
        a = st.heap[p.oid]
        if isinstance(a, Arr) and a.items is None and a.mat is None and P(p.i).const() == 0:
            return a.p, a.d, a.size, strip_type(a.et)
    return None


def raw_read(ex, st, p, k, node):
    """the k bytes of memory at p"""
    if isinstance(p, Str):
        c = k.const()
        if c is None or not known(p.segs) or c > len(p.segs) + 1:
            raise Unsupported('bytes of a string')
        return (p.segs + (0,))[:int(c)]
    if isinstance(p, Ptr) and p.oid is not None and isinstance(st.heap[p.oid], Num):
        t, v, c = pointee(node), st.heap[p.oid], k.const()
        if c is None or t not in SIZES or c > SIZES[t]:
            raise Unsupported('raw bytes of a value')
        if v.d.const() != 1:
            ex.oblige_def(st, v.d, 'written value')
        out = []
        for i in range(int(c)):
            b = byte_of(v.p, i).const()
            if b is None:
                raise Unsupported('raw bytes of a symbolic value')
            out.append(int(b))
        return tuple(out)
    if isinstance(p, EPtr) and isinstance(st.heap[p.oid], Arr) and st.heap[p.oid].items is not None:
        c, i = k.const(), P(p.i).const()
        t = pointee(node)
        t = re.sub(r'\[\d+\]$', '', t)
        if c is None or i is None or type_size(t) != 1:
            raise Unsupported('raw bytes of an array')
        its = st.heap[p.oid].items[int(i):int(i + c)]
        ex.oblige(st, 'bytes within the array', 'cond', ONE if len(its) == c else ZERO, node.get('l'))
        return tuple(num_cell(ex.load(st, x)) for x in its)
    fl = flat(ex, st, p)
    if fl is None:
        raise Unsupported('raw bytes at %r' % (p,))
    f, d, cnt, et = fl
    sz = type_size(et)
    q = P(k) * P(Q(1, sz))
    ex.oblige(st, 'write within the array', 'cond', ind_le(q - cnt), node.get('l'))
    if d.const() != 1:
        ex.oblige_def(st, ind_forall('ri_', q, d) if 'ri_' in d.fv else d, 'written value')
    return (('raw', f, q, et),)


def h_istream(ex, st, callee, obj, argn, n):
    nm = base_name(callee['fn'])
    oid, s = deep(st, obj)
    if nm == 'gcount':
        return Num(s.gcount, 'I') if isinstance(s.gcount, int) else Num(s.gcount, 'I')
    if nm == 'read':
        p = ex.rv(st, argn[0])
        k = em.numof(ex.rv(st, argn[1])).p
        segs = st.heap[s.key].segs
        c = k.const()
        if c is not None and (s.pos >= len(segs) or single(segs[s.pos]) or c == 0):
            got = segs[s.pos:s.pos + int(c)]
            if not known(got):
                raise Unsupported('read across an array')
            store_bytes(ex, st, p, got, argn[0])
            st.heap[oid] = s.but(pos=s.pos + len(got), gcount=len(got))
            return obj
        cx = st.ctx()
        if s.pos >= len(segs):
            raise Unsupported('read past the end')
        g = segs[s.pos]
        if g[0] != 'raw':
            raise Unsupported('read of %s' % g[0])
        sz = type_size(g[3])
        if not prove_zero(k - g[2] * sz, cx):
            raise Unsupported('read of part of an array')
        if not isinstance(p, EPtr) or P(p.i).const() != 0:
            raise Unsupported('read into %r' % (p,))
        a = st.heap[p.oid]
        if not isinstance(a, Arr) or type_size(a.et) != sz:
            raise Unsupported('array read into another type')
        f = g[1]
        if strip_type(a.et) != g[3]:
            f = app('as_' + strip_type(a.et).replace(' ', '_'), f, sort='I' if is_int_type(a.et) else 'R')
        ex.oblige(st, 'read within the array', 'cond', ind_le(g[2] - a.size), n.get('l'))
        if not prove_zero(g[2] - a.size, cx):
            raise Unsupported('read of part of an array')
        st.heap[p.oid] = Arr(a.size, None, f, ONE, a.s, a.et)
        st.heap[oid] = s.but(pos=s.pos + 1, gcount=k)
        return obj
    return NotImplemented


def store_bytes(ex, st, p, got, node):
    if not got:
        return
    if isinstance(p, EPtr):
        a = st.heap[p.oid]
        i = P(p.i).const()
        if not isinstance(a, Arr) or a.items is None or i is None or type_size(re.sub(r'\[\d+\]$', '', pointee(node))) != 1:
            raise Unsupported('read into an array')
        items = list(a.items)
        ex.oblige(st, 'read within the array', 'cond', ONE if i + len(got) <= len(items) else ZERO, node.get('l'))
        for k, c in enumerate(got):
            if int(i) + k < len(items):
                items[int(i) + k] = cell_num(st, c)
        st.heap[p.oid] = Arr(a.size, items, et=a.et)
        return
    if isinstance(p, Ptr) and p.oid is not None:
        t = pointee(node)
        if t not in SIZES or len(got) != SIZES[t] or not all(isinstance(c, int) for c in got):
            raise Unsupported('read into a value')
        st.heap[p.oid] = Num(from_bytes([P(c) for c in got], t), 'I' if t in INT_TYPES else 'R')
        return
    raise Unsupported('read into %r' % (p,))


def h_str(ex, st, callee, obj, argn, n):
    oid, s = deep(st, obj)
    nm = base_name(callee['fn'])
    if nm == 'str' and not argn:
        return Str(st.heap[s.key].segs)
    if nm in ('close', 'flush'):
        return VOID
    if nm in ('good', 'is_open', 'operator bool'):
        return BoolV(ONE)
    return NotImplemented


def h_ios(ex, st, callee, obj, argn, n):
    nm = base_name(callee['fn'])
    if nm not in ('fill', 'width'):
        return NotImplemented
    oid, s = deep(st, obj)
    old = Num(s.fill if nm == 'fill' else s.width, 'I')
    if argn:
        c = ex.rv(st, argn[0]).p.const()
        if c is None:
            raise Unsupported('symbolic ' + nm)
        st.heap[oid] = s.but(**{nm: int(c)})
    return old


def h_manip(ex, st, callee, obj, argn, n):
    c = ex.rv(st, argn[0]).p.const()
    if c is None:
        raise Unsupported('symbolic manipulator')
    nm = base_name(callee['fn'])
    return Opaque('manip', 'manip', {'width' if nm == 'setw' else 'fill': int(c)})


def h_swap(ex, st, callee, obj, argn, n):
    a, b = [ex.eval(st, x) for x in argn]
    x, y = ex.load(st, a), ex.load(st, b)
    if not isinstance(x, (Num, BoolV, Str, Ptr)) or type(x) is not type(y):
        return NotImplemented
    ex.store(st, a, y)
    ex.store(st, b, x)
    return VOID


def m_data(ex, st, c, obj, argn, n):
    r = em.deep_ref(st, obj)
    m = re.search(r'Eigen::Matrix<([^,<>]+), *-?\d+, *-?\d+, *(\d+)', c['fn'])
    if not isinstance(r, Ref) or not m:
        raise Unsupported('data() of a view')
    return DataPtr(r.oid, int(m.group(2)) & 1, strip_type(m.group(1)))


def h_openmode(ex, st, callee, obj, argn, n):
    a, b = [ex.rv(st, x) for x in argn]
    if isinstance(a, Num) and isinstance(b, Num):
        return ex.num_op(st, re.search(r'operator([|&])', callee['fn']).group(1), a, b, n)
    return NotImplemented


def h_to_string(ex, st, callee, obj, argn, n):
    return Str(decimal(ex, st, ex.rv(st, argn[0])))


def install(ex, add):
    ex.ndig = {}
    for t in ('ostringstream', 'stringstream', 'istringstream'):
        sm.CTORS['std::basic_' + t] = c_sstream
        sm.DEFAULTS['std::basic_' + t] = lambda ex, st, tt: c_sstream(ex, st, tt, None, [], None)
    for t in ('fstream', 'ofstream', 'ifstream'):
        sm.CTORS['std::basic_' + t] = c_fstream
    em.METH['data'] = m_data
    for k, v in (('app', 1), ('ate', 2), ('binary', 4), ('in', 8), ('out', 16), ('trunc', 32)):
        ex.global_models['std::ios_base::' + k] = ex.global_models['std::ios::' + k] = lambda ex, st, n, v=v: Num(v, 'I')
    add(r'std::(__cxx11::)?basic_string<', h_string)
    add(r'std::operator\+$', h_plus)
    add(r'std::stoi$|std::stoul$|std::stol$|std::stoll$|std::stoull$', h_stoi)
    add(r'std::operator<<$', h_insert)
    add(r'std::operator[|&]$', h_openmode)
    add(r'std::basic_ostream<', h_ostream)
    add(r'std::basic_istream<', h_istream)
    add(r'std::basic_(ostringstream|stringstream|fstream|ofstream|ifstream)<', h_str)
    add(r'std::(basic_ios<.*|ios_base)::(fill|width)$', h_ios)
    add(r'std::set(w|fill)$', h_manip)
    add(r'std::swap$', h_swap)
    add(r'std::to_string$', h_to_string)
    add(r'std::fpos<.*::operator long', lambda ex, st, c, o, a, n: ex.load(st, o))
