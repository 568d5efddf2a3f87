"""Symbolic execution of the dumped C++ AST: values, state, statements, expressions."""
import re, sys
from fractions import Fraction as Q
from terms import *
from prove import *

sys.setrecursionlimit(20000)
RI, CI = V('ri_'), V('ci_')


class CannotMerge(Exception):
    pass


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class ThrowEx(Exception):
    def __init__(self, t, args=()):
        self.t = t
        self.args_ = args


class Infeasible(Exception):
    pass


# ---------------------------------------------------------------- values

class Num:
    __slots__ = ('p', 'd', 's')

    def __init__(self, p, s='R', d=ONE):
        self.p = P(p)
        self.s = s
        self.d = d

    def __repr__(self):
        return 'Num(%s)' % self.p.key[:200]


class BoolV:
    __slots__ = ('p', 'd')

    def __init__(self, p, d=ONE):
        self.p = P(p)
        self.d = d

    def __repr__(self):
        return 'Bool(%s)' % self.p.key[:200]


class Void:
    pass


VOID = Void()


class Ref:
    """lvalue naming a heap object"""
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return 'Ref(%s)' % (self.oid,)


class ElemRef:
    """lvalue naming one coefficient of a matrix view"""
    __slots__ = ('mat', 'i', 'j')

    def __init__(self, mat, i, j):
        self.mat, self.i, self.j = mat, i, j


class LV:
    """write access of a view to a base matrix object: fwd (i,j)->(I,J); mem (I,J)->cond ; back (I,J)->(i,j)"""
    __slots__ = ('oid', 'fwd', 'mem', 'back', 'whole')

    def __init__(self, oid, fwd, mem, back, whole=False):
        self.oid, self.fwd, self.mem, self.back, self.whole = oid, fwd, mem, back, whole


class Mat:
    """(lazy) matrix expression"""
    __slots__ = ('rows', 'cols', 'el', 'arr', 'lv', 's', 'own', 'boolean', 'diag')

    def __init__(self, rows, cols, el, arr=False, lv=None, s='R', own=False, boolean=False):
        self.rows, self.cols, self.el, self.arr, self.lv, self.s = P(rows), P(cols), el, arr, lv, s
        self.own = own
        self.boolean = boolean
        self.diag = None

    def like(self, el, **kw):
        d = dict(arr=self.arr, s=self.s)
        d.update(kw)
        return Mat(self.rows, self.cols, el, **d)

    def __repr__(self):
        return 'Mat(%s x %s)' % (self.rows, self.cols)


class MatVal:
    """stored matrix: coefficient polynomial over RI, CI"""
    __slots__ = ('rows', 'cols', 'p', 'd', 's')

    def __init__(self, rows, cols, p, d=ONE, s='R'):
        self.rows, self.cols, self.p, self.d, self.s = P(rows), P(cols), p, d, s

    def at(self, i, j):
        mp = {'ri_': P(i), 'ci_': P(j)}
        return subst(self.p, mp), subst(self.d, mp)

    def __repr__(self):
        return 'MatVal(%s x %s: %s)' % (self.rows, self.cols, self.p.key[:200])


class VW:
    __slots__ = ('m', 'dim')

    def __init__(self, m, dim):
        self.m, self.dim = m, dim


class Ptr:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return 'Ptr(%s)' % self.oid

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.oid == self.oid

    def __hash__(self):
        return hash(self.oid)


class Struct:
    __slots__ = ('cls', 'fields')

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def __repr__(self):
        return 'Struct(%s)' % self.cls


class Lam:
    __slots__ = ('node', 'caps', 'this')

    def __init__(self, node, caps, this):
        self.node, self.caps, self.this = node, caps, this


class Opaque:
    """opaque value / object of an interface; name identifies it logically"""
    __slots__ = ('name', 'cls', 'info')

    def __init__(self, name, cls='', info=None):
        self.name, self.cls, self.info = name, cls, info

    def __repr__(self):
        return 'Opaque(%s:%s)' % (self.name, self.cls)

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Arr:
    """std::vector / std::array of elements: size poly and concrete list or symbolic element function"""
    __slots__ = ('size', 'items', 'p', 'd', 's', 'et', 'mat', 'pins')

    def __init__(self, size, items=None, p=None, d=ONE, s='R', et='', mat=None, pins=()):
        # pins: (index, object) of elements that live in an object of their own because something refers to them
        self.size, self.items, self.p, self.d, self.s, self.et, self.mat, self.pins = P(size), items, p, d, s, et, mat, pins


class ArrElem:
    __slots__ = ('oid', 'i', 'mut')

    def __init__(self, oid, i, mut=False):
        self.oid, self.i, self.mut = oid, i, mut


class EPtr:
    """pointer to an element of an array"""
    __slots__ = ('oid', 'i')

    def __init__(self, oid, i):
        self.oid, self.i = oid, i

    def __eq__(self, o):
        return isinstance(o, EPtr) and o.oid == self.oid and o.i == self.i

    def __hash__(self):
        return hash(self.oid)


class LVal:
    """other lvalues: get(ex, st), put(ex, st, v)"""


class Str:
    """string as concrete bytes or symbolic segments (tuple)"""
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __eq__(self, o):
        return isinstance(o, Str) and o.segs == self.segs

    def __hash__(self):
        return hash(self.segs)

    def __repr__(self):
        return 'Str%r' % (self.segs,)


# ---------------------------------------------------------------- state

TABLES = {}


def table(items, i):
    """entry of a table of constants at a symbolic index"""
    if not items or not all(isinstance(x, Num) and x.p.const() is not None and x.d.const() == 1 for x in items):
        raise Unsupported('symbolic index into concrete array')
    vals = [x.p.const() for x in items]
    import hashlib
    nm = 'table_' + hashlib.sha256(repr(vals).encode()).hexdigest()[:8]
    if nm not in TABLES:
        TABLES[nm] = vals
        fl = [float(x) for x in vals]
        BUILTIN[nm] = lambda k: fl[int(k)] if 0 <= k < len(fl) else float('nan')
        if all(x > 0 for x in vals):
            declare(nm, 'pos')
        elif all(x >= 0 for x in vals):
            declare(nm, 'nonneg')
    return Num(app(nm, P(i)), items[0].s)


class State:
    def __init__(self):
        self.heap = {}
        self.pc = []
        self.trace = []
        self.frame = {}
        self.this = None
        self.script = []
        self.pos = 0
        self.exits = []      # loop exit indices (poly)
        self.locks = ()
        self._ctx = None

    def clone(self):
        s = State()
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.trace = list(self.trace)
        s.frame = dict(self.frame)
        s.this = self.this
        s.script = list(self.script)
        s.pos = self.pos
        s.exits = list(self.exits)
        s.locks = self.locks
        s._ctx = self._ctx
        return s

    def assume(self, c):
        if c.const() == 1:
            return
        self.pc = self.pc + [c]
        self._ctx = None

    def ctx(self):
        if self._ctx is None:
            self._ctx = Ctx(self.pc, RULES)
        return self._ctx


RULES = []
GHOSTS = set()      # names of contract sequences
_oid = itertools.count(1)


class Obl:
    __slots__ = ('name', 'hyps', 'kind', 'payload', 'loc', 'status', 'by', 'info', 'rules')

    def __init__(self, name, hyps, kind, payload, loc=None, rules=()):
        self.name, self.hyps, self.kind, self.payload, self.loc = name, hyps, kind, payload, loc
        self.status = None
        self.by = None
        self.info = None
        self.rules = rules

    def key(self):
        return (self.name, self.kind, tuple(h.key for h in self.hyps), self.payload.key)


INT_TYPES = {'int', 'long', 'unsigned int', 'unsigned long', 'long long', 'unsigned long long', 'short',
             'unsigned short', 'char', 'unsigned char', 'signed char', 'size_t'}


NARROW = {'unsigned char': (8, 0), 'signed char': (8, 1), 'char': (8, 1), 'unsigned short': (16, 0), 'short': (16, 1)}


def strip_type(t):
    t = t.strip()
    while True:
        u = t
        if t.endswith('&&'):
            t = t[:-2].strip()
        elif t.endswith('&'):
            t = t[:-1].strip()
        if t.startswith('const '):
            t = t[6:]
        if t.endswith(' const'):
            t = t[:-6]
        if t.startswith('volatile '):
            t = t[9:]
        if t == u:
            return t


def is_int_type(t):
    return strip_type(t) in INT_TYPES or strip_type(t).startswith('ldaplusplus') and False


def is_float_type(t):
    return strip_type(t) in ('double', 'float', 'long double')


def base_name(fn):
    """last component of a qualified name, aware of templates"""
    depth = 0
    i = len(fn) - 1
    m = re.search(r'operator\s*[^\w\s].*$', fn)
    if m and '::' not in m.group(0):
        k = fn.rfind('operator')
        return fn[k:]
    m = re.search(r'::operator (.*)$', fn)
    if m:
        pass
    while i >= 0:
        c = fn[i]
        if c == '>':
            depth += 1
        elif c == '<':
            depth -= 1
        elif c == ':' and depth == 0 and fn[i - 1] == ':':
            return fn[i + 1:]
        i -= 1
    return fn


class Exec:
    def __init__(self, prog):
        self.prog = prog
        self.obls = []
        self.okeys = set()
        self.quiet = 0
        self.contracts = {}     # qualified name -> handler(ex, st, fn, args) -> value or NotImplemented
        self.models = []        # (regex, handler)
        self.ghosts = []        # ghost sequences available to loops
        self.loop_log = []
        self.inlined = set()
        self.used_contracts = set()
        self.direct = {}        # (class of an opaque object, method) -> handler of a non-virtual method with a body
        self.cur_fn = []
        self.virtuals = {}      # opaque class handlers: method -> handler
        self.notes = set()
        self.max_depth = 40
        self.loop_stack = []
        self.mismatch = []
        self.used_ghosts = set()
        import eigen_models, std_models
        eigen_models.install(self)
        std_models.install(self)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, name, kind, payload, loc=None):
        if self.quiet:
            return
        if kind == 'cond' and payload.const() == 1:
            # trivially true obligations are still counted
            pass
        o = Obl(name, list(st.pc), kind, payload, loc, list(RULES))
        k = o.key()
        if k in self.okeys:
            return
        self.okeys.add(k)
        self.obls.append(o)

    # ------------------------------------------------------------ heap
    def alloc(self, st, v):
        o = 'o%d' % next(_oid)
        st.heap[o] = v
        return o

    def load(self, st, x):
        """rvalue of x"""
        if isinstance(x, Ref):
            v = st.heap[x.oid]
            if isinstance(v, (Ref, ElemRef)):
                return self.load(st, v)
            if isinstance(v, Arr) and v.pins:
                return self.unpinned(st, v)
            return v
        if isinstance(x, ElemRef):
            return x.mat.el(st, x.i, x.j)
        if isinstance(x, ArrElem):
            return self.arr_get(st, x.oid, x.i)
        if isinstance(x, LVal):
            return x.get(self, st)
        return x

    def arr_get(self, st, oid, i):
        a = st.heap[oid]
        if a.items is not None:
            c = P(i).const()
            if c is None:
                return table(a.items, i)
            if not (0 <= c < len(a.items)):
                raise Unsupported('array index out of range')
            it = a.items[int(c)]
            return self.load(st, it) if isinstance(it, Ref) else it
        mp = {'ri_': P(i)}
        if a.mat is not None:
            m = a.mat
            for k, o in a.pins:
                if k == P(i):
                    return st.heap[o]
            if a.pins:
                m = self.unpinned(st, a).mat
            k = {'ki_': P(i)}
            return MatVal(subst(m.rows, k), subst(m.cols, k), subst(m.p, k), subst(m.d, k), m.s)
        return Num(subst(a.p, mp), a.s, subst(a.d, mp))

    def unpinned(self, st, a):
        """the value of a vector of matrices, elements with an object of their own included"""
        m = a.mat
        for i, o in a.pins:
            e, v = ind_eq(V('ki_') - i), st.heap[o]
            mix = lambda x, y: e * x + (ONE - e) * y if x != y else x
            m = MatVal(mix(v.rows, m.rows), mix(v.cols, m.cols), mix(v.p, m.p), mix(v.d, m.d), m.s)
        return Arr(a.size, None, a.p, a.d, a.s, a.et, m)

    def apart(self, st, i, pins):
        for k, _ in pins:
            if not st.ctx().entails(ONE - ind_eq(k - P(i))):
                raise Unsupported('two references into a vector of matrices that may be the same element')

    def pin(self, st, oid, i):
        """give element i of a vector of matrices an object of its own"""
        a = st.heap[oid]
        for k, o in a.pins:
            if k == P(i):
                return Ref(o)
        self.apart(st, i, a.pins)
        o = self.alloc(st, self.arr_get(st, oid, i))
        st.heap[oid] = Arr(a.size, None, a.p, a.d, a.s, a.et, a.mat, a.pins + ((P(i), o),))
        return Ref(o)

    # ------------------------------------------------------------ choices
    def choose(self, st, c):
        """branch on 0/1 poly c; adds it (or its negation) to the path condition"""
        k = c.const()
        if k is not None:
            return k != 0
        c = simp(c, st.ctx())
        k = c.const()
        if k is not None:
            return k != 0
        if st.ctx().entails(c):
            return True
        if st.ctx().entails(ONE - c):
            return False
        if st.pos < len(st.script):
            b = st.script[st.pos]
        else:
            b = True
            st.script.append(True)
        st.pos += 1
        st.assume(c if b else ONE - c)
        return b

    def explore(self, fn, st0, limit=256):
        """run fn(st) for every feasible decision script; returns [(st, outcome, value)]"""
        res = []
        work = [[]]
        while work:
            script = work.pop()
            st = st0.clone()
            st.script = list(script)
            st.pos = 0
            try:
                v = fn(st)
                out = ('normal', v)
            except BreakEx:
                out = ('break', None)
            except ContinueEx:
                out = ('continue', None)
            except ReturnEx as r:
                out = ('return', r.v)
            except ThrowEx as t:
                out = ('throw', t)
            except Infeasible:
                out = None
            for k in range(len(script), len(st.script)):
                work.append(st.script[:k] + [False])
            used = len(st.script)
            st.script = list(st0.script)
            st.pos = st0.pos
            if out is not None:
                res.append((st, out[0], out[1]))
            if len(res) > limit:
                raise Unsupported('too many paths')
        return res

    # ------------------------------------------------------------ merging
    def ite_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Num) and isinstance(b, Num):
            if a.p == b.p and a.d == b.d:
                return a
            return Num(c * a.p + (ONE - c) * b.p, a.s, c * a.d + (ONE - c) * b.d)
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            return BoolV(c * a.p + (ONE - c) * b.p, c * a.d + (ONE - c) * b.d)
        if isinstance(a, MatVal) and isinstance(b, MatVal):
            if a.rows == b.rows and a.cols == b.cols:
                return MatVal(a.rows, a.cols, c * a.p + (ONE - c) * b.p, c * a.d + (ONE - c) * b.d, a.s)
            return MatVal(c * a.rows + (ONE - c) * b.rows, c * a.cols + (ONE - c) * b.cols, c * a.p + (ONE - c) * b.p,
                          c * a.d + (ONE - c) * b.d, a.s)
        if isinstance(a, Arr) and isinstance(b, Arr) and a.mat is not None and b.mat is not None and a.pins == b.pins:
            return Arr(c * a.size + (ONE - c) * b.size, None, a.p, a.d, a.s, a.et, self.ite_val(c, a.mat, b.mat), a.pins)
        if isinstance(a, Arr) and isinstance(b, Arr) and a.items is None and b.items is None and a.mat is None and b.mat is None:
            return Arr(c * a.size + (ONE - c) * b.size, None, c * a.p + (ONE - c) * b.p, c * a.d + (ONE - c) * b.d, a.s, a.et)
        if type(a) is type(b):
            if isinstance(a, (Ptr, Opaque, Str, EPtr)) and a == b or type(a).__name__ in ('Content', 'Stream', 'UnionV', 'DataPtr') and a == b:
                return a
            if isinstance(a, Ref) and a.oid == b.oid:
                return a
            if isinstance(a, Struct) and a.cls == b.cls and a.fields == b.fields:
                return a
            if isinstance(a, Void):
                return a
            if isinstance(a, Arr) and a.items is not None and b.items is not None and a.items == b.items:
                return a
        raise CannotMerge('%r / %r' % (a, b))

    def merge(self, base, outs):
        """merge states (same outcome kind) reached from base; returns (state, value)"""
        if len(outs) == 1:
            return outs[0][0], outs[0][2]
        n0 = len(base.pc)
        conds = []
        for st, k, v in outs:
            c = ONE
            for h in st.pc[n0:]:
                c = c * h
            conds.append(c)
        ref = outs[0][0]
        for st, _, _ in outs[1:]:
            if len(st.trace) != len(ref.trace) or any(x is not y and x != y for x, y in zip(st.trace, ref.trace)):
                raise CannotMerge('trace')
            if st.locks != ref.locks:
                raise CannotMerge('locks')
        m = base.clone()
        m.trace = list(ref.trace)
        m.locks = ref.locks
        keys = set()
        for st, _, _ in outs:
            keys |= st.heap.keys()
        # last alternative acts as default
        for k in keys:
            vals = [st.heap.get(k) for st, _, _ in outs]
            if any(v is None for v in vals):
                if k.startswith('file!') and not k[5:].isdigit():
                    raise CannotMerge('file')
                m.heap[k] = next(v for v in vals if v is not None)
                continue
            if any(isinstance(v, Arr) and v.pins for v in vals):
                # a reference made in one of the paths is out of scope
                common = tuple(p for p in vals[0].pins if all(p in v.pins for v in vals))
                for j, v in enumerate(vals):
                    if v.pins != common:
                        w = self.unpinned(outs[j][0], v)
                        vals[j] = Arr(w.size, None, w.p, w.d, w.s, w.et, w.mat, common)
            v = vals[-1]
            for c, w in zip(conds[:-1], vals[:-1]):
                if w is v:
                    continue
                v = self.ite_val(c, w, v)
            m.heap[k] = v
        val = outs[-1][2]
        for c, o in zip(conds[:-1], outs[:-1]):
            if o[2] is None and val is None:
                continue
            val = self.ite_val(c, o[2], val)
        # frames: names declared in base only
        return m, val

    # ------------------------------------------------------------ statements
    def block(self, st, n):
        for s in n.get('c', []):
            self.stmt(st, s)

    def stmt(self, st, n):
        if n is None:
            return
        k = n['k']
        m = getattr(self, 's_' + k, None)
        if m:
            return m(st, n)
        # expression statement
        self.eval(st, n)

    def s_CompoundStmt(self, st, n):
        # destructors of scoped guards: handled by std models through 'guards'
        saved = dict(st.frame)
        glen = len(st.frame.get('__guards__', ()))
        try:
            self.block(st, n)
        finally:
            g = st.frame.get('__guards__', ())
            rel = g[glen:]
            if rel:
                for x in reversed(rel):
                    x(self, st)
                st.frame['__guards__'] = g[:glen]

    def s_NullStmt(self, st, n):
        pass

    def s_DeclStmt(self, st, n):
        for d in n['d']:
            if d['k'] == 'VarDecl':
                self.declare(st, d)
            elif d['k'] == 'CXXRecord' and d.get('union'):
                st.frame['rec:' + strip_type(d['t'])] = d

    def declare(self, st, d):
        t = d['t']
        c = d.get('c')
        if d.get('static') and not re.match(r'const\b|.*\bconst$', t):
            raise Unsupported('static local variable ' + d['n'])
        if d.get('isref'):
            x = self.eval(st, c[0])
            st.frame[d['id']] = self.bind_ref(st, x)
            return
        if c:
            v = self.eval_init(st, c[0], t)
        else:
            v = self.default_value(st, t)
        o = self.alloc(st, v)
        st.frame[d['id']] = Ref(o)
        self.on_declare(st, d, t, o, v)

    def on_declare(self, st, d, t, o, v):
        pass

    def bind_ref(self, st, x):
        """reference binding: keep lvalues, materialise temporaries"""
        if isinstance(x, ArrElem) and x.mut and getattr(st.heap[x.oid], 'mat', None) is not None:
            return self.pin(st, x.oid, x.i)
        if isinstance(x, (Ref, ElemRef, ArrElem, LVal)):
            return x
        return Ref(self.alloc(st, x))

    def eval_init(self, st, n, t):
        x = self.eval(st, n)
        return self.convert(st, x, t)

    def convert(self, st, x, t):
        """value of static type t initialised from x (copy)"""
        tt = strip_type(t)
        if t.strip().endswith('&'):
            return x
        if tt.startswith(('Eigen::Matrix<', 'Eigen::Array<')):
            m = self.as_mat(st, x)
            return self.materialize(st, m, int_elem=self.elem_sort(tt))
        v = self.load(st, x)
        if isinstance(v, MatVal) and tt.startswith('Eigen::'):
            return self.as_mat(st, x)
        if isinstance(v, Struct):
            return self.copy_struct(st, v)
        if isinstance(v, Arr):
            return self.copy_arr(st, v)
        if isinstance(v, BoolV) and (is_int_type(tt) or is_float_type(tt)):
            return Num(v.p, 'I' if is_int_type(tt) else 'R', v.d)
        if isinstance(v, Num):
            if is_float_type(tt) and v.s == 'I':
                return Num(v.p, 'R', v.d)
        return v

    def elem_sort(self, tt):
        m = re.match(r'Eigen::(?:Matrix|Array)<([^,]+),', tt)
        return 'I' if m and m.group(1).strip() in INT_TYPES else 'R'

    def copy_struct(self, st, v):
        f = {}
        for k, o in v.fields.items():
            w = st.heap[o] if not isinstance(o, Ref) else None
            if w is None:
                f[k] = o
                continue
            if isinstance(w, Struct):
                w = self.copy_struct(st, w)
            elif isinstance(w, Arr):
                w = self.copy_arr(st, w)
            f[k] = self.alloc(st, w)
        return Struct(v.cls, f)

    def copy_arr(self, st, a):
        if a.items is None:
            return a
        items = []
        for it in a.items:
            if isinstance(it, Ref):
                w = st.heap[it.oid]
                if isinstance(w, Struct):
                    w = self.copy_struct(st, w)
                items.append(Ref(self.alloc(st, w)))
            else:
                items.append(it)
        return Arr(a.size, items, et=a.et)

    def default_value(self, st, t):
        tt = strip_type(t)
        if is_int_type(tt):
            return Num(fresh('uninit'), 'I', ZERO)
        if is_float_type(tt):
            return Num(fresh('uninit', 'R'), 'R', ZERO)
        if tt == 'bool':
            return BoolV(ind_bool('uninit%d' % next(_oid)), ZERO)
        if tt.startswith('Eigen::Matrix<'):
            return self.default_mat(tt)
        import std_io
        u = std_io.union_type(self, st, tt)
        if u is not None:
            return std_io.new_union(self, st, u)
        if tt in self.prog.records:
            return self.new_struct(st, tt)
        m = re.match(r'(.*?)\s*\[(\d+)\]$', tt)
        if m and int(m.group(2)) <= 256 and (is_int_type(m.group(1)) or is_float_type(m.group(1))):
            return Arr(int(m.group(2)), [self.default_value(st, m.group(1)) for _ in range(int(m.group(2)))], et=m.group(1))
        v = self.std_default(st, tt)
        if v is not None:
            return v
        raise Unsupported('default value of ' + tt[:80])

    def std_default(self, st, tt):
        return None

    def default_mat(self, tt):
        m = re.match(r'Eigen::Matrix<([^,]+), (-?\d+), (-?\d+)', tt)
        r, c = int(m.group(2)), int(m.group(3))
        return MatVal(0 if r < 0 else r, 0 if c < 0 else c, ZERO, ONE, self.elem_sort(tt))

    def class_fields(self, cls):
        """all fields incl. bases: list of (name, type, init)"""
        r = self.prog.records.get(cls)
        out = []
        if r is None:
            return out
        for b in r['bases']:
            out += self.class_fields(b)
        for f in r['fields']:
            out.append((f['n'], f['t'], f.get('init')))
        return out

    def bases(self, cls):
        r = self.prog.records.get(cls)
        if not r:
            return []
        out = []
        for b in r['bases']:
            out.append(b)
            out += self.bases(b)
        return out

    def new_struct(self, st, cls, run_ctor=True):
        f = {}
        for n, t, init in self.class_fields(cls):
            f[n] = self.alloc(st, Opaque('uninit-field:%s' % n, t))
        return Struct(cls, f)

    def s_IfStmt(self, st, n):
        if n.get('condvar'):
            raise Unsupported('if with declaration')
        init = n.get('init')
        if init and init[0]:
            self.stmt(st, init[0])
        c = self.eval_bool(st, n['cond'][0])
        then, els = n['then'][0], (n['else'][0] if n.get('else') else None)
        k = self.decided(st, c)
        if k is True:
            return self.stmt(st, then)
        if k is False:
            return self.stmt(st, els)
        c = simp(c, st.ctx())
        # try to merge
        try:
            self.quiet += 1
            try:
                outs = []
                s1 = st.clone()
                s1.assume(c)
                outs1 = self.explore(lambda s: self.stmt(s, then), s1)
                s2 = st.clone()
                s2.assume(ONE - c)
                outs2 = self.explore(lambda s: self.stmt(s, els), s2)
                outs = outs1 + outs2
                if any(o[1] != 'normal' for o in outs):
                    raise CannotMerge('control')
                m, _ = self.merge(st, [(o[0], o[1], None) for o in outs])
            finally:
                self.quiet -= 1
            if not self.quiet:
                # obligations of both branches
                self.explore(lambda s: self.stmt(s, then), s1)
                self.explore(lambda s: self.stmt(s, els), s2)
            st.heap = m.heap
            st.trace = m.trace
            return
        except CannotMerge:
            pass
        b = self.choose(st, c)
        self.stmt(st, then if b else els)

    def decided(self, st, c):
        k = c.const()
        if k is not None:
            return k != 0
        if st.ctx().entails(c):
            return True
        if st.ctx().entails(ONE - c):
            return False
        return None

    def eval_bool(self, st, n):
        v = self.load(st, self.eval(st, n))
        v = self.to_bool(st, v)
        self.oblige_def(st, v.d, 'branch condition defined', n)
        return v.p

    def to_bool(self, st, v):
        if isinstance(v, BoolV):
            return v
        if isinstance(v, Num):
            return BoolV(ONE - ind_eq(v.p), v.d)
        if isinstance(v, Ptr):
            return BoolV(ONE if v.oid is not None else ZERO)
        raise Unsupported('bool of %r' % (v,))

    def oblige_def(self, st, d, what, n=None):
        if d.const() == 1:
            return
        self.oblige(st, what, 'cond', d, n and n.get('l'))

    def s_ReturnStmt(self, st, n):
        c = n.get('c')
        if not c or c[0] is None:
            raise ReturnEx(VOID)
        x = self.eval(st, c[0])
        rt = st.frame.get('__rt__', '')
        if not rt.strip().endswith('&'):
            x = self.convert(st, x, rt)
        raise ReturnEx(x)

    def s_BreakStmt(self, st, n):
        raise BreakEx()

    def s_ContinueStmt(self, st, n):
        raise ContinueEx()

    def s_ForStmt(self, st, n):
        import loops
        init = n.get('init')
        if init and init[0]:
            self.stmt(st, init[0])
        loops.run(self, st, n['cond'][0] if n.get('cond') else None, n['inc'][0] if n.get('inc') else None, n['body'][0], n)

    def s_WhileStmt(self, st, n):
        import loops
        c = n['c']
        loops.run(self, st, c[0], None, c[1], n)

    def s_DoStmt(self, st, n):
        import loops
        body, cond = n['c']
        # first iteration, then while
        try:
            self.stmt(st, body)
        except ContinueEx:
            pass
        except BreakEx:
            return
        loops.run(self, st, cond, None, body, n)

    def s_SwitchStmt(self, st, n):
        cs = n['c']
        cond, body = cs[-2], cs[-1]
        v = self.load(st, self.eval(st, cond))
        if not isinstance(v, Num):
            raise Unsupported('switch')
        flat = []

        def add(s):
            if s['k'] == 'CaseStmt':
                flat.append(('case', self.load(st, self.eval(st, s['c'][0])).p))
                add(s['c'][-1])
            elif s['k'] == 'DefaultStmt':
                flat.append(('default', None))
                add(s['c'][-1])
            else:
                flat.append(('stmt', s))
        for s in body['c']:
            add(s)
        start = None
        for i, (k, x) in enumerate(flat):
            if k == 'case':
                if self.choose(st, ind_eq(v.p - x)):
                    start = i
                    break
        if start is None:
            for i, (k, x) in enumerate(flat):
                if k == 'default':
                    start = i
        if start is None:
            return
        try:
            for k, x in flat[start:]:
                if k == 'stmt':
                    self.stmt(st, x)
        except BreakEx:
            pass

    def s_CXXTryStmt(self, st, n):
        import std_io
        try:
            self.stmt(st, n['c'][0])
        except ThrowEx as e:
            for h in n['c'][1:]:
                t = strip_type(h.get('ct') or '') if isinstance(h.get('ct'), str) else ''
                if t == '' or t == e.t or t in std_io.THROWN.get(e.t, ()):
                    return self.stmt(st, h['body'][0])
            raise

    def s_CXXForRangeStmt(self, st, n):
        import loops
        rng = self.eval(st, n['range'][0])
        loops.run_range(self, st, n['var']['v'][0], rng, n['body'][0], n)

    # ------------------------------------------------------------ expressions
    def eval(self, st, n):
        m = getattr(self, 'e_' + n['k'], None)
        if m is None:
            raise Unsupported('expression ' + n['k'])
        return m(st, n)

    def rv(self, st, n):
        return self.load(st, self.eval(st, n))

    def e_IntegerLiteral(self, st, n):
        return Num(int(n['v']), 'I')

    def e_CharacterLiteral(self, st, n):
        return Num(int(n['v']), 'I')

    def e_FloatingLiteral(self, st, n):
        src = n.get('src')
        if src:
            try:
                return Num(Q(src.rstrip('fFlL')), 'R')
            except ValueError:
                pass
        return Num(Q(float.fromhex(n['hex'])), 'R')

    def e_CXXBoolLiteralExpr(self, st, n):
        return BoolV(ONE if n['v'] == '1' else ZERO)

    def e_StringLiteral(self, st, n):
        return Str(n['bytes'])

    def e_CXXNullPtrLiteralExpr(self, st, n):
        return Ptr(None)

    def e_GNUNullExpr(self, st, n):
        return Ptr(None)

    def e_CXXThisExpr(self, st, n):
        return Ptr(st.this)

    def e_DeclRefExpr(self, st, n):
        if 'fn' in n:
            return Opaque('fn:' + n['mg'], '', n)
        if 'ev' in n:
            return Num(int(n['ev']), 'I')
        x = st.frame.get(n['id'])
        if x is None:
            return self.global_ref(st, n)
        return x

    def global_ref(self, st, n):
        q = n.get('qn') or n['n']
        g = self.prog.globals.get(q) or self.prog.globals.get(n['id'])
        h = self.global_models.get(q) if hasattr(self, 'global_models') else None
        if h:
            return h(self, st, n)
        if n['n'] == 'npos':
            return Num(2 ** 64 - 1, 'I')
        if g is not None and g.get('c') is not None:
            # constants with simple initialisers
            if not re.match(r'const\b|.*\bconst$', g['t']):
                raise Unsupported('global variable ' + n['n'])
            return Ref(self.alloc(st, self.eval_init(st, g['c'][0], g['t'])))
        raise Unsupported('unbound variable ' + n['n'])

    def e_MemberExpr(self, st, n):
        base = n['c'][0]
        b = self.eval(st, base)
        if n.get('arrow'):
            b = self.load(st, b)
            if isinstance(b, Ptr):
                if b.oid is None:
                    self.oblige(st, 'null dereference', 'cond', ZERO, n.get('l'))
                    raise Infeasible()
                b = Ref(b.oid)
        if 'fn' in n:
            raise Unsupported('member function value')
        return self.field(st, b, n['n'])

    def field(self, st, b, name):
        v = self.load(st, b)
        if isinstance(v, Ptr):
            v = st.heap[v.oid]
        if type(v).__name__ == 'UnionV' or isinstance(v, Opaque) and v.cls == 'stale' and isinstance(b, Ref):
            import std_io
            fs = v.fields if not isinstance(v, Opaque) else v.info['union'].fields if v.info and 'union' in v.info else None
            if fs and name in fs:
                return std_io.union_field(self, st, b, v, name, fs)
        if isinstance(v, Struct):
            if name not in v.fields:
                raise Unsupported('no field %s in %s' % (name, v.cls))
            o = v.fields[name]
            if isinstance(o, Ref):
                return o
            w = st.heap[o]
            if isinstance(w, (Ref, ElemRef)):   # reference member
                return w
            return Ref(o)
        if isinstance(v, Opaque) and v.info and name in v.info:
            return v.info[name]
        raise Unsupported('field %s of %r' % (name, v))

    def e_ParenExpr(self, st, n):
        return self.eval(st, n['c'][0])

    def e_MaterializeTemporaryExpr(self, st, n):
        x = self.eval(st, n['c'][0])
        return x

    def e_CXXDefaultArgExpr(self, st, n):
        return self.eval(st, n['c'][0])
    e_CXXDefaultInitExpr = e_CXXDefaultArgExpr
    e_CXXFunctionalCastExpr = e_CXXStaticCastExpr = e_CStyleCastExpr = None

    def e_ImplicitCastExpr(self, st, n):
        ck = n['cast']
        if ck == 'ArrayToPointerDecay':
            x = self.eval(st, n['c'][0])
            if isinstance(x, Ref) and isinstance(st.heap.get(x.oid), Arr):
                return EPtr(x.oid, ZERO)
            return x
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ArrayToPointerDecay', 'FunctionToPointerDecay',
                  'BaseToDerived', 'BitCast', 'ConstructorConversion', 'LValueBitCast'):
            return self.eval(st, n['c'][0])
        if ck == 'LValueToRValue':
            return self.load(st, self.eval(st, n['c'][0]))
        if ck == 'IntegralCast':
            v = self.rv(st, n['c'][0])
            if isinstance(v, BoolV):
                return Num(v.p, 'I', v.d)
            return self.int_cast(st, v, n)
        if ck == 'IntegralToFloating':
            v = self.rv(st, n['c'][0])
            return Num(v.p, 'R', v.d)
        if ck == 'FloatingCast':
            v = self.rv(st, n['c'][0])
            return v
        if ck == 'FloatingToIntegral':
            v = self.rv(st, n['c'][0])
            if v.p.is_int():
                return Num(v.p, 'I', v.d)
            return Num(app('trunc', v.p, sort='I'), 'I', v.d)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.to_bool(st, self.rv(st, n['c'][0]))
        if ck == 'UserDefinedConversion':
            return self.eval(st, n['c'][0])
        if ck == 'ToVoid':
            self.eval(st, n['c'][0])
            return VOID
        if ck in ('NullToPointer',):
            return Ptr(None)
        raise Unsupported('cast ' + ck)

    def int_cast(self, st, v, n):
        if isinstance(v, Num):
            c = v.p.const()
            w = NARROW.get(strip_type(n['t']))
            if w and c is None:
                f = NARROW.get(strip_type(n['c'][0]['t'])) if 't' in n['c'][0] else None
                if f is None or f[0] > w[0]:
                    raise Unsupported('a number cut down to ' + n['t'])
                return Num(v.p, 'I', v.d)
            if w:
                c = int(c) % (1 << w[0])
                return Num(c - (1 << w[0]) if w[1] and c >= 1 << (w[0] - 1) else c, 'I', v.d)
            return Num(v.p, 'I', v.d)
        return v

    e_CXXFunctionalCastExpr = e_CXXStaticCastExpr = e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_CXXDynamicCastExpr = e_ImplicitCastExpr

    def e_UnaryOperator(self, st, n):
        op = n['op']
        if op in ('++', '--'):
            x = self.eval(st, n['c'][0])
            v = self.load(st, x)
            if not isinstance(v, Num):
                raise Unsupported('++ on %r' % (v,))
            w = Num(v.p + (1 if op == '++' else -1), v.s, v.d)
            self.store(st, x, w)
            return v if n.get('post') else x
        if op == '*':
            v = self.rv(st, n['c'][0])
            return self.deref(st, v, n)
        if op == '&':
            x = self.eval(st, n['c'][0])
            if isinstance(x, Ref):
                return Ptr(x.oid)
            if isinstance(x, ArrElem):
                a = st.heap[x.oid]
                if isinstance(a, Arr) and a.items is not None and P(x.i).const() is not None and 0 <= P(x.i).const() < len(a.items) \
                        and isinstance(a.items[int(P(x.i).const())], Ref):
                    return Ptr(a.items[int(P(x.i).const())].oid)
                return EPtr(x.oid, x.i)
            if isinstance(x, ElemRef):
                return x
            raise Unsupported('address of %r' % (x,))
        v = self.rv(st, n['c'][0])
        if op == '-':
            return Num(-v.p, v.s, v.d)
        if op == '+':
            return v
        if op == '!':
            b = self.to_bool(st, v)
            return BoolV(ONE - b.p, b.d)
        if op == '~':
            raise Unsupported('~')
        raise Unsupported('unary ' + op)

    def deref(self, st, v, n=None):
        if isinstance(v, Ptr):
            if v.oid is None:
                self.oblige(st, 'null dereference', 'cond', ZERO, n and n.get('l'))
                raise Infeasible()
            return Ref(v.oid)
        if isinstance(v, EPtr):
            return ArrElem(v.oid, v.i)
        if isinstance(v, (ArrElem, ElemRef)):
            return v
        if isinstance(v, Opaque) and v.name.startswith('fn:'):
            return v
        raise Unsupported('deref %r' % (v,))

    def e_BinaryOperator(self, st, n):
        op = n['op']
        a, b = n['c']
        if op == '=':
            x = self.eval(st, a)
            y = self.rv(st, b)
            self.store(st, x, self.convert(st, y, a['t']) if not isinstance(y, Mat) else y)
            return x
        if op == ',':
            self.eval(st, a)
            return self.eval(st, b)
        if op in ('&&', '||'):
            l = self.to_bool(st, self.rv(st, a))
            k = l.p.const()
            if k is not None:
                if (op == '&&') == (k == 0):
                    return l
                return self.to_bool(st, self.rv(st, b))
            # evaluate rhs under lhs (or its negation); pure merge
            s2 = st.clone()
            s2.assume(l.p if op == '&&' else ONE - l.p)
            h0 = dict(s2.heap)
            t0 = len(s2.trace)
            r = self.to_bool(s2, self.load(s2, self.eval(s2, b)))
            pure = len(s2.trace) == t0 and all(s2.heap[k2] is h0[k2] for k2 in h0)
            if not pure:
                if self.choose(st, l.p):
                    return self.to_bool(st, self.rv(st, b)) if op == '&&' else BoolV(ONE)
                return BoolV(ZERO) if op == '&&' else self.to_bool(st, self.rv(st, b))
            if op == '&&':
                return BoolV(l.p * r.p, l.d * ((ONE - l.p) + l.p * r.d))
            return BoolV(l.p + (ONE - l.p) * r.p, l.d * (l.p + (ONE - l.p) * r.d))
        x = self.rv(st, a)
        y = self.rv(st, b)
        return self.binop(st, op, x, y, n)

    def e_CompoundAssignOperator(self, st, n):
        op = n['op'][:-1]
        x = self.eval(st, n['c'][0])
        y = self.rv(st, n['c'][1])
        v = self.load(st, x)
        r = self.binop(st, op, v, y, n)
        if isinstance(v, Num) and v.s == 'I' and isinstance(r, Num) and r.s == 'R':
            if not r.p.is_int():
                r = Num(app('trunc', r.p, sort='I'), 'I', r.d)
            else:
                r = Num(r.p, 'I', r.d)
        self.store(st, x, r)
        return x

    def binop(self, st, op, x, y, n=None):
        if isinstance(x, BoolV) and op not in ('==', '!='):
            x = Num(x.p, 'I', x.d)
        if isinstance(y, BoolV) and op not in ('==', '!='):
            y = Num(y.p, 'I', y.d)
        if isinstance(x, Num) and isinstance(y, Num):
            return self.num_op(st, op, x, y, n)
        if isinstance(x, BoolV) and isinstance(y, BoolV) and op in ('==', '!='):
            e = x.p * y.p + (ONE - x.p) * (ONE - y.p)
            return BoolV(e if op == '==' else ONE - e, x.d * y.d)
        if isinstance(x, (Ptr, Opaque)) and isinstance(y, (Ptr, Opaque)) and op in ('==', '!='):
            e = self.ptr_eq(st, x, y)
            return BoolV(e if op == '==' else ONE - e)
        r = self.binop_mem(st, op, x, y, n)
        if r is None:
            r = self.binop_ext(st, op, x, y, n)
        if r is not None:
            return r
        raise Unsupported('binop %s on %r, %r' % (op, x, y))

    def ptr_eq(self, st, x, y):
        if x == y:
            return ONE
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            return ZERO
        return ind_bool('ptreq', ) if False else ind_bool('same:%s:%s' % tuple(sorted([repr(x), repr(y)])))

    def binop_ext(self, st, op, x, y, n):
        return None

    def binop_mem(self, st, op, x, y, n):
        if isinstance(x, Num) and isinstance(y, EPtr) and op == '+':
            x, y = y, x
        if isinstance(x, EPtr) and isinstance(y, Num) and op in ('+', '-'):
            return EPtr(x.oid, P(x.i) + (y.p if op == '+' else -y.p))
        if isinstance(x, EPtr) and isinstance(y, EPtr) and x.oid == y.oid:
            return self.num_op(st, op, Num(P(x.i), 'I'), Num(P(y.i), 'I'), n)
        if (isinstance(x, Str) or isinstance(y, Str)) and op in ('==', '!='):
            import std_io
            e = std_io.str_eq(*[v if isinstance(v, Str) else Str(std_io.cstring(self, st, v)) for v in (x, y)])
            return BoolV(e if op == '==' else ONE - e)
        return None

    def num_op(self, st, op, x, y, n=None):
        s = 'I' if x.s == 'I' and y.s == 'I' else 'R'
        d = x.d * y.d if (x.d.const() != 1 or y.d.const() != 1) else ONE
        if op == '+':
            return Num(x.p + y.p, s, d)
        if op == '-':
            return Num(x.p - y.p, s, d)
        if op == '*':
            if s == 'I' and x.p.const() is None and y.p.const() is None:
                self.mul_overflow(st, x, y, n)
            return Num(x.p * y.p, s, d)
        if op == '/':
            nz = ONE - ind_eq(y.p)
            if s == 'I':
                c = y.p.const()
                if x.p.const() is not None and c:
                    q = abs(x.p.const()) // abs(c)
                    sg = 1 if (x.p.const() >= 0) == (c > 0) else -1
                    return Num(int(q) * sg, 'I', d)
                return Num(app('idiv', x.p, y.p, sort='I'), 'I', d * nz)
            return Num(x.p * inv(y.p), s, d * nz)
        if op == '%':
            if x.p.const() is not None and y.p.const():
                a, b = int(x.p.const()), int(y.p.const())
                return Num(abs(a) % abs(b) * (1 if a >= 0 else -1), 'I', d)
            return Num(app('imod', x.p, y.p, sort='I'), 'I', d * (ONE - ind_eq(y.p)))
        if op == '<':
            return BoolV(self.lt(x, y), d)
        if op == '>':
            return BoolV(self.lt(y, x), d)
        if op == '<=':
            return BoolV(ind_le(x.p - y.p), d)
        if op == '>=':
            return BoolV(ind_le(y.p - x.p), d)
        if op == '==':
            return BoolV(ind_eq(x.p - y.p), d)
        if op == '!=':
            return BoolV(ONE - ind_eq(x.p - y.p), d)
        if op in ('<<', '>>', '&', '|', '^'):
            a, b = x.p.const(), y.p.const()
            if a is not None and b is not None:
                a, b = int(a), int(b)
                return Num({'<<': a << b, '>>': a >> b, '&': a & b, '|': a | b, '^': a ^ b}[op], 'I', d)
            return Num(app('bit' + {'<<': 'shl', '>>': 'shr', '&': 'and', '|': 'or', '^': 'xor'}[op], x.p, y.p, sort='I'), 'I', d)
        raise Unsupported('operator ' + op)

    def lt(self, x, y):
        p = x.p - y.p
        if p.is_int():
            return ind_le(p + 1)
        return ONE - ind_le(-p)

    def mul_overflow(self, st, x, y, n):
        t = strip_type(n['t']) if n is not None and 't' in n else ''
        if t == 'int':
            self.oblige(st, 'no int overflow in multiplication', 'cond', ind_le(x.p * y.p - (2 ** 31 - 1)), n.get('l'))

    def e_ConditionalOperator(self, st, n):
        c, a, b = n['c']
        cp = self.eval_bool(st, c)
        k = self.decided(st, cp)
        if k is True:
            return self.eval(st, a)
        if k is False:
            return self.eval(st, b)
        try:
            outs = []
            for br, cc in ((a, cp), (b, ONE - cp)):
                s = st.clone()
                s.assume(cc)
                outs += [(o[0], o[1], o[2]) for o in self.explore(lambda s_, br=br: self.rv(s_, br), s)]
            if any(o[1] != 'normal' for o in outs):
                raise CannotMerge('control')
            m, v = self.merge(st, outs)
            st.heap, st.trace = m.heap, m.trace
            return v
        except CannotMerge:
            return self.eval(st, a if self.choose(st, cp) else b)

    # ------------------------------------------------------------ stores
    def store(self, st, x, v):
        if isinstance(x, Ref):
            old = st.heap.get(x.oid)
            if isinstance(old, (ElemRef, Ref)):
                return self.store(st, old, v)
            if isinstance(old, Num) and isinstance(v, Num) and old.s == 'R' and v.s == 'I':
                v = Num(v.p, 'R', v.d)
            if isinstance(v, (Ref, ElemRef, ArrElem)):
                v = self.load(st, v)
            st.heap[x.oid] = v
            return
        if isinstance(x, ElemRef):
            self.store_elem(st, x, v)
            return
        if isinstance(x, ArrElem):
            self.arr_set(st, x.oid, x.i, v)
            return
        if isinstance(x, LVal):
            x.put(self, st, v)
            return
        raise Unsupported('store to %r' % (x,))

    def arr_set(self, st, oid, i, v):
        a = st.heap[oid]
        if a.items is not None:
            c = P(i).const()
            if c is None:
                raise Unsupported('symbolic store to concrete array')
            items = list(a.items)
            old = items[int(c)]
            if isinstance(old, Ref):
                st.heap[old.oid] = v
            else:
                items[int(c)] = v
            st.heap[oid] = Arr(a.size, items, et=a.et)
            return
        if a.mat is not None:
            for k, o in a.pins:
                if k == P(i):
                    st.heap[o] = v
                    return
            self.apart(st, i, a.pins)
            e, m = ind_eq(V('ki_') - P(i)), a.mat
            mix = lambda x, y: e * x + (ONE - e) * y if x != y else x
            st.heap[oid] = Arr(a.size, None, a.p, a.d, a.s, a.et, MatVal(mix(v.rows, m.rows), mix(v.cols, m.cols), mix(v.p, m.p), mix(v.d, m.d), m.s), a.pins)
            return
        e = ind_eq(RI - P(i))
        st.heap[oid] = Arr(a.size, None, e * v.p + (ONE - e) * a.p, e * v.d + (ONE - e) * a.d, a.s, a.et)

    # ------------------------------------------------------------ calls
    def e_CallExpr(self, st, n):
        callee = n.get('callee')
        if callee is None:
            f = self.rv(st, n['f'][0])
            args = [self.eval(st, a) for a in n['c']]
            return self.call_value(st, f, args, n)
        if callee['fn'] in ('std::move', 'std::forward'):
            return self.eval(st, n['c'][0])
        args = None
        return self.call(st, callee, None, n['c'], n)

    def e_CXXMemberCallExpr(self, st, n):
        callee = n.get('callee')
        f = n['f'][0]
        if callee is None:
            raise Unsupported('pointer to member call')
        obj = f['c'][0]
        o = self.eval(st, obj)
        if f.get('arrow'):
            v = self.load(st, o)
            if isinstance(v, Ptr):
                o = self.deref(st, v, n)
            elif isinstance(v, Opaque):
                o = v
            else:
                o = v
        return self.call(st, callee, o, n['c'], n, qualified=bool(f.get('qualified')))

    def e_CXXOperatorCallExpr(self, st, n):
        callee = n.get('callee')
        if callee is None:
            raise Unsupported('operator without callee')
        args = n['c']
        if 'cls' in callee:
            o = self.eval(st, args[0])
            return self.call(st, callee, o, args[1:], n)
        return self.call(st, callee, None, args, n)

    def call(self, st, callee, obj, argn, n, qualified=False):
        fn = callee['fn']
        c = self.contracts.get(fn)
        if c is not None:
            args = [self.eval(st, a) for a in argn]
            r = c(self, st, callee, obj, args, n)
            if r is not NotImplemented:
                self.used_contracts.add(fn)
                return r
            return self.call_repo(st, callee, obj, args, n, qualified)
        for rx, h in self.models:
            if rx.match(fn):
                r = h(self, st, callee, obj, argn, n)
                if r is not NotImplemented:
                    return r
        args = [self.eval(st, a) for a in argn]
        return self.call_repo(st, callee, obj, args, n, qualified)

    def dyn_class(self, st, obj):
        v = self.load(st, obj) if obj is not None else None
        if isinstance(v, Ptr) and v.oid is not None:
            v = st.heap[v.oid]
        return v

    def resolve_virtual(self, st, callee, obj):
        v = self.dyn_class(st, obj)
        if isinstance(v, Struct):
            cls = v.cls
            name = base_name(callee['fn'])
            for c in [cls] + self.bases(cls):
                r = self.prog.records.get(c)
                if not r:
                    continue
                for m in r['methods']:
                    if m['mg'] == callee['mg']:
                        return self.prog.funcs.get(m['mg']), v
                    if self.overrides(m, callee['mg']):
                        f = self.prog.funcs.get(m['mg'])
                        if f is not None:
                            return f, v
            return self.prog.funcs.get(callee['mg']), v
        return None, v

    def overrides(self, m, mg, depth=0):
        if mg in m.get('over', []):
            return True
        if depth > 6:
            return False
        for o in m.get('over', []):
            for r in self.prog.records.values():
                for m2 in r['methods']:
                    if m2['mg'] == o and self.overrides(m2, mg, depth + 1):
                        return True
        return False

    def call_repo(self, st, callee, obj, args, n, qualified=False):
        f = None
        if callee.get('virt') and not qualified:
            f, v = self.resolve_virtual(st, callee, obj)
            if f is None:
                name = base_name(callee['fn'])
                if isinstance(v, Opaque):
                    h = self.virtuals.get((v.cls, name)) or self.virtuals.get(('*', name))
                    if h is not None:
                        return h(self, st, v, args, n)
                if isinstance(v, Struct):
                    h = self.virtuals.get((v.cls, name))
                    if h is not None:
                        return h(self, st, v, args, n)
                raise Unsupported('virtual call %s on %r' % (callee['fn'], v))
            c = self.contracts.get(f['fn'])
            if c is not None:
                r = c(self, st, f, obj, args, n)
                if r is not NotImplemented:
                    self.used_contracts.add(f['fn'])
                    return r
        else:
            f = self.prog.funcs.get(callee['mg'])
            if f is not None and obj is not None:
                v = obj
                while isinstance(v, (Ref, Ptr)) and v.oid is not None and v.oid in st.heap:
                    v = st.heap[v.oid]
                if isinstance(v, Opaque) and (v.cls, base_name(callee['fn'])) in self.direct:
                    return self.direct[(v.cls, base_name(callee['fn']))](self, st, v, args, n)
        if f is None:
            v = self.dyn_class(st, obj)
            if isinstance(v, Opaque):
                name = base_name(callee['fn'])
                h = self.virtuals.get((v.cls, name)) or self.virtuals.get(('*', name))
                if h is not None:
                    return h(self, st, v, args, n)
            if isinstance(v, Lam) and callee['fn'].endswith('operator()'):
                return self.call_value(st, v, args, n)
            raise Unsupported('call of %s' % callee['fn'][:150])
        if callee['fn'].endswith('operator()') and isinstance(self.dyn_class(st, obj), Lam):
            return self.call_value(st, self.dyn_class(st, obj), args, n)
        return self.invoke(st, f, obj, args, n)

    def invoke(self, st, f, obj, args, n=None):
        """inline the body of f"""
        if len(self.cur_fn) > self.max_depth:
            raise Unsupported('call depth')
        self.inlined.add(f['fn'])
        saved, sthis = st.frame, st.this
        fr = {'__rt__': f['rt']}
        if len(args) < len(f['params']):
            args = list(args)
            for p in f['params'][len(args):]:
                if not p.get('c'):
                    raise Unsupported('missing arguments')
                args.append(self.rv(st, p['c'][0]))     # default argument
        for p, a in zip(f['params'], args):
            fr[p['id']] = self.bind_param(st, p, a)
        if obj is not None:
            v = obj
            if isinstance(v, Ref):
                w = st.heap[v.oid]
                if isinstance(w, Ptr):
                    v = Ref(w.oid)
                elif isinstance(w, Ref):
                    v = w
            elif isinstance(v, Ptr):
                v = Ref(v.oid)
            elif isinstance(v, (Struct, Opaque)):
                v = Ref(self.alloc(st, v))
            if isinstance(v, Ref):
                st.this = v.oid
        st.frame = fr
        self.cur_fn.append(f['fn'])
        try:
            if f.get('ctor'):
                self.run_ctor(st, f)
            body = f['body'][0] if f.get('body') else None
            try:
                if body is not None:
                    self.stmt(st, body)
                r = VOID
            except ReturnEx as e:
                r = e.v
        finally:
            self.cur_fn.pop()
            st.frame, st.this = saved, sthis
        return r

    def bind_param(self, st, p, a):
        if p.get('isref'):
            return self.bind_ref(st, a)
        return Ref(self.alloc(st, self.convert(st, a, p['t'])))

    def run_ctor(self, st, f):
        this = st.this
        inited = set()
        cls = st.heap[this].cls
        owncls = f.get('cls') or cls
        for i in f.get('inits', []):
            c = i['c'][0] if i.get('c') else None
            if 'field' in i:
                o = st.heap[this].fields[i['field']]
                ft = dict((a, b) for a, b, _ in self.class_fields(cls)).get(i['field'], '')
                if c is None:
                    continue
                x = self.eval(st, c)
                if ft.strip().endswith('&'):
                    st.heap[o] = self.bind_ref(st, x)
                else:
                    st.heap[o] = self.convert(st, x, ft)
                inited.add(i['field'])
            elif 'base' in i or 'deleg' in i:
                if c is not None:
                    self.construct_into(st, this, c)

    def construct_into(self, st, oid, c):
        """base / delegating constructor call on existing object"""
        if c['k'] in ('CXXConstructExpr', 'CXXInheritedCtorInitExpr', 'CXXTemporaryObjectExpr'):
            callee = c['callee'] if 'callee' in c else None
            if callee is None:
                raise Unsupported('inherited ctor')
            f = self.prog.funcs.get(callee['mg'])
            if f is None:
                if callee.get('impl') or callee.get('dflt') or not callee.get('repo'):
                    self.default_init_fields(st, oid, callee.get('cls', ''))
                    return
                raise Unsupported('base ctor %s' % callee['fn'])
            args = [self.eval(st, a) for a in c['c']]
            self.invoke(st, f, Ref(oid), args)
            return
        raise Unsupported('base initialiser ' + c['k'])

    def default_init_fields(self, st, oid, cls):
        s = st.heap[oid]
        if not isinstance(s, Struct):
            return
        for n, t, init in self.class_fields(cls):
            o = s.fields.get(n)
            if o is None:
                continue
            try:
                if init:
                    st.heap[o] = self.eval_init(st, init[0], t)
                else:
                    st.heap[o] = self.default_value(st, t)
            except Unsupported:
                pass

    def e_CXXConstructExpr(self, st, n):
        callee = n['callee']
        t = strip_type(n['t'])
        args = n['c']
        r = self.construct_std(st, t, callee, args, n)
        if r is not NotImplemented:
            return r
        if (n.get('copy') or n.get('move')) and len(args) >= 1:
            x = self.eval(st, args[0])
            v = self.load(st, x)
            if isinstance(v, Struct):
                f = self.prog.funcs.get(callee['mg'])
                if f is not None and not f.get('dflt') and not f.get('impl'):
                    return self.construct_repo(st, t, f, [x])
                return self.copy_struct(st, v)
            if isinstance(v, Arr):
                return self.copy_arr(st, v)
            return v
        import std_io
        u = std_io.union_type(self, st, t)
        if u is not None and not args:
            return std_io.new_union(self, st, u)
        f = self.prog.funcs.get(callee['mg'])
        if f is not None:
            av = [self.eval(st, a) for a in args]
            return self.construct_repo(st, t, f, av)
        if t in self.prog.records:
            s = self.new_struct(st, t)
            o = self.alloc(st, s)
            self.default_init_fields(st, o, t)
            return st.heap[o]
        raise Unsupported('construct ' + t[:100])
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct_std(self, st, t, callee, args, n):
        return NotImplemented

    def construct_repo(self, st, cls, f, args):
        s = self.new_struct(st, cls)
        o = self.alloc(st, s)
        self.default_init_fields(st, o, cls)
        self.invoke(st, f, Ref(o), args)
        return st.heap[o]

    def construct_obj(self, st, cls, args):
        """construct object of repo class cls on the heap, choosing a ctor by arity; returns oid"""
        fs = [f for f in self.prog.funcs.values() if f.get('ctor') and f.get('cls') == cls and len(f['params']) == len(args)
              and not f.get('impl')]
        return fs

    def e_InitListExpr(self, st, n):
        items = [self.eval(st, c) for c in n['c'] if c is not None]
        t = strip_type(n['t'])
        import std_io
        u = std_io.union_type(self, st, t)
        if u is not None and len(items) <= 1:
            return std_io.new_union(self, st, u, self.load(st, items[0]) if items else None)
        if t in self.prog.records:
            s = self.new_struct(st, t)
            for (nm, ft, _), v in zip(self.class_fields(t), items):
                st.heap[s.fields[nm]] = self.convert(st, v, ft)
            return s
        if len(items) == 1 and (is_int_type(t) or is_float_type(t)):
            return items[0]
        vals = [self.load(st, x) for x in items]
        if len(vals) == 1 and isinstance(vals[0], Arr) and t.startswith('std::array'):
            return vals[0]
        return Arr(len(vals), vals)

    def e_CXXStdInitializerListExpr(self, st, n):
        return self.eval(st, n['c'][0])

    def e_CXXScalarValueInitExpr(self, st, n):
        t = strip_type(n['t'])
        if is_int_type(t):
            return Num(0, 'I')
        if is_float_type(t):
            return Num(0, 'R')
        if t == 'bool':
            return BoolV(ZERO)
        raise Unsupported('value init ' + t)
    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_LambdaExpr(self, st, n):
        caps = {}
        this = None
        for c in n['caps']:
            if c.get('this'):
                this = st.this
                continue
            x = self.eval(st, c['init'][0]) if c.get('init') and c['init'][0] else st.frame[c['id']]
            if c.get('byref'):
                caps[c['id']] = self.bind_ref(st, st.frame.get(c['id'], x))
            else:
                v = self.load(st, x)
                if isinstance(v, Struct):
                    v = self.copy_struct(st, v)
                caps[c['id']] = Ref(self.alloc(st, v))
        return Lam(n, caps, this if this is not None else st.this)

    def call_value(self, st, f, args, n=None):
        """call a callable value"""
        if isinstance(f, Ref):
            f = self.load(st, f)
        if isinstance(f, Ptr) and f.oid is not None:
            f = st.heap[f.oid]
        if isinstance(f, Lam):
            saved, sthis = st.frame, st.this
            fr = dict(f.caps)
            fr['__rt__'] = f.node.get('rt', '')
            for p, a in zip(f.node['params'], args):
                fr[p['id']] = self.bind_param(st, p, a)
            st.frame = fr
            if f.this is not None:
                st.this = f.this
            try:
                try:
                    self.stmt(st, f.node['body'][0])
                    return VOID
                except ReturnEx as e:
                    return e.v
            finally:
                st.frame, st.this = saved, sthis
        if isinstance(f, Struct):
            fs = [g for g in self.prog.funcs.values() if g.get('cls') == f.cls and base_name(g['fn']) == 'operator()']
            if len(fs) == 1:
                return self.invoke(st, fs[0], f, args)
        if isinstance(f, Opaque):
            if f.name.startswith('fn:'):
                g = self.prog.funcs.get(f.name[3:])
                if g is not None:
                    return self.invoke(st, g, None, args)
            h = self.virtuals.get((f.cls, 'operator()'))
            if h:
                return h(self, st, f, args, n)
        raise Unsupported('call of value %r' % (f,))

    def pure_call(self, st, f, args):
        """call f merging all its paths into one value; heap effects not allowed"""
        self_q = self.quiet
        outs = self.explore(lambda s: self.load(s, self.call_value(s, f, args)), st)
        bad = [o for o in outs if o[1] != 'normal']
        if bad:
            raise Unsupported('control flow in functor')
        if len(outs) == 1:
            v = outs[0][2]
            return v
        _, v = self.merge(st, outs)
        return v

    def e_ExprWithCleanups(self, st, n):
        return self.eval(st, n['c'][0])

    def e_CXXBindTemporaryExpr(self, st, n):
        return self.eval(st, n['c'][0])

    def e_CXXThrowExpr(self, st, n):
        c = n.get('c')
        t = c[0]['t'] if c and c[0] else ''
        raise ThrowEx(strip_type(t))

    def e_CXXNewExpr(self, st, n):
        raise Unsupported('new')

    def e_UnaryExprOrTypeTraitExpr(self, st, n):
        return Num(int(n['v']), 'I')

    def e_ArraySubscriptExpr(self, st, n):
        a = self.eval(st, n['c'][0])
        i = self.rv(st, n['c'][1])
        return self.subscript(st, a, i, n)

    def subscript(self, st, a, i, n):
        v = self.load(st, a) if isinstance(a, Ref) else a
        if isinstance(v, Arr) and isinstance(a, Ref):
            return ArrElem(a.oid, i.p)
        if isinstance(v, EPtr):
            return ArrElem(v.oid, P(v.i) + i.p)
        import std_io
        if isinstance(v, std_io.UField):
            m = re.match(r'(.*?)\s*\[(\d+)\]$', v.t)
            k = i.p.const()
            if m and std_io.type_size(m.group(1)) == 1 and k is not None:
                self.oblige(st, 'index within the array', 'cond', ONE if 0 <= k < int(m.group(2)) else ZERO, n.get('l'))
                if not 0 <= k < int(m.group(2)):
                    raise Infeasible()
                return std_io.UByte(v.oid, int(k))
        if isinstance(v, Str) and i.p.const() is not None and 0 <= i.p.const() <= len(v.segs) and std_io.known(v.segs):
            return std_io.cell_num(st, (v.segs + (0,))[int(i.p.const())])
        raise Unsupported('subscript of %r' % (v,))
