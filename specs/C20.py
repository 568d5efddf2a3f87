"""C20: the numpy format."""
#: note Obligations for all shapes, both orders, all element types and values; the number of decimal digits of each dimension is enumerated exhaustively (1..10). Assumes dimensions and their product below 2^31, a little-endian host, a file system that keeps what is written; the header text is parsed as the Python literal numpy reads. Conformance runs (against numpy itself) are bounded.
from npy import *
import conf, io, os, tempfile, shutil
import numpy as np

INST = VERIF + '/harness/inst_numpy.cpp'
TYPES = ['i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'f4', 'f8']


def values(rng, t, r, c):
    dt = np.dtype('<' + t)
    raw = rng.bytes(r * c * dt.itemsize)
    a = np.frombuffer(raw, dt).reshape(r, c).copy()
    if t[0] == 'f':
        b = rng.normal(size=(r, c)).astype(dt)
        a = np.where(rng.random((r, c)) < .7, b, a)
        a[np.isnan(a)] = np.nan
    return np.ascontiguousarray(a.astype(dt))


def shape(rng, kind, q):
    s = lambda: int(rng.choice([0, 1, 1, 2, 3, 9, 10, 11, 99, 100, 101])) if q % 5 == 0 else int(rng.integers(1, 8))
    if kind == 'V':
        return s(), 1
    if kind == 'R':
        return 1, s()
    r, c = conf.hint(rng, s(), .05, 1, 1999), s()
    return (r, c) if r * c < 2000 else (r, 1)


def same(r, k, a):
    rows = r.get('rows*', [r['rows']])[k][0, 0]
    cols = r.get('cols*', [r['cols']])[k][0, 0]
    data = r.get('data*', [r['data']])[k]
    if (rows, cols) != a.shape:
        return 'shape %s instead of %s' % ((rows, cols), a.shape)
    if bytes(data) != a.tobytes():
        return 'entries differ'


def written(arrs, kinds):
    def check(r):
        b = bytes(r['file'])
        pos = 0
        for a, k in zip(arrs, kinds):
            if b[pos:pos + 8] != b'\x93NUMPY\x01\x00':
                return 'magic or version'
            n = b[pos + 8] + 256 * b[pos + 9]
            h = b[pos + 10:pos + 10 + n]
            if len(h) != n or (n + 10) % 16 or not h.endswith(b'\n') or h.rstrip(b'\n ') + b' ' * (n - 1 - len(h.rstrip(b'\n '))) + b'\n' != h:
                return 'header is not padded to a multiple of 16 and ended by a newline'
            try:
                d = eval(h.decode('latin1'), {}, {})
            except Exception:
                return 'header is not a literal'
            if set(d) != {'descr', 'fortran_order', 'shape'} or d['shape'] != a.shape or np.dtype(d['descr']) != a.dtype:
                return 'header %r' % (d,)
            if a.shape[0] != 1 and a.shape[1] != 1 and d['fortran_order'] != (k != 'C'):
                return 'storage order'
            pos += 10 + n
            f = io.BytesIO(b[pos - 10 - n:])
            try:
                x = np.lib.format.read_array(f)
            except Exception as e:
                return 'numpy cannot read it: %s' % e
            if x.shape != a.shape or np.ascontiguousarray(x).tobytes() != a.tobytes():
                return 'numpy reads other entries'
            pos += a.nbytes
        if pos != len(b):
            return 'file length'
    return check


def read(arrs):
    def check(r):
        if len(r.get('rows*', [r.get('rows')])) != len(arrs):
            return 'number of arrays'
        for k, a in enumerate(arrs):
            e = same(r, k, a)
            if e:
                return e
    return check


def npy(a, big, fort, version=(1, 0), pad=0):
    f = io.BytesIO()
    x = a.astype(a.dtype.newbyteorder('>' if big else '<'))
    x = np.asfortranarray(x) if fort else np.ascontiguousarray(x)
    np.lib.format.write_array(f, x, version=version)
    b = f.getvalue()
    if pad:                 # a longer header is well-formed, too
        n = int.from_bytes(b[8:10], 'little')
        b = b[:8] + (n + pad).to_bytes(2, 'little') + b[10:9 + n] + b' ' * pad + b'\n' + b[10 + n:]
    return b


def conformance(rng, tier):
    import warnings
    warnings.simplefilter('ignore')
    T = conf.Tester(['d_numpy.cpp'], [], timeout=30, batch=100, extra=('-fsanitize=address',))
    tmp = tempfile.mkdtemp()
    try:
        for q in range({'quick': 120, 'thorough': 4000, 'deep': 1000}[tier]):
            n = int(rng.integers(1, 4))
            ts = [str(rng.choice(TYPES)) if q % 2 else TYPES[q // 2 % len(TYPES)] for _ in range(n)]
            ks = [str(rng.choice(list('FCVR'))) for _ in range(n)]
            arrs = [values(rng, t, *shape(rng, k, q)) for t, k in zip(ts, ks)]
            cmd = ['npwrite', n]
            for t, k, a in zip(ts, ks, arrs):
                cmd += [t, k, a.shape[0], a.shape[1], a.tobytes()]
            T.case(tuple(cmd), check=written(arrs, ks))
            # what numpy writes: both byte orders, both storage orders, one after the other
            rk = [str(rng.choice(list('FCN'))) if k in 'FC' else k for k in ks]
            blob = b''.join(npy(a, rng.random() < .5, rng.random() < .5) for a in arrs)
            cmd = ['npread', blob, n]
            for t, k in zip(ts, rk):
                cmd += [t, k]
            T.case(tuple(cmd), check=read(arrs))
            if q % 3 == 0:      # one-dimensional files
                a = values(rng, ts[0], int(rng.integers(0, 12)), 1)
                T.case(('npread', npy(a[:, 0], rng.random() < .5, False), 1, ts[0], str(rng.choice(list('FVN')))), check=read([a]))
            if q % 6 == 0:
                T.case(('npread', npy(arrs[0], rng.random() < .5, rng.random() < .5, pad=64 * int(rng.choice([1, 2, 3, 8, 700]))), 1, ts[0], 'F'), check=read([arrs[0]]))
            if q % 4 == 0:
                other = str(rng.choice([t for t in TYPES if t != ts[0]]))
                T.case(('npread', npy(arrs[0], rng.random() < .5, False), 1, other, 'F'), raises=True)
                T.case(('npread', npy(arrs[0], False, False, (2, 0)), 1, ts[0], 'F'), raises=True)
            if q % 5 == 0:
                T.case(('nppath', os.path.join(tmp, 'a.npy'), ts[0], arrs[0].shape[0], arrs[0].shape[1], arrs[0].tobytes()), check=read([arrs[0]]))
            if q == 0:
                T.case(('npread', b'', 1, 'f8', 'F'), raises=True)
        return T.finish()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


UNITS = [('byte order', u_order)] + \
    [('swap bytes %s' % t, u_swap(t)) for t in TYPES] + \
    [('write and read back %s%s' % (t, 'FC'[row]), u_roundtrip(t, row)) for t in TYPES for row in (0, 1)] + \
    [('read numpy %s%s%s %d-d' % ('<>'[big], t, 'CF'[fort], d), u_numpy(t, big, fort, d)) for t in TYPES for big in (0, 1) for fort in (0, 1) for d in (1, 2)] + \
    [('read numpy >%sF 2-d, header padded to %d' % (t, p), u_numpy(t, 1, 1, 2, p)) for t, p in (('f8', 512), ('i4', 4096))] + \
    [('refuse other than %s' % t, u_refuse(t)) for t in TYPES] + \
    [('convert %s%s to %s %d-d' % (t, 'CF'[fort], k, d), u_convert(t, k, fort, d)) for t in TYPES for k in 'FCV' for fort in (0, 1) for d in (1, 2)]
UNITS += [('save and load %s %s' % (t, k), u_wrappers(t, k)) for t in TYPES for k in 'FCV']
CHECK = Check('C20', [INST], UNITS, conformance, single='arrays of float have units of their own')
