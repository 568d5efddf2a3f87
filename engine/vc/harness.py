"""Compiles the real sources of /repo with a text-protocol driver and runs inputs through them."""
import hashlib, os, subprocess, concurrent.futures as cf, threading, tempfile, signal, time
import numpy as np
from frontend import VERIF, REPO, BUILD

HD = os.path.join(VERIF, 'harness')
FLAGS = ['-std=c++11', '-O0', '-w', '-include', HD + '/eassert.hpp', '-I' + HD, '-I' + REPO + '/include',
         '-I/usr/include/eigen3', '-DEIGEN_MAX_CPP_VER=3']


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for top in (REPO + '/include', HD):
        for d, ds, fs in os.walk(top):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.hpp', '.h')):
                    h.update(f.encode())
                    h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()


def compile_one(src, th, extra=()):
    h = hashlib.sha256((th + src + ' '.join(FLAGS) + ' '.join(extra)).encode() + open(src, 'rb').read()).hexdigest()[:24]
    o = os.path.join(BUILD, 'obj-%s-%s.o' % (os.path.basename(src).replace('.', '_'), h))
    if not os.path.exists(o):
        os.makedirs(BUILD, exist_ok=True)
        tmp = o + '.%d.tmp' % os.getpid()
        r = subprocess.run(['clang++-18'] + FLAGS + list(extra) + ['-c', src, '-o', tmp], capture_output=True, text=True, errors='replace')
        if r.returncode:
            raise BuildError('%s: %s' % (src, r.stderr[-4000:]))
        os.rename(tmp, o)
    return o


def build(drivers, srcs, extra=(), libs=('-lpthread',)):
    """drivers: names in /verif/harness; srcs: paths relative to /repo/src"""
    th = tree_hash()
    files = [os.path.join(HD, d) for d in ['main.cpp'] + list(drivers)] + [os.path.join(REPO, 'src', s) for s in srcs]
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda f: compile_one(f, th, extra), files))
    h = hashlib.sha256(' '.join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, 'drv-%s' % h)
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        r = subprocess.run(['clang++-18'] + [x for x in extra if x.startswith('-f')] + objs + ['-o', tmp] + list(libs), capture_output=True, text=True, errors='replace')
        if r.returncode:
            raise BuildError('link: ' + r.stderr[-4000:])
        os.rename(tmp, exe)
    return exe


def build_exact(drivers, srcs, extra=()):
    """with the contract of fast_exp in place of its body; falls back to the code as it is"""
    try:
        return build(drivers, srcs, tuple(extra) + ('-include', HD + '/exactexp.hpp')), True
    except BuildError:
        return build(drivers, srcs, extra), False


def hexf(x):
    x = float(x)
    if x != x:
        return 'nan'
    if x in (float('inf'), float('-inf')):
        return 'inf' if x > 0 else '-inf'
    return x.hex()


def fmt(a):
    if isinstance(a, str):
        return a
    if isinstance(a, bytes):
        return '%d %s' % (len(a), ' '.join(str(b) for b in a))
    if isinstance(a, (bool, np.bool_)):
        return '1' if a else '0'
    if isinstance(a, (int, np.integer)):
        return str(int(a))
    if isinstance(a, (float, np.floating)):
        return hexf(a)
    m = np.asarray(a)
    if m.ndim == 1:
        m = m.reshape(-1, 1)
    return '%d %d %s' % (m.shape[0], m.shape[1], ' '.join(hexf(x) for x in m.reshape(-1)))


def encode(cmd):
    return ' '.join(fmt(a) for a in cmd) + ' ;\n'


class Result(dict):
    ok = True
    err = None
    crash = None


def parse_block(lines):
    r = Result()
    for l in lines:
        w = l.split(' ')
        if w[0] == 'end':
            if w[1] != 'ok':
                r.ok = False
                r.err = ' '.join(w[2:])
            continue
        if len(w) >= 2 and w[1] == 'str':
            r.setdefault('_order', []).append(w[0])
            v = bytes(int(x, 16) for x in w[2:] if x)
        else:
            rows, cols = int(w[1]), int(w[2])
            v = np.array([parsef(x) for x in w[3:]], dtype=float).reshape(rows, cols)
            r.setdefault('_order', []).append(w[0])
        if w[0] in r:
            k = w[0]
            r.setdefault(k + '*', [r[k]]).append(v)
        else:
            r[w[0]] = v
    return r


def parsef(x):
    if 'nan' in x:
        return float('nan')
    if 'inf' in x:
        return float('-inf') if x[0] == '-' else float('inf')
    return float.fromhex(x)


WALL = 450      # one batch is cut short after this long, whatever the load of the machine; what is left of it counts as not run


def cpu_of(pid):
    try:
        x = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
        return (int(x[11]) + int(x[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return None


def asleep(pid):
    """every thread waits for something"""
    try:
        return all(open('/proc/%d/task/%s/stat' % (pid, t)).read().rsplit(')', 1)[1].split()[0] == 'S' for t in os.listdir('/proc/%d/task' % pid))
    except (OSError, IndexError):
        return False


def talk(p, inp, timeout, deadline):
    """(stdout, stderr, hang, cut).  A hang is a command that answers nothing although the process has used `timeout` seconds of processor
    time since the last answer, or has slept through that long: a slow machine alone is not one."""
    out, err = [], []
    last = [time.time()]

    def drain(f, to, mark):
        while True:
            b = os.read(f.fileno(), 65536)
            if not b:
                return
            to.append(b)
            if mark:
                last[0] = time.time()

    def feed():
        try:
            p.stdin.write(inp)
            p.stdin.close()
        except (BrokenPipeError, ValueError, OSError):
            pass
    ts = [threading.Thread(target=x, args=y, daemon=True) for x, y in ((drain, (p.stdout, out, True)), (drain, (p.stderr, err, False)), (feed, ()))]
    for t in ts:
        t.start()
    hang, cut, seen, base, naps = None, False, last[0], cpu_of(p.pid) or 0, 0
    limit = max(timeout, 60)
    while True:
        try:
            p.wait(0.05 if time.time() - last[0] < 2 else 1)
            break
        except subprocess.TimeoutExpired:
            pass
        now, c = time.time(), cpu_of(p.pid)
        if c is None:
            continue
        if last[0] != seen:
            seen, base, naps = last[0], c, 0
        naps = naps + 1 if asleep(p.pid) else 0
        if c - base >= limit:
            hang = '%d s of processor time' % (c - base)
        elif now - seen >= timeout and naps >= timeout and c - base < 0.05 * (now - seen):
            hang = 'asleep for %d s' % (now - seen)
        elif now > deadline:
            cut = True
        if hang or cut:
            p.kill()
            p.wait()
            break
    for t in ts[:2]:
        t.join(10)
    for f in (p.stdout, p.stderr):
        try:
            f.close()
        except OSError:
            pass
    dec = lambda x: b''.join(x).decode(errors='replace')
    return dec(out), dec(err), hang, cut


def run(exe, cmds, timeout=120, cwd=None, env=None):
    """results in order; a crash or timeout is reported on the command during which it happened and ends the list"""
    res = []
    todo = list(cmds)
    t0 = time.time()
    while todo:
        inp = ''.join(encode(c) for c in todo)
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                             cwd=cwd, env=env)
        so, se, to, late = talk(p, inp, timeout, t0 + WALL)
        blk, n = [], 0
        for l in so.split('\n'):
            if not l:
                continue
            blk.append(l)
            if l.startswith('end '):
                res.append(parse_block(blk))
                blk = []
                n += 1
        if n >= len(todo) or late:
            break
        r = parse_block(blk) if not to else Result()
        r.ok = False
        r.crash = 'no answer (%s)' % to if to else 'terminated by signal %d' % -p.returncode if p.returncode < 0 \
            else 'exit status %d' % p.returncode
        r.err = r.crash + ' ' + se[-1500:]
        res.append(r)
        break
    return res
