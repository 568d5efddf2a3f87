"""Check driver: proof units -> obligations; conformance search for failing inputs; evidence; verdict."""
import json, os, sys, time, traceback, random, hashlib, multiprocessing as mp, resource
import numpy as np
from frontend import *
import terms, prove
from terms import *
from prove import *
import symex
from symex import *
import eigen_models as em
import loops

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
EVID = os.path.join(VERIF, 'evidence')
MU = 'ldaplusplus::math_utils::'


# ---------------------------------------------------------------- random environments (refuting obligations)

class _RV(dict):
    def __init__(self, rng, sorts):
        super().__init__()
        self.rng, self.sorts = rng, sorts

    def __missing__(self, k):
        v = self.rng.choice([0, 1, 1, 2, 2, 3, 4]) if self.sorts.get(k, 'I') == 'I' else self.rng.uniform(-2, 2)
        self[k] = v
        return v

    def __contains__(self, k):
        return True


class _RF(dict):
    def __init__(self, rng, fs):
        super().__init__()
        self.rng, self.fs = rng, fs
        self.memo = {}

    def get(self, f, d=None):
        if f in terms.BUILTIN:
            return None

        def fn(*a):
            k = (f, tuple(round(float(x), 9) for x in a))
            if k not in self.memo:
                s = SIGN.get(f)
                if self.fs.get(f) == 'I':
                    v = self.rng.choice([0, 1, 2, 3]) + (1 if s == 'pos' else 0)
                elif s == 'unit':
                    v = self.rng.random()
                elif s in ('pos', 'nonneg'):
                    v = self.rng.uniform(0.05, 2)
                    if s == 'nonneg' and self.rng.random() < .15:
                        v = 0.0
                else:
                    v = self.rng.uniform(-2, 2)
                if f in prove.UPPER:
                    v = min(v, evalp(prove.UPPER[f], self.env))
                    if v < 0:
                        raise ValueError
                self.memo[k] = v
            return self.memo[k]
        return fn


class _RB(dict):
    def __init__(self, rng):
        super().__init__()
        self.rng = rng
        self.memo = {}

    def __getitem__(self, f):
        def fn(*a):
            k = (f, tuple(round(float(x), 9) for x in a))
            if k not in self.memo:
                self.memo[k] = self.rng.random() < .5
            return self.memo[k]
        return fn


def sorts_of(ps):
    vs, fs = {}, {}
    for p in ps:
        for a in collect(p, lambda a: a.kind in ('v', 'a')).values():
            if a.kind == 'v':
                vs[a.data[0]] = a.sort
            else:
                fs[a.data[0]] = a.sort
    return vs, fs


def refute(ob, tries=300, seconds=4.0):
    """numeric counter-model of an obligation (real arithmetic), or None"""
    t0 = time.time()
    try:
        vs, fs = sorts_of(list(ob.hyps) + [ob.payload])
    except Exception:
        return None
    for i in range(tries):
        if time.time() - t0 > seconds:
            return None
        rng = random.Random(SEED * 7919 + i)
        env = NumEnv()
        env.vars, env.funcs, env.bools = _RV(rng, vs), _RF(rng, fs), _RB(rng)
        env.funcs.env = env
        try:
            if any(evalp(h, env) != 1 for h in ob.hyps):
                continue
            x = evalp(ob.payload, env)
        except Exception:
            continue
        if x != x or abs(x) == float('inf'):
            continue
        if (ob.kind == 'zero' and abs(x) > 1e-6) or (ob.kind == 'cond' and x != 1) or \
           (ob.kind == 'nonneg' and x < -1e-9) or (ob.kind == 'pos' and x <= 0):
            return {'vars': {k: float(v) for k, v in env.vars.items()},
                    'functions': {'%s%s' % k: float(v) for k, v in list(env.funcs.memo.items())[:60]},
                    'value': float(x)}
    return None


# ---------------------------------------------------------------- proof units

class U:
    """context handed to a proof unit"""

    def __init__(self, prog, name):
        self.lemmas = []        # proved equations, tried as rewrite rules one at a time
        self.prog = prog
        self.name = name
        self.ex = Exec(prog)
        self.st = State()
        self.extra = []          # extra obligations (postconditions)
        self.assumptions = []
        self.pre = []
        std_contracts(self.ex)

    # symbols ----------------------------------------------------------
    def size(self, name, lo=1):
        v = V(name)
        self.st.assume(ind_le(P(lo) - v))
        return v

    def mat(self, name, rows, cols, sort='R', sign=None, vec=None):
        """allocate a symbolic matrix; returns its oid"""
        if sign:
            declare(name, sign)
        vec = (P(cols).const() == 1) if vec is None else vec
        p = app(name, *([RI] if vec else [RI, CI]), sort=sort)
        return self.ex.alloc(self.st, MatVal(rows, cols, p, ONE, sort))

    def num(self, v, sort='R'):
        if isinstance(v, str):
            v = V(v, sort)
        return self.ex.alloc(self.st, Num(v, sort))

    # running ----------------------------------------------------------
    def fn(self, name, ta=None, nparams=None, pred=None, cls=None):
        fs = self.prog.find(name, ta, nparams, pred)
        if cls:
            fs = [f for f in fs if cls in (f.get('cls') or '')]
        if not fs:
            raise Unsupported('function %s not found' % name)
        return fs[0]

    def run(self, f, obj, args, st=None):
        st = st or self.st
        return self.ex.explore(lambda s: self.ex.load(s, self.ex.invoke(s, f, obj, args)), st)

    # obligations ------------------------------------------------------
    def ob(self, st, name, kind, payload, loc='post', rules=()):
        self.extra.append(Obl(name, list(st.pc), kind, P(payload), loc, list(symex.RULES) + list(rules)))

    def eq(self, st, name, a, b):
        self.ob(st, name, 'zero', P(a) - P(b))

    def holds(self, st, name, c):
        self.ob(st, name, 'cond', c)

    def idx(self, st, r, rows, c=None, cols=None):
        s = st.clone()
        s.assume(ind_le(-r)); s.assume(ind_le(r - rows + 1))
        if c is not None:
            s.assume(ind_le(-c)); s.assume(ind_le(c - cols + 1))
        return s

    def eq_mat(self, st, name, m, rows, cols, spec, defined=True):
        """m: MatVal/Mat; spec(r,c) -> Poly, for all valid r,c"""
        self.eq(st, name + ': rows', m.rows, rows)
        self.eq(st, name + ': cols', m.cols, cols)
        r, c = fresh('r'), fresh('c')
        s = self.idx(st, r, P(rows), c, P(cols))
        p, d = m.at(r, c)
        self.eq(s, name, p, spec(r, c))
        if defined:
            self.holds(s, name + ': defined (no NaN)', d)

    def eq_num(self, st, name, v, spec, defined=True):
        self.eq(st, name, v.p, spec)
        if defined and v.d.const() != 1:
            self.holds(st, name + ': defined (no NaN)', v.d)

    def same(self, st, name, oid, st0=None):
        """frame: the object is the same value as initially"""
        st0 = st0 or self.st
        a, b = st.heap[oid], st0.heap[oid]
        if a is b:
            self.holds(st, 'frame: ' + name + ' unchanged', ONE)
        elif isinstance(b, MatVal):
            self.eq_mat(st, 'frame: ' + name + ' unchanged', a, b.rows, b.cols, lambda r, c: b.at(r, c)[0])
        elif isinstance(b, Num):
            self.eq(st, 'frame: ' + name + ' unchanged', a.p, b.p)
        elif isinstance(b, (BoolV,)):
            self.eq(st, 'frame: ' + name + ' unchanged', a.p, b.p)
        else:
            self.holds(st, 'frame: ' + name + ' unchanged', ONE if a == b else ZERO)


def std_contracts(ex):
    def fe(ex, st, c, o, a, n):
        return em.f_exp(ex.load(st, a[0]))

    def dg(ex, st, c, o, a, n):
        v = ex.load(st, a[0])
        return Num(app('digamma', v.p), 'R', v.d * (ONE - ind_le(v.p)))
    ex.contracts[MU + 'fast_exp'] = fe
    ex.contracts[MU + 'digamma'] = dg


def discharge(ob, more=()):
    cx = Ctx(ob.hyps, list(ob.rules) + list(more))
    b = dict(STATS)
    if ob.kind == 'zero':
        r = prove_zero(ob.payload, cx)
    elif ob.kind == 'nonneg':
        r = prove_nonneg(ob.payload, cx)
    elif ob.kind == 'pos':
        r = prove_nonneg(ob.payload, cx, True)
    else:
        r = prove_cond(ob.payload, cx)
    ob.by = 'z3' if STATS['z3_calls'] > b['z3_calls'] else 'normal form'
    return r


def run_unit(prog, name, fn, q, budget):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    t0 = time.time()
    res = {'unit': name, 'obligations': [], 'unsupported': None, 'notes': [], 'functions': [], 'contracts': [],
           'assumptions': [], 'mismatch': []}
    try:
        sys.setrecursionlimit(20000)
        u = U(prog, name)
        fn(u)
        obls = u.ex.obls + u.extra
        res['functions'] = sorted(u.ex.inlined)
        res['contracts'] = sorted(map(str, u.ex.used_contracts))
        res['assumptions'] = u.assumptions
        res['notes'] = sorted(map(str, u.ex.notes))
        res['mismatch'] = [str(x)[:6000] for x in u.ex.mismatch][:6]
        if not u.extra:
            raise Unsupported('the unit produced no postcondition')
        for ob in obls:
            t1 = time.time()
            try:
                ok = discharge(ob) or any(discharge(ob, [r]) for r in u.lemmas)
            except Unsupported as e:
                ok = False
            e = {'name': ob.name, 'loc': ob.loc, 'ok': bool(ok), 'by': ob.by, 't': round(time.time() - t1, 3), 'kind': ob.kind}
            if not ok:
                e['payload'] = ob.payload.key[:4000]
                e['hyps'] = [h.key[:300] for h in ob.hyps][:40]
                # a counter-model counts only where nothing but inputs is free (no abstraction, no contract sequence)
                fr = ob.payload.key + ' '.join(h.key for h in ob.hyps)
                hv = ob.loc != 'post' or 'havoc' in fr or any(g + '(' in fr for g in symex.GHOSTS)
                m = None if hv else refute(ob)
                e['model'] = m
                e['status'] = 'refuted' if m and not hv else 'undecided'
            res['obligations'].append(e)
        res['z3'] = dict(STATS)
        # vacuity guard: the precondition must be satisfiable
        if Ctx(u.st.pc, []).inconsistent():
            res['unsupported'] = 'contradictory precondition'
    except Unsupported as e:
        res['unsupported'] = 'unsupported: %s' % e
    except (RecursionError, MemoryError) as e:
        res['unsupported'] = 'resource limit: %s' % type(e).__name__
    except FrontendError as e:
        res['unsupported'] = 'front end: %s' % e
    except Exception as e:
        res['unsupported'] = 'internal: %s\n%s' % (e, traceback.format_exc()[-1500:])
    res['t'] = round(time.time() - t0, 2)
    q.send(res)
    q.close()


def paths(tus):
    return [t if t.startswith('/') else repo(t)[0] for t in tus]


def run_single(chk, res, tier):
    """the instantiations for float: the same tree as those for double, or proved on their own; (units run, what is known)"""
    if not chk.units or chk.single is not True:
        return [], chk.single or 'not covered'
    used = {f for r in res for f in r['functions']}
    try:
        same, diff = twins(paths(chk.tus), used)
    except Exception as e:
        return [], 'not covered: %s' % str(e)[-300:]
    if not diff and tier != 'thorough':
        return [], 'the %d functions have the same tree for float as for double, so the obligations are the same' % same
    rs = run_units(chk.units, chk.tus, chk.budget * (2 if tier == 'thorough' else 1), single=True)
    for r in rs:
        r['unit'] += ' (float)'
    return rs, 'proved separately; functions that differ: %s' % (', '.join(diff) or 'none')


def run_units(units, tus, budget=150, jobs=8, only=None, single=False):
    try:
        prog = Program(paths(tus), single)
    except (FrontendError, Exception) as e:
        return [{'unit': n, 'obligations': [], 'unsupported': 'front end: %s' % str(e)[-1500:], 'notes': [], 'functions': [],
                 'contracts': [], 'assumptions': [], 'mismatch': [], 't': 0} for n, _ in units]
    pend = list(units)
    run = []
    out = {}
    ctx = mp.get_context('fork')
    while pend or run:
        while pend and len(run) < jobs:
            n, f = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=run_unit, args=(prog, n, f, b, budget))
            p.start()
            b.close()
            run.append((n, p, a, time.time()))
        nxt = []
        for n, p, a, t in run:
            if a.poll(0):
                try:
                    out[n] = a.recv()
                except EOFError:
                    out[n] = None
                p.join()
            elif not p.is_alive():
                out[n] = None
            elif time.time() - t > budget:
                p.kill()
                p.join()
                out[n] = {'unit': n, 'obligations': [], 'unsupported': 'time limit %d s' % budget, 'notes': [], 'functions': [],
                          'contracts': [], 'assumptions': [], 'mismatch': [], 't': budget}
            else:
                nxt.append((n, p, a, t))
        run = nxt
        time.sleep(0.02)
    for n, _ in units:
        if out.get(n) is None:
            out[n] = {'unit': n, 'obligations': [], 'unsupported': 'verifier process died', 'notes': [], 'functions': [],
                      'contracts': [], 'assumptions': [], 'mismatch': [], 't': 0}
    return [out[n] for n, _ in units]


# ---------------------------------------------------------------- verdict

class Check:
    """one property: proof units + conformance"""

    def __init__(self, pid, tus, units, conf=None, trusted=(), bounded=None, budget=150, exclude=None, single=True):
        self.single = single
        self.pid, self.tus, self.units, self.conf = pid, tus, units, conf
        self.trusted, self.bounded, self.budget = list(trusted), bounded, budget


BASE_TRUST = [
    'floating-point arithmetic treated as real arithmetic (no rounding, overflow or underflow)',
    'models of Eigen expressions, views, reductions and of std:: containers in engine/vc/{eigen,std}_models.py (validated against the compiled code by the conformance runs)',
    'clang 18 front end and the AST exporter engine/cxx/astdump.cpp; templates verified at Scalar=double, and at float as float_instantiation says',
    'Eigen expressions whose operands alias their destination are not modelled',
    'the verifier itself: symbolic executor, polynomial normal form and z3 4.x',
]


def known_findings(pid):
    f = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % pid):
                out.append(l)
    return out


def decide(chk, tier=None):
    tier = tier or TIER
    t0 = time.time()
    pid = chk.pid
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    res = run_units(chk.units, chk.tus, chk.budget * (2 if tier == 'thorough' else 1)) if chk.units else []
    rs, single = run_single(chk, res, tier)
    res += rs
    tproof = time.time() - t0
    nob = sum(len(r['obligations']) for r in res)
    nok = sum(1 for r in res for o in r['obligations'] if o['ok'])
    bad = [(r, o) for r in res for o in r['obligations'] if not o['ok']]
    unsup = [r for r in res if r['unsupported']]
    proved = bool(res) and not bad and not unsup
    for r in res:
        print('unit %-55s %3d/%3d obligations %6.1fs%s' % (r['unit'], sum(o['ok'] for o in r['obligations']), len(r['obligations']),
              r['t'], '  [%s]' % r['unsupported'].split('\n')[0] if r['unsupported'] else ''))
        if os.environ.get('VERBOSE') and r['unsupported']:
            print(r['unsupported'])
        for o in r['obligations']:
            if not o['ok']:
                print('   not discharged: %s (%s) [%s]' % (o['name'], o['loc'], o['status']))
                vb = int(os.environ.get('VERBOSE') or 0)
                if vb:
                    print('      ', o['payload'][:500 * vb])
                if vb > 1:
                    print('      hyps', [h[:160 * vb] for h in o['hyps']])
        if os.environ.get('VERBOSE'):
            print('    notes', r['notes'], 'mismatch', [x[:500 * int(os.environ['VERBOSE'])] for x in r['mismatch'][:2]])
            for o in r['obligations']:
                if o['ok'] and os.environ['VERBOSE'] == '3':
                    print('     ok', o['name'], o['loc'], o['t'])
    # conformance of the compiled code with the same contracts
    deep = not proved
    cres = {'cases': 0, 'witness': None, 'error': None}
    if chk.conf:
        t1 = time.time()
        rng = np.random.default_rng(SEED)
        import conf
        conf.TIER = 'deep' if deep else tier
        try:
            cres.update(chk.conf(rng, conf.TIER) or {})
        except Exception as e:
            cres['error'] = '%s: %s' % (type(e).__name__, str(e)[-2000:])
            if os.environ.get('VERBOSE'):
                traceback.print_exc()
        cres['t'] = round(time.time() - t1, 2)
        print('conformance: %d cases %.1fs%s' % (cres['cases'], cres['t'], ' error: ' + cres['error'][-600:] if cres['error'] else ''))
    viol = None
    known = known_findings(pid)
    if cres['witness']:
        p = os.path.join(rdir, pid + '.json')
        json.dump({'property': pid, 'failing_input': cres['witness'],
                   'failed_obligations': [{'unit': r['unit'], **o} for r, o in bad][:10],
                   'out_of_reach': [(r['unit'], r['unsupported']) for r in unsup]}, open(p, 'w'), indent=1, default=jdef)
        viol = 'VIOLATION property=%s replay=%s' % (pid, p)
    else:
        ref = [(r, o) for r, o in bad if o['status'] == 'refuted']
        if ref:
            p = os.path.join(rdir, pid + '.json')
            json.dump({'property': pid, 'failing_input': None,
                       'failed_obligations': [{'unit': r['unit'], **o} for r, o in ref][:10]}, open(p, 'w'), indent=1, default=jdef)
            viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p)
    cov = {
        'obligations': nob, 'discharged': nok,
        'checker_cmd': 'python3-vt /verif/check.py %s %s' % (pid, tier),
        'trusted_base': BASE_TRUST + chk.trusted,
        'verdict': 'violation' if viol else 'proved' if proved else 'held on the bounded conformance runs; not every obligation discharged',
        'functions_under_contract': sorted({f for r in res for f in r['functions']}),
        'float_instantiation': single,
        'assumed_callee_contracts': sorted({c for r in res for c in r['contracts']}),
        'units': [{'name': r['unit'], 'obligations': len(r['obligations']), 'discharged': sum(o['ok'] for o in r['obligations']),
                   'seconds': r['t'], 'out_of_reach': r['unsupported'], 'notes': r['notes'],
                   'not_discharged': [o['name'] + ' @' + str(o['loc']) for o in r['obligations'] if not o['ok']]} for r in res],
        'backends': {b: sum(1 for r in res for o in r['obligations'] if o['ok'] and o['by'] == b) for b in ('normal form', 'z3')},
        'solver_seconds': round(sum((r.get('z3') or {}).get('z3_time', 0) for r in res), 2),
        'solver_calls': sum((r.get('z3') or {}).get('z3_calls', 0) for r in res),
        'evaluations': cres['cases'], 'conformance_error': cres['error'],
        'conformance_rule': 'bounded: seeded random and boundary inputs run through the compiled /repo code and compared with the contract evaluated numerically',
        'samples': cres.get('samples', []),
    }
    if chk.bounded:
        cov['bounded_parts'] = chk.bounded
    ev = {'property': pid, 'tier': tier, 'seed': SEED, 'level': 'proof' if proved else 'other', 'coverage': cov,
          'assumptions': sorted({a for r in res for a in r['assumptions']}), 'wall_s': round(time.time() - t0, 1),
          'violations': 1 if viol else 0}
    if not proved:
        cov['explanation'] = 'obligations not discharged or functions out of reach on this run; the conformance runs are bounded evidence only'
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1, default=jdef)
    for k in known:
        print(k)
    if viol:
        print(viol)
        return 1
    print('property %s: %s (%d/%d obligations, %d conformance cases) %.0fs' %
          (pid, 'proved' if proved else 'held, bounded', nok, nob, cres['cases'], time.time() - t0))
    return 0


def jdef(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, bytes):
        return list(x)
    return str(x)
