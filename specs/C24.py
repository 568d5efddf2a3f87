"""C24: the builder."""
#: note Histories are covered by starting from an arbitrary builder state; a step has the configured settings when it equals, member by member, the one its class' own constructor makes from them. Default argument values are not claimed.
from estep import *
import std_models
import C23

B = C23.B
LDA = NS + 'LDA<double>'
EMN = NS + 'em::'
R, I = 'R', 'I'
# settings of each step in the order of its class' constructor
E = {
    'classic': ('UnsupervisedEStep', ['it', 'tol', 'cl', 'rs'], ['it', 'tol', 'cl', 'rs'], False),
    'supervised': ('SupervisedEStep', ['it', 'tol', 'fp', 'cl', 'rs'], ['it', 'tol', 'fp', 'cl', 'rs'], True),
    'fast_supervised': ('FastSupervisedEStep', ['it', 'tol', 'C', 'cl', 'rs'], ['it', 'tol', 'C', 'one', 'cl', 'rs'], True),
    'multinomial_supervised': ('MultinomialSupervisedEStep', ['it', 'tol', 'mu', 'ew', 'cl', 'rs'], ['it', 'tol', 'mu', 'ew', 'cl', 'rs'], True),
    'correspondence_supervised': ('CorrespondenceSupervisedEStep', ['it', 'tol', 'mu', 'cl', 'rs'], ['it', 'tol', 'mu', 'cl', 'rs'], True),
}
ON = ['pen', 'mb', 'mom', 'lr', 'bw']
M = {
    'classic': ('UnsupervisedMStep', [], [], False),
    'supervised': ('SupervisedMStep', ['it', 'tol', 'pen'], ['it', 'tol', 'pen'], True),
    'fast_supervised': ('FastSupervisedMStep', ['it', 'tol', 'pen'], ['it', 'tol', 'pen'], True),
    'semi_supervised': ('SemiSupervisedMStep', ['it', 'tol', 'pen'], ['it', 'tol', 'pen'], True),
    'multinomial_supervised': ('MultinomialSupervisedMStep', ['mu'], ['mu'], True),
    'correspondence_supervised': ('CorrespondenceSupervisedMStep', ['mu'], ['mu'], True),
    'fast_supervised_online/n': ('FastOnlineSupervisedMStep', ['nc'] + ON, ['nc'] + ON, True),
}
INTS = {'it', 'fp', 'rs', 'nc', 'mb', 'one'}


def sym(u, n):
    if n == 'one':
        return Num(ONE, 'I')
    return Num(u.size(n, 0) if n in INTS else V(n, 'R'), 'I' if n in INTS else 'R')


def deep(u, s, a, s2, b, path, out, seen):
    """differences between two values: list of (what, term that must vanish)"""
    if isinstance(a, (Ptr, Ref)) and isinstance(b, (Ptr, Ref)):
        if (a.oid, b.oid) in seen:
            return
        seen.add((a.oid, b.oid))
        if a.oid in s.heap and b.oid in s2.heap:
            deep(u, s, s.heap[a.oid], s2, s2.heap[b.oid], path, out, seen)
        return
    if type(a) is not type(b):
        out.append((path + ': kind', ONE)); return
    if isinstance(a, Struct):
        if a.cls != b.cls or set(a.fields) != set(b.fields):
            out.append((path + ': class', ONE)); return
        for n in a.fields:
            if a.fields[n] is None or b.fields[n] is None:
                continue
            deep(u, s, s.heap[a.fields[n]], s2, s2.heap[b.fields[n]], path + '.' + n, out, seen)
    elif isinstance(a, Num):
        if a.d == ZERO and b.d == ZERO:
            return
        out.append((path, a.p - b.p))
        out.append((path + ' (defined)', a.d - b.d))
    elif isinstance(a, BoolV):
        out.append((path, a.p - b.p))
    elif isinstance(a, MatVal):
        out.append((path + ' rows', a.rows - b.rows)); out.append((path + ' cols', a.cols - b.cols)); out.append((path, a.p - b.p))
    elif isinstance(a, Opaque):
        if a.cls != b.cls:
            out.append((path + ': class', ONE))
        for k in set(a.info or {}) | set(b.info or {}):
            x, y = (a.info or {}).get(k), (b.info or {}).get(k)
            if isinstance(x, Num) and isinstance(y, Num):
                out.append((path + '.' + k, x.p - y.p))


def equal(u, s, a, b, name):
    ds = []
    deep(u, s, a, s, b, name, ds, set())
    for w, t in ds:
        u.eq(s, 'same setting: ' + w, t, ZERO)
    if not ds:
        raise Unsupported('nothing to compare in ' + name)


def types(args):
    return ['const Eigen::Matrix<double, -1, 1> &' if isinstance(a, Ref) else 'unsigned long' if a.s == 'I' else 'double' for a in args]


def weights(u):
    """class weights as an Eigen vector, and as a std::vector"""
    C = u.size('nc')
    w = u.mat('cw', C, ONE)
    return w, u.ex.alloc(u.st, Arr(C, None, app('cw', RI), ONE, 'R', 'double'))


def table(u, kind):
    """name, parameters of the builder's method, class, constructor arguments, supervised"""
    if kind == 'e':
        for nm, (cls, params, order, sup) in E.items():
            yield nm, None, [sym(u, n) for n in params], cls, [sym(u, n) for n in order], sup
        return
    for nm, (cls, params, order, sup) in M.items():
        yield nm.split('/')[0], (r'^(unsigned long|size_t|std::size_t)' if '/' in nm else None), [sym(u, n) for n in params], cls, [sym(u, n) for n in order], sup
    w, v = weights(u)
    rest = [sym(u, n) for n in ON]
    yield 'fast_supervised_online', 'Eigen::', [Ref(w)] + rest, 'FastOnlineSupervisedMStep', [Ref(w)] + rest, True
    yield 'fast_supervised_online', '^(const )?std::vector', [Ref(v)] + rest, 'FastOnlineSupervisedMStep', [Ref(w)] + rest, True


def method(u, name, first, args):
    return u.fn(B + '::' + name, nparams=len(args), pred=(lambda f: re.search(first, f['params'][0]['t'])) if first else None)


def made(u, s, v, cls, order, name):
    if not isinstance(v, Ptr):
        u.holds(s, name + ': a step', ZERO)
        return
    ref = Ptr(std_models.new_object(u.ex, s, EMN + cls + '<double>', order, types(order)))
    equal(u, s, v, ref, name)


def start(u):
    """a builder with any history, over arbitrary steps"""
    o, model = C23.builder(u)
    ex, st = u.ex, u.st
    steps = {}
    for nm, t, _ in ex.class_fields(B):
        if 'EStepInterface' in t:
            steps['e'] = nm
            st.heap[st.heap[o].fields[nm]] = Opaque('e0', 'Step')
        elif 'MStepInterface' in t:
            steps['m'] = nm
            st.heap[st.heap[o].fields[nm]] = Opaque('m0', 'Step')
    if len(steps) != 2:
        raise Unsupported('the steps are not held by the builder')
    def listen(ex, st, o, a, n):
        st.trace = st.trace + [('dispatcher', ex.load(st, a[0]))]
        return VOID
    ex.direct[('Step', 'set_event_dispatcher')] = listen
    return o, model, steps


def factories(kind):
    def unit(u):
        o, model, steps = start(u)
        for nm, first, args, cls, order, sup in table(u, kind):
            f = method(u, 'get_%s_%s_step' % (nm, kind), first, args)
            for s, k, v in u.run(f, Ref(o), args, u.st.clone()):
                u.holds(s, nm + ' step is made', ZERO if k == 'throw' else ONE)
                if k != 'throw':
                    made(u, s, v, cls, order, nm)
    return unit


def build(u, s, o):
    """every way of building from the builder"""
    fs = [f for f in u.prog.funcs.values() if f.get('cls') == B and f['fn'].startswith(B + '::operator') and not f['params']]
    if len(fs) != 1:
        raise Unsupported('conversion to a trainer')
    return u.ex.explore(lambda x: u.ex.invoke(x, fs[0], Ref(o), []), s)


def trainer(u, s, v):
    """settings of a trainer: model, steps, iterations, workers"""
    t = u.ex.load(s, v)
    if not isinstance(t, Struct) or t.cls != LDA:
        raise Unsupported('trainer expected')
    r = {}
    for nm, ty, _ in u.ex.class_fields(LDA):
        x = s.heap[t.fields[nm]]
        if 'EStepInterface' in ty: r['e'] = x
        elif 'MStepInterface' in ty: r['m'] = x
        elif re.match(r'std::shared_ptr<[^<]*Parameters>', ty): r['model'] = x
        elif ty in ('unsigned long', 'size_t', 'int', 'unsigned int'): r['iterations'] = x
        elif ty.startswith('std::vector<std::thread'): r['workers'] = x
        elif 'EventDispatcher' in ty: r['dispatcher'] = x
    if len(r) < 6:
        raise Unsupported('members of the trainer')
    return r


def pool(x):
    if isinstance(x, Arr):
        return x.size
    raise Unsupported('worker pool')


def built(u, o, model, steps, s, need, nm, it, wk):
    """what building gives; need: whether classifier parameters are required (a condition)"""
    st = u.st
    K = st.heap[st.heap[model].fields['beta']].rows
    R = st.heap[st.heap[model].fields['eta']].rows
    refuse = ONE - (ONE - ind_le(K)) * (ONE - need * ind_le(R))
    want = {k: s.heap[s.heap[o].fields[steps[k]]] for k in 'em'}
    for s1, k, v in build(u, s.clone(), o):
        if k == 'throw':
            u.holds(s1, 'building is refused only without topics or needed classifier' + nm, refuse)
            continue
        u.holds(s1, 'building is refused without topics or needed classifier' + nm, ONE - refuse)
        r = trainer(u, s1, v)
        for x in 'em':
            same = r[x] == want[x] if not isinstance(want[x], Ptr) else isinstance(r[x], Ptr) and r[x].oid == want[x].oid
            u.holds(s1, 'the trainer has the configured %s step' % x + nm, ONE if same else ZERO)
        u.holds(s1, 'the trainer has the configured model' + nm, ONE if isinstance(r['model'], Ptr) and r['model'].oid == model else ZERO)
        u.eq(s1, 'iterations' + nm, r['iterations'].p, it)
        u.eq(s1, 'workers' + nm, pool(r['workers']), wk)


def counts(u, o):
    """current iteration and worker counts of the builder, found through its setters"""
    r = []
    for f in ('set_iterations', 'set_workers'):
        n = u.size('n_' + f, 0)
        box = []
        for s, k, v in u.ex.explore(lambda x: u.ex.invoke(x, u.fn(B + '::' + f), Ref(o), [Num(n, 'I')]), u.st.clone()):
            ch = [nm for nm, x in s.heap[o].fields.items() if isinstance(s.heap[x], Num) and s.heap[x] is not u.st.heap.get(x)]
            if len(ch) != 1:
                raise Unsupported(f)
            box.append(ch[0])
        r.append(u.st.heap[u.st.heap[o].fields[box[0]]].p)
    return r


def setters(kind):
    """every setter from any history: the step reaches the trainer, and the other step's need for a classifier is kept"""
    other = 'm' if kind == 'e' else 'e'

    def unit(u):
        o, model, steps = start(u)
        it, wk = counts(u, o)
        tab = list(table(u, kind))
        # the other step is set first, by a setter of either sort
        for osup in (False, True):
            of = u.fn(B + '::set_%s_%s_step' % ('supervised' if osup else 'classic', other))
            oargs = [sym(u, n) for n in (E if other == 'e' else M)['supervised' if osup else 'classic'][1]]
            for s0, k0, v0 in u.run(of, Ref(o), oargs, u.st.clone()):
                held = s0.heap[s0.heap[o].fields[steps[other]]]
                for nm, first, args, cls, order, sup in tab:
                    f = method(u, 'set_%s_%s_step' % (nm, kind), first, args)
                    for s, k, v in u.ex.explore(lambda x: u.ex.invoke(x, f, Ref(o), args), s0.clone()):
                        C23.returned(u, s, k, v, o)
                        made(u, s.clone(), s.heap[s.heap[o].fields[steps[kind]]], cls, order, nm)
                        x = s.heap[s.heap[o].fields[steps[other]]]
                        u.holds(s, 'the other step is kept', ONE if x == held or isinstance(x, Ptr) and isinstance(held, Ptr) and x.oid == held.oid else ZERO)
                        built(u, o, model, steps, s, P(int(sup or osup)), ' (%s%s)' % (nm, ' with a supervised other step' if osup else ''), it, wk)
                # a step of the user's own
                own = Opaque('own', 'Step')
                f = u.fn(B + '::set_' + kind)
                for s, k, v in u.ex.explore(lambda x: u.ex.invoke(x, f, Ref(o), [own]), s0.clone()):
                    C23.returned(u, s, k, v, o)
                    x = s.heap[s.heap[o].fields[steps[kind]]]
                    u.holds(s, 'the step given is kept', ONE if x == own else ZERO)
                    built(u, o, model, steps, s, P(int(osup)), ' (own step)', it, wk)
    return unit


def semi(u):
    """the semi-supervised step from given steps, or from the default ones"""
    ex = u.ex
    o, model, steps = start(u)
    it, wk = counts(u, o)
    ex.direct[('Step', 'get_event_dispatcher')] = lambda ex, st, o, a, n: Opaque('d' + o.name, 'Dispatcher')

    def listen(ex, st, o, a, n):
        v = ex.load(st, a[0])
        return v if isinstance(v, Ptr) else Ptr(ex.alloc(st, Opaque('listener', 'Listener')))
    ex.virtuals[('Dispatcher', 'add_listener')] = listen
    cls = EMN + 'SemiSupervisedEStep<double>'
    for given in ((1, 1), (0, 1), (1, 0), (0, 0), (2, 2)):          # (2, 2): one step in both parts
        own = [Ptr(std_models.new_object(ex, u.st, EMN + c + '<double>', [sym(u, x) for x in E[k][2]], ['double'] * len(E[k][2])))
               for c, k in (('SupervisedEStep', 'supervised'), ('UnsupervisedEStep', 'classic'))]
        a = [own[i] if given[i] else Ptr(None) for i in (0, 1)]
        # which member plays which part, from the step's own constructor
        s = u.st.clone()
        t = s.heap[std_models.new_object(ex, s, cls, list(own), ['p', 'p'])]
        part = [[nm for nm, x in t.fields.items() if x is not None and s.heap[x] == own[i]] for i in (0, 1)]
        if [len(x) for x in part] != [1, 1]:
            raise Unsupported('members of the semi-supervised step')
        if given == (2, 2):
            own = a = [own[1], own[1]]
        for name in ('get_semi_supervised_e_step', 'set_semi_supervised_e_step'):
            f = u.fn(B + '::' + name)
            for s, k, v in ex.explore(lambda x: ex.invoke(x, f, Ref(o), list(a)), u.st.clone()):
                if name.startswith('set'):
                    C23.returned(u, s, k, v, o)
                    v = s.heap[s.heap[o].fields[steps['e']]]
                    for osup in (False, True):
                        of = u.fn(B + '::set_%s_m_step' % ('supervised' if osup else 'classic'))
                        for s1, k1, v1 in u.run(of, Ref(o), [sym(u, n) for n in M['supervised' if osup else 'classic'][1]], s.clone()):
                            built(u, o, model, steps, s1, ONE, ' (semi_supervised)', it, wk)
                v = ex.load(s, v)
                t = s.heap[v.oid] if isinstance(v, Ptr) else None
                if not isinstance(t, Struct) or t.cls != cls:
                    u.holds(s, 'a semi-supervised step', ZERO)
                    continue
                for i, c in enumerate(('FastSupervisedEStep', 'UnsupervisedEStep')):
                    x = s.heap[t.fields[part[i][0]]]
                    if given[i]:
                        u.holds(s, 'the given step is used', ONE if x == own[i] else ZERO)
                    else:
                        y = s.heap[x.oid] if isinstance(x, Ptr) and x.oid else None
                        u.holds(s, 'a %s takes the place of a missing step' % c, ONE if isinstance(y, Struct) and y.cls == EMN + c + '<double>' else ZERO)


def counted(u):
    """iteration and worker counts, and the model from an existing one"""
    ex = u.ex
    o, model, steps = start(u)
    it, wk = counts(u, o)
    n = u.size('n', 0)
    for f, (i2, w2) in (('set_iterations', (n, wk)), ('set_workers', (it, n))):
        for esup in (False, True):
            ef = u.fn(B + '::set_%s_e_step' % ('supervised' if esup else 'classic'))
            mf = u.fn(B + '::set_classic_m_step')
            for s0, _, _ in u.run(ef, Ref(o), [sym(u, x) for x in E['supervised' if esup else 'classic'][1]], u.st.clone()):
                for s1, _, _ in u.run(mf, Ref(o), [], s0):
                    for s2, k, v in ex.explore(lambda x: ex.invoke(x, u.fn(B + '::' + f), Ref(o), [Num(n, 'I')]), s1):
                        C23.returned(u, s2, k, v, o)
                        built(u, o, model, steps, s2, P(int(esup)), ' after ' + f, i2, w2)
    K, W, C = u.size('K'), u.size('W'), u.size('C')
    src = {'alpha': u.mat('alpha', K, ONE), 'beta': u.mat('beta', K, W, vec=False), 'eta': u.mat('eta', K, C, vec=False)}
    given = ex.alloc(u.st, Struct(NS + 'parameters::SupervisedModelParameters<double>', dict(src)))
    for f, keys in (('initialize_topics_from_model', ('alpha', 'beta')), ('initialize_eta_from_model', ('eta',))):
        for s, k, v in ex.explore(lambda x: ex.invoke(x, u.fn(B + '::' + f), Ref(o), [Ptr(given)]), u.st.clone()):
            C23.returned(u, s, k, v, o)
            for x in keys:
                m = u.st.heap[src[x]]
                u.eq_mat(s, x + ' is the given one', C23.field(s, model, x), m.rows, m.cols, lambda r, c: m.at(r, c)[0])
            C23.parts(u, s, model, o, [x for x in src if x not in keys])
            for x in src:
                u.same(s, 'given ' + x, src[x])


def moved(u):
    """a trainer moved to another place keeps its configuration"""
    o, model, steps = start(u)
    it, wk = counts(u, o)
    for s, k, v in build(u, u.st.clone(), o):
        if k == 'throw':
            continue
        r = trainer(u, s, v)
        v = v if isinstance(v, (Ref, Ptr)) else Ref(u.ex.alloc(s, v))
        fs = [f for f in u.prog.funcs.values() if f.get('ctor') and f.get('cls') == LDA and len(f['params']) == 1 and not f.get('impl')]
        if len(fs) != 1:
            raise Unsupported('move constructor')
        for s1, k1, t in u.ex.explore(lambda x: u.ex.construct_repo(x, LDA, fs[0], [Ref(v.oid)]), s):
            q = trainer(u, s1, t)
            for x in ('e', 'm', 'model', 'dispatcher'):
                a, b = r[x], q[x]
                u.holds(s1, 'keeps its ' + x, ONE if a == b or isinstance(a, Ptr) and isinstance(b, Ptr) and a.oid == b.oid else ZERO)
            u.eq(s1, 'keeps its iterations', q['iterations'].p, it)
            u.eq(s1, 'keeps its workers', pool(q['workers']), wk)


def initial(u):
    """a new builder refuses to build"""
    o = std_models.new_object(u.ex, u.st, B, [], [])
    for s, k, v in build(u, u.st.clone(), o):
        u.holds(s, 'a new builder refuses to build', ONE if k == 'throw' else ZERO)


def conformance(rng, tier):
    import builderconf
    return builderconf.c24(rng, tier)


TUS = ['src/ldaplusplus/LDABuilder.cpp', 'src/ldaplusplus/LDA.cpp', 'src/ldaplusplus/events/Events.cpp'] + \
      ['src/ldaplusplus/em/%s.cpp' % x for x in (
       'AbstractEStep', 'UnsupervisedEStep', 'SupervisedEStep', 'FastSupervisedEStep', 'MultinomialSupervisedEStep', 'CorrespondenceSupervisedEStep',
       'SemiSupervisedEStep', 'UnsupervisedMStep', 'SupervisedMStep', 'FastSupervisedMStep', 'FastOnlineSupervisedMStep', 'MultinomialSupervisedMStep',
       'CorrespondenceSupervisedMStep', 'SemiSupervisedMStep')]
UNITS = [('inference steps', factories('e')), ('maximization steps', factories('m')), ('setting the inference step', setters('e')),
         ('setting the maximization step', setters('m')), ('semi-supervised step', semi),
         ('counts and models', counted), ('moved trainer', moved), ('new builder', initial)]
CHECK = Check('C24', TUS, UNITS, conformance)
