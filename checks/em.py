"""C25 drivers of expectation maximisation."""
import ast
from fractions import Fraction
from pest.scene import *
from .mix import obmaker
from .obj import phook
from .trajs import step, inview, obj

FILE = 'pyparticleest/paramest/paramest.py'
lp, lx, lu, ly, T, K, M = sym('lp'), sym('lx'), sym('lu'), sym('ly'), sym('T', 2), sym('K'), sym('M')
DIMS = [dict(lp=2, lx=2, T=3, K=3, M=3, K0=2, K1=4, K2=3, M0=2, M1=4, M2=3), dict(lp=1, lx=1, T=2, K=4, M=2, K0=3, K1=2, K2=5, M0=3, M1=1, M2=2),
        dict(lp=3, lx=2, T=4, K=2, M=4, K0=4, K1=3, K2=2, M0=1, M1=3, M2=4)]
ALPHAS = [const(1), const(Fraction(2, 3)), const(Fraction(2, 5)), const(Fraction(1, 7))]


class EM(object):
    def __init__(self, clsname, iters, rb=False, slots=None):
        s = self.s = Scene(dims=DIMS)
        s.I.whileunroll = 8
        self.calls, self.maxs, self.order, self.alphas = [], [], [], []
        self.ret = [s.arr('par%d' % k, lp) for k in range(iters + 2)]
        self.cur, self.iters, self.rb = None, iters, rb
        base = s.get('paramest.paramest', clsname)
        sim = s.get('simulator', 'Simulator')
        fn = sim.attrs['simulate']
        names = params(fn)[0][1:]
        df = fn.node.args.defaults
        lit = lambda d: (lambda v: sc(const(Fraction(str(v)))) if isinstance(v, float) else v)(ast.literal_eval(d))
        self.dflt = {n: lit(d) for n, d in zip(names[len(names) - len(df):], df)}
        opt = tuple(self.dflt)
        self.slots = slots

        def simulate(I, st, env, node):
            return self.simulate(I, st, env, node)

        def set_params(I, st, env, node):
            self.cur = I.av(env['params'], st)
            return None

        def maximize(I, st, env, node):
            return self.maximise(I, st, env)

        def setp(I, st, env, node):
            return None
        sm = s.get('smoother', 'SmoothTrajectory')

        def anc(I, st, env, node):
            return self.ancestors(I, st, env)
        self.smcls = user_class(s, 'smoother', sm, dict(calculate_ancestors=phook('calculate_ancestors', ('pt', 'ind'), anc)) if rb else {})

        def run(I, st, self_, args, kw, node):
            e = phook('simulate', names, simulate)
            for n, v in self.dflt.items():
                if n not in kw and names.index(n) >= len(args):
                    kw = dict(kw, **{n: v})
            return e.fn(I, st, self_, args, kw, node)
        cls = user_class(s, 'paramest.paramest', base, dict(simulate=Hook('simulate', run)))
        mcls = user_class(s, 'interfaces', 'ParticleFiltering', dict(
            set_params=uhook('set_params', ('params',), set_params), maximize=uhook('maximize', ('straj',), maximize),
            maximize_weighted=uhook('maximize_weighted', ('straj', 'alltrajs', 'weights'), maximize)))
        self.model = s.call(mcls)
        self.u, self.y = s.matseq('u', T, lu), s.matseq('y', T, ly)
        self.o = s.call(cls, self.model, self.u, self.y)
        self.p0 = s.arr('param0', lp)
        self.stopat = None
        cb = uhook('callback', ('params', 'Q', 'cur_iter'), lambda I, st, env, node: self.callback(I, st, env))
        cs = uhook('callback_sim', ('estimator',), lambda I, st, env, node: self.callback_sim(I, st, env))
        self.cb, self.cs = Bound(cb, None), Bound(cs, None)
        self.ag = Bound(uhook('alpha_gen', ('it',), lambda I, st, env, node: self.alpha(I, st, env)), None)

    def alpha(self, I, st, env):
        k = int(cval(I.av(env['it'], st).body))
        self.alphas.append(k)
        return sc(ALPHAS[k])

    def callback(self, I, st, env):
        self.order.append(('callback', I.av(env['params'], st)))
        n = sum(1 for x in self.order if x[0] == 'callback')
        return True if self.stopat and n >= self.stopat else None

    def callback_sim(self, I, st, env):
        self.order.append(('callback_sim', I.getattr(env['estimator'], 'straj', st)))
        return None

    def simulate(self, I, st, env, node):
        s, k = self.s, len(self.calls)
        m = I.av(env['num_traj'], st).body
        n = I.av(env['num_part'], st).body
        memo = {}

        def stepk(st, t):
            if t not in memo:
                memo[t] = step(s, inview(s, 'em%d.part' % k, t, (m, lx)), None, None, m)
            return memo[t]
        traj = I.call(Builtin('numpy.asarray'), [s.seq('em%d' % k, T, stepk)], {'dtype': Builtin('object')}, st)
        straj = obj(s, None, self.smcls, traj=traj, M=sc(m, 'i'), u=self.u, y=self.y, t=s.matseq('t', T))
        pt = obj(s, 'filter', 'ParticleTrajectory', traj=s.seq('pt%d' % k, T, lambda st, t: step(
            s, inview(s, 'pt%d.part' % k, t, (n, lx)), inview(s, 'pt%d.w' % k, t, (n,)), inview(s, 'pt%d.anc' % k, t, (n,), 'i'), n)))
        I.setattr(env['self'], 'straj', straj, st)
        I.setattr(env['self'], 'pt', pt, st)
        rec = {x: env[x] for x in env if x != 'self'}
        rec.update(params=self.cur, straj=straj, pt=pt, M=m, n=n)
        fo = env.get('filter_options')
        if isinstance(fo, ORef) and isinstance(st.get(fo.cid), DictC):
            rec['fo'] = dict(st.get(fo.cid).items)
        self.calls.append(rec)
        self.order.append(('simulate', straj))
        return None

    def ancestors(self, I, st, env):
        """trajectories of all filter particles of the last step"""
        s, k = self.s, len(self.calls) - 1
        rec = self.calls[k]
        rec['anc'] = (env['self'], env['pt'], I.av(env['ind'], st))
        n = rec['n']

        def stepk(st, t):
            return step(s, inview(s, 'anc%d.part' % k, t, (n, lx)), None, None, n)
        return s.seq('anc%d' % k, T, stepk)

    def maximise(self, I, st, env):
        rec = dict(straj=env['straj'])
        for x in ('alltrajs', 'weights'):
            if x in env:
                rec[x] = I.av(env[x], st)
        self.maxs.append(rec)
        self.order.append(('maximize', env['straj']))
        return self.ret[len(self.maxs) - 1]


def sched(x, k):
    return x if not isinstance(x, list) else x[min(k, len(x) - 1)]


def lst(s, x):
    return ORef(alloc(ListC([sc(v, 'i') for v in x], 'list'))) if isinstance(x, list) else sc(x, 'i')


def eqv(s, a, b):
    """same option value"""
    if isinstance(a, ORef) and isinstance(b, ORef):
        return Verdict(a.cid == b.cid, 'another object passed')
    if b is None or isinstance(b, (str, bool)) or a is None or isinstance(a, (str, bool)):
        x = a
        if isinstance(a, AV) and not a.shape and is_const(a.body):
            x = bool(cval(a.body)) if isinstance(b, bool) else a
        return Verdict(x is b or (type(x) is type(b) and x == b), 'passed %r instead of %r' % (x, b))
    return same(s, a, b)


def common_checks(m, s, r, opts, nump, numt, n):
    """schedule, options, order of events and result"""
    out = [('number of iterations', Verdict(len(m.calls) == n, '%d instead of %d' % (len(m.calls), n))),
           ('one maximisation per iteration', Verdict(len(m.maxs) == n, '%d instead of %d' % (len(m.maxs), n)))]
    if not (len(m.calls) == n == len(m.maxs)):
        return out
    for k, c in enumerate(m.calls):
        want = m.p0 if k == 0 else m.ret[k - 1]
        t = 'iteration %d: ' % (k + 1)
        out.append((t + 'parameters', same(s, c['params'], want) if c['params'] is not None else Verdict(False, 'parameters not set')))
        out.append((t + 'particle count', same(s, c['num_part'], sc(sched(nump, k), 'i'))))
        out.append((t + 'trajectory count', same(s, c['num_traj'], sc(sched(numt, k), 'i'))))
        for o, v in opts.items():
            out.append((t + o, eqv(s, c[o], v)))
        for o in m.dflt:
            if o not in opts:
                out.append((t + 'default ' + o, eqv(s, c[o], m.dflt[o])))
        out.append((t + 'trajectories', Verdict(isinstance(m.maxs[k]['straj'], ORef) and m.maxs[k]['straj'].cid == c['straj'].cid,
                                                'maximised on other trajectories')))
    res = s.tuplize(r, 2)[0]
    out.append(('result', same(s, res, m.ret[n - 1])))
    ev = [x[0] for x in m.order]
    out.append(('order of simulation, callbacks and maximisation',
                Verdict(ev == ['simulate', 'callback_sim', 'maximize', 'callback'] * n, ' '.join(ev)[:200])))
    if ev == ['simulate', 'callback_sim', 'maximize', 'callback'] * n:
        for k in range(n):
            out.append(('iteration %d: parameters reported' % (k + 1), same(s, m.order[4 * k + 3][1], m.ret[k])))
    return out


SCHED = [('constant counts', K, M, 3), ('counts per iteration', [sym('K0'), sym('K1'), sym('K2')], [sym('M0'), sym('M1'), sym('M2')], 3),
         ('short schedule', [sym('K0'), sym('K1')], [sym('M0')], 3), ('long schedule', [sym('K0'), sym('K1'), sym('K2')], [sym('M0'), sym('M1'), sym('M2')], 2)]


def options(s, no=()):
    o = dict(filter='apf', smoother='mhips', smoother_options=ORef(alloc(DictC({'R': sc(const(5), 'i')}))), meas_first=True,
             filter_options=ORef(alloc(DictC({'opt': sc(const(1), 'i')}))))
    return {k: v for k, v in o.items() if k not in no}


def names(s, m):
    fn = m.o
    c = s.I.getattr(m.o, '__class__', s.s)
    for k in c.mro[1:]:
        if 'maximize' in k.attrs:
            return params(k.attrs['maximize'])[0]


def e_em(m, s, nump, numt, n, given):
    opts = {k: v for k, v in options(s).items() if k in names(s, m)} if given else {}
    r = s.meth(m.o, 'maximize', m.p0, lst(s, nump), lst(s, numt), max_iter=sc(const(n), 'i'), callback=m.cb, callback_sim=m.cs, **opts)
    if not given:
        opts = {'meas_first': False, 'filter': 'pf', 'smoother': 'full', 'smoother_options': None}
    return common_checks(m, s, r, opts, nump, numt, n)


def est(m, s, k):
    """estimates of iteration k (T, M, lx)"""
    c = m.calls[k]
    if m.rb:
        return s.array((T, c['n'], lx), lambda t, i, d: mk_in('anc%d.part' % k, P(t), P(i), P(d))), c['n']
    return s.array((T, c['M'], lx), lambda t, i, d: mk_in('em%d.part' % k, P(t), P(i), P(d))), c['M']


def sa_checks(m, s, n, keep=None, al=None):
    """weights and trajectories handed to the weighted maximisation"""
    out = []
    W = X = None
    for k in range(n):
        x, cnt = est(m, s, k)
        if m.rb:
            w = s.ref('flt', 'normw', inview(s, 'pt%d.w' % k, T - 1, (cnt,)))
        else:
            w = s.ref('par', 'uniform', sc(cnt, 'i'))
        a = sc((al or ALPHAS)[k])
        if W is None:
            W, X = w, x
            if m.slots:
                W = s.ref('par', 'scaled', w, a)
        else:
            W, X = s.tuplize(s.ref('par', 'sa', W, X, w, x, a), 2)
        if keep:
            W, X = keep(s, W, X)
        t = 'iteration %d: ' % (k + 1)
        out.append((t + 'weights', same(s, m.maxs[k]['weights'], W)))
        out.append((t + 'trajectories of the weights', same(s, m.maxs[k]['alltrajs'], X)))
    return out


def e_saem(m, s, nump, numt, n, given):
    opts = {k: v for k, v in options(s).items() if k in names(s, m)} if given else {}
    r = s.meth(m.o, 'maximize', m.p0, lst(s, nump), lst(s, numt), max_iter=sc(const(n), 'i'), callback=m.cb, callback_sim=m.cs,
               alpha_gen=m.ag, **opts)
    if not given:
        opts = {'meas_first': False, 'filter': 'pf', 'smoother': 'full', 'smoother_options': None}
    out = common_checks(m, s, r, opts, nump, numt, n)
    if len(m.calls) != n or len(m.maxs) != n:
        return out
    out.append(('step sizes used', Verdict(m.alphas == list(range(n)), 'step sizes of iterations %s' % m.alphas)))
    return out + sa_checks(m, s, n)


def cond_checks(m, s, n):
    """conditioning trajectory given to the next simulation"""
    out = []
    for k in range(n):
        t = 'iteration %d: ' % (k + 1)
        fo = m.calls[k].get('fo')
        if fo is None:
            out.append((t + 'filter options', Verdict(False, 'not passed')))
            continue
        out.append((t + 'other filter options', eqv(s, fo.get('opt'), sc(const(1), 'i'))))
        ct = fo.get('cond_traj')
        if k == 0:
            out.append((t + 'no conditioning trajectory', Verdict(ct is None, 'unexpected conditioning trajectory')))
            continue
        if ct is None:
            out.append((t + 'conditioning trajectory', Verdict(False, 'missing')))
            continue
        tv = fresh(T)
        e = s.I.getitem(ct, (sc(P(tv), 'i'),), s.s)
        part = s.I.getattr(s.I.getattr(e, 'pa', s.s), 'part', s.s)
        mk = m.calls[k - 1]['M']
        out.append((t + 'conditioning trajectory length', same(s, sc(s.I.length(ct, s.s), 'i'), sc(T, 'i'))))
        a = s.av(part)
        out.append((t + 'conditioning trajectory', same(
            s, newarr(mkav((T,) + tuple(a.shape), lambda q, *r: subst(a.at([P(x) for x in r]), {tv: P(q)}))),
            s.array((T, mk, lx), lambda q, i, d: mk_in('em%d.part' % (k - 1), P(q), P(i), P(d))))))
    return out


def e_psaem(m, s, n, given, kw, keep=None, stop=None, one=False):
    fo = ORef(alloc(DictC({'opt': sc(const(1), 'i')})))
    opts = {k: v for k, v in options(s, ('filter_options',)).items() if k in names(s, m)} if given else {}
    m.stopat = stop
    r = s.meth(m.o, 'maximize', m.p0, sc(K, 'i'), max_iter=sc(const(n if not stop else 4), 'i'), callback=m.cb, callback_sim=m.cs, alpha_gen=m.ag,
               filter_options=fo, **dict(opts, **kw))
    if not given:
        opts = {'meas_first': False, 'filter': 'cpfas', 'smoother': 'full' if one else 'ancestor'}
    opts = dict(opts, filter_options=fo)
    cnt = kw.get('M')
    out = common_checks(m, s, r, opts, K, cnt.body if cnt is not None else ONEP, n)
    if len(m.calls) != n or len(m.maxs) != n:
        return out
    out.append(('step sizes used', Verdict(m.alphas == list(range(n)), 'step sizes of iterations %s' % m.alphas)))
    if m.rb:
        for k, c in enumerate(m.calls):
            if 'anc' not in c:
                out.append(('iteration %d: ancestors' % (k + 1), Verdict(False, 'not computed')))
                return out
            o, pt, ind = c['anc']
            out.append(('iteration %d: ancestors of all particles' % (k + 1), same(s, ind, s.array((K,), lambda i: P(i), 'i'))))
            out.append(('iteration %d: filter of the ancestors' % (k + 1), Verdict(pt.cid == c['pt'].cid, 'other trajectory')))
    return out + cond_checks(m, s, n) + sa_checks(m, s, n, keep)


def dropper(eps=0, pct=0, last=0):
    """drop at most the lowest percentile of the weights, none above eps; keep the newest; renormalise (constant weights)"""
    def keep(s, W, X):
        w, x = s.av(W), s.av(X)
        v = [cval(w.at([const(i)])) for i in range(int(cval(w.shape[0])))]
        o = sorted(v)
        h = Fraction(pct) * (len(o) - 1) / 100
        q = o[int(h)] + (h - int(h)) * (o[min(int(h) + 1, len(o) - 1)] - o[int(h)])
        thr = min(Fraction(eps), max([y for y in v if y < q] + [0]))
        at = [i for i, y in enumerate(v) if y > thr]
        if last:
            at = at[-last:]
        tot = sum(v[i] for i in at)
        n = const(len(at))

        def pick(f):
            return lambda i: psum([mk_eq(i - const(j)) * f(k) for j, k in enumerate(at)])
        return (newarr(mkav((n,), lambda i: pick(lambda k: const(v[k] / tot))(P(i)))),
                newarr(mkav((x.shape[0], n, x.shape[2]), lambda t, i, d: pick(lambda k: x.at([P(t), const(k), P(d)]))(P(i)))))
    return keep


def default_alpha():
    s = Scene(dims=DIMS)
    f = s.get('paramest.paramest', 'alpha_gen')
    out = []
    for k in (0, 1, 5, 99, 100, 101, 102, 150, 1000, 100000):
        v = s.av(s.call(f, sc(const(k), 'i'))).body
        ps = pits(s)
        x = float(ps[0].ev(v)[1])
        out.append(('iteration %d' % k, Verdict(0 < x <= 1 and (k > 0 or x == 1), 'step size %g' % x)))
    return out


def c25(rep, tier):
    rep.defer()
    for tag, nump, numt, n in SCHED:
        for given in (True, False):
            t = tag + (', options given' if given else ', default options')
            for cls, f in (('ParamEstimation', e_em), ('ParamEstimationSAEM', e_saem)):
                obmaker(rep, t, lambda cls=cls, n=n: EM(cls, n), ['x'],
                        dict(x=('schedule of ' + cls, cls + '.maximize', lambda m, s, f=f, a=(nump, numt, n, given): f(m, s, *a))), FILE)
    c = 'ParamEstimationPSAEM'

    def ob(name, cls, f, rb=False, slots=False, n=3):
        obmaker(rep, name, lambda: EM(cls, n, rb, slots), ['x'], dict(x=('schedule and weights of ' + cls, cls + '.maximize', f)), FILE)
    for given in (True, False):
        t = 'options given' if given else 'default options'
        ob(t, c, lambda m, s, given=given: e_psaem(m, s, 3, given, {}))
        ob(t + ', several trajectories', c, lambda m, s, given=given: e_psaem(m, s, 3, given, {'M': sc(M, 'i')}))
        ob(t + ', all filter particles', c, lambda m, s, given=given: e_psaem(m, s, 3, given, {'raoblackwell': True}), rb=True)
        ob(t, c + '2', lambda m, s, given=given: e_psaem(m, s, 3, given, {}, one=True))
    rep.obligation('default step sizes', FILE + ':alpha_gen', default_alpha)
    ob('at most two trajectories kept', c, lambda m, s: e_psaem(m, s, 4, True, {'max_traj': sc(const(2), 'i')}, dropper(last=2)), n=4)
    for cls in (c, c + '2'):
        ob('low weights discarded', cls, lambda m, s, cls=cls: e_psaem(
            m, s, 4, True, {'discard_eps': sc(const(Fraction(3, 10))), 'discard_percentile': sc(const(40), 'i')}, dropper(Fraction(3, 10), 40), one=cls != c), n=4)
        ob('small weights discarded', cls, lambda m, s, cls=cls: e_psaem(
            m, s, 4, True, {'discard_eps': sc(const(Fraction(1, 4))), 'discard_percentile': sc(const(100), 'i')}, dropper(Fraction(1, 4), 100), one=cls != c), n=4)
    ob('stopped by the callback', c, lambda m, s: e_psaem(m, s, 2, True, {}, stop=2))
