"""C15 nonlinear Gaussian model, C20 bounds of its transition density."""
from pest.scene import *

MODULE = 'models.nlg'
FILE = 'pyparticleest/models/nlg.py'
N, lx, ly, lu = sym('N'), sym('lx', 2), sym('ly', 2), sym('lu')


class Nlg(object):
    """scene with a user model: fmode etc. in {'const','hook'}, initial covariance given or not"""

    def __init__(self, fq, gr, one=False, p0=True, reset=False, own=False):
        s = self.s = Scene(dims={} if one else [dict(lx=3, ly=2), dict(lx=2, ly=3), dict(lx=3, ly=2)])
        d = self.d = ONEP if one else lx
        e = self.e = ONEP if one else ly
        self.fq, self.gr = fq, gr
        hooks = {}
        if 'f' in fq:
            hooks['calc_f'] = perpart('calc_f', (d,), ['u', 't'], ('particles', 'u', 't'))
        if 'q' in fq:
            hooks['calc_Q'] = perpart('calc_Q', (d, d), ['u', 't'], ('particles', 'u', 't'), sym=True)
        if 'g' in gr:
            hooks['calc_g'] = perpart('calc_g', (e,), ['t'], ('particles', 't'))
        if 'r' in gr:
            hooks['calc_R'] = perpart('calc_R', (e, e), ['t'], ('particles', 't'), sym=True)
        if own:
            # the model's own initial density
            hooks['create_initial_estimate'] = uhook('create_initial_estimate', ('N',), lambda I, st, env, node: newarr(mkav(
                (I.av(env['N'], st).body, d), lambda i, k: mk_in('init', P(i), P(k)))))
            hooks['eval_logp_x0'] = perpart('eval_logp_x0', (), ['t'], ('particles', 't'))
        cls = user_class(s, MODULE, 'NonlinearGaussian' if own else 'NonlinearGaussianInitialGaussian', hooks)
        kw = dict(lxi=sc(d, 'i')) if own else dict(x0=s.arr('x0', d))
        if p0 and not own:
            kw['Px0'] = s.arr('Px0', d, d, sym=(0, 1))
        self.fc, self.gc = s.arr('f', d), s.arr('g', e)
        self.Q, self.R = s.arr('Q', d, d, sym=(0, 1)), s.arr('R', e, e, sym=(0, 1))
        if 'f' not in fq:
            kw['f'] = self.fc
        if 'g' not in gr:
            kw['g'] = self.gc
        if 'q' not in fq:
            kw['Q'] = s.arr('Qold', d, d, sym=(0, 1)) if reset else self.Q
        if 'r' not in gr:
            kw['R'] = s.arr('Rold', e, e, sym=(0, 1)) if reset else self.R
        self.kw = kw
        self.o = s.call(cls, **kw)
        if reset and 'q' not in fq:
            s.meth(self.o, 'set_Q', self.Q)
        if reset and 'r' not in gr:
            s.meth(self.o, 'set_R', self.R)
        self.u, self.t, self.y = s.arr('u', lu), s.scal('t'), s.arr('y', e)

    def ev(self, name, *a):
        n = len(self.s.I.events)
        r = self.s.meth(self.o, name, *a)
        del self.s.I.events[n:]
        return r

    def F(self, p, n=N, u=None, t=None):
        u, t = u or self.u, t or self.t
        return self.ev('calc_f', p, u, t) if 'f' in self.fq else self.s.ref('nlg', 'rep', self.fc, sc(n, 'i'))

    def Qs(self, p, n=N, u=None, t=None):
        u, t = u or self.u, t or self.t
        return self.ev('calc_Q', p, u, t) if 'q' in self.fq else self.s.ref('nlg', 'rep', self.Q, sc(n, 'i'))

    def G(self, p, n=N, t=None):
        return self.ev('calc_g', p, t or self.t) if 'g' in self.gr else self.s.ref('nlg', 'rep', self.gc, sc(n, 'i'))

    def Rs(self, p, n=N, t=None):
        return self.ev('calc_R', p, t or self.t) if 'r' in self.gr else self.s.ref('nlg', 'rep', self.R, sc(n, 'i'))


def pieces(rep, tag, mk, what, seq=False):
    """what: list of obligations to form"""
    def ob(name, con, fn):
        box = []

        def go():
            m = mk()
            box.append(m)
            return fn(m, m.s)
        rep.obligation('%s [%s]' % (name, tag), '%s:%s' % (FILE, con), go)
        for m in box:
            rep.absorb(m.s)

    C = 'NonlinearGaussian.'

    def move(m, s):
        p = s.own('x', N, m.d)
        q = s.arr('x', N, m.d)
        noise = s.meth(m.o, 'sample_process_noise', q, m.u, m.t)
        r = s.meth(m.o, 'update', p, m.u, m.t, noise)
        ref = s.ref('nlg', 'draw', m.F(q), m.Qs(q))
        return [('returned', same_dist(s, r, ref)), ('stored', same_dist(s, p, ref))]

    def nonoise(m, s):
        p = s.own('x', N, m.d)
        q = s.arr('x', N, m.d)
        nz = s.arr('v', N, m.d)
        r = s.meth(m.o, 'update', p, m.u, m.t, nz)
        ref = s.op('+', m.F(q), nz)
        return [('returned', same(s, r, ref)), ('stored', same(s, p, ref))]

    def measure(m, s):
        p = s.arr('x', N, m.d)
        v = s.meth(m.o, 'measure', p, m.y, m.t)
        return same(s, v, s.ref('nlg', 'dens', s.ref('nlg', 'rep', m.y, sc(N, 'i')), m.G(p), m.Rs(p)))

    def stage1(m, s):
        p = s.arr('x', N, m.d)
        v = s.meth(m.o, 'eval_1st_stage_weights', p, m.u, m.y, m.t)
        f = m.F(p)
        f2 = s.array((N, m.d), lambda i, k: s.av(f).at([i, k]))
        t1 = sc(m.t.body + 1)
        return same(s, v, s.ref('nlg', 'dens', s.ref('nlg', 'rep', m.y, sc(N, 'i')), m.G(f2, t=t1), m.Rs(f2, t=t1)))

    def trans(m, s):
        p, x = s.arr('x', N, m.d), s.arr('xn', N, m.d)
        v = s.meth(m.o, 'logp_xnext', p, x, m.u, m.t)
        return same(s, v, s.ref('nlg', 'dens', x, m.F(p), m.Qs(p)))

    def bound(m, s):
        p = s.arr('x', N, m.d)
        v = s.meth(m.o, 'logp_xnext_max', p, m.u, m.t)
        return same(s, v, s.ref('nlg', 'peak', m.Qs(p)))

    def boundfull(m, s):
        p = s.arr('x', N, m.d)
        us, ts = s.matseq('us', sym('T'), lu), s.matseq('ts', sym('T'))
        ci = s.scal('ci', int=True, nonneg=True)
        v = s.meth(m.o, 'logp_xnext_max_full', part=p, past_trajs=None, pind=None, uvec=us, yvec=None, tvec=ts,
                   cur_ind=ci)
        u = s.at(us, ci)
        t = s.at(ts, ci)
        return same(s, v, s.ref('nlg', 'peak', m.Qs(p, u=u, t=t)))

    def init(m, s):
        v = s.meth(m.o, 'create_initial_estimate', sc(N, 'i'))
        x0 = s.ref('nlg', 'rep', m.kw['x0'], sc(N, 'i'))
        if 'Px0' in m.kw:
            return same_dist(s, v, s.ref('nlg', 'draw', x0, s.ref('nlg', 'rep', m.kw['Px0'], sc(N, 'i'))))
        return same(s, v, x0)

    def initlp(m, s):
        p = s.arr('x', N, m.d)
        v = s.meth(m.o, 'eval_logp_x0', p, m.t)
        x0 = s.ref('nlg', 'rep', m.kw['x0'], sc(N, 'i'))
        return same(s, v, s.ref('nlg', 'dens', p, x0, s.ref('nlg', 'rep', m.kw['Px0'], sc(N, 'i'))))

    def initdet(m, s):
        p = s.ref('nlg', 'rep', m.kw['x0'], sc(N, 'i'))
        v = s.meth(m.o, 'eval_logp_x0', p, m.t)
        q = s.arr('x', N, m.d)
        w = s.meth(m.o, 'eval_logp_x0', q, m.t)
        return [('at x0', same(s, v, mkav((N,), lambda i: ZERO))),
                ('elsewhere', same(s, w, mkav((N,), lambda i: -npmodel.INF)))]

    def traj(m, s):
        from .trajs import step_seq
        return step_seq(s, 'pt', sym('t0') + 1, N, (m.d,))

    def prop(first):
        def go(m, s):
            n = sym('K')
            us, ts = s.matseq('us', sym('T'), lu), s.matseq('ts', sym('T'))
            ys = s.matseq('ys', sym('T'), ly)
            anc = s.arr('anc', n, int=True, range=N, nonneg=True)
            find = s.arr('find', n, int=True, range=sym('M'), nonneg=True)
            ci = s.scal('ci', int=True, nonneg=True)
            pt = None if first else traj(m, s)
            v = s.meth(m.o, 'propose_smooth', pt, anc, None, find, ys, us, ts, ci)
            if first:
                x0 = s.ref('nlg', 'rep', m.kw['x0'], sc(n, 'i'))
                r1 = same_dist(s, v, s.ref('nlg', 'draw', x0, s.ref('nlg', 'rep', m.kw['Px0'], sc(n, 'i'))))
            else:
                last = s.attr(s.attr(s.at(pt, -1), 'pa'), 'part')
                p = s.at(last, anc)
                k = sc(ci.body - 1, 'i')
                u, t = s.at(us, k), s.at(ts, k)
                r1 = same_dist(s, v, s.ref('nlg', 'draw', m.F(p, n, u, t), m.Qs(p, n, u, t)))
            x = s.arr('xp', n, m.d)
            w = s.meth(m.o, 'logp_proposal', x, pt, anc, None, find, ys, us, ts, ci)
            if first:
                r2 = same(s, w, s.ref('nlg', 'dens', x, x0, s.ref('nlg', 'rep', m.kw['Px0'], sc(n, 'i'))))
            else:
                r2 = same(s, w, s.ref('nlg', 'dens', x, m.F(p, n, u, t), m.Qs(p, n, u, t)))
            return [('draw', r1), ('density', r2)]
        return go

    def propown(m, s):
        n = sym('K')
        us, ts, ys = s.matseq('us', sym('T', 2), lu), s.matseq('ts', sym('T', 2)), s.matseq('ys', sym('T', 2), ly)
        find = s.arr('find', n, int=True, range=sym('M'), nonneg=True)
        ci = sc(ZERO, 'i')
        v = s.meth(m.o, 'propose_smooth', None, None, None, find, ys, us, ts, ci)
        x = s.arr('xp', n, m.d)
        w = s.meth(m.o, 'logp_proposal', x, None, None, None, find, ys, us, ts, ci)
        return [('draw', same(s, v, s.meth(m.o, 'create_initial_estimate', sc(n, 'i')))),
                ('density', same(s, w, s.meth(m.o, 'eval_logp_x0', x, s.at(ts, 0))))]

    T_ = dict(
        propown=('proposal at the first step', C + 'propose_smooth/logp_proposal', propown),
        move=('draw from the transition', C + 'update', move), nonoise=('f(x) + noise', C + 'update', nonoise),
        measure=('measurement log-density', C + 'measure', measure),
        stage1=('first stage weights', C + 'eval_1st_stage_weights', stage1),
        trans=('transition log-density', C + 'logp_xnext', trans),
        bound=('bound at zero prediction error', C + 'logp_xnext_max', bound),
        boundfull=('bound with the data of the given step', 'FFBSiRS.logp_xnext_max_full', boundfull),
        init=('initial draw', 'NonlinearGaussianInitialGaussian.create_initial_estimate', init),
        initlp=('initial log-density', 'NonlinearGaussianInitialGaussian.eval_logp_x0', initlp),
        initdet=('initial log-density of a fixed start', 'NonlinearGaussianInitialGaussian.eval_logp_x0', initdet),
        prop=('proposal', C + 'propose_smooth/logp_proposal', prop(False)),
        prop0=('proposal at the first step', C + 'propose_smooth/logp_proposal', prop(True)))
    if seq:
        def many(m, s):
            return again(m, [T_[w][2] for w in what])
        ob('repeated use: ' + ', '.join(what), T_[what[0]][1], many)
        return
    for w in what:
        ob(*T_[w])


def configs():
    for one in (False, True):
        o = ', scalar state' if one else ''
        for fq, gr in (('', ''), ('f', 'g'), ('fq', 'gr'), ('q', 'r')):
            nm = lambda x, y: 'per-particle ' + '/'.join(x.upper() if x in 'qr' else x for x in x + y) if x + y else 'constant'
            yield (nm(fq, gr) + o), fq, gr, one


def run(rep, tier):
    for tag, fq, gr, one in configs():
        mk = lambda fq=fq, gr=gr, one=one: Nlg(fq, gr, one)
        pieces(rep, tag, mk, ['move', 'nonoise', 'measure', 'stage1', 'trans', 'prop', 'prop0'])
        if 'q' not in fq:
            pieces(rep, tag + ', Q and R replaced', lambda fq=fq, gr=gr, one=one: Nlg(fq, gr, one, reset=True), ['move', 'trans', 'prop'])
        if 'r' not in gr:
            pieces(rep, tag + ', Q and R replaced', lambda fq=fq, gr=gr, one=one: Nlg(fq, gr, one, reset=True), ['measure', 'stage1'])
    for fq, gr in (('fq', 'gr'), ('f', 'g'), ('', '')):
        pieces(rep, 'per-particle ' + '/'.join(fq + gr) if fq else 'constant', lambda: Nlg(fq, gr),
               ['move', 'trans', 'measure', 'stage1', 'prop'], True)
    for one in (False, True):
        o = 'scalar state' if one else 'general'
        pieces(rep, o, lambda one=one: Nlg('f', 'g', one), ['init', 'initlp'])
        pieces(rep, o + ', own initial density', lambda one=one: Nlg('f', 'g', one, own=True), ['propown'])
        pieces(rep, o + ' without Px0', lambda one=one: Nlg('f', 'g', one, p0=False), ['init', 'initdet'])


def bounds(rep, tier):
    for tag, fq, gr, one in configs():
        pieces(rep, 'nlg ' + tag, lambda fq=fq, gr=gr, one=one: Nlg(fq, gr, one), ['bound', 'boundfull'])
        if 'q' not in fq:
            pieces(rep, 'nlg ' + tag + ', Q replaced', lambda fq=fq, gr=gr, one=one: Nlg(fq, gr, one, reset=True), ['bound', 'boundfull'])
