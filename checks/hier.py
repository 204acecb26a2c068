"""C18 hierarchical model, part of C20."""
from pest.scene import *
from .trajs import step
from .mix import Mix, tuple_hook, xirows, data, smooth_args, N, lu, DIMS, obmaker, repeated

FILE = 'pyparticleest/models/hierarchial.py'


class Hier(Mix):
    """lin, mea: hook forms as in Mix; given: hooks get_lin_meas_dynamics returning None everywhere if not mea"""

    def __init__(self, lin='', mea='', noc=False, noh=False, one='', vec=False, extra=None):
        s = self.s = Scene(dims=DIMS)
        self.lxi = ONEP if 'x' in one else sym('lxi', 2)
        self.lz = ONEP if 'z' in one else sym('lz', 2)
        self.ly = ONEP if 'y' in one else sym('ly', 2)
        lxi, lz, ly = self.lxi, self.lz, self.ly
        self.non, self.lin, self.mea, self.noc, self.noh, self.noff, self.cross = '', lin, mea, noc, noh, False, ''
        ut = ['u', 't']
        H = {}
        if lin:
            H['get_lin_pred_dynamics'] = tuple_hook(self, 'get_lin_pred_dynamics', ('particles', 'u', 't'), [
                ('hAz', (lz, lz), False) if 'a' in lin else None, ('hfz', (lz, ONEP), False) if 'f' in lin else None,
                ('hQz', (lz, lz), True) if 'q' in lin else None], ut)
        H['get_lin_meas_dynamics'] = tuple_hook(self, 'get_lin_meas_dynamics', ('particles', 'y', 't'), [
            ('hC', (ly, lz), False) if 'c' in mea else None, ('hh', (ly, ONEP), False) if 'h' in mea else None,
            ('hR', (ly, ly), True) if 'r' in mea else None], ['t'], lead='y')

        def rows_(name, params, deps, shape=(), nxt=None):
            def fn(I, st, env, node):
                f, n = xirows(name, self)(I, st, env, node)
                ds = [whole_clo(I, st, env[d]) for d in deps]
                if nxt:
                    b = I.av(env[nxt], st)
                    g = lambda i: mkav((lxi,), lambda k: b.at([i, k] + [ZERO] * (len(b.shape) - 2))).clo()
                else:
                    g = lambda i: 'None'
                return newarr(mkav((n,) + shape, lambda i, *r: mk_in(name, f(P(i)), g(P(i)), *(ds + [P(x) for x in r]))))
            return uhook(name, params, fn)
        H['logp_xnext_xi'] = rows_('logp_xnext_xi', ('particles', 'next_xi', 'u', 't'), ut, (ONEP,) if vec else (), nxt='next_xi')
        H['logp_xnext_xi_max'] = rows_('logp_xnext_xi_max', ('particles', 'u', 't'), ut)
        H['calc_xi_next'] = rows_('calc_xi_next', ('particles', 'u', 't', 'noise'), ut, (lxi,), nxt='noise')
        H['measure_nonlin'] = rows_('measure_nonlin', ('particles', 'y', 't'), ['y', 't'])
        H.update(extra(self) if extra else {})
        cls = user_class(s, 'models.hierarchial', 'HierarchicalRSBase', H)
        self.c = dict(Az=s.arr('Az', lz, lz), fz=s.arr('fz', lz, ONEP), Qz=s.arr('Qz', lz, lz, sym=(0, 1)),
                      C=s.arr('C', ly, lz), hz=s.arr('h', ly, ONEP), R=s.arr('R', ly, ly, sym=(0, 1)))
        self.c['h'] = self.c['hz']
        kw = {k: v for k, v in self.c.items() if not (
            k == 'h' or k == 'Az' and 'a' in lin or k == 'fz' and 'f' in lin or k == 'Qz' and 'q' in lin or
            k == 'C' and ('c' in mea or noc) or k == 'hz' and ('h' in mea or noh) or k == 'R' and 'r' in mea)}
        self.o = s.call(cls, len_xi=sc(lxi, 'i'), len_z=sc(lz, 'i'), **kw)
        self.u, self.t, self.y = s.arr('u', lu), s.scal('t'), s.arr('y', ly, ONEP)

    def D(self, p, n=N, u=None, t=None):
        lin = self.ev('get_lin_pred_dynamics', p, u or self.u, t or self.t) if self.lin else (None,) * 3
        return tuple(self.rep(self.c[k], n) if v is None else v for v, k in zip(lin, ('Az', 'fz', 'Qz')))

    def Ms(self, p, n=N, t=None, y=None):
        C, h, R = self.ev('get_lin_meas_dynamics', p, y or self.y, t or self.t)[1:]
        if C is None and not self.noc:
            C = self.rep(self.c['C'], n)
        if h is None:
            h = self.zeros(self.ly, ONEP, n) if self.noh else self.rep(self.c['h'], n)
        return C, h, R if R is not None else self.rep(self.c['R'], n)

    def h(self, fn, *a):
        return self.s.ref('hier', fn, *a)


def q_update(m, s):
    xi, z, P_, p = m.state(own=True)
    q = m.state()[3]
    v = s.arr('noise', N, m.lxi)
    xn = m.ev('calc_xi_next', q, m.u, m.t, v)
    r = s.meth(m.o, 'update', p, m.u, m.t, v)
    xn3 = s.array((N, m.lxi, ONEP), lambda i, k, l: s.av(xn).at([i, k]))
    ref = m.h('stepped', xn3, z, P_, *m.D(q))
    return [('returned', same(s, r, ref)), ('stored', same(s, p, ref))]


def q_condpred(m, s):
    xi, z, P_, p = m.state(own=True)
    q = m.state()[3]
    xn3 = s.arr('xn', N, m.lxi, ONEP)
    s.meth(m.o, 'cond_predict', p, xn3, m.u, m.t)
    return same(s, p, m.h('stepped', xn3, z, P_, *m.D(q)))


def q_condsingle(m, s):
    xi, z, P_, p = m.state()
    us, ys, ts, ci = data(m, s)
    fx, fz_, fP, fp = m.state(sym('M'), 'f')
    find = s.arr('find', N, int=True, range=sym('M'), nonneg=True)
    r = s.meth(m.o, 'cond_predict_single_step', part=p, past_trajs=None, pind=None, future_parts=fp, find=find, ut=us,
               yt=ys, tt=ts, cur_ind=ci)
    ref = m.h('stepped', m.r('sel', fx, find), z, P_, *m.D(p, N, s.at(us, ci), s.at(ts, ci)))
    return [('value', same(s, r, ref)), ('argument unchanged', same(s, p, m.r('pack', xi, z, P_)))]


def q_measure(m, s):
    xi, z, P_, p = m.state(own=True)
    q = m.state()[3]
    y = s.arr('yr', m.ly) if m.flat else m.y
    lp = m.ev('measure_nonlin', q, y, m.t)
    v = s.meth(m.o, 'measure', p, y, m.t)
    C, h, R = m.Ms(q, y=y)
    yc = s.array((m.ly, ONEP), lambda i, k: s.av(y).at([i] if m.flat else [i, ZERO]))
    if m.noc and C is None:
        a, pn = s.tuplize(m.h('measure_nolin', lp, yc, xi, z, P_, h, R), 2)
    else:
        a, pn = s.tuplize(m.h('measure', lp, yc, xi, z, P_, C, h, R), 2)
    return [('log-density', same(s, v, a)), ('updated state', same(s, p, pn))]


def nxt(m, lp, s):
    return s.array((s.av(lp).shape[0],), lambda i: s.av(lp).at([i] + [ZERO] * (len(s.av(lp).shape) - 1)))


def q_trans(m, s):
    xi, z, P_, p = m.state()
    xn, zn, Pn, pn = m.state(tag='n')
    lp = m.ev('logp_xnext_xi', p, m.x(xn), m.u, m.t)
    v = s.meth(m.o, 'logp_xnext', p, pn, m.u, m.t)
    return same(s, v, m.h('dens', nxt(m, lp, s), zn, z, P_, *m.D(p)))


def q_trans1(m, s):
    xi, z, P_, p = m.state()
    xn, zn, Pn, pn = m.state(ONEP, tag='n')
    v = s.meth(m.o, 'logp_xnext', p, pn, m.u, m.t)
    rx = s.array((N, m.lxi), lambda i, k: s.av(xn).at([ZERO, k, ZERO]))
    rz = s.array((N, m.lz, ONEP), lambda i, k, l: s.av(zn).at([ZERO, k, ZERO]))
    lp = m.ev('logp_xnext_xi', p, rx, m.u, m.t)
    return same(s, v, m.h('dens', nxt(m, lp, s), rz, z, P_, *m.D(p)))


def q_transfull(m, s):
    xi, z, P_, p = m.state()
    us, ys, ts, ci = data(m, s)
    fx, fz_, fP, fp = m.state(sym('M'), 'f')
    ft = s.seq('ft', sym('nf'), lambda st, k: step(s, fp, s.arr('fw', sym('M')), s.arr('fa', sym('M'), int=True), sym('M')))
    find = s.arr('find', N, int=True, range=sym('M'), nonneg=True)
    v = s.meth(m.o, 'logp_xnext_full', part=p, past_trajs=None, pind=None, future_trajs=ft, find=find, ut=us, yt=ys,
               tt=ts, cur_ind=ci)
    u, t = s.at(us, ci), s.at(ts, ci)
    lp = m.ev('logp_xnext_xi', p, m.x(m.r('sel', fx, find)), u, t)
    return same(s, v, m.h('dens', nxt(m, lp, s), m.r('sel', fz_, find), z, P_, *m.D(p, N, u, t)))


def q_smooth(m, s):
    xi, z, P_, p = m.state()
    us, ys, ts, ci, fx, fz_, ft, find = smooth_args(m, s, N)
    v = s.meth(m.o, 'sample_smooth', part=p, ptraj=None, anc=None, future_trajs=ft, find=find, ut=us, yt=ys, tt=ts, cur_ind=ci)
    ref = m.h('smooth_draw', xi, z, P_, m.r('sel', fz_, find), *m.D(p, N, s.at(us, ci), s.at(ts, ci)))
    return [('draw', same_dist(s, v, ref)), ('argument unchanged', same(s, p, m.r('pack', xi, z, P_)))]


def q_smooth0(m, s):
    xi, z, P_, p = m.state()
    us, ys, ts, ci = data(m, s)
    v = s.meth(m.o, 'sample_smooth', part=p, ptraj=None, anc=None, future_trajs=None, find=None, ut=us, yt=ys, tt=ts, cur_ind=ci)
    return same_dist(s, v, m.h('last_draw', xi, z, P_))


def q_bound(m, s):
    xi, z, P_, p = m.state()
    lp = m.ev('logp_xnext_xi_max', p, m.u, m.t)
    v = s.meth(m.o, 'logp_xnext_max', p, m.u, m.t)
    return same(s, v, m.h('peak', lp, z, P_, *m.D(p)))


def q_boundfull(m, s):
    xi, z, P_, p = m.state()
    us, ys, ts, ci = data(m, s)
    u, t = s.at(us, ci), s.at(ts, ci)
    lp = m.ev('logp_xnext_xi_max', p, u, t)
    v = s.meth(m.o, 'logp_xnext_max_full', part=p, past_trajs=None, pind=None, uvec=us, yvec=ys, tvec=ts, cur_ind=ci)
    return same(s, v, m.h('peak', lp, z, P_, *m.D(p, N, u, t)))


B_, R_ = 'HierarchicalBase.', 'HierarchicalRSBase.'
HT = dict(
    update=('propagate', B_ + 'calc_cond_dynamics/RBPFBase.update', q_update),
    condpred=('condition on the next nonlinear state and predict', B_ + 'calc_cond_dynamics/RBPFBase.cond_predict', q_condpred),
    condsingle=('condition on a future state', 'RBPFBase.cond_predict_single_step', q_condsingle),
    measure=('measurement likelihood and update', B_ + 'measure', q_measure),
    trans=('transition log-density', B_ + 'logp_xnext', q_trans),
    trans1=('transition log-density, one next state', B_ + 'logp_xnext', q_trans1),
    transfull=('transition log-density to the future trajectory', B_ + 'logp_xnext', q_transfull),
    smooth=('smoothed draw given the future state', B_ + 'sample_smooth', q_smooth),
    smooth0=('smoothed draw at the last step', B_ + 'sample_smooth', q_smooth0),
    bound=('bound at zero prediction error', R_ + 'logp_xnext_max', q_bound),
    boundfull=('bound with the data of the given step', R_ + 'logp_xnext_max', q_boundfull),
)
LIN = [('constant', dict()), ('per-particle A', dict(lin='a')), ('per-particle f', dict(lin='f')), ('per-particle Q', dict(lin='q')),
       ('per-particle A/f/Q', dict(lin='afq')), ('scalar states', dict(one='xz')),
       ('scalar states, per-particle', dict(one='xz', lin='afq')), ('column densities', dict(vec=True))]
MEAS = [('constant', dict()), ('no offset', dict(noh=True)), ('per-particle C', dict(mea='c')), ('per-particle h', dict(mea='h')),
        ('per-particle R', dict(mea='r')), ('per-particle C/h/R', dict(mea='chr')), ('per-particle C/R, no offset', dict(mea='cr', noh=True)),
        ('no matrix', dict(noc=True)), ('no matrix, per-particle h', dict(noc=True, mea='h'))]


def flat(m, f):
    m.flat = f
    return m


def c18(rep, tier):
    rep.defer()
    for tag, kw in LIN:
        obmaker(rep, tag, lambda kw=kw: Hier(**kw), ['update', 'condpred', 'condsingle', 'trans', 'trans1', 'transfull', 'smooth', 'smooth0'],
                HT, FILE)
    for tag, kw in MEAS:
        for one in ('', 'y', 'xz'):
            for fl in (False, True):
                k = dict(kw, one=one)
                obmaker(rep, tag + {'': '', 'y': ', scalar measurement', 'xz': ', scalar states'}[one] + (', flat y' if fl else ''),
                        lambda k=k, fl=fl: flat(Hier(**k), fl), ['measure'], HT, FILE)
    full = dict(lin='afq', mea='chr')
    for w in (['update', 'measure', 'trans'], ['condpred', 'condsingle'], ['trans1', 'transfull'], ['smooth', 'smooth0']):
        repeated(rep, 'per-particle all', lambda: flat(Hier(**full), False), w, HT, FILE)


def bounds(rep, tier):
    for tag, kw in LIN:
        obmaker(rep, 'hierarchical ' + tag, lambda kw=kw: Hier(**kw), ['bound', 'boundfull'], HT, FILE)
