"""C19 linear time-varying model; parts of C21, C23, C24."""
from pest.scene import *
from .trajs import step
from .mix import data, obmaker, repeated

FILE = 'pyparticleest/models/ltv.py'
N, lu = sym('N'), sym('lu')
DIMS = [dict(N=3, lz=2, ly=2, K=3, M=3, lp=2), dict(N=2, lz=3, ly=1, K=2, M=4, lp=3), dict(N=4, lz=2, ly=3, K=3, M=2, lp=1)]
L_ = 'LTV.'


def mathook(name, params, outs, deps, lead=None):
    """hook returning a tuple of matrices that are unknown functions of the named arguments"""
    for o in outs:
        if o is not None and o[2]:
            META[o[0]] = {'sym': (len(deps), 1 + len(deps))}

    def fn(I, st, env, node):
        ds = [whole_clo(I, st, env[d]) for d in deps]
        out = []
        for o in outs:
            if o is None:
                out.append(None)
            else:
                a = newarr(mkav(o[1], lambda *r, nm=o[0]: mk_in(nm, *(ds + [P(x) for x in r]))))
                I.inputcells[a.cid] = 'result of ' + name
                out.append(a)
        return tuple(([env[lead]] if lead else []) + out)
    return uhook(name, params, fn)


class Lin(object):
    def __init__(self, pred='', mea='', noc=False, noh=False, nof=False, one='', extra=None, params=False, chkind=None):
        s = self.s = Scene(dims=DIMS)
        self.lz = ONEP if 'z' in one else sym('lz', 2)
        self.ly = ONEP if 'y' in one else sym('ly', 2)
        lz, ly = self.lz, self.ly
        self.pred, self.mea, self.noc, self.noh, self.nof = pred, mea, noc, noh, nof
        H = {}
        if pred:
            H['get_pred_dynamics'] = mathook('get_pred_dynamics', ('u', 't'), [
                ('hA', (lz, lz), False) if 'a' in pred else None, ('hf', (lz, ONEP), False) if 'f' in pred else None,
                ('hQ', (lz, lz), True) if 'q' in pred else None], ['u', 't'])
        if mea:
            H['get_meas_dynamics'] = mathook('get_meas_dynamics', ('y', 't'), [
                ('hC', (ly, lz), False) if 'c' in mea else None, ('hh', (ly, ONEP), False) if 'h' in mea else None,
                ('hR', (ly, ly), True) if 'r' in mea else None], ['t'], lead='y')
        H.update(extra(self) if extra else {})
        cls = user_class(s, 'models.ltv', 'LTV', H)
        self.c = dict(A=s.arr('A', lz, lz), f=s.arr('f', lz, ONEP), Q=s.arr('Q', lz, lz, sym=(0, 1)), C=s.arr('C', ly, lz),
                      h=s.arr('h', ly, ONEP), R=s.arr('R', ly, ly, sym=(0, 1)))
        kw = {k: v for k, v in self.c.items() if not (
            k == 'A' and 'a' in pred or k == 'f' and ('f' in pred or nof) or k == 'Q' and 'q' in pred or
            k == 'C' and ('c' in mea or noc) or k == 'h' and ('h' in mea or noh) or k == 'R' and 'r' in mea)}
        self.z0, self.P0 = s.arr('z0', lz, ONEP), s.arr('P0', lz, lz, sym=(0, 1))
        self.o = s.call(cls, self.z0, self.P0, **kw)
        self.u, self.t, self.y = s.arr('u', lu), s.scal('t'), s.arr('y', ly, ONEP)

    def r(self, fn, *a):
        return self.s.ref('ltv', fn, *a)

    def ev(self, name, *a, **kw):
        n = len(self.s.I.events)
        r = self.s.meth(self.o, name, *a, **kw)
        del self.s.I.events[n:]
        return r

    def zero(self, a, b):
        return self.s.array((a, b), lambda i, j: ZERO)

    def D(self, u=None, t=None):
        v = self.ev('get_pred_dynamics', u or self.u, t or self.t) if self.pred else (None,) * 3
        return tuple((self.zero(self.lz, ONEP) if k == 'f' and self.nof else self.c[k]) if x is None else x
                     for x, k in zip(v, 'AfQ'))

    def Ms(self, t=None):
        v = self.ev('get_meas_dynamics', self.y, t or self.t)[1:] if self.mea else (None,) * 3
        return tuple((self.zero(self.ly, ONEP) if k == 'h' and self.noh else None if k == 'C' and self.noc else self.c[k])
                     if x is None else x for x, k in zip(v, 'ChR'))

    def state(self, n=N, tag='', own=False, M=False):
        s = self.s
        z, P_ = s.arr('z' + tag, n, self.lz, ONEP), s.arr('P' + tag, n, self.lz, self.lz, sym=(1, 2))
        out = (z, P_)
        if M:
            out += (s.arr('Mz' + tag, n, self.lz, self.lz),)
        a = newarr(s.av(self.r('packM' if M else 'pack', *out)))
        if not own:
            s.I.inputcells[a.cid] = 'particles' + tag
        return out + (a,)


def q_init(m, s):
    return same(s, s.meth(m.o, 'create_initial_estimate', sc(N, 'i')), m.r('initial', m.z0, m.P0, sc(N, 'i')))


def q_update(m, s):
    z, P_, p = m.state(own=True)
    noise = s.meth(m.o, 'sample_process_noise', p, m.u, m.t)
    r = s.meth(m.o, 'update', p, m.u, m.t, noise)
    ref = m.r('predict', z, P_, *m.D())
    return [('returned', same(s, r, ref)), ('stored', same(s, p, ref))]


def q_update2(m, s):
    """after a step with other data"""
    z, P_, p = m.state(own=True)
    zo, Po, po = m.state(tag='o', own=True)
    uo, to = s.arr('uo', lu), s.scal('to')
    s.meth(m.o, 'update', po, uo, to, None)
    if m.mea or not m.noc:
        s.meth(m.o, 'measure', po, s.arr('yo', m.ly, ONEP), to)
    s.meth(m.o, 'update', p, m.u, m.t, None)
    ref = m.r('predict', z, P_, *m.D())
    return same(s, p, ref)


def meas_ref(m, s, z, P_):
    C, h, R = m.Ms()
    if C is None:
        return s.tuplize(m.r('measure_noc', m.y, z, P_, h, R), 2)
    return s.tuplize(m.r('measure', m.y, z, P_, C, h, R), 2)


def q_measure(m, s):
    z, P_, p = m.state(own=True)
    v = s.meth(m.o, 'measure', p, m.y, m.t)
    a, pn = meas_ref(m, s, z, P_)
    return [('log-density', same(s, v, a)), ('updated state', same(s, p, pn)),
            ('measurement unchanged', same(s, m.y, s.array((m.ly, ONEP), lambda i, j: mk_in('y', P(i), P(j)))))]


def q_measure2(m, s):
    z, P_, p = m.state(own=True)
    zo, Po, po = m.state(tag='o', own=True)
    s.meth(m.o, 'measure', po, s.arr('yo', m.ly, ONEP), s.scal('to'))
    v = s.meth(m.o, 'measure', p, m.y, m.t)
    a, pn = meas_ref(m, s, z, P_)
    return [('log-density', same(s, v, a)), ('updated state', same(s, p, pn))]


def fut(m, s, n):
    us, ys, ts, ci = data(m, s)
    zf, Pf, Mf, fp = m.state(sym('M'), 'f', M=True)
    ft = s.seq('ft', sym('nf'), lambda st, k: step(s, fp, s.arr('fw', sym('M')), s.arr('fa', sym('M'), int=True), sym('M')))
    find = s.arr('find', n, int=True, range=sym('M'), nonneg=True)
    return us, ys, ts, ci, m.r('sel', zf, find), m.r('sel', Pf, find), ft, find


def q_smooth(m, s):
    z, P_, p = m.state()
    us, ys, ts, ci, zn, Pn, ft, find = fut(m, s, N)
    v = s.meth(m.o, 'sample_smooth', part=p, ptraj=None, anc=None, future_trajs=ft, find=find, ut=us, yt=ys, tt=ts, cur_ind=ci)
    ref = m.r('smooth', z, P_, zn, Pn, *m.D(s.at(us, ci), s.at(ts, ci)))
    return [('moments', same(s, v, ref)), ('argument unchanged', same(s, p, m.r('pack', z, P_)))]


def q_smooth0(m, s):
    z, P_, p = m.state()
    us, ys, ts, ci = data(m, s)
    v = s.meth(m.o, 'sample_smooth', part=p, ptraj=None, anc=None, future_trajs=None, find=None, ut=us, yt=ys, tt=ts, cur_ind=ci)
    return same(s, v, m.r('last', z, P_))


def q_smoothM(m, s):
    """smoothing a particle set that already carries cross-covariances (repeated passes)"""
    z, P_, M_, p = m.state(M=True)
    us, ys, ts, ci, zn, Pn, ft, find = fut(m, s, N)
    v = s.meth(m.o, 'sample_smooth', part=p, ptraj=None, anc=None, future_trajs=ft, find=find, ut=us, yt=ys, tt=ts, cur_ind=ci)
    ref = m.r('smooth', z, P_, zn, Pn, *m.D(s.at(us, ci), s.at(ts, ci)))
    return [('moments', same(s, v, ref)), ('argument unchanged', same(s, p, m.r('packM', z, P_, M_)))]


def q_trans(m, s):
    z, P_, p = m.state()
    zn, Pn, pn = m.state(tag='n')
    v = s.meth(m.o, 'logp_xnext', p, pn, m.u, m.t)
    return same(s, v, s.array((N,), lambda i: ZERO), upto=0)


LT = dict(
    init=('initial moments', L_ + 'create_initial_estimate', q_init),
    update=('prediction', L_ + 'update', q_update),
    update2=('prediction after another step', L_ + 'update', q_update2),
    measure=('measurement likelihood and update', L_ + 'measure', q_measure),
    measure2=('measurement after another step', L_ + 'measure', q_measure2),
    smooth=('smoothed moments', L_ + 'sample_smooth', q_smooth),
    smooth0=('smoothed moments at the last step', L_ + 'sample_smooth', q_smooth0),
    smoothM=('smoothed moments of smoothed particles', L_ + 'sample_smooth', q_smoothM),
    trans=('backward weight is constant', L_ + 'logp_xnext', q_trans),
)
PRED = [('constant', dict()), ('no offset', dict(nof=True)), ('varying A', dict(pred='a')), ('varying f', dict(pred='f')),
        ('varying Q', dict(pred='q')), ('varying A/f/Q', dict(pred='afq')), ('varying A/Q, no offset', dict(pred='aq', nof=True))]
MEAS = [('constant', dict()), ('no offset', dict(noh=True)), ('no matrix', dict(noc=True)), ('varying C', dict(mea='c')),
        ('varying h', dict(mea='h')), ('varying R', dict(mea='r')), ('varying C/h/R', dict(mea='chr')),
        ('varying C/R, no offset', dict(mea='cr', noh=True)), ('varying h/R, no matrix', dict(mea='hr', noc=True))]


def c19(rep, tier):
    rep.defer()
    for tag, kw in PRED:
        for one in ('', 'z'):
            t = tag + (', scalar state' if one else '')
            obmaker(rep, t, lambda kw=kw, one=one: Lin(one=one, **kw), ['update', 'update2', 'smooth', 'smoothM', 'smooth0', 'trans'],
                    LT, FILE)
    for tag, kw in MEAS:
        for one in ('', 'z', 'y'):
            t = tag + {'': '', 'z': ', scalar state', 'y': ', scalar measurement'}[one]
            obmaker(rep, t, lambda kw=kw, one=one: Lin(one=one, **kw), ['measure', 'measure2'], LT, FILE)
    for tag, kw in (('varying all', dict(pred='afq', mea='chr')), ('constant', dict())):
        for one in ('', 'z'):
            t = tag + (', scalar state' if one else '')
            repeated(rep, t, lambda kw=kw, one=one: Lin(one=one, **kw), ['update', 'smooth', 'smooth0', 'measure', 'trans'], LT, FILE)
            repeated(rep, t, lambda kw=kw, one=one: Lin(one=one, **kw), ['measure2', 'update2', 'smoothM'], LT, FILE)
    obmaker(rep, 'any', lambda: Lin(), ['init'], LT, FILE)
    obmaker(rep, 'scalar state', lambda: Lin(one='z'), ['init'], LT, FILE)
