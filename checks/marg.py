"""C17 marginalised mixed model."""
from pest.scene import *
from .mix import Mix, obmaker, repeated, data, N, lu, FILE, DYN, DYN2
from .trajs import step


def mk(**kw):
    m = Mix(base='Marginalized', **kw)
    return m


def g(m, fn, *a):
    return m.s.ref('marg', fn, *a)


def future(m, s):
    M = sym('M')
    xf, O, L = s.arr('fx', M, m.lxi, ONEP), s.arr('fO', M, m.lz, m.lz, sym=(1, 2)), s.arr('fL', M, m.lz, ONEP)
    fp = newarr(s.av(g(m, 'fpack', xf, O, L)))
    s.I.inputcells[fp.cid] = 'future particles'
    ft = s.seq('ft', sym('nf'), lambda st, k: step(s, fp, s.arr('fw', M), s.arr('fa', M, int=True), M))
    find = s.arr('find', N, int=True, range=M, nonneg=True)
    return ft, find, tuple(m.r('sel', x, find) for x in (xf, O, L))


def g_weight(m, s):
    xi, z, P_, p = m.state()
    us, ys, ts, ci = data(m, s)
    ft, find, (xn, O, L) = future(m, s)
    v = s.meth(m.o, 'logp_xnext_full', part=p, past_trajs=None, pind=None, future_trajs=ft, find=find, ut=us, yt=ys, tt=ts, cur_ind=ci)
    ref = g(m, 'weight', z, P_, xn, O, L, m.D(p, N, s.at(us, ci), s.at(ts, ci)))
    return [('weights', same(s, v, ref, upto=0)), ('argument unchanged', same(s, p, m.r('pack', xi, z, P_)))]


def nometer(m, s):
    return s.seq('nys', sym('T'), lambda st, k: None)


def g_smooth(kind):
    def fn(m, s):
        xi, z, P_, p = m.state()
        us, ys, ts, ci = data(m, s)
        ft, find, (xn, O, L) = future(m, s)
        D = m.D(p, N, s.at(us, ci), s.at(ts, ci))
        yt = ys if kind == 'meas' else None if kind == 'none' else nometer(m, s)
        v = s.meth(m.o, 'sample_smooth', part=p, ptraj=None, anc=None, future_trajs=ft, find=find, ut=us, yt=yt, tt=ts, cur_ind=ci)
        if kind == 'meas':
            C, h, R = m.Ms(p, t=s.at(ts, ci), y=s.at(ys, ci))
            ref = g(m, 'smooth_meas', xi, xn, O, L, D, s.at(ys, ci), C, h, R)
        else:
            ref = g(m, 'smooth', xi, xn, O, L, D)
        return [('information form', same(s, v, ref)), ('argument unchanged', same(s, p, m.r('pack', xi, z, P_)))]
    return fn


def g_last(kind):
    def fn(m, s):
        xi, z, P_, p = m.state()
        us, ys, ts, ci = data(m, s)
        yt = ys if kind == 'meas' else None if kind == 'none' else nometer(m, s)
        v = s.meth(m.o, 'sample_smooth', part=p, ptraj=None, anc=None, future_trajs=None, find=None, ut=us, yt=yt, tt=ts, cur_ind=ci)
        lz = sc(m.lz, 'i')
        if kind == 'meas':
            C, h, R = m.Ms(p, t=s.at(ts, ci), y=s.at(ys, ci))
            ref = g(m, 'last_meas', xi, lz, s.at(ys, ci), C, h, R)
        else:
            ref = g(m, 'last', xi, lz)
        return [('information form', same(s, v, ref)), ('argument unchanged', same(s, p, m.r('pack', xi, z, P_)))]
    return fn


def g_bound(m, s):
    """no bound exists: the request must be refused"""
    xi, z, P_, p = m.state()
    try:
        s.meth(m.o, 'logp_xnext_max', p, m.u, m.t)
    except RaiseOut as e:
        return Verdict(True, 'refused')
    return Verdict(None, 'a bound is returned')


M_ = 'MixedNLGaussianMarginalized.'
GT = dict(
    weight=('backward weight', M_ + 'logp_xnext_full', g_weight),
    smooth=('information form', M_ + 'sample_smooth', g_smooth('meas')),
    smooth_n=('information form, no data', M_ + 'sample_smooth', g_smooth('none')),
    smooth_m=('information form, missing measurement', M_ + 'sample_smooth', g_smooth('missing')),
    last=('information form at the last step', M_ + 'sample_smooth', g_last('meas')),
    last_n=('information form at the last step, no data', M_ + 'sample_smooth', g_last('none')),
    last_m=('information form at the last step, missing measurement', M_ + 'sample_smooth', g_last('missing')),
    bound=('no rejection bound', M_ + 'logp_xnext_max', g_bound),
)
MEAS = [('constant', dict()), ('no offset', dict(noh=True)), ('no matrix', dict(noc=True)), ('per-particle C/h/R', dict(mea='chr')),
        ('per-particle C', dict(mea='c')), ('per-particle h', dict(mea='h')), ('per-particle h, no matrix', dict(mea='h', noc=True)),
        ('per-particle R', dict(mea='r')), ('scalar measurement', dict(one='y')), ('scalar measurement, per-particle', dict(one='y', mea='chr')),
        ('replaced', dict(reset=True))]


def c17(rep, tier):
    rep.defer()
    for tag, kw in DYN + DYN2:
        obmaker(rep, tag, lambda kw=kw: mk(**kw), ['weight', 'smooth', 'smooth_n', 'smooth_m'], GT, FILE)
    for tag, kw in MEAS:
        obmaker(rep, tag, lambda kw=kw: mk(**kw), ['smooth', 'last', 'last_n', 'last_m'], GT, FILE)
    obmaker(rep, 'any', lambda: mk(), ['bound'], GT, FILE)
    full = dict(non='afq', lin='afq', cross='part', mea='chr')
    repeated(rep, 'per-particle all', lambda: mk(**full), ['weight'], GT, FILE)
    repeated(rep, 'per-particle all', lambda: mk(**full), ['last', 'last_n', 'bound'], GT, FILE)
    repeated(rep, 'per-particle dynamics', lambda: mk(non='afq', lin='afq'), ['smooth'], GT, FILE)
