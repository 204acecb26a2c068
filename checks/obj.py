"""C23 objective of parameter estimation, C24 its gradients."""
from pest.scene import *
from . import lin, mix
from .lin import Lin
from .mix import Mix
from .trajs import step, inview, obj

N, lp = sym('N'), sym('lp')
LF, MF, PF = lin.FILE, mix.FILE, 'pyparticleest/paramest/interfaces.py'


# ---------------------------------------------------------------- derivatives supplied by the user
def gradhook(name, params, outs, n=None):
    """hook returning derivative arrays (None where not supplied); n: leading particle dimension"""
    lead = () if n is None else (n,)

    def fn(I, st, env, node):
        deps = [whole_clo(I, st, env[d]) for d in params]
        out = []
        for o in outs:
            if o is None:
                out.append(None)
                continue
            a = newarr(mkav(lead + (lp,) + tuple(o[1]), lambda *r, nm=o[0]: mk_in(nm, *(deps + [P(x) for x in r]))))
            I.inputcells[a.cid] = 'result of ' + name
            out.append(a)
        return tuple(out)
    return uhook(name, params, fn)


def nz(v, dflt):
    return tuple(d if x is None else x for x, d in zip(v, dflt))


class GLin(Lin):
    def __init__(self, gp='', gm='', gi='', grad=True, **kw):
        def ex(m):
            lz, ly = m.lz, m.ly
            H = {}
            if grad and gp is not None:
                H['get_pred_dynamics_grad'] = gradhook('get_pred_dynamics_grad', ('u', 't'), [
                    ('gA', (lz, lz)) if 'a' in gp else None, ('gf', (lz, ONEP)) if 'f' in gp else None,
                    ('gQ', (lz, lz)) if 'q' in gp else None])
            if grad and gm is not None:
                H['get_meas_dynamics_grad'] = gradhook('get_meas_dynamics_grad', ('y', 't'), [
                    ('gC', (ly, lz)) if 'c' in gm else None, ('gh', (ly, ONEP)) if 'h' in gm else None,
                    ('gR', (ly, ly)) if 'r' in gm else None])
            if grad and gi is not None:
                H['get_initial_grad'] = gradhook('get_initial_grad', (), [
                    ('gz0', (lz, ONEP)) if 'z' in gi else None, ('gP0', (lz, lz)) if 'p' in gi else None])
            return H
        super(GLin, self).__init__(extra=ex, **kw)
        s = self.s
        self.par = s.arr('params', lp)
        s.I.setattr(self.o, 'params', self.par, s.s)

    def z3(self, a, b):
        return self.s.array((lp, a, b), lambda i, j, k: ZERO)


def l_x0(m, s):
    z, P_, p = m.state(M=False)
    v = s.meth(m.o, 'eval_logp_x0', p, m.t)
    return same(s, v, m.r('x0obj', z, P_, m.z0, m.P0))


def pair(m):
    s = m.s
    z, P_, M_, p = m.state(M=True)
    zn, Pn, pn = m.state(tag='n')
    return z, P_, M_, p, zn, Pn, pn


def l_x(m, s):
    z, P_, M_, p, zn, Pn, pn = pair(m)
    v = s.meth(m.o, 'eval_logp_xnext', p, pn, m.u, m.t)
    ref = m.r('xobj', z, P_, M_, zn, Pn, *m.D())
    return [('value', same(s, v, ref)), ('argument unchanged', same(s, p, m.r('packM', z, P_, M_)))]


def Cz(m):
    C, h, R = m.Ms()
    return (m.zero(m.ly, m.lz) if C is None else C), h, R


def l_y(m, s):
    z, P_, p = m.state()
    v = s.meth(m.o, 'eval_logp_y', p, m.y, m.t)
    return same(s, v, m.r('yobj', m.y, z, P_, *Cz(m)))


def other(m, s):
    """objective of other data evaluated before"""
    zo, Po, Mo, po = m.state(tag='o', M=True)
    uo, to, yo = s.arr('uo', lin.lu), s.scal('to'), s.arr('yo', m.ly, ONEP)
    s.meth(m.o, 'eval_logp_xnext', po, po, uo, to)
    if not m.noc or m.mea:
        s.meth(m.o, 'eval_logp_y', po, yo, to)


def l_x2(m, s):
    other(m, s)
    z, P_, M_, p, zn, Pn, pn = pair(m)
    v = s.meth(m.o, 'eval_logp_xnext', p, pn, m.u, m.t)
    return same(s, v, m.r('xobj', z, P_, M_, zn, Pn, *m.D()))


def l_y2(m, s):
    other(m, s)
    z, P_, p = m.state()
    v = s.meth(m.o, 'eval_logp_y', p, m.y, m.t)
    return same(s, v, m.r('yobj', m.y, z, P_, *Cz(m)))


def either(s, v, arr, one):
    """value may be per particle or already reduced; the sum is what the callers use"""
    return same(s, v, one if s.I.rank(v) == 0 else arr)


def tot(m, s, v, mean=False):
    """value reduced the way its callers reduce it"""
    a = s.av(v)
    if len(a.shape) == 0:
        return v
    return m.r('average' if mean else 'total', v)


def g_x0(m, s):
    z, P_, p = m.state()
    v, g = s.tuplize(s.meth(m.o, 'eval_logp_x0_val_grad', p, m.t), 2)
    d = nz(s.tuplize(m.ev('get_initial_grad'), 2), (m.z3(m.lz, ONEP), m.z3(m.lz, m.lz)))
    return [('value', same(s, tot(m, s, v, True), m.r('average', m.r('x0obj', z, P_, m.z0, m.P0)))),
            ('gradient', same(s, g, m.r('x0grad', z, P_, m.z0, m.P0, *d)))]


def g_x(m, s):
    z, P_, M_, p, zn, Pn, pn = pair(m)
    v, g = s.tuplize(s.meth(m.o, 'eval_logp_xnext_val_grad', p, pn, m.u, m.t), 2)
    d = nz(s.tuplize(m.ev('get_pred_dynamics_grad', u=m.u, t=m.t), 3), (m.z3(m.lz, m.lz), m.z3(m.lz, ONEP), m.z3(m.lz, m.lz)))
    return [('value', same(s, tot(m, s, v), m.r('total', m.r('xobj', z, P_, M_, zn, Pn, *m.D())))),
            ('gradient', same(s, g, m.r('xgrad', z, P_, M_, zn, Pn, *(m.D() + d)))),
            ('argument unchanged', same(s, p, m.r('packM', z, P_, M_)))]


def g_y(m, s):
    z, P_, p = m.state()
    v, g = s.tuplize(s.meth(m.o, 'eval_logp_y_val_grad', p, m.y, m.t), 2)
    d = nz(s.tuplize(m.ev('get_meas_dynamics_grad', y=m.y, t=m.t), 3), (m.z3(m.ly, m.lz), m.z3(m.ly, ONEP), m.z3(m.ly, m.ly)))
    return [('value', same(s, tot(m, s, v), m.r('total', m.r('yobj', m.y, z, P_, *Cz(m))))),
            ('gradient', same(s, g, m.r('ygrad', m.y, z, P_, *(Cz(m) + d)))),
            ('argument unchanged', same(s, p, m.r('pack', z, P_)))]


def g_x2(m, s):
    other(m, s)
    return g_x(m, s)


def g_y2(m, s):
    other(m, s)
    return g_y(m, s)


L_ = 'LTV.'
LT = dict(
    x0=('initial term', L_ + 'eval_logp_x0', l_x0),
    x=('transition term', L_ + 'eval_logp_xnext', l_x),
    y=('measurement term', L_ + 'eval_logp_y', l_y),
    x2=('transition term after other data', L_ + 'eval_logp_xnext', l_x2),
    y2=('measurement term after other data', L_ + 'eval_logp_y', l_y2),
    gx0=('value and gradient of the initial term', L_ + 'eval_logp_x0_val_grad', g_x0),
    gx=('value and gradient of the transition term', L_ + 'eval_logp_xnext_val_grad', g_x),
    gy=('value and gradient of the measurement term', L_ + 'eval_logp_y_val_grad', g_y),
    gx2=('value and gradient of the transition term after other data', L_ + 'eval_logp_xnext_val_grad', g_x2),
    gy2=('value and gradient of the measurement term after other data', L_ + 'eval_logp_y_val_grad', g_y2),
)
ONES = [('', ''), (', scalar state', 'z'), (', scalar measurement', 'y')]


def lmk(kw, one=''):
    return lambda: GLin(one=one, **kw)


def lin_obj(rep, tier):
    for tag, kw in lin.PRED:
        for ot, one in ONES[:2]:
            lin.obmaker(rep, 'linear, ' + tag + ot, lmk(dict(kw, grad=False), one), ['x', 'x2'], LT, LF)
    for tag, kw in lin.MEAS:
        for ot, one in ONES:
            lin.obmaker(rep, 'linear, ' + tag + ot, lmk(dict(kw, grad=False), one), ['y', 'y2'], LT, LF)
    for ot, one in ONES[:2]:
        lin.obmaker(rep, 'linear' + ot, lmk(dict(grad=False), one), ['x0'], LT, LF)
    mix.repeated(rep, 'linear, varying all', lmk(dict(pred='afq', mea='chr', grad=False)), ['x', 'y', 'x0'], LT, LF)


def subsets(x):
    return [''.join(c for k, c in enumerate(x) if b >> k & 1) for b in range(1 << len(x))]


def lin_grad(rep, tier):
    pg = subsets('afq') if tier != 'quick' else ['', 'a', 'f', 'q', 'afq']
    mg = subsets('chr') if tier != 'quick' else ['', 'c', 'h', 'r', 'chr']
    for ot, one in ONES:
        if one != 'y':
            for g in pg:
                for tag, kw in [lin.PRED[0], lin.PRED[1], lin.PRED[5]]:
                    lin.obmaker(rep, 'linear, %s, derivatives %s%s' % (tag, g or 'none', ot), lmk(dict(kw, gp=g), one), ['gx', 'gx2'], LT, LF)
            for g in subsets('zp'):
                lin.obmaker(rep, 'linear, derivatives %s%s' % (g or 'none', ot), lmk(dict(gi=g), one), ['gx0'], LT, LF)
            lin.obmaker(rep, 'linear, default derivatives' + ot, lmk(dict(gi=None, gp=None), one), ['gx0', 'gx'], LT, LF)
        for g in mg:
            for tag, kw in [lin.MEAS[0], lin.MEAS[1], lin.MEAS[6], lin.MEAS[8]]:
                if not (kw.get('noc') and 'c' in g):
                    lin.obmaker(rep, 'linear, %s, derivatives %s%s' % (tag, g or 'none', ot), lmk(dict(kw, gm=g), one), ['gy', 'gy2'], LT, LF)
        lin.obmaker(rep, 'linear, default derivatives' + ot, lmk(dict(gm=None), one), ['gy'], LT, LF)


# ---------------------------------------------------------------- mixed model
class GMix(Mix):
    def __init__(self, gp='', gm='', gi=False, gx=False, grad=True, rbi=False, **kw):
        def ex(m):
            lxi, lz, ly = m.lxi, m.lz, m.ly
            dim = lxi + lz
            H = {}
            if grad and gp is not None:
                H['get_pred_dynamics_grad'] = gradhook('get_pred_dynamics_grad', ('particles', 'u', 't'), [
                    ('gA', (dim, lz)) if 'a' in gp else None, ('gf', (dim, ONEP)) if 'f' in gp else None,
                    ('gQ', (dim, dim)) if 'q' in gp else None], N)
            if grad and gm is not None:
                H['get_meas_dynamics_grad'] = gradhook('get_meas_dynamics_grad', ('particles', 'y', 't'), [
                    ('gC', (ly, lz)) if 'c' in gm else None, ('gh', (ly, ONEP)) if 'h' in gm else None,
                    ('gR', (ly, ly)) if 'r' in gm else None], N)
            if gi:
                H['get_rb_initial_grad'] = gradhook('get_rb_initial_grad', ('xi0',), [('gz0', (lz, ONEP)), ('gP0', (lz, lz))], N)
            if gx:
                H['get_xi_intitial_grad'] = gradhook('get_xi_intitial_grad', ('N',), [('gxi0', (lxi, ONEP)), ('gPxi0', (lxi, lxi))], N)
            if rbi:
                META['hPz0'] = {'sym': (1, 2)}
                f = lambda nm, shp: perpart(nm, shp, (), ('xi0',), part='xi0', sym=nm == 'hPz0')
                a, b = f('hz0', (lz, ONEP)), f('hPz0', (lz, lz))
                H['get_rb_initial'] = Hook('get_rb_initial', lambda *x: (a.fn(*x), b.fn(*x)))
            return H
        super(GMix, self).__init__(extra=ex, **kw)
        s = self.s
        s.meth(self.o, 'set_params', s.arr('params', lp))

    def smoothed(self, tag=''):
        s = self.s
        xi, z, P_, _ = self.state(tag=tag)
        M_ = s.arr('Mz' + tag, N, self.lz, self.lz)
        a = newarr(s.av(self.r('packM', xi, z, P_, M_)))
        s.I.inputcells[a.cid] = 'particles' + tag
        return xi, z, P_, M_, a

    def z4(self, a, b):
        return self.s.array((N, lp, a, b), lambda *i: ZERO)


def m_x0(m, s):
    xi, z, P_, p = m.state()
    v = s.meth(m.o, 'eval_logp_x0', p, m.t)
    z0, P0 = s.tuplize(m.ev('get_rb_initial', xi), 2)
    lpxi = m.r('xi0dens', xi, m.x0['xi0'], m.P0['Pxi0'])
    return [('value', same(s, v, m.r('x0obj', xi, z, P_, lpxi, z0, P0))), ('argument unchanged', same(s, p, m.r('pack', xi, z, P_)))]


def mixpair(m):
    xi, z, P_, M_, p = m.smoothed()
    xn, zn, Pn, pn = m.state(tag='n')
    return xi, z, P_, M_, p, xn, zn, Pn, pn


def m_x(m, s):
    xi, z, P_, M_, p, xn, zn, Pn, pn = mixpair(m)
    v = s.meth(m.o, 'eval_logp_xnext', p, pn, m.u, m.t)
    return [('value', same(s, tot(m, s, v), m.r('xobj', z, P_, M_, xn, zn, Pn, m.D(p)))),
            ('argument unchanged', same(s, p, m.r('packM', xi, z, P_, M_)))]


def m_y(m, s):
    xi, z, P_, p = m.state()
    v = s.meth(m.o, 'eval_logp_y', p, m.y, m.t)
    return [('value', same(s, tot(m, s, v), m.r('yobj', m.y, z, P_, *m.Ms(p)))),
            ('argument unchanged', same(s, p, m.r('pack', xi, z, P_)))]


def mg_x0(m, s):
    xi, z, P_, p = m.state()
    v, g = s.tuplize(s.meth(m.o, 'eval_logp_x0_val_grad', p, m.t), 2)
    z0, P0 = s.tuplize(m.ev('get_rb_initial', xi), 2)
    lpxi = m.r('xi0dens', xi, m.x0['xi0'], m.P0['Pxi0'])
    n = sc(lp, 'i')
    d = tuple(s.tuplize(m.ev('get_rb_initial_grad', xi), 2))
    dx = tuple(s.tuplize(m.ev('get_xi_intitial_grad', sc(N, 'i')), 2))
    gz = m.r('x0grad', xi, z, P_, z0, P0, *(d + (n,)))
    gx = m.r('xi0grad', xi, m.x0['xi0'], m.P0['Pxi0'], *(dx + (n,)))
    return [('value', same(s, v, m.r('average', m.r('x0obj', xi, z, P_, lpxi, z0, P0)))),
            ('gradient', same(s, g, m.r('meanof', gz, gx, sc(N, 'i')))),
            ('argument unchanged', same(s, p, m.r('pack', xi, z, P_)))]


def mg_x(m, s):
    xi, z, P_, M_, p, xn, zn, Pn, pn = mixpair(m)
    v, g = s.tuplize(s.meth(m.o, 'eval_logp_xnext_val_grad', p, pn, m.u, m.t), 2)
    dim = m.lxi + m.lz
    d = nz(s.tuplize(m.ev('get_pred_dynamics_grad', particles=p, u=m.u, t=m.t), 3), (m.z4(dim, m.lz), m.z4(dim, ONEP), m.z4(dim, dim)))
    D = m.D(p)
    return [('value', same(s, tot(m, s, v), m.r('xobj', z, P_, M_, xn, zn, Pn, D))),
            ('gradient', same(s, g, m.r('xgrad', z, P_, M_, xn, zn, Pn, D, *(d + (sc(lp, 'i'),))))),
            ('argument unchanged', same(s, p, m.r('packM', xi, z, P_, M_)))]


def mg_y(m, s):
    xi, z, P_, p = m.state()
    v, g = s.tuplize(s.meth(m.o, 'eval_logp_y_val_grad', p, m.y, m.t), 2)
    d = nz(s.tuplize(m.ev('get_meas_dynamics_grad', particles=p, y=m.y, t=m.t), 3), (m.z4(m.ly, m.lz), m.z4(m.ly, ONEP), m.z4(m.ly, m.ly)))
    M3 = m.Ms(p)
    return [('value', same(s, tot(m, s, v), m.r('yobj', m.y, z, P_, *M3))),
            ('gradient', same(s, g, m.r('ygrad', m.y, z, P_, *(M3 + d + (sc(lp, 'i'),))))),
            ('argument unchanged', same(s, p, m.r('pack', xi, z, P_)))]


G_ = 'MixedNLGaussianSampled.'
GI = 'MixedNLGaussianSampledInitialGaussian.'
MT = dict(
    x0=('initial term', GI + 'eval_logp_x0', m_x0),
    x=('transition term', G_ + 'eval_logp_xnext', m_x),
    y=('measurement term', G_ + 'eval_logp_y', m_y),
    gx0=('value and gradient of the initial term', GI + 'eval_logp_x0_val_grad', mg_x0),
    gx=('value and gradient of the transition term', G_ + 'eval_logp_xnext_val_grad', mg_x),
    gy=('value and gradient of the measurement term', G_ + 'eval_logp_y_val_grad', mg_y),
)
MPRED = [('constant', dict()), ('no offset', dict(noff=True)), ('constant, correlated', dict(cross='const')),
         ('per particle', dict(non='afq', lin='afq')), ('per particle, correlated', dict(non='afq', lin='afq', cross='part')),
         ('per-particle A/f', dict(non='af', lin='af')), ('per-particle nonlinear noise', dict(non='q')),
         ('per-particle linear noise', dict(lin='q')), ('per-particle cross-covariance', dict(cross='part'))]
MMEAS = [('constant', dict()), ('no offset', dict(noh=True)), ('no matrix', dict(noc=True)), ('per-particle C/h', dict(mea='ch')),
         ('per-particle R', dict(mea='r')), ('per-particle C/h/R', dict(mea='chr')), ('per-particle h/R, no matrix', dict(mea='hr', noc=True))]


def lin_again(rep):
    mix.repeated(rep, 'linear, varying all', lmk(dict(pred='afq', mea='chr', gp='afq', gm='chr', gi='zp')), ['gx', 'gy', 'gx0'], LT, LF)


def mmk(kw, one=''):
    return lambda: GMix(one=one, **kw)


MONES = [('', ''), (', scalar states', 'xz'), (', scalar measurement', 'y')]


def mix_obj(rep, tier):
    for ot, one in MONES:
        if one != 'y':
            for tag, kw in MPRED:
                mix.obmaker(rep, 'mixed, ' + tag + ot, mmk(dict(kw, grad=False), one), ['x'], MT, MF)
            mix.obmaker(rep, 'mixed' + ot, mmk(dict(grad=False), one), ['x0'], MT, MF)
            if not one:
                mix.repeated(rep, 'mixed, per-particle all', mmk(dict(non='afq', lin='afq', cross='part', mea='chr', grad=False)),
                             ['x', 'y', 'x0'], MT, MF)
            mix.obmaker(rep, 'mixed, user initial moments' + ot, mmk(dict(grad=False, rbi=True), one), ['x0'], MT, MF)
        for tag, kw in MMEAS:
            mix.obmaker(rep, 'mixed, ' + tag + ot, mmk(dict(kw, grad=False), one), ['y'], MT, MF)


def mix_again(rep):
    full = dict(non='afq', lin='afq', cross='part', mea='chr')
    mix.repeated(rep, 'mixed, per-particle all', mmk(dict(full, gp='afq', gm='chr', gi=True, gx=True, rbi=True)), ['gx', 'gy', 'gx0'], MT, MF)


def mix_grad(rep, tier):
    pg = subsets('afq') if tier != 'quick' else ['', 'a', 'f', 'q', 'afq']
    mg = subsets('chr') if tier != 'quick' else ['', 'c', 'h', 'r', 'chr']
    for ot, one in MONES:
        if one != 'y':
            for g in pg:
                for tag, kw in [MPRED[1], MPRED[2], MPRED[4]]:
                    mix.obmaker(rep, 'mixed, %s, derivatives %s%s' % (tag, g or 'none', ot), mmk(dict(kw, gp=g), one), ['gx'], MT, MF)
            for gi in (False, True):
                for gx in (False, True):
                    mix.obmaker(rep, 'mixed, derivatives%s%s%s' % (' z0/P0' if gi else '', ' xi0/Pxi0' if gx else '', ot),
                                mmk(dict(gi=gi, gx=gx, rbi=gi), one), ['gx0'], MT, MF)
            mix.obmaker(rep, 'mixed, default derivatives' + ot, mmk(dict(gp=None), one), ['gx'], MT, MF)
        for g in mg:
            for tag, kw in [MMEAS[0], MMEAS[1], MMEAS[5], MMEAS[6]]:
                if kw.get('noc') and 'c' in g:
                    continue
                mix.obmaker(rep, 'mixed, %s, derivatives %s%s' % (tag, g or 'none', ot), mmk(dict(kw, gm=g), one), ['gy'], MT, MF)
        mix.obmaker(rep, 'mixed, default derivatives' + ot, mmk(dict(gm=None), one), ['gy'], MT, MF)


# ---------------------------------------------------------------- objective over whole trajectories
lx, lu, ly, T, M = sym('lx'), sym('lu'), sym('ly'), sym('T', 2), sym('M')
PD = [dict(M=3, lx=2, lu=2, ly=2, T=3, lp=2), dict(M=2, lx=1, lu=1, ly=3, T=4, lp=3), dict(M=4, lx=3, lu=2, ly=1, T=2, lp=1)]


def phook(name, params, fn):
    """hook that also sees the object it is bound to (as env['self'])"""
    def run(I, st, self_, args, kw, node):
        def f(I, st, env, node):
            return fn(I, st, dict(env, self=self_), node)
        return uhook(name, params, f).fn(I, st, self_, args, kw, node)
    return Hook(name, run)


def parclo(I, st, env):
    return whole_clo(I, st, I.getattr(env['self'], 'params', st))


def pval(name, params, part, nxt, deps, red=False, grad=None, mean=False):
    """model term: per particle value (or its sum if red) and gradient, unknown functions of row, data and parameters"""
    def fn(I, st, env, node):
        f, a = rowclo(I, st, env[part])
        g = rowclo(I, st, env[nxt])[0] if nxt else None
        n = a.shape[0]
        ds = [whole_clo(I, st, v.a if isinstance(v, Gated) and v.b is None else v) for v in [env[d] for d in deps]] + [parclo(I, st, env)]
        at = lambda nm, i, *r: mk_in(nm, f(P(i)), *(([g(P(i))] if g else []) + ds + [P(x) for x in r]))
        base = name.replace('_val_grad', '')
        v = newarr(mkav((n,), lambda i: at(base, i)))
        if red:
            v = I.call(Builtin('numpy.sum'), [v], {}, st)
        if grad is None:
            return v
        gr = newarr(mkav((lp,) + grad, lambda j, *r: gsum(at, base, n, j) * (recip(n) if mean else ONE)))
        return v, gr
    return phook(name, params, fn)


def gsum(at, base, n, j):
    iv = fresh(n)
    return sum_over(at(base + '.d', P(iv), P(j)), [iv])


def set_params_hook():
    def fn(I, st, env, node):
        I.setattr(env['self'], 'params', env['params'], st)
        return None
    return phook('set_params', ('params',), fn)


MISS = {True: ', missing measurements', False: '', 'second': ', second of three measurements missing'}


class Par(object):
    def __init__(self, base, red=False, gshape=(), extra=None, nlp=None, miss=True):
        """miss: steps may be without data; 'second': three steps, the second without data"""
        s = self.s = Scene(dims=PD)
        T = self.T = const(3) if miss == 'second' else globals()['T']
        H = dict(
            set_params=set_params_hook(),
            eval_logp_xnext=pval('eval_logp_xnext', ('particles', 'particles_next', 'u', 't'), 'particles', 'particles_next', ('u', 't'), red),
            eval_logp_y=pval('eval_logp_y', ('particles', 'y', 't'), 'particles', None, ('y', 't'), red),
            eval_logp_x0=pval('eval_logp_x0', ('particles', 't'), 'particles', None, ('t',)),
            eval_logp_xnext_val_grad=pval('eval_logp_xnext_val_grad', ('particles', 'particles_next', 'u', 't'), 'particles',
                                          'particles_next', ('u', 't'), red, gshape),
            eval_logp_y_val_grad=pval('eval_logp_y_val_grad', ('particles', 'y', 't'), 'particles', None, ('y', 't'), red, gshape),
            eval_logp_x0_val_grad=pval('eval_logp_x0_val_grad', ('particles', 't'), 'particles', None, ('t',), False, gshape, True))
        H.update(extra(self) if extra else {})
        bases = [s.get('paramest.interfaces', b) for b in base.split('+')]
        self.cls = user_class(s, 'paramest.interfaces', bases if len(bases) > 1 else bases[0], H)
        self.par = s.arr('params', lp)
        self.o = s.call(self.cls)
        s.I.setattr(self.o, 'params', self.par, s.s)
        s.get('smoother', 'SmoothTrajectory')
        memo = {}

        def stepk(st, k):
            if k not in memo:
                memo[k] = step(s, inview(s, 'tr.part', k, (M, lx)), None, None, M)
            return memo[k]
        traj = s.call(Builtin('numpy.asarray'), s.seq('tr', T, stepk), dtype=Builtin('object'))
        self.u, self.t = s.matseq('u', T, lu), s.matseq('t', T)
        yy = s.matseq('y', T, ly)
        if miss == 'second':
            self.y = ORef(alloc(ListC([s.I.getitem(yy, (sc(const(k), 'i'),), s.s) if k != 1 else None for k in range(3)])))
        elif miss:
            self.y = s.seq('ys', T, lambda st, k: Gated(mk_pos(mk_in('seen', k)), s.I.getitem(yy, (sc(P(k), 'i'),), st), None))
        else:
            self.y = yy
        self.straj = obj(s, 'smoother', 'SmoothTrajectory', traj=traj, M=sc(M, 'i'), u=self.u, y=self.y, t=self.t)
        self.miss = miss

    def seen(self, k):
        if self.miss == 'second':
            return ONE
        return mk_pos(mk_in('seen', P(k))) if self.miss else ONE

    def vals(self, n, nm, nxt, deps, par, grad=False):
        """(n, M) terms or (n, lp) gradients (summed over trajectories) of every time step"""
        s = self.s
        two = self.miss == 'second' and nm == 'eval_logp_y'
        row = lambda k, i: mkav((lx,), lambda d: mk_in('tr.part', P(k), P(i), P(d))).clo()
        dat = {'u': (lu,), 'y': (ly,), 't': ()}

        def at(k, i, *r):
            k = P(k) * 2 if two else P(k)
            ds = []
            for d in deps:
                a = mkav(dat[d], lambda *x: mk_in(d, P(k), *[P(y) for y in x]))
                ds.append(a.clo() if dat[d] else a.body)
            args = [row(k, i)] + ([row(P(k) + 1, i)] if nxt else []) + ds + [s.av(par).clo()] + [P(x) for x in r]
            return mk_in(nm + ('.d' if grad else ''), *args) * (self.seen(k) if nm == 'eval_logp_y' else ONE)
        if not grad:
            return s.array((n, M), at)

        def g(k, j):
            iv = fresh(M)
            return sum_over(at(k, iv, j), [iv])
        return s.array((n, lp), g)

    def ref(self, which, par=None, grad=False):
        par = par or self.par
        s, T = self.s, self.T
        if which == 'x':
            v = self.vals(T - 1, 'eval_logp_xnext', True, ('u', 't'), par, grad)
        elif which == 'y':
            v = self.vals(const(2) if self.miss == 'second' else T, 'eval_logp_y', False, ('y', 't'), par, grad)
        else:
            v = self.vals(ONEP, 'eval_logp_x0', False, ('t',), par, grad)
        return s.ref('par', 'gradaverage' if grad else 'average', v, sc(M, 'i'))


def f_x(m, s):
    v = s.meth(m.o, 'eval_logp_xnext_fulltraj', m.straj, m.u, m.t)
    return same(s, v, m.ref('x'))


def f_y(m, s):
    v = s.meth(m.o, 'eval_logp_y_fulltraj', m.straj, m.y, m.t)
    return same(s, v, m.ref('y'))


def f_gx(m, s):
    v, g = s.tuplize(s.meth(m.o, 'eval_logp_xnext_val_grad_fulltraj', m.straj, m.u, m.t), 2)
    return [('value', same(s, v, m.ref('x'))), ('gradient', same(s, g, m.ref('x', grad=True)))]


def f_gy(m, s):
    v, g = s.tuplize(s.meth(m.o, 'eval_logp_y_val_grad_fulltraj', m.straj, m.y, m.t), 2)
    return [('value', same(s, v, m.ref('y'))), ('gradient', same(s, g, m.ref('y', grad=True)))]


PI = 'ParamEstInterface.'
PG = 'ParamEstInterface_GradientSearch.'
PT = dict(
    x=('sum of the transition terms', PI + 'eval_logp_xnext_fulltraj', f_x),
    y=('sum of the measurement terms', PI + 'eval_logp_y_fulltraj', f_y),
    gx=('value and gradient of the sum of the transition terms', PG + 'eval_logp_xnext_val_grad_fulltraj', f_gx),
    gy=('value and gradient of the sum of the measurement terms', PG + 'eval_logp_y_val_grad_fulltraj', f_gy),
)


def full_obj(rep):
    for red in (False, True):
        for miss in (True, False, 'second'):
            mix.obmaker(rep, 'trajectories, %s%s' % ('terms summed by the model' if red else 'terms per particle', MISS[miss]),
                        lambda red=red, miss=miss: Par('ParamEstInterface', red, miss=miss), ['y', 'x'] if not miss else ['y'], PT, PF)


def full_grad(rep):
    for red in (False, True):
        for gs in ((), (ONEP,)):
            for miss in (True, False, 'second'):
                mix.obmaker(rep, 'trajectories, %s, gradient %s%s' % ('terms summed by the model' if red else 'terms per particle',
                            'column' if gs else 'vector', MISS[miss]),
                            lambda red=red, miss=miss, gs=gs: Par('ParamEstInterface_GradientSearch', red, gs, miss=miss),
                            ['gy', 'gx'] if not miss else ['gy'], PT, PF)


# ---------------------------------------------------------------- numeric maximisation
def maxi(m, s, grad, bounds):
    """capture the function handed to the optimiser and evaluate it at an arbitrary parameter"""
    q, opt = s.arr('q', lp), s.arr('opt', lp)
    bnd = s.arr('bounds', lp, const(2)) if bounds else None
    if bounds == 'set':
        s.meth(m.o, 'set_param_bounds', bnd)
    elif bounds:
        m.o = s.call(m.cls, param_bounds=bnd)
        s.I.setattr(m.o, 'params', m.par, s.s)
    got = []

    def hook(I, st, node, a, kw):
        kw = dict(kw)
        for k, v in zip(('fun', 'x0', 'args', 'method', 'jac'), a):
            kw[k] = v
        I.call(kw['fun'], [s.arr('q0', lp)], {}, st)          # evaluations at other points do not matter
        got.append((kw, I.call(kw['fun'], [q], {}, st)))
        return ORef(alloc(ObjC(m.cls, {'x': opt, 'success': True, 'fun': got[-1][1]})))
    s.I.minimize_hook = hook
    r = s.meth(m.o, 'maximize', m.straj)
    if len(got) != 1:
        return [('objective', Verdict(None, 'no call of the optimiser'))]
    kw, v = got[0]
    jac = kw.get('jac')
    out = [('start', same(s, kw['x0'], m.par)), ('returned', same(s, r, opt))]
    b = kw.get('bounds')
    if bounds:
        out.append(('bounds', same(s, b, bnd) if b is not None else Verdict(False, 'bounds not passed to the optimiser')))
    else:
        out.append(('bounds', Verdict(b is None, 'unexpected bounds')))
    if jac is True:
        v, g = s.tuplize(v, 2)
    elif jac in (False, None):
        g = None
    else:
        g = s.I.call(jac, [q], {}, s.s)
    neg = lambda which, gr=False: s.ref('par', 'neg', *[m.ref(w, q, gr) for w in 'yx0'])
    out.append(('objective', same(s, v, neg(0))))
    if grad:
        out.append(('gradient', same(s, g, neg(0, True)) if g is not None else Verdict(False, 'gradient not passed to the optimiser')))
    out.append(('straj unchanged', Verdict(not [e for e in s.I.events if e.kind == 'write-input'], 'trajectory modified')))
    return out


def full_max(rep, grad):
    base = 'ParamEstBaseNumericGrad+ParamEstInterface_GradientSearch' if grad else 'ParamEstBaseNumeric+ParamEstInterface'
    con = ('ParamEstBaseNumericGrad' if grad else 'ParamEstBaseNumeric') + '.maximize'
    for miss in (False, True, 'second'):
        for bounds in ('', 'given', 'set'):
            for gs in ((), (ONEP,)) if grad else ((),):
                t = 'trajectories%s%s%s' % (MISS[miss], {'': '', 'given': ', bounds', 'set': ', bounds set later'}[bounds],
                                            ', gradient column' if gs else '')
                mix.obmaker(rep, t, lambda miss=miss, gs=gs: Par(base, False, gs, miss=miss), ['max'],
                            dict(max=('objective handed to the optimiser', con, lambda m, s, bounds=bounds: maxi(m, s, grad, bounds))), PF)


# ---------------------------------------------------------------- defaults of the objective terms
def d_defaults(rep):
    def mk():
        def ex(m):
            return dict(logp_xnext=pval('logp_xnext', ('particles', 'particles_next', 'u', 't'), 'particles', 'particles_next', ('u', 't')),
                        measure=pval('measure', ('particles', 'y', 't'), 'particles', None, ('y', 't')))
        m = Par('ParamEstInterface', extra=ex)
        c = m.s.I.getattr(m.o, '__class__', m.s.s)
        for k in ('eval_logp_xnext', 'eval_logp_y'):
            c.attrs.pop(k)
        return m

    def dx(m, s):
        p, n, u, t = s.arr('p', N, lx), s.arr('pn', N, lx), s.arr('uu', lu), s.scal('tt')
        return same(s, s.meth(m.o, 'eval_logp_xnext', p, n, u, t), m.s.meth(m.o, 'logp_xnext', p, n, u, t))

    def dy(m, s):
        p, y, t = s.arr('p', N, lx), s.arr('yy', ly), s.scal('tt')
        return same(s, s.meth(m.o, 'eval_logp_y', p, y, t), m.s.meth(m.o, 'measure', p, y, t))
    tab = dict(x=('default transition term', PI + 'eval_logp_xnext', dx), y=('default measurement term', PI + 'eval_logp_y', dy))
    mix.obmaker(rep, 'any model', mk, ['x', 'y'], tab, PF)


def c23(rep, tier):
    rep.defer()
    full_obj(rep)
    full_max(rep, False)
    d_defaults(rep)
    lin_obj(rep, tier)
    mix_obj(rep, tier)


def c24(rep, tier):
    rep.defer()
    full_grad(rep)
    full_max(rep, True)
    lin_grad(rep, tier)
    mix_grad(rep, tier)
    lin_again(rep)
    mix_again(rep)
