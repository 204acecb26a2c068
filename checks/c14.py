"""C14 compiled helper modules agree with their pure counterparts."""
import ast
import os
from pest.scene import *
from . import c13


def mlprims():
    N, lp, lxi, lz = sym('N'), sym('lp'), sym('lxi'), sym('lz')
    dim = lxi + lz

    def i(x):
        return sc(x, 'i')

    def common_(s):
        return dict(perr=s.arr('perr', N, dim, ONEP), A=s.arr('A', N, dim, lz), zl=s.arr('zl', N, lz, ONEP),
                    Pl=s.arr('Pl', N, lz, lz, sym=(1, 2)), M=s.arr('M', N, lz, lz), Pn=s.arr('Pn', N, lz, lz, sym=(1, 2)),
                    fg=s.arr('fg', N, lp, dim, ONEP), Ag=s.arr('Ag', N, lp, dim, lz),
                    out4=s.own('out4', N, lp, dim, dim), out3=s.own('out3', N, dim, dim), oute=s.own('oute', N, dim, ONEP),
                    t1=s.own('t1', dim, dim), t2=s.own('t2', dim, lz),
                    xn=s.arr('xn', N, dim, ONEP), f=s.arr('f', N, dim, ONEP))

    def logprod(s, m):
        S = s.arr('S', dim, dim, sym=(0, 1))
        lu = s.call(Builtin('scipy.linalg.cho_factor'), S)
        return [('value', s.call(s.get(m, 'compute_logprod_derivative'), lu, s.arr('dA', dim, dim), s.arr('B', dim, dim),
                                 s.arr('dB', dim, dim)))]
    yield 'compute_logprod_derivative', logprod

    def gradf(s, m):
        c = common_(s)
        s.call(s.get(m, 'compute_l2_grad_f'), i(N), i(lp), i(dim), c['out4'], c['perr'], c['fg'], c['t1'])
        return [('out', c['out4'])]
    yield 'compute_l2_grad_f', gradf

    def gradA(s, m):
        c = common_(s)
        s.call(s.get(m, 'compute_l2_grad_A'), i(N), i(lp), i(dim), c['out4'], c['perr'], i(lxi), c['Pn'], c['zl'], c['Pl'],
               c['M'], c['A'], c['Ag'], c['t1'], c['t2'])
        return [('out', c['out4'])]
    yield 'compute_l2_grad_A', gradA

    def prederr(s, m):
        c = common_(s)
        s.call(s.get(m, 'compute_pred_err'), i(N), i(dim), c['xn'], c['f'], c['A'], c['zl'], c['oute'])
        return [('out', c['oute'])]
    yield 'compute_pred_err', prederr

    def l2(s, m):
        c = common_(s)
        s.call(s.get(m, 'compute_l2'), i(N), i(lxi), i(dim), c['perr'], c['Pn'], c['A'], c['Pl'], c['M'], c['out3'])
        return [('out', c['out3'])]
    yield 'compute_l2', l2


DOCUMENTED = dict(
    kalman='lognormpdf lognormpdf_cho lognormpdf_cho_vec lognormpdf_vec lognormpdf_scalar KalmanFilter KalmanSmoother',
    mlnlg_compute='compute_logprod_derivative compute_l2_grad_f compute_l2_grad_A compute_pred_err compute_l2')
METHODS = ('__init__ set_dynamics time_update predict predict_full_inplace predict_full measurement_diff measure '
           'measure_full measure_full_scalar smooth').split()


def needed(pure):
    """names both forms must offer: the documented ones and those the package uses through the module"""
    short = pure.split('.')[-1]
    out = set(DOCUMENTED[short].split())
    root = os.path.join(REPO, 'pyparticleest')
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith('.py'):
                try:
                    tree = ast.parse(open(os.path.join(d, f)).read())
                except SyntaxError:
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == short:
                        out.add(n.attr)
    return out


def run(rep, tier):
    for pure, comp in (('utils.kalman', 'utils.ckalman'), ('utils.mlnlg_compute', 'utils.cmlnlg_compute')):
        a, b = Scene(False), Scene(True)

        def names():
            x, y = public(a, pure), public(b, comp)
            top = needed(pure)

            def wanted(k):
                c, _, m = k.partition('.')
                return c in top and (not m or m in METHODS)
            x = {k: v for k, v in x.items() if wanted(k)}
            y = {k: v for k, v in y.items() if wanted(k)}
            for k in sorted(x):
                if k not in y:
                    yield k, Verdict(False, 'missing in the compiled module')
                else:
                    yield k, Verdict(params(x[k])[0] == params(y[k])[0],
                                     'parameters %s and %s' % (params(x[k])[0], params(y[k])[0]))
            for k in sorted(y):
                if k not in x:
                    yield k, Verdict(False, 'missing in the pure module')
        rep.obligation('interface of ' + comp, comp, lambda: list(names()))
    for name, con, thunk in c13.prims(False):
        a, b = Scene(False), Scene(True)

        def go():
            def safe(s, m):
                try:
                    return thunk(s, m)
                except RaiseOut as e:
                    return e.exc
            va, vb = safe(a, 'utils.kalman'), safe(b, 'utils.ckalman')
            if isinstance(va, ExcV) or isinstance(vb, ExcV):
                if isinstance(va, ExcV) and isinstance(vb, ExcV):
                    return Verdict(True, 'both raise')
                return Verdict(False, 'only one of the two raises')
            return [(l1, same2(a, x, b, y)) for (l1, x, _), (l2, y, _) in zip(va, vb)]
        rep.obligation('kalman ' + name, 'pyparticleest/utils/ckalman.pyx:' + con, go)
        rep.absorb(a)
        rep.absorb(b)
    for name, thunk in mlprims():
        a, b = Scene(False), Scene(True)

        def go():
            va, vb = thunk(a, 'utils.mlnlg_compute'), thunk(b, 'utils.cmlnlg_compute')
            return [(l1, same2(a, x, b, y)) for (l1, x), (l2, y) in zip(va, vb)]
        rep.obligation('mlnlg_compute ' + name, 'pyparticleest/utils/cmlnlg_compute.pyx:' + name, go)
        rep.absorb(a)
        rep.absorb(b)


def same2(sa, x, sb, y):
    return same(sa, sa.av(x), sb.av(y), weaksize=False)
