"""C35 construction of models combined with estimation building blocks."""
import ast
from pest.scene import *

lz, lxi, ly = sym('lz', 2), sym('lxi', 2), sym('ly', 2)
EST = ('ParamEstBaseNumeric', 'ParamEstBaseNumericGrad')


def mats(s, *names):
    shp = dict(A=(lz, lz), Az=(lz, lz), f=(lz, ONEP), fz=(lz, ONEP), Q=(lz, lz), Qz=(lz, lz), C=(ly, lz), h=(ly, ONEP), hz=(ly, ONEP),
               R=(ly, ly), Axi=(lxi, lz), fxi=(lxi, ONEP), Qxi=(lxi, lxi), Qxiz=(lxi, lz), x0=(lxi, ONEP), xi0=(lxi, ONEP), Px0=(lxi, lxi),
               Pxi0=(lxi, lxi), z0=(lz, ONEP), Pz0=(lz, lz), P0=(lz, lz), fn=(lxi, ONEP), g=(ly, ONEP), Qn=(lxi, lxi))
    out = {}
    for n in names:
        sy = dict(sym=(0, 1)) if n in ('Q', 'Qz', 'R', 'Qxi', 'Px0', 'Pxi0', 'Pz0', 'P0', 'Qn') else {}
        out[{'fn': 'f', 'Qn': 'Q'}.get(n, n)] = s.arr('m' + n, *shp[n], **sy)
    return out


def num(s, **kw):
    return {k: sc(v, 'i') for k, v in kw.items()}


MODELS = [
    ('models.ltv', 'LTV', lambda s: mats(s, 'z0', 'P0', 'A', 'C', 'Q', 'R', 'f', 'h')),
    ('models.ltv', 'LTV', lambda s: mats(s, 'z0', 'P0')),
    ('models.nlg', 'NonlinearGaussian', lambda s: dict(num(s, lxi=lxi), **mats(s, 'fn', 'g', 'Qn', 'R'))),
    ('models.nlg', 'NonlinearGaussian', lambda s: num(s, lxi=lxi)),
    ('models.nlg', 'NonlinearGaussianInitialGaussian', lambda s: mats(s, 'x0', 'Px0', 'fn', 'g', 'Qn', 'R')),
    ('models.nlg', 'NonlinearGaussianInitialGaussian', lambda s: mats(s, 'Px0')),
    ('models.nlg', 'NonlinearGaussianInitialGaussian', lambda s: num(s, lxi=lxi)),
    ('models.rbpf', 'RBPFBase', lambda s: dict(num(s, lz=lz), **mats(s, 'Az', 'fz', 'Qz', 'C', 'hz', 'R'))),
    ('models.rbpf', 'RBPSBase', lambda s: dict(num(s, lz=lz), **mats(s, 'Az', 'fz', 'Qz', 'C', 'hz', 'R'))),
    ('models.mlnlg', 'MixedNLGaussianSampled', lambda s: dict(num(s, lz=lz, lxi=lxi), **mats(
        s, 'Az', 'C', 'Qz', 'R', 'fz', 'Axi', 'Qxi', 'Qxiz', 'fxi', 'h'))),
    ('models.mlnlg', 'MixedNLGaussianMarginalized', lambda s: dict(num(s, lz=lz, lxi=lxi), **mats(
        s, 'Az', 'C', 'Qz', 'R', 'fz', 'Axi', 'Qxi', 'Qxiz', 'fxi', 'h'))),
    ('models.mlnlg', 'MixedNLGaussianSampled', lambda s: num(s, lz=lz, lxi=lxi)),
    ('models.mlnlg', 'MixedNLGaussianSampledInitialGaussian', lambda s: mats(
        s, 'xi0', 'z0', 'Pxi0', 'Pz0', 'Az', 'C', 'Qz', 'R', 'fz', 'Axi', 'Qxi', 'Qxiz', 'fxi', 'h')),
    ('models.mlnlg', 'MixedNLGaussianSampledInitialGaussian', lambda s: mats(s, 'xi0', 'z0')),
    ('models.hierarchial', 'HierarchicalBase', lambda s: dict(num(s, len_xi=lxi, len_z=lz), **mats(s, 'Az', 'fz', 'Qz', 'C', 'hz', 'R'))),
    ('models.hierarchial', 'HierarchicalRSBase', lambda s: dict(num(s, len_xi=lxi, len_z=lz), **mats(s, 'Az', 'fz', 'Qz', 'C', 'hz', 'R'))),
]


def attrs(s, o):
    c = s.s.get(o.cid)
    return c.attrs if isinstance(c, ObjC) else None


def compare(s, a, b, path, out, depth=0):
    """equality of two attribute values"""
    if isinstance(a, ORef) and attrs(s, a) is not None and depth < 3:
        x = attrs(s, a)
        y = attrs(s, b) if isinstance(b, ORef) else None
        if y is None:
            out.append((path, Verdict(False, 'not an object')))
            return
        for k in sorted(x):
            if k not in y:
                out.append((path + '.' + k, Verdict(False, 'attribute not set')))
            else:
                compare(s, x[k], y[k], path + '.' + k, out, depth + 1)
    elif isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            out.append((path, Verdict(False, 'length %d instead of %d' % (len(b), len(a)))))
        for k, (p, q) in enumerate(zip(a, b)):
            compare(s, p, q, '%s[%d]' % (path, k), out, depth + 1)
    elif a is None or isinstance(a, (str, bool)) or b is None or isinstance(b, (str, bool)):
        if isinstance(a, TopV) or isinstance(b, TopV):
            out.append((path, Verdict(None, 'value not tracked')))
        else:
            out.append((path, Verdict(a is b or type(a) == type(b) and a == b, '%r instead of %r' % (b, a))))
    else:
        out.append((path, same(s, b, a)))


def run(rep, tier):
    for mod, name, args in MODELS:
        for est in EST:
            for order in ('model first', 'estimation first', 'model first, gradient interface last'):
                for opt in ('bounds', 'no bounds', 'unknown option'):
                    if opt == 'unknown option' and order != 'model first':
                        continue
                    box = []

                    def go():
                        s = Scene(dims=[dict(lz=2, lxi=3, ly=2), dict(lz=3, lxi=2, ly=4)])
                        box.append(s)
                        kw = args(s)
                        m, e = s.get(mod, name), s.get('paramest.interfaces', est)
                        bases = [m, e] if order != 'estimation first' else [e, m]
                        if order.endswith('last'):
                            bases.append(s.get('paramest.interfaces', 'ParamEstInterface_GradientSearch'))
                        cls = user_class(s, None, bases, {})
                        b = s.arr('bounds', sym('lp'), const(2))
                        if opt == 'unknown option':
                            try:
                                s.call(cls, unknown_option_=b, **kw)
                            except RaiseOut as x:
                                return Verdict(True) if getattr(x.exc, 'name', '') == 'TypeError' else Verdict(None, 'raises something else')
                            return Verdict(False, 'an option that no part knows is accepted')
                        o = s.call(cls, **(dict(kw, param_bounds=b) if opt == 'bounds' else kw))
                        ref = s.call(user_class(s, None, [m], {}, 'Alone'), **kw)
                        out = []
                        a = attrs(s, o)
                        if 'param_bounds' not in a:
                            out.append(('bounds', Verdict(False, 'param_bounds is never set')))
                        else:
                            compare(s, b if opt == 'bounds' else None, a['param_bounds'], 'bounds', out)
                        compare(s, ref, o, 'model', out)
                        return out
                    rep.obligation('%s + %s, %s, %s [%s]' % (name, est, order, opt, ' '.join(sorted(args(Scene())))),
                                   'pyparticleest/%s.py:%s.__init__' % (mod.replace('.', '/'), name), go)
                    for s in box:
                        rep.absorb(s)
