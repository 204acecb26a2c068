"""Symbolic trajectories made of the repository's own step objects."""
from pest.scene import *

WS = 'filter'


def obj(s, modname, clsname, **attrs):
    c = s.get(modname, clsname) if isinstance(clsname, str) else clsname
    return ORef(alloc(ObjC(c, dict(attrs))))


def approx(s, part, w, num, off=None):
    return obj(s, 'filter', 'ParticleApproximation', part=part, w=w, num=num if isinstance(num, AV) else sc(num, 'i'),
               w_offset=off if off is not None else sc(ZERO, 'f'))


def step(s, part, w, anc, num, off=None, extra=None):
    return obj(s, 'filter', 'TrajectoryStep', pa=approx(s, part, w, num, off), ancestors=anc, **(extra or {}))


def inview(s, name, k, shape, dt='f', fn=None):
    """input array: element k of the input family `name`"""
    a = newarr(mkav(shape, (lambda *i: mk_in(name, k, *[P(x) for x in i])) if fn is None else fn, dt))
    s.I.inputcells[a.cid] = name
    return a


def step_seq(s, name, n, N, shape, normed=False):
    """input list of n filter steps with N particles each"""
    META[name + '.anc'] = {'int': True, 'range': P(N), 'nonneg': True}
    memo = {}
    s.get('filter', 'TrajectoryStep')

    def fn(st, k):
        if k not in memo:
            part = inview(s, name + '.part', k, (N,) + tuple(shape))
            if normed:
                raw = mkav((N,), lambda i: mk_in(name + '.w', k, P(i)))
                w = inview(s, name + '.w', k, (N,), fn=lambda i: raw.at([P(i)]) - amax(s, raw))
            else:
                w = inview(s, name + '.w', k, (N,))
            anc = inview(s, name + '.anc', k, (N,), 'i')
            memo[k] = step(s, part, w, anc, N, off=sc(mk_in(name + '.off', k), 'f'))
        return memo[k]
    return s.seq(name, n, fn)


def amax(s, av):
    a = s.I.call(Builtin('numpy.max'), [newarr(av)], {}, s.s)
    return s.I.av(a, s.s).body
