"""C13 Kalman primitives / C14 pure vs compiled helpers."""
from pest.scene import *

RULE = ('each public Kalman primitive is summarised (value numbering over its source, any dimension) and its '
        'result and in-place updates are compared as terms with the textbook formula')


def kscene(comp):
    s = Scene(comp)
    m = 'utils.ckalman' if comp else 'utils.kalman'
    return s, m


D = dict(lz=sym('lz'), d=sym('d'), N=sym('N'))


def prims(comp):
    """yield (name, construct, thunk(scene, modname) -> list[(label, value, reference)])"""
    lz, d, N = D['lz'], D['d'], D['N']

    def mats(s):
        a = dict(A=s.arr('A', lz, lz), f=s.arr('f', lz, ONEP), Q=s.arr('Q', lz, lz, sym=(0, 1)),
                 z=s.own('z', lz, ONEP), P=s.own('P', lz, lz, sym=(0, 1)),
                 C=s.arr('C', d, lz), h=s.arr('h', d, ONEP), R=s.arr('R', d, d, sym=(0, 1)),
                 y=s.arr('y', d, ONEP), zn=s.arr('zn', lz, ONEP), Pn=s.arr('Pn', lz, lz, sym=(0, 1)))
        return a

    def zP(s):
        return s.arr('z', lz, ONEP), s.arr('P', lz, lz, sym=(0, 1))

    def obj(s, m, a, cls='KalmanSmoother', **kw):
        return s.new(m, cls, sc(lz, 'i'), **kw)

    def t_update(s, m):
        a = mats(s)
        o = obj(s, m, a, A=a['A'], Q=a['Q'], f_k=a['f'])
        z, P_ = zP(s)
        s.I.setattr(o, 'z', z, s.s)
        s.I.setattr(o, 'P', P_, s.s)
        s.meth(o, 'time_update')
        r = s.ref('kalman', 'predict', *(zP(s) + (a['A'], a['f'], a['Q'])))
        return [('mean', s.attr(o, 'z'), r[0]), ('cov', s.attr(o, 'P'), r[1])]
    yield 'time_update', 'KalmanFilter.time_update', t_update

    def t_predict(s, m):
        a = mats(s)
        o = obj(s, m, a, A=a['A'], Q=a['Q'], f_k=a['f'])
        z, P_ = zP(s)
        o1 = s.tuplize(s.meth(o, 'predict', z, P_), 2)
        r = s.ref('kalman', 'predict', *(zP(s) + (a['A'], a['f'], a['Q'])))
        return [('mean', o1[0], r[0]), ('cov', o1[1], r[1])]
    yield 'predict', 'KalmanFilter.predict', t_predict

    def t_predict0(s, m):
        a = mats(s)
        o = obj(s, m, a, A=a['A'], Q=a['Q'])
        z, P_ = zP(s)
        o1 = s.tuplize(s.meth(o, 'predict', z, P_), 2)
        r = s.ref('kalman', 'predict', *(zP(s) + (a['A'], s.ref('kalman', 'zeros', a['f']), a['Q'])))
        return [('mean', o1[0], r[0]), ('cov', o1[1], r[1])]
    yield 'predict without offset', 'KalmanFilter.predict', t_predict0

    def t_setdyn(s, m):
        a = mats(s)
        o = obj(s, m, a, A=s.arr('A0', lz, lz), Q=a['Q'], f_k=s.arr('f0', lz, ONEP))
        s.meth(o, 'set_dynamics', A=a['A'], f_k=a['f'])
        z, P_ = zP(s)
        o1 = s.tuplize(s.meth(o, 'predict', z, P_), 2)
        r = s.ref('kalman', 'predict', *(zP(s) + (a['A'], a['f'], a['Q'])))
        return [('mean', o1[0], r[0]), ('cov', o1[1], r[1])]
    yield 'set_dynamics keeps unspecified', 'KalmanFilter.set_dynamics', t_setdyn

    def t_pf(inplace):
        def t(s, m):
            a = mats(s)
            o = obj(s, m, a)
            z, P_ = (a['z'], a['P']) if inplace else zP(s)
            o1 = s.tuplize(s.meth(o, 'predict_full_inplace' if inplace else 'predict_full', z, P_, a['A'], a['f'], a['Q']), 2)
            r = s.ref('kalman', 'predict', *(zP(s) + (a['A'], a['f'], a['Q'])))
            out = [('mean', o1[0], r[0]), ('cov', o1[1], r[1])]
            if inplace:
                out += [('stored mean', z, r[0]), ('stored cov', P_, r[1])]
            return out
        return t
    yield 'predict_full', 'KalmanFilter.predict_full', t_pf(False)
    yield 'predict_full_inplace', 'KalmanFilter.predict_full_inplace', t_pf(True)

    def t_diff(c, h):
        def t(s, m):
            a = mats(s)
            o = obj(s, m, a)
            z, _ = zP(s)
            v = s.meth(o, 'measurement_diff', a['y'], z, a['C'] if c else None, a['h'] if h else None)
            C = a['C'] if c else s.ref('kalman', 'zeros', a['C'])
            H = a['h'] if h else s.ref('kalman', 'zeros', a['h'])
            r = s.ref('kalman', 'innov', a['y'], zP(s)[0], C, H)
            return [('difference', v, r)]
        return t
    for c in (0, 1):
        for h in (0, 1):
            yield 'measurement_diff C=%d h=%d' % (c, h), 'KalmanFilter.measurement_diff', t_diff(c, h)

    def t_meas(how, c, h, scalar):
        def t(s, m):
            dd = ONEP if scalar else d
            C, H, R, y = s.arr('C', dd, lz), s.arr('h', dd, ONEP), s.arr('R', dd, dd, sym=(0, 1)), s.arr('y', dd, ONEP)
            z, P_ = s.own('z', lz, ONEP), s.own('P', lz, lz, sym=(0, 1))
            kw = {}
            if how == 'measure':
                kw = dict(R=R)
                if c:
                    kw['C'] = C
                if h:
                    kw['h_k'] = H
                o = obj(s, m, None, **kw)
                v = s.meth(o, 'measure', y, z, P_)
            else:
                o = obj(s, m, None)
                v = s.meth(o, how, y, z, P_, C if c else None, H if h else None, R)
            C2 = C if c else s.ref('kalman', 'zeros', C)
            H2 = H if h else s.ref('kalman', 'zeros', H)
            r = s.ref('kalman', 'update', y, *(zP(s) + (C2, H2, R)))
            return [('log density', v, r[2]), ('mean', z, r[0]), ('cov', P_, r[1])]
        return t
    for how in ('measure', 'measure_full', 'measure_full_scalar'):
        for c in (1, 0):
            for h in (1, 0):
                sca = how.endswith('scalar')
                yield '%s C=%d h=%d' % (how, c, h), 'KalmanFilter.' + how, t_meas(how, c, h, sca)

    def t_smooth(s, m):
        a = mats(s)
        o = obj(s, m, a)
        z, P_ = zP(s)
        v = s.tuplize(s.meth(o, 'smooth', z, P_, a['zn'], a['Pn'], a['A'], a['f'], a['Q']), 3)
        r = s.ref('kalman', 'rts', *(zP(s) + (a['zn'], a['Pn'], a['A'], a['f'], a['Q'])))
        return [('mean', v[0], r[0]), ('cov', v[1], r[1]), ('cross-cov', v[2], r[2])]
    yield 'smooth', 'KalmanSmoother.smooth', t_smooth

    def dens(fn, vec, scalar=False, pre=None, perS=False):
        def t(s, m):
            dd = ONEP if scalar else d
            S = s.arr('S', N, d, d, sym=(1, 2)) if perS else s.arr('S', dd, dd, sym=(0, 1))
            e = s.arr('err', N, dd, ONEP) if vec else s.arr('err', dd, ONEP)
            S2 = S
            if pre:
                S2 = s.call(Builtin(pre), S)
            v = s.call(s.get(m, fn), e, S2)
            if not vec:
                r = s.ref('kalman', 'gauss', e, S)
            elif perS:
                r = s.ref('kalman', 'gauss_per', e, S)
            else:
                r = s.ref('kalman', 'gauss_all', e, S)
            return [('log density', v, r)]
        return t
    cf = 'scipy.linalg.cho_factor'
    yield 'lognormpdf', 'lognormpdf', dens('lognormpdf', False)
    yield 'lognormpdf_cho', 'lognormpdf_cho', dens('lognormpdf_cho', False, pre=cf)
    yield 'lognormpdf_cho_vec', 'lognormpdf_cho_vec', dens('lognormpdf_cho_vec', True, pre=cf)
    yield 'lognormpdf_vec', 'lognormpdf_vec', dens('lognormpdf_vec', True, perS=True)
    yield 'lognormpdf_scalar', 'lognormpdf_scalar', dens('lognormpdf_scalar', True, scalar=True)


def site(s, m, q):
    mod = s.mod(m)
    return '%s:%s' % (os.path.relpath(mod.path, REPO), q)


def run(rep, tier):
    for comp in (False, True):
        for name, con, thunk in prims(comp):
            s, m = kscene(comp)

            def go():
                out = []
                for lab, v, r in thunk(s, m):
                    out.append((lab, same(s, v, r, weaksize=True)))
                return out
            rep.obligation(('compiled ' if comp else 'pure ') + name, site(s, m, con), go)
            rep.absorb(s)
