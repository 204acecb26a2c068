"""C21 packing of particle state; C22 re-filtering and smoothing of Rao-Blackwellised trajectories."""
import itertools
from pest.scene import *
from .mix import Mix, obmaker, N
from .lin import Lin
from .hier import Hier
from .trajs import obj, step

RB = 'pyparticleest/models/rbpf.py'
LT = 'pyparticleest/models/ltv.py'


def cols(m, M):
    n = m.lz + m.lz * m.lz * (2 if M else 1)
    return n + m.lxi if hasattr(m, 'lxi') else n


def fresh_particles(m, s, M, own=True, name='pp', n=N):
    return s.own(name, n, cols(m, M)) if own else s.arr(name, n, cols(m, M))


def vals(m, s, tag='', n=N):
    out = [s.arr('z' + tag, n, m.lz, ONEP), s.arr('P' + tag, n, m.lz, m.lz)]
    return ([s.arr('xi' + tag, n, m.lxi, ONEP)] if hasattr(m, 'lxi') else []) + out


def cut(s, a, lo, ln):
    a = s.av(a)
    return s.array((a.shape[0], ln), lambda i, j: a.at([i, P(lo) + P(j)]))


def lists(s, v):
    """(n, ...) arrays, whether given as arrays or lists"""
    return [s.array(s.av(x).shape, lambda *i, x=x: s.av(x).at(list(i))) for x in v]


NAMES = ['linear mean', 'covariance']


def k_store(M, keepM=True):
    def fn(m, s):
        p = fresh_particles(m, s, M)
        q = fresh_particles(m, s, M, False)
        v = vals(m, s)
        s.meth(m.o, 'set_states', p, *v)
        g = s.tuplize(s.meth(m.o, 'get_states', p), len(v))
        out = [('%s read back' % nm, same(s, a, b)) for nm, a, b in zip((['nonlinear state'] if len(v) == 3 else []) + NAMES, g, v)]
        if M:
            l = cols(m, False)
            out.append(('cross-covariance kept', same(s, cut(s, p, l, m.lz * m.lz), cut(s, q, l, m.lz * m.lz))))
        return out + [('values unchanged', same(s, v[-1], s.array((N, m.lz, m.lz), lambda i, j, k: mk_in('P', P(i), P(j), P(k)))))]
    return fn


def k_restore(M):
    def fn(m, s):
        p = fresh_particles(m, s, M)
        q = fresh_particles(m, s, M, False)
        v = s.tuplize(s.meth(m.o, 'get_states', p), 3 if hasattr(m, 'lxi') else 2)
        r = same(s, p, q)
        s.meth(m.o, 'set_states', p, *v)
        return [('reading', r), ('storing what was read', same(s, p, q))]
    return fn


def k_cross(m, s):
    p = fresh_particles(m, s, True)
    q = fresh_particles(m, s, True, False)
    v = vals(m, s)
    X = s.arr('Mz', N, m.lz, m.lz)
    s.meth(m.o, 'set_Mz', p, X)
    out = [('cross-covariance read back', same(s, s.meth(m.o, 'get_Mz', p), X)),
           ('state kept', same(s, cut(s, p, ZERO, cols(m, False)), cut(s, q, ZERO, cols(m, False))))]
    s.meth(m.o, 'set_states', p, *v)
    out.append(('cross-covariance kept when the state is stored', same(s, s.meth(m.o, 'get_Mz', p), X)))
    s.meth(m.o, 'set_Mz', p, s.meth(m.o, 'get_Mz', p))
    g = s.tuplize(s.meth(m.o, 'get_states', p), 3)
    return out + [('%s kept when the cross-covariance is stored' % nm, same(s, a, b)) for nm, a, b in zip(['nonlinear state'] + NAMES, g, v)]


def k_row(m, s):
    """one particle at a time, as the smoother does"""
    p = fresh_particles(m, s, True)
    q = fresh_particles(m, s, True, False)
    j = s.scal('j', int=True, range=N, nonneg=True)
    row = s.I.getitem(p, (SliceV(j, sc(j.body + 1, 'i'), None), SliceV(None, None, None)), s.s)
    v = vals(m, s, n=ONEP)
    X = s.arr('Mz', ONEP, m.lz, m.lz)
    s.meth(m.o, 'set_states', row, *v)
    s.meth(m.o, 'set_Mz', row, X)
    g = s.tuplize(s.meth(m.o, 'get_states', p), 3)
    isj = lambda i: mk_eq(P(i) - j.body)
    go = s.tuplize(s.meth(m.o, 'get_states', q), 3)
    out = []
    for nm, a, b, o in zip(['nonlinear state'] + NAMES, g, v, go):
        b, o = s.av(b), s.av(o)
        out.append((nm, same(s, a, s.array(o.shape, lambda i, *r: isj(i) * b.at([ZERO] + list(r)) + (ONEP - isj(i)) * o.at([i] + list(r))))))
    b, o = s.av(X), s.av(s.meth(m.o, 'get_Mz', q))
    out.append(('cross-covariance', same(s, s.meth(m.o, 'get_Mz', p), s.array(
        o.shape, lambda i, *r: isj(i) * b.at([ZERO] + list(r)) + (ONEP - isj(i)) * o.at([i] + list(r))))))
    return out


KT = dict(
    store=('stored state is read back', 'set_states/get_states', k_store(False)),
    storeM=('stored state is read back, with cross-covariance', 'set_states/get_states', k_store(True)),
    restore=('reading and storing is the identity', 'set_states/get_states', k_restore(False)),
    restoreM=('reading and storing is the identity, with cross-covariance', 'set_states/get_states', k_restore(True)),
    cross=('cross-covariance', 'set_Mz/get_Mz', k_cross),
    row=('single rows', 'set_states/set_Mz', k_row),
)
ALL = ['store', 'storeM', 'restore', 'restoreM']


def c21(rep, tier):
    rep.defer()
    for cls, nm, f, more in ((Mix, 'mixed', RB, ['cross', 'row']), (Hier, 'hierarchical', RB, ['cross', 'row']), (Lin, 'linear', LT, [])):
        for one in ('', 'z') + (('x', 'xz') if more else ()):
            t = nm + {'': '', 'z': ', scalar linear state', 'x': ', scalar nonlinear state', 'xz': ', scalar states'}[one]
            obmaker(rep, t, lambda one=one, cls=cls: cls(one=one), ALL + more, KT, f)


# ------------------------------------------------------------------------------------------------ C22
def lst(items):
    return ORef(alloc(ListC(list(items))))


def smoothed(m, s, T, none, extra=True):
    """the smoother object handed to post_smoothing: T steps of M trajectories with nonlinear states only"""
    M = sym('M')
    w = m.lxi + m.lz if extra else m.lxi
    parts = [s.arr('tp%d' % k, M, w) for k in range(T)]
    ancs = [s.arr('ta%d' % k, M, int=True, range=M, nonneg=True) for k in range(T)]
    tr = lst([step(s, parts[k], s.arr('tw%d' % k, M), ancs[k], M) for k in range(T)])
    us = [s.arr('u%d' % k, sym('lu')) for k in range(T)]
    ys = [None if k in none else s.arr('y%d' % k, m.ly, ONEP) for k in range(T)]
    ts = [s.scal('t%d' % k) for k in range(T)]
    s.get('filter', 'TrajectoryStep')
    base = s.get('smoother', 'SmoothTrajectory')
    return obj(s, 'smoother', base, traj=tr, u=lst(us), y=lst(ys), t=lst(ts)), parts, ancs, us, ys, ts


def mixrefs(m, s):
    def meas(y, t, q, xi, z, P_):
        C, h, R = m.Ms(q, sym('M'), t=t, y=y)
        return s.tuplize(m.r('meas_post', y, z, P_, C, h, R), 2)

    def pred(u, t, q, z, P_, xn):
        return s.tuplize(m.r('cond_step', z, P_, xn, m.D(q, sym('M'), u, t)), 2)

    def back(u, t, q, q1, z, P_, xn, zn, Pn):
        # the dynamics are evaluated at particle q (linear mean may be conditioned)
        return s.tuplize(m.r('rts_all', z, P_, xn, zn, Pn, m.D(q, sym('M'), u, t)), 3)
    return meas, pred, back


def hierrefs(m, s):
    def meas(y, t, q, xi, z, P_):
        C, h, R = m.Ms(q, sym('M'), t=t, y=y)
        if C is None:
            return z, P_
        return s.tuplize(m.r('meas_post', y, z, P_, C, h, R), 2)

    def pred(u, t, q, z, P_, xn):
        return s.tuplize(m.h('pred_all', z, P_, *m.D(q, sym('M'), u, t)), 2)

    def back(u, t, q, q1, z, P_, xn, zn, Pn):
        return s.tuplize(m.h('rts_plain', z, P_, zn, Pn, *m.D(q, sym('M'), u, t)), 3)
    return meas, pred, back


def packed(m, *v):
    return newarr(m.s.av(m.r('pack', *v)))


def forward(m, s, refs, T, parts, us, ys, ts):
    """reference moments of every step after its measurement"""
    M = sym('M')
    meas, pred, back = refs(m, s)
    xs = [newarr(s.av(m.r('xipart', p, sc(m.lxi, 'i')))) for p in parts]
    out = []
    for k in range(T):
        if k == 0:
            z, P_ = m.init(xs[0])
        else:
            z, P_ = pred(us[k - 1], ts[k - 1], packed(m, xs[k - 1], z, P_), z, P_, xs[k])
        if ys[k] is not None:
            z, P_ = meas(ys[k], ts[k], packed(m, xs[k], z, P_), xs[k], z, P_)
        z, P_ = newarr(s.av(z)), newarr(s.av(P_))
        out.append((xs[k], z, P_))
    return out


def backward(m, s, refs, T, fw, us, ts):
    meas, pred, back = refs(m, s)
    out = [None] * T
    out[-1] = fw[-1] + (None,)
    for k in reversed(range(T - 1)):
        xi, z, P_ = fw[k]
        xn, zn, Pn = out[k + 1][:3]
        q = packed(m, xi, z, P_)
        zs, Ps, Ms = back(us[k], ts[k], q, None, z, P_, xn, zn, Pn)
        out[k] = (xi, newarr(s.av(zs)), newarr(s.av(Ps)), newarr(s.av(Ms)))
    return out


def r_steps(m, s, tr, T):
    ok = s.I.length(tr, s.s) is const(T)
    return ('number of steps', Verdict(True if ok else False, '%d steps' % T))


def r_forward(refs, T, none):
    def fn(m, s):
        st, parts, ancs, us, ys, ts = smoothed(m, s, T, none)
        tr = s.meth(m.o, 'pre_mhips_pass', st)
        fw = forward(m, s, refs, T, parts, us, ys, ts)
        out = [r_steps(m, s, tr, T)]
        for k in range(T):
            x = s.at(tr, k)
            pa = s.attr(x, 'pa')
            out.append(('moments of step %d' % k, same(s, s.attr(pa, 'part'), m.r('pack', *fw[k]))))
            out.append(('ancestors of step %d' % k, same(s, s.attr(x, 'ancestors'), ancs[k])))
        for k in range(T):
            out.append(('trajectory %d unchanged' % k, same(s, parts[k], s.array(s.av(parts[k]).shape, lambda i, j: mk_in('tp%d' % k, P(i), P(j))))))
        return out
    return fn


def r_smooth(refs, T, none):
    def fn(m, s):
        st, parts, ancs, us, ys, ts = smoothed(m, s, T, none)
        tr = s.meth(m.o, 'post_smoothing', st)
        fw = forward(m, s, refs, T, parts, us, ys, ts)
        bw = backward(m, s, refs, T, fw, us, ts)
        out = [r_steps(m, s, tr, T)]
        for k in range(T):
            x = s.at(tr, k)
            p = s.attr(s.attr(x, 'pa'), 'part')
            ref = m.r('packM', *bw[k]) if bw[k][3] is not None else m.r('zpad', m.r('pack', *bw[k][:3]), sc(m.lz * m.lz, 'i'))
            out.append(('smoothed moments of step %d' % k, same(s, p, ref)))
            out.append(('ancestors of step %d' % k, same(s, s.attr(x, 'ancestors'), ancs[k])))
        return out
    return fn


def mix22(**kw):
    m = Mix(**kw)
    M = sym('M')
    m.init = lambda xi: (newarr(m.s.av(m.rep(m.x0['z0'], M))), newarr(m.s.av(m.rep(m.P0['Pz0'], M))))
    return m


def hier22(**kw):
    def extra(m):
        META['rbP0'] = {'sym': (1, 2)}

        def fn(I, st, env, node):
            a = I.av(env['xi_initial'], st)
            row = lambda i: mkav((m.lxi,), lambda k: a.at([i, k, ZERO])).clo()
            return (newarr(mkav((a.shape[0], m.lz, ONEP), lambda i, j, k: mk_in('rbz0', row(P(i)), P(j)))),
                    newarr(mkav((a.shape[0], m.lz, m.lz), lambda i, j, k: mk_in('rbP0', row(P(i)), P(j), P(k)))))
        return {'get_rb_initial': uhook('get_rb_initial', ('xi_initial',), fn)}
    m = Hier(extra=extra, **kw)
    m.flat = False
    m.init = lambda xi: m.ev('get_rb_initial', xi)
    return m


def configs(thorough):
    D = [('constant', dict(), 3), ('cross-covariance', dict(cross='const'), 3),
         ('per-particle', dict(non='afq', lin='afq', mea='chr', cross='part'), 3 if thorough else 2),
         ('no measurement matrix', dict(noc=True, mea='h'), 2), ('scalar', dict(one='xzy'), 2)]
    for tag, kw, n in D:
        yield 'mixed ' + tag, (lambda kw=kw: mix22(**kw)), mixrefs, n
    D = [('constant', dict(), 3), ('per-particle', dict(lin='afq', mea='chr'), 3 if thorough else 2), ('scalar', dict(one='xzy'), 2)]
    for tag, kw, n in D:
        yield 'hierarchical ' + tag, (lambda kw=kw: hier22(**kw)), hierrefs, n


def c22(rep, tier):
    rep.defer()
    thorough = tier == 'thorough'
    for tag, mk, refs, n in configs(thorough):
        for T in range(1, n + 1 + thorough):
            pats = [()] + [(k,) for k in range(T)] + ([tuple(range(T))] if T > 1 else [])
            if T > 2 and not thorough or T > 3:
                pats = [(), (1,)]
            for none in pats:
                t = '%s, %d steps%s' % (tag, T, ', no measurement at ' + ', '.join(map(str, none)) if none else '')
                KT2 = dict(fw=('forward pass', 'RBPSBase.pre_mhips_pass', r_forward(refs, T, none)),
                           bw=('backward pass', 'RBPSBase.post_smoothing', r_smooth(refs, T, none)))
                obmaker(rep, t, mk, ['fw', 'bw'], KT2, RB)
