"""C16 mixed linear/nonlinear Gaussian model, C17 its marginalised smoother, part of C20, C21, C22."""
from fractions import Fraction
from pest.scene import *
from .trajs import step_seq, step, approx

FILE = 'pyparticleest/models/mlnlg.py'
N, lu = sym('N'), sym('lu')
DIMS = [dict(N=3, lxi=2, lz=2, ly=2, K=3, M=3, lp=2), dict(N=2, lxi=1, lz=2, ly=3, K=2, M=4, lp=3),
        dict(N=4, lxi=2, lz=1, ly=1, K=3, M=2, lp=1)]


def xirows(name, m, part='particles'):
    """row i: the nonlinear state of particle i"""
    def d(I, st, env, node):
        a = I.av(env[part], st)
        return (lambda i: mkav((m.lxi,), lambda k: a.at([i, k])).clo()), a.shape[0]
    return d


def tuple_hook(m, name, params, outs, deps, lead=None):
    """hook returning a tuple; outs: None or (input name, shape, symmetric) per element"""
    for o in outs:
        if o is not None and o[2]:
            META[o[0]] = {'sym': (1 + len(deps), 2 + len(deps))}

    def fn(I, st, env, node):
        f, n = xirows(name, m)(I, st, env, node)
        ds = [whole_clo(I, st, env[d]) for d in deps]
        out = []
        for o in outs:
            if o is None:
                out.append(None)
                continue
            nm, shp = o[:2]
            k = o[3] if len(o) > 3 else None

            def body(i, *r, nm=nm, k=k):
                b = mk_in(nm, f(P(i)), *(ds + [P(x) for x in r]))
                return b * k if k is not None else b
            out.append(newarr(mkav((n,) + tuple(shp), body)))
        if lead:
            out = [env[lead]] + out
        return tuple(out)
    return uhook(name, params, fn)


class Mix(object):
    """scene with a user model.

    lin, non, mea: which of A, f, Q / C, h, R are per-particle ('afq' / 'chr'); cross: '', 'const', 'part';
    noc / noh: no measurement matrix / offset at all"""

    def __init__(self, non='', lin='', mea='', cross='', noc=False, noh=False, noff=False, one='', base='Sampled', p0=True,
                 reset=False, extra=None, gauss0=True):
        s = self.s = Scene(dims=DIMS)
        self.lxi = ONEP if 'x' in one else sym('lxi', 2)
        self.lz = ONEP if 'z' in one else sym('lz', 2)
        self.ly = ONEP if 'y' in one else sym('ly', 2)
        lxi, lz, ly = self.lxi, self.lz, self.ly
        self.non, self.lin, self.mea, self.cross, self.noc, self.noh = non, lin, mea, cross, noc, noh
        self.noff = noff
        H = {}
        ut = ['u', 't']
        if non:
            H['get_nonlin_pred_dynamics'] = tuple_hook(self, 'get_nonlin_pred_dynamics', ('particles', 'u', 't'), [
                ('hAxi', (lxi, lz), False) if 'a' in non else None, ('hfxi', (lxi, ONEP), False) if 'f' in non else None,
                ('hQxi', (lxi, lxi), True) if 'q' in non else None], ut)
        if lin:
            H['get_lin_pred_dynamics'] = tuple_hook(self, 'get_lin_pred_dynamics', ('particles', 'u', 't'), [
                ('hAz', (lz, lz), False) if 'a' in lin else None, ('hfz', (lz, ONEP), False) if 'f' in lin else None,
                ('hQz', (lz, lz), True) if 'q' in lin else None], ut)
        if mea:
            H['get_meas_dynamics'] = tuple_hook(self, 'get_meas_dynamics', ('particles', 'y', 't'), [
                ('hC', (ly, lz), False) if 'c' in mea else None, ('hh', (ly, ONEP), False) if 'h' in mea else None,
                ('hR', (ly, ly), True) if 'r' in mea else None], ['t'], lead='y')
        if cross == 'part':
            h = tuple_hook(self, 'get_cross_covariance', ('particles', 'u', 't'), [('hQxiz', (lxi, lz), False, Fraction(1, 10))], ut)
            H['get_cross_covariance'] = Hook('get_cross_covariance', lambda *a: h.fn(*a)[0])
        H.update(extra(self) if extra else {})
        name = 'MixedNLGaussian' + base + ('InitialGaussian' if gauss0 else '')
        cls = user_class(s, 'models.mlnlg', name, H)
        pre = 'old' if reset else ''
        c = self.c = dict(Axi=s.arr('Axi', lxi, lz), fxi=s.arr('fxi', lxi, ONEP), Qxi=s.arr('Qxi', lxi, lxi, sym=(0, 1)),
                          Az=s.arr('Az', lz, lz), fz=s.arr('fz', lz, ONEP), Qz=s.arr('Qz', lz, lz, sym=(0, 1)),
                          Qxiz=s.array((lxi, lz), lambda i, j: mk_in('Qxiz', P(i), P(j)) * Fraction(1, 10)),
                          C=s.arr('C', ly, lz), h=s.arr('h', ly, ONEP), R=s.arr('R', ly, ly, sym=(0, 1)))
        s.I.inputcells[c['Qxiz'].cid] = 'Qxiz'
        o = dict(c)
        if reset:
            o = {k: s.arr('old' + k, *s.av(v).shape, **({'sym': (0, 1)} if k[0] in 'QR' and k != 'Qxiz' else {}))
                 for k, v in c.items()}
        use = [k for k in c if not (k == 'Axi' and 'a' in non or k == 'fxi' and ('f' in non or noff) or k == 'Qxi' and 'q' in non or
                                    k == 'Az' and 'a' in lin or k == 'fz' and ('f' in lin or noff) or k == 'Qz' and 'q' in lin or
                                    k == 'Qxiz' and cross != 'const' or k == 'C' and ('c' in mea or noc) or
                                    k == 'h' and ('h' in mea or noh) or k == 'R' and 'r' in mea)]
        kw = {k: o[k] for k in use}
        self.x0 = dict(xi0=s.arr('xi0', lxi, ONEP), z0=s.arr('z0', lz, ONEP))
        self.P0 = dict(Pxi0=s.arr('Pxi0', lxi, lxi, sym=(0, 1)), Pz0=s.arr('Pz0', lz, lz, sym=(0, 1)))
        if gauss0:
            kw.update(self.x0)
            if p0 is True:
                kw.update(self.P0)
            elif p0:
                kw.update({p0: self.P0[p0]})
        else:
            kw.update(lxi=sc(lxi, 'i'), lz=sc(lz, 'i'))
        self.o = s.call(cls, **kw)
        if reset:
            s.meth(self.o, 'set_dynamics', **{k: c[k] for k in use})
        self.u, self.t, self.y = s.arr('u', lu), s.scal('t'), s.arr('y', ly, ONEP)

    # ---------------------------------------------------------------- reference dynamics
    def r(self, fn, *a):
        return self.s.ref('mlnlg', fn, *a)

    def ev(self, name, *a, **kw):
        n = len(self.s.I.events)
        r = self.s.meth(self.o, name, *a, **kw)
        del self.s.I.events[n:]
        return r

    def rep(self, x, n):
        return self.r('rep', x, sc(n, 'i'))

    def zeros(self, a, b, n):
        return self.r('zrep', sc(a, 'i'), sc(b, 'i'), sc(n, 'i'))

    def D(self, p, n=N, u=None, t=None):
        """per-particle (Axi, fxi, Qxi, Az, fz, Qz, Qxiz)"""
        u, t = u or self.u, t or self.t
        non = self.ev('get_nonlin_pred_dynamics', p, u, t) if self.non else (None,) * 3
        lin = self.ev('get_lin_pred_dynamics', p, u, t) if self.lin else (None,) * 3
        out = []
        for v, k in zip(tuple(non) + tuple(lin), ('Axi', 'fxi', 'Qxi', 'Az', 'fz', 'Qz')):
            if v is None:
                if k in ('fxi', 'fz') and self.noff:
                    v = self.zeros(self.lxi if k == 'fxi' else self.lz, ONEP, n)
                else:
                    v = self.rep(self.c[k], n)
            out.append(v)
        if self.cross == 'part':
            out.append(self.ev('get_cross_covariance', p, u, t))
        elif self.cross:
            out.append(self.rep(self.c['Qxiz'], n))
        else:
            out.append(self.zeros(self.lxi, self.lz, n))
        return tuple(out)

    def Ms(self, p, n=N, t=None, y=None):
        mea = self.ev('get_meas_dynamics', p, y or self.y, t or self.t)[1:] if self.mea else (None,) * 3
        C, h, R = mea
        if C is None:
            C = self.zeros(self.ly, self.lz, n) if self.noc else self.rep(self.c['C'], n)
        if h is None:
            h = self.zeros(self.ly, ONEP, n) if self.noh else self.rep(self.c['h'], n)
        if R is None:
            R = self.rep(self.c['R'], n)
        return C, h, R

    def state(self, n=N, tag='', own=False):
        """(xi, z, P, packed particle array)"""
        s = self.s
        xi, z, P_ = s.arr('xi' + tag, n, self.lxi, ONEP), s.arr('z' + tag, n, self.lz, ONEP), \
            s.arr('P' + tag, n, self.lz, self.lz, sym=(1, 2))
        p = self.r('pack', xi, z, P_)
        v = s.av(p)
        a = newarr(v)
        if not own:
            s.I.inputcells[a.cid] = 'particles' + tag
        return xi, z, P_, a

    def x(self, a):
        """nonlinear state (n,lxi) array"""
        return self.s.array((self.s.av(a).shape[0], self.lxi), lambda i, k: self.s.av(a).at([i, k, ZERO]))


def obmaker(rep, tag, mk, what, table, FILE=FILE):
    def ob(name, con, fn):
        def go():
            m = mk()
            try:
                return fn(m, m.s)
            finally:
                rep.absorb(m.s)
        rep.obligation('%s [%s]' % (name, tag), '%s:%s' % (FILE, con), go)
    for w in what:
        ob(*table[w])


def repeated(rep, tag, mk, what, table, FILE=FILE):
    """the same operations on an object that has been used before"""
    def go():
        m = mk()
        try:
            return [('%s, %s' % (table[what[int(n.split(',')[0])]][0], n), v) for n, v in again(m, [table[w][2] for w in what])]
        finally:
            rep.absorb(m.s)
    rep.obligation('repeated use: %s [%s]' % (', '.join(what), tag), '%s:%s' % (FILE, table[what[0]][1]), go)


def p_move(m, s):
    xi, z, P_, p = m.state(own=True)
    q = m.state()[3]
    noise = s.meth(m.o, 'sample_process_noise', q, m.u, m.t)
    r = s.meth(m.o, 'update', p, m.u, m.t, noise)
    ref = m.r('move', xi, z, P_, m.D(q))
    return [('returned', same_dist(s, r, ref)), ('stored', same_dist(s, p, ref))]


def p_given(m, s):
    xi, z, P_, p = m.state(own=True)
    q = m.state()[3]
    v = s.arr('noise', N, m.lxi)
    v3 = s.array((N, m.lxi, ONEP), lambda i, k, l: s.av(v).at([i, k]))
    s.meth(m.o, 'update', p, m.u, m.t, v)
    return same(s, p, m.r('move_given', xi, z, P_, v3, m.D(q)))


def p_condpred(m, s):
    xi, z, P_, p = m.state(own=True)
    q = m.state()[3]
    xn = s.arr('xn', N, m.lxi)
    xn3 = s.array((N, m.lxi, ONEP), lambda i, k, l: s.av(xn).at([i, k]))
    s.meth(m.o, 'cond_predict', p, xn, m.u, m.t)
    p2 = m.state(own=True)[3]
    s.meth(m.o, 'cond_predict', p2, xn3, m.u, m.t)
    ref = m.r('stepped', xn3, z, P_, m.D(q))
    return [('rows', same(s, p, ref)), ('columns', same(s, p2, ref))]


def data(m, s):
    return s.matseq('us', sym('T'), lu), s.matseq('ys', sym('T'), m.ly, ONEP), s.matseq('ts', sym('T')), \
        s.scal('ci', int=True, nonneg=True)


def p_condsingle(m, s):
    xi, z, P_, p = m.state()
    us, ys, ts, ci = data(m, s)
    fx, fz_, fP, fp = m.state(sym('M'), 'f')
    find = s.arr('find', N, int=True, range=sym('M'), nonneg=True)
    r = s.meth(m.o, 'cond_predict_single_step', part=p, past_trajs=None, pind=None, future_parts=fp, find=find, ut=us,
               yt=ys, tt=ts, cur_ind=ci)
    ref = m.r('stepped', m.r('sel', fx, find), z, P_, m.D(p, N, s.at(us, ci), s.at(ts, ci)))
    return [('value', same(s, r, ref)), ('argument unchanged', same(s, p, m.r('pack', xi, z, P_)))]


def p_measure(m, s):
    xi, z, P_, p = m.state(own=True)
    q = m.state()[3]
    v = s.meth(m.o, 'measure', p, m.y, m.t)
    C, h, R = m.Ms(q)
    lp, pn = s.tuplize(m.r('measure', m.y, xi, z, P_, C, h, R), 2)
    return [('log-density', same(s, v, lp)), ('updated state', same(s, p, pn))]


def p_stage1(m, s):
    xi, z, P_, p = m.state()
    v = s.meth(m.o, 'eval_1st_stage_weights', p, m.u, m.y, m.t)
    D = m.D(p)
    xm, S = s.tuplize(m.r('pred_xi', z, P_, D), 2)
    z1, P1 = s.tuplize(m.r('cond_step', z, P_, xm, D), 2)
    q = m.r('pack', xm, z1, P1)
    C, h, R = m.Ms(q, t=sc(m.t.body + 1))
    lp, pn = s.tuplize(m.r('measure', m.y, xm, z1, P1, C, h, R), 2)
    return [('value', same(s, v, lp)), ('argument unchanged', same(s, p, m.r('pack', xi, z, P_)))]


def p_trans(m, s):
    xi, z, P_, p = m.state()
    xn, zn, Pn, pn = m.state(tag='n')
    v = s.meth(m.o, 'logp_xnext', p, pn, m.u, m.t)
    return same(s, v, m.r('jointdens', xn, zn, z, P_, m.D(p)))


def p_trans1(m, s):
    xi, z, P_, p = m.state()
    xn, zn, Pn, pn = m.state(ONEP, tag='n')
    v = s.meth(m.o, 'logp_xnext', p, pn, m.u, m.t)
    rx = s.array((N, m.lxi, ONEP), lambda i, k, l: s.av(xn).at([ZERO, k, ZERO]))
    rz = s.array((N, m.lz, ONEP), lambda i, k, l: s.av(zn).at([ZERO, k, ZERO]))
    return same(s, v, m.r('jointdens', rx, rz, z, P_, m.D(p)))


def p_transfull(m, s):
    xi, z, P_, p = m.state()
    us, ys, ts, ci = data(m, s)
    fx, fz_, fP, fp = m.state(sym('M'), 'f')
    ft = s.seq('ft', sym('nf'), lambda st, k: step(s, fp, s.arr('fw', sym('M')), s.arr('fa', sym('M'), int=True), sym('M')))
    find = s.arr('find', N, int=True, range=sym('M'), nonneg=True)
    v = s.meth(m.o, 'logp_xnext_full', part=p, past_trajs=None, pind=None, future_trajs=ft, find=find, ut=us, yt=ys,
               tt=ts, cur_ind=ci)
    return same(s, v, m.r('jointdens', m.r('sel', fx, find), m.r('sel', fz_, find), z, P_,
                          m.D(p, N, s.at(us, ci), s.at(ts, ci))))


def p_single(m, s):
    xi, z, P_, p = m.state()
    us, ys, ts, ci = data(m, s)
    fx, fz_, fP, fp = m.state(sym('M'), 'f')
    find = s.arr('find', N, int=True, range=sym('M'), nonneg=True)
    v = s.meth(m.o, 'logp_xnext_singlestep', part=p, past_trajs=None, pind=None, future_parts=fp, find=find, ut=us, yt=ys,
               tt=ts, cur_ind=ci)
    return same(s, v, m.r('xidens', m.r('sel', fx, find), z, P_, m.D(p, N, s.at(us, ci), s.at(ts, ci))))


def p_bound(m, s):
    xi, z, P_, p = m.state()
    v = s.meth(m.o, 'logp_xnext_max', p, m.u, m.t)
    return same(s, v, m.r('jointpeak', z, P_, m.D(p)))


def p_boundfull(m, s):
    xi, z, P_, p = m.state()
    us, ys, ts, ci = data(m, s)
    v = s.meth(m.o, 'logp_xnext_max_full', part=p, past_trajs=None, pind=None, uvec=us, yvec=ys, tvec=ts, cur_ind=ci)
    return same(s, v, m.r('jointpeak', z, P_, m.D(p, N, s.at(us, ci), s.at(ts, ci))))


def smooth_args(m, s, n):
    us, ys, ts, ci = data(m, s)
    fx, fz_ = s.arr('fxi', sym('M'), m.lxi, ONEP), s.arr('fzz', sym('M'), m.lz, ONEP)
    fp = newarr(s.av(m.r('pack2', fx, fz_)))
    s.I.inputcells[fp.cid] = 'future particles'
    ft = s.seq('ft', sym('nf'), lambda st, k: step(s, fp, s.arr('fw', sym('M')), s.arr('fa', sym('M'), int=True), sym('M')))
    find = s.arr('find', n, int=True, range=sym('M'), nonneg=True)
    return us, ys, ts, ci, fx, fz_, ft, find


def p_smooth(m, s):
    xi, z, P_, p = m.state()
    us, ys, ts, ci, fx, fz_, ft, find = smooth_args(m, s, N)
    v = s.meth(m.o, 'sample_smooth', part=p, ptraj=None, anc=None, future_trajs=ft, find=find, ut=us, yt=ys, tt=ts, cur_ind=ci)
    ref = m.r('smooth_draw', xi, z, P_, m.r('sel', fx, find), m.r('sel', fz_, find), m.D(p, N, s.at(us, ci), s.at(ts, ci)))
    return [('draw', same_dist(s, v, ref)), ('argument unchanged', same(s, p, m.r('pack', xi, z, P_)))]


def p_smooth0(m, s):
    xi, z, P_, p = m.state()
    us, ys, ts, ci = data(m, s)
    v = s.meth(m.o, 'sample_smooth', part=p, ptraj=None, anc=None, future_trajs=None, find=None, ut=us, yt=ys, tt=ts, cur_ind=ci)
    return same_dist(s, v, m.r('last_draw', xi, z, P_))


def p_prop(m, s):
    n = sym('K')
    us, ys, ts, ci = data(m, s)
    hx, hz, hP, hp = m.state(N, 'h')
    aa = s.arr('ha', N, int=True, range=N, nonneg=True)
    pt = s.seq('pt', sym('t0') + 1, lambda st, k: step(s, hp, s.arr('hw', N), aa, N))
    anc = s.arr('anc', n, int=True, range=N, nonneg=True)
    find = s.call(Builtin('numpy.arange'), sc(n, 'i'))
    k = sc(ci.body - 1, 'i')
    u, t = s.at(us, k), s.at(ts, k)
    v = s.meth(m.o, 'propose_smooth', pt, anc, None, find, ys, us, ts, ci)
    q = s.at(hp, anc)
    D = m.D(q, n, u, t)
    z, P_ = m.r('sel', hz, anc), m.r('sel', hP, anc)
    out = [('draw', same_dist(s, v, m.r('move', m.r('sel', hx, anc), z, P_, D))),
           ('history unchanged', same(s, hp, m.r('pack', hx, hz, hP)))]
    fx, fz_, fP, fp = m.state(n, 'f')
    w = s.meth(m.o, 'logp_proposal', fp, pt, anc, None, find, ys, us, ts, ci)
    return out + [('density', same(s, w, m.r('xidens', fx, z, P_, D)))]


def p_prop0(m, s):
    n = sym('K')
    us, ys, ts, ci = data(m, s)
    find = s.call(Builtin('numpy.arange'), sc(n, 'i'))
    v = s.meth(m.o, 'propose_smooth', None, None, None, find, ys, us, ts, ci)
    i0 = (m.x0['xi0'], m.P0['Pxi0'], m.x0['z0'], m.P0['Pz0'])
    fx, fz_, fP, fp = m.state(n, 'f')
    w = s.meth(m.o, 'logp_proposal', fp, None, None, None, find, ys, us, ts, ci)
    return [('draw', same_dist(s, v, m.r('init_draw', *(i0 + (sc(n, 'i'),))))),
            ('density', same(s, w, m.r('x0dens', fx, fz_, fP, *i0), upto=0))]


OWN = lambda m: dict(eval_logp_x0=perpart('eval_logp_x0', (), ['t'], ('particles', 't')))


def p_propown(m, s):
    n = sym('K')
    us, ys, ts, ci = data(m, s)
    find = s.call(Builtin('numpy.arange'), sc(n, 'i'))
    fx, fz_, fP, fp = m.state(n, 'f')
    w = s.meth(m.o, 'logp_proposal', fp, None, None, None, find, ys, us, ts, ci)
    return same(s, w, s.meth(m.o, 'eval_logp_x0', fp, s.at(ts, 0)))


def p_init(m, s):
    v = s.meth(m.o, 'create_initial_estimate', sc(N, 'i'))
    return same_dist(s, v, m.r('init_draw', m.x0['xi0'], m.P0['Pxi0'], m.x0['z0'], m.P0['Pz0'], sc(N, 'i')))


def p_initnoxi(m, s):
    v = s.meth(m.o, 'create_initial_estimate', sc(N, 'i'))
    return same_dist(s, v, m.r('init_fixed', m.x0['xi0'], m.x0['z0'], m.P0['Pz0'], sc(N, 'i')))


def p_initnoz(m, s):
    v = s.meth(m.o, 'create_initial_estimate', sc(N, 'i'))
    z = s.ref('kalman', 'zeros', m.P0['Pz0'])
    return same_dist(s, v, m.r('init_draw', m.x0['xi0'], m.P0['Pxi0'], m.x0['z0'], z, sc(N, 'i')))


def p_rbinit(m, s):
    xi, z, P_, p = m.state()
    a, b = s.tuplize(s.meth(m.o, 'get_rb_initial', xi), 2)
    c = s.meth(m.o, 'cond_sampled_initial', p, m.t)
    zr, Pr = m.rep(m.x0['z0'], N), m.rep(m.P0['Pz0'], N)
    return [('mean', same(s, a, zr)), ('covariance', same(s, b, Pr)), ('conditioned particles', same(s, c, m.r('pack', xi, zr, Pr)))]


def p_x0(m, s):
    xi, z, P_, p = m.state()
    v = s.meth(m.o, 'eval_logp_x0', p, m.t)
    return same(s, v, m.r('x0dens', xi, z, P_, m.x0['xi0'], m.P0['Pxi0'], m.x0['z0'], m.P0['Pz0']), upto=0)


C_ = 'MixedNLGaussianSampled.'
G_ = 'MixedNLGaussianSampledInitialGaussian.'
TABLE = dict(
    move=('draw from the marginal predictive, condition and predict', C_ + 'sample_process_noise/update', p_move),
    given=('propagate with given noise', C_ + 'update', p_given),
    condpred=('condition on the next nonlinear state and predict', 'RBPFBase.cond_predict', p_condpred),
    condsingle=('condition on a future state', 'RBPFBase.cond_predict_single_step', p_condsingle),
    measure=('measurement likelihood and update', C_ + 'measure', p_measure),
    stage1=('first stage weights', C_ + 'eval_1st_stage_weights', p_stage1),
    trans=('joint transition log-density', C_ + 'logp_xnext', p_trans),
    trans1=('joint transition log-density, one next state', C_ + 'logp_xnext', p_trans1),
    transfull=('transition log-density to the future trajectory', C_ + 'logp_xnext_full', p_transfull),
    single=('marginal transition log-density', C_ + 'logp_xnext_singlestep', p_single),
    bound=('bound at zero prediction error', C_ + 'logp_xnext_max', p_bound),
    boundfull=('bound with the data of the given step', C_ + 'logp_xnext_max_full', p_boundfull),
    smooth=('smoothed draw given the future state', C_ + 'sample_smooth', p_smooth),
    smooth0=('smoothed draw at the last step', C_ + 'sample_smooth', p_smooth0),
    prop=('proposal', C_ + 'propose_smooth/logp_proposal', p_prop),
    prop0=('proposal at the first step', C_ + 'propose_smooth/logp_proposal', p_prop0),
    propown=("proposal density at the first step, model's own initial density", C_ + 'logp_proposal', p_propown),
    init=('initial draw', G_ + 'create_initial_estimate', p_init),
    initnoxi=('initial draw, fixed nonlinear start', G_ + 'create_initial_estimate', p_initnoxi),
    initnoz=('initial draw, known linear start', G_ + 'create_initial_estimate', p_initnoz),
    rbinit=('initial moments of the linear state', G_ + 'get_rb_initial/cond_sampled_initial', p_rbinit),
    x0=('initial log-density', C_ + 'eval_logp_x0', p_x0),
)
DYN = [('constant', dict()), ('constant, cross-covariance', dict(cross='const')),
       ('per-particle f', dict(non='f', lin='f')), ('per-particle A/f/Q', dict(non='afq', lin='afq')),
       ('per-particle A/f/Q, cross-covariance', dict(non='afq', lin='afq', cross='part')),
       ('no offsets', dict(noff=True)), ('replaced', dict(reset=True, cross='const'))]
DYN2 = [('per-particle Axi', dict(non='a', cross='const')), ('per-particle Az', dict(lin='a', cross='const')),
        ('per-particle Qxi', dict(non='q')), ('per-particle Qz', dict(lin='q', cross='part')),
        ('scalar states', dict(one='xz', cross='const')), ('scalar states, per-particle', dict(one='xz', non='afq', lin='afq', cross='part'))]
MEA = [('constant', dict()), ('constant, no offset', dict(noh=True)), ('no matrix', dict(noc=True)),
       ('per-particle h', dict(mea='h')), ('per-particle h, no matrix', dict(mea='h', noc=True)),
       ('per-particle C/h/R', dict(mea='chr')), ('per-particle C', dict(mea='c')), ('per-particle R', dict(mea='r')),
       ('per-particle R, no matrix', dict(mea='r', noc=True)), ('replaced', dict(reset=True))]
MOVES = ['move', 'given', 'condpred', 'condsingle', 'trans', 'trans1', 'transfull', 'single', 'smooth', 'prop']


def c16(rep, tier):
    rep.defer()
    for tag, kw in DYN + DYN2:
        obmaker(rep, tag, lambda kw=kw: Mix(**kw), MOVES, TABLE)
    for tag, kw in MEA:
        for one in ('', 'y'):
            k = dict(kw)
            k['one'] = one
            obmaker(rep, tag + (', scalar measurement' if one else ''), lambda k=k: Mix(**k), ['measure', 'stage1'], TABLE)
    obmaker(rep, 'per-particle all', lambda: Mix(non='afq', lin='afq', cross='part', mea='chr'), ['stage1', 'measure'], TABLE)
    full = dict(non='afq', lin='afq', cross='part', mea='chr')
    for w in (['move', 'trans'], ['given', 'condpred', 'condsingle'], ['trans1', 'transfull', 'single'], ['smooth', 'prop'],
              ['measure', 'stage1']):
        repeated(rep, 'per-particle all', lambda: Mix(**full), w, TABLE)
    repeated(rep, 'Gaussian start', lambda: Mix(), ['init', 'rbinit', 'x0', 'smooth0', 'prop0'], TABLE)
    obmaker(rep, 'Gaussian start', lambda: Mix(), ['init', 'rbinit', 'x0', 'smooth0', 'prop0'], TABLE)
    obmaker(rep, 'Gaussian start, scalar states', lambda: Mix(one='xz'), ['init', 'rbinit', 'x0', 'smooth0', 'prop0'], TABLE)
    obmaker(rep, 'Gaussian start', lambda: Mix(extra=OWN), ['propown'], TABLE)
    obmaker(rep, 'without Pxi0', lambda: Mix(p0='Pz0'), ['initnoxi'], TABLE)
    obmaker(rep, 'without Pz0', lambda: Mix(p0='Pxi0'), ['initnoz'], TABLE)


def bounds(rep, tier):
    for tag, kw in DYN + DYN2:
        obmaker(rep, 'mixed ' + tag, lambda kw=kw: Mix(**kw), ['bound', 'boundfull'], TABLE)
