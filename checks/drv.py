"""Trajectory driver, resampling helpers, simulator and dispatch: C05, C06, C07, C11, C12."""
from pest.scene import *
from .trajs import *
from . import flt
from .flt import N, lx, ly, lu, model_cls, anyof, wsite, FILE, expsafe, unwritten

NAMES = {'pf': 'ParticleFilter', 'apf': 'AuxiliaryParticleFilter', 'pfy': 'FFPropY', 'cpfyas': 'CPFYAS', 'cpfas': 'CPFAS',
         'cpf': 'CPF', 'sir': 'SIR', 'csiras': 'CSIRAS'}
KIND = {'pf': 'markov', 'apf': 'markov', 'sir': 'sir', 'csiras': 'sir', 'pfy': 'full', 'cpfyas': 'full', 'cpfas': 'full',
        'cpf': 'markov'}
# arguments of the hooks: which step their u, t and y belong to (0: departure, 1: arrival)
WHEN = {'noise': dict(u=0, t=0), 'update': dict(u=0, t=0), 'stage1': dict(u=0, t=0, y=1), 'measure': dict(y=1, t=1),
        'qsample': dict(u=0, t=0, y=1), 'logp_q': dict(u=0, t=0, y=1), 'logp_xnext': dict(u=0, t=0),
        'propose_from_y': dict(y=1, t=1)}


class Drv(object):
    def __init__(self, name, T=None, steps=3, first=True, lists=False, typ=None):
        s = self.s = Scene(dims=[dict(N=4, lx=2, ly=2, lu=1, M=3), dict(N=3, lx=3, ly=1, lu=2, M=2),
                                 dict(N=5, lx=1, ly=2, lu=2, M=4)])
        s.points = 4
        self.name, self.T, self.nsteps, self.first = name, T, steps, first
        self.model = s.call(model_cls(s, KIND[name.lower()]))
        # y0 is the measurement of the initial step; u[k], y[k+1] those of step k
        self.y = [s.arr('y%d' % i, ly) for i in range(steps + 1)]
        self.u = [s.arr('u%d' % i, lu) for i in range(steps)]
        kw = {}
        if name[0] == 'c':
            self.ct = step_seq(s, 'ct', const(steps + 1), ONEP, (lx,))
            kw['filter_options'] = ORef(alloc(DictC({'cond_traj': self.ct})))
        if T is not None:
            kw['T'] = sc(P(T), 'i')
        self.pt = s.new('filter', 'ParticleTrajectory', model=self.model, N=sc(N, 'i'), filter=name, **kw)

    def cut(self, k):
        """the particles, weights and ancestors of step k become arbitrary (induction over the steps)"""
        s = self.s
        st = s.at(s.attr(self.pt, 'traj'), k)
        pa = s.attr(st, 'pa')
        s.I.setattr(pa, 'part', s.arr('x%d' % k, N, lx), s.s)
        s.I.setattr(pa, 'w', s.arr('w%d' % k, N), s.s)
        s.I.setattr(st, 'ancestors', s.arr('a%d' % k, N, int=True, range=P(N), nonneg=True), s.s)

    def run(self):
        """-> events per step, snapshots of each step at creation"""
        s = self.s
        ev, snap, self.flags = [], [], []
        n = len(s.I.events)
        if self.first:
            s.meth(self.pt, 'measure', self.y[0])
            ev.append(s.I.events[n:])
            n = len(s.I.events)
            self.cut(0)
            snap.append(self.shot(0))
        else:
            ev.append([])
        for k in range(self.nsteps):
            self.flags.append(s.meth(self.pt, 'forward', self.u[k], self.y[k + 1]))
            ev.append(s.I.events[n:])
            n = len(s.I.events)
            if k == 0 and not self.first:
                self.cut(0)
                snap.append(self.shot(0))
            self.cut(k + 1)
            snap.append(self.shot(k + 1))
        self.ev, self.snap = ev, snap
        return self

    def shot(self, k):
        s = self.s
        st = s.at(s.attr(self.pt, 'traj'), k)
        pa = s.attr(st, 'pa')
        return [('particles', s.av(s.attr(pa, 'part'))), ('weights', s.av(s.attr(pa, 'w'))),
                ('ancestors', s.av(s.attr(st, 'ancestors')))]


def want(s, v, ref, what, e):
    r = same(s, v, ref, weaksize=True)
    return Verdict(r.ok, '%s of %s at %s: %s' % (what, e.data['name'], wsite(e), r.why))


def alignment(d, k, events):
    """every model call of step k (arrival index k) gets the data of the right step"""
    s = d.s
    out = []
    cnt = {}
    for e in events:
        if e.kind != 'hook':
            continue
        nm = e.data['name']
        cnt[nm] = cnt.get(nm, 0) + 1
        lab = '%s #%d of step %d' % (nm, cnt[nm], k)
        if nm in WHEN and ('a_u' in e.data or 'a_t' in e.data or 'a_y' in e.data):
            for a, w in WHEN[nm].items():
                if 'a_' + a not in e.data:
                    continue
                i = k - 1 + w
                ref = {'u': lambda: d.u[i], 'y': lambda: d.y[i], 't': lambda: sc(const(i), 'i')}[a]()
                out.append((lab + ' gets ' + a, want(s, e.data['a_' + a], ref, a, e)))
        elif nm == 'logp_xnext_singlestep':
            out.append((lab + ' gets the index of the departure step',
                        want(s, e.data['a_cur_ind'], sc(const(k - 1), 'i'), 'cur_ind', e)))
    if not out:
        return [('no model call', Verdict(None, 'no model call recorded'))]
    return out


def c06(rep, tier):
    flt.c06(rep, tier)
    feeds(rep)
    starts(rep, 'C06')
    ns = [None, 2, 6] if tier == 'thorough' else [None, 2, 6]
    for name in sorted(NAMES):
        for T_ in ns:
            for first in (True, False):
                if not first and name in ('pfy', 'cpfyas'):
                    pass
                tag = '%s, %s, %s' % (name, 'growing storage' if T_ is None else 'storage for %d' % T_,
                                      'initial measurement' if first else 'no initial measurement')
                con = '%s:ParticleTrajectory.forward' % FILE
                box = []

                def mk():
                    d = Drv(name, T_, 4 if tier == 'thorough' else 3, first)
                    box.append(d)
                    d.run()
                    return d

                def stored():
                    d = mk()
                    s = d.s
                    out = []
                    for k in range(d.nsteps):
                        out.append(('input %d' % k, same(s, s.at(s.attr(d.pt, 'uvec'), k), d.u[k], weaksize=True)))
                    for k in range(0 if first else 1, d.nsteps + 1):
                        out.append(('measurement %d' % k, same(s, s.at(s.attr(d.pt, 'yvec'), k), d.y[k], weaksize=True)))
                        out.append(('time %d' % k, same(s, s.at(s.attr(d.pt, 'tvec'), k), sc(const(k), 'i'), weaksize=True)))
                    n = s.I.length(s.attr(d.pt, 'traj'), s.s)
                    out.append(('number of steps', Verdict(n is const(d.nsteps + 1), show(n))))
                    return out
                rep.obligation('stored data [%s]' % tag, con, stored)

                def align():
                    if not box:
                        mk()
                    d = box[0]
                    out = []
                    for k, ev in enumerate(d.ev):
                        if k == 0:
                            for e in ev:
                                if e.kind == 'hook' and e.data['name'] in ('measure', 'propose_from_y') and 'a_y' in e.data:
                                    out.append(('initial ' + e.data['name'] + ' gets y', want(d.s, e.data['a_y'], d.y[0], 'y', e)))
                                    out.append(('initial ' + e.data['name'] + ' gets t',
                                                want(d.s, e.data['a_t'], sc(ZERO, 'i'), 't', e)))
                        else:
                            out += alignment(d, k, ev)
                    return out
                rep.obligation('model calls [%s]' % tag, con, align)
                for d in box:
                    rep.absorb(d.s)


def c07(rep, tier):
    from . import smo
    flt.c07(rep, tier)
    smo.c07(rep, tier)
    starts(rep, 'C07')
    notinplace(rep)
    for name in sorted(NAMES):
        con = '%s:ParticleTrajectory.forward' % FILE
        box = []

        def go():
            d = Drv(name, None, 3, True)
            box.append(d)
            d.run()
            out = []
            for k, shot in enumerate(d.snap):
                now = d.shot(k)
                for (lab, a), (_, b) in zip(shot, now):
                    out.append(('%s of step %d' % (lab, k), same(d.s, b, a)))
            if name[0] == 'c':
                out.append(('conditioning trajectory', unwritten([e for ev in d.ev for e in ev])))
            return out
        rep.obligation('history unchanged by later steps [%s]' % name, con, go)
        for d in box:
            rep.absorb(d.s)


# ------------------------------------------------- first stored step (C01, C03, C04, C06, C07)
INIT = FILE + ':ParticleTrajectory.'


def starts(rep, prop):
    """what the driver stores as the first step, entered through measure() or directly through forward()"""
    for name in sorted(NAMES):
        for entry in ('measure', 'forward'):
            con = INIT + entry
            box = []

            def mk():
                d = Drv(name, None, 2, True)
                box.append(d)
                s = d.s
                n = len(s.I.events)
                if entry == 'measure':
                    s.meth(d.pt, 'measure', d.y[0])
                    d.ev0 = s.I.events[n:]
                else:
                    s.meth(d.pt, 'forward', d.u[0], d.y[1])
                    d.ev0 = s.I.events[n:]
                return d

            def go():
                d = mk()
                s = d.s
                out = []
                st = s.at(s.attr(d.pt, 'traj'), 0)
                pa = s.attr(st, 'pa')
                n = sc(N, 'i')
                pfy = name in ('pfy', 'cpfyas') and entry == 'measure'
                if pfy:
                    x = s.meth(d.model, 'propose_from_y', n, d.y[0], sc(ZERO, 'i'))
                else:
                    x = s.meth(d.model, 'create_initial_estimate', n)
                if name[0] == 'c':
                    x = s.ref('flt', 'last', x, s.at(s.attr(s.attr(s.at(d.ct, 0), 'pa'), 'part'), 0))
                part = s.attr(pa, 'part')
                if prop in ('C01', 'C03', 'C04', 'C06'):
                    what = 'initial particles are drawn from ' + ('the first measurement' if pfy else 'the initial density') \
                        + (', reference state in the last slot' if name[0] == 'c' else '')
                    if prop != 'C04' or name[0] == 'c':
                        out.append((what, same(s, part, x)))
                if prop == 'C03':
                    out.append(('every initial particle is its own ancestor',
                                same(s, s.attr(st, 'ancestors'), s.ref('flt', 'ident', n))))
                    out.append(('particle count', same(s, s.attr(pa, 'num'), n)))
                if prop == 'C01':
                    w = s.ref('flt', 'uniform', n)
                    if entry == 'measure' and not pfy:
                        if KIND[name] == 'full':
                            t0 = s.seq('t0', ONEP, lambda st_, k: sc(ZERO, 'i'))
                            y0 = s.seq('y0s', ONEP, lambda st_, k: d.y[0])
                            ll = s.ref('flt', 'lik', d.model, s.attr(d.pt, 'traj'), x, s.ref('flt', 'ident', n),
                                       sc(ZERO, 'i'), y0, y0, t0)
                        else:
                            ll = s.ref('flt', 'lik1', d.model, x, d.y[0], sc(ZERO, 'i'))
                        w = s.op('+', w, ll)
                    out.append(('initial weights', flt.upto(s, s.attr(pa, 'w'), w)))
                if prop == 'C07' and name[0] == 'c':
                    out.append(('conditioning trajectory', unwritten(d.ev0)))
                return out
            if prop in ('C04', 'C07') and name[0] != 'c':
                continue
            rep.obligation('first step [%s, %s]' % (name, entry), con, go)
            for d in box:
                rep.absorb(d.s)


def notinplace(rep):
    """update and measure with inplace=False leave their argument alone and return what in-place operation stores"""
    for cls, kind, op in (('ParticleFilter', 'full', 'measure'), ('ParticleFilter', 'markov', 'measure'),
                          ('SIR', 'sir', 'measure'), ('ParticleFilter', 'full', 'update'), ('ParticleFilter', 'markov', 'update')):
        box = []

        def go():
            f = flt.FS(cls, kind, 0)
            s = f.s
            box.append(s)
            x0, w0 = s.arr('x', N, lx), s.arr('w', N)
            off = sc(mk_in('off0'), 'f')

            def app():
                pa = s.new('filter', 'ParticleApproximation', particles=s.ref('flt', 'gather', x0, s.ref('flt', 'ident', sc(N, 'i'))),
                           logw=s.ref('flt', 'gather1', w0))
                s.I.setattr(pa, 'w_offset', off, s.s)
                return pa
            anc = s.arr('anc', N, int=True, range=P(N), nonneg=True)
            tr = s.I.getitem(f.traj, (SliceV(None, sc(flt.n0, 'i'), None),), s.s)
            a, b = app(), app()
            kw = dict(traj=tr, ancestors=anc, uvec=f.us, yvec=f.ys, tvec=f.ts, cur_ind=f.ci)
            r1 = s.meth(f.pf, op, pa=a, inplace=False, **kw)
            r2 = s.meth(f.pf, op, pa=b, inplace=True, **kw)
            out = [('argument keeps its particles', same(s, s.attr(a, 'part'), x0)),
                   ('argument keeps its weights', same(s, s.attr(a, 'w'), w0)),
                   ('argument keeps its offset', same(s, s.attr(a, 'w_offset'), off)),
                   ('in-place operation returns its argument', Verdict(isinstance(r2, ORef) and r2.cid == b.cid, ''))]
            if op == 'update':
                # the new approximation is made from the last stored step
                last = s.attr(s.at(tr, -1), 'pa')
                return out + [('particles are the moved particles of the ancestors',
                               same(s, s.attr(r1, 'part'), s.ref('flt', 'move', f.model, tr, s.attr(last, 'part'), anc, f.ci,
                                                                 f.us, f.ys, f.ts))),
                              ('weights of the ancestors',
                               same(s, s.attr(r1, 'w'), s.ref('flt', 'take', s.attr(last, 'w'), anc)))]
            out += [('same particles', same(s, s.attr(r1, 'part'), s.attr(r2, 'part'))),
                   ('same weights', same(s, s.attr(r1, 'w'), s.attr(r2, 'w'))),
                   ('same offset', same(s, s.attr(r1, 'w_offset'), s.attr(r2, 'w_offset')))]
            return out
        rep.obligation('%s not in place [%s, %s]' % (op, cls, kind), '%s:%s.%s' % (FILE, cls, op), go)
        for s in box:
            rep.absorb(s)


# ------------------------------------------------------------- C05 helpers
def c05(rep, tier):
    flt.c05(rep, tier)
    M = sym('M')

    def sc0():
        s = Scene(dims=[dict(N=4, lx=2, M=3), dict(N=3, lx=3, M=5), dict(N=5, lx=1, M=2)])
        s.points = 6
        return s

    def ob(name, con, fn):
        box = []

        def go():
            s = sc0()
            box.append(s)
            return fn(s)
        rep.obligation(name, '%s:%s' % (FILE, con), go)
        for s in box:
            rep.absorb(s)

    def uni(s, n=0):
        out = []
        for e in s.I.events[n:]:
            if e.kind == 'random' and e.data['dist'] == 'uniform':
                out.append(sc(P(mk_atom('rand', 'uniform', e.data['seq'], (), (ZERO,) * len(e.data['shape']))), 'f'))
        return out

    def samp(s):
        w = s.arr('w', N, pos=True)
        v = s.call(s.get('filter', 'sample'), w, sc(M, 'i'))
        us = uni(s)
        one = [e for e in s.I.events if e.kind == 'random']
        out = [('systematic indices', anyof(same(s, v, s.ref('flt', 'systematic', w, sc(M, 'i'), u)) for u in us))]
        n = 1
        for e in one:
            for d in e.data['shape']:
                n = d if d is not ONEP else n
        out.append(('one common uniform', Verdict(n == 1 and len(one) == 1, '%d draws' % len(one))))
        out.append(('weights unchanged', unwritten(s.I.events)))
        return out
    ob('sample', 'sample', samp)

    def app(s, w=True):
        kw = dict(particles=s.arr('x', N, lx))
        if w:
            kw['logw'] = s.arr('w', N)
        return s.new('filter', 'ParticleApproximation', **kw)

    def neff(s):
        a = app(s)
        return [('effective sample size', same(s, s.meth(a, 'calc_Neff'), s.ref('flt', 'neff', s.arr('w', N)))),
                ('weights unchanged', same(s, s.attr(a, 'w'), s.arr('w', N)))]
    ob('effective sample size', 'ParticleApproximation.calc_Neff', neff)

    def fresh_(s):
        a = app(s, False)
        return [('uniform weights', same(s, s.attr(a, 'w'), s.ref('flt', 'uniform', sc(N, 'i')))),
                ('particles', same(s, s.attr(a, 'part'), s.arr('x', N, lx)))]
    ob('new approximation', 'ParticleApproximation.__init__', fresh_)

    def resam(given):
        def go(s):
            a = app(s)
            m = s.call(model_cls(s, 'markov'))
            n = len(s.I.events)
            ind = s.meth(a, 'resample', m, sc(M, 'i')) if given else s.meth(a, 'resample', m)
            cnt = sc(M if given else N, 'i')
            w0, x0 = s.arr('w', N), s.arr('x', N, lx)
            ev = s.I.events[n:]
            return [('indices', anyof(same(s, ind, s.ref('flt', 'systematic', s.ref('flt', 'normw', w0), cnt, u))
                                      for u in uni(s, n))),
                    ('particles', same(s, s.attr(a, 'part'), s.ref('flt', 'gather', x0, ind))),
                    ('uniform weights', same(s, s.attr(a, 'w'), s.ref('flt', 'uniform', cnt))),
                    ('number', same(s, s.attr(a, 'num'), cnt)),
                    ('offset', same(s, s.attr(a, 'w_offset'), sc(ZERO, 'f'))),
                    ('protected exponentials', expsafe(s, ev))]
        return go
    ob('resample', 'ParticleApproximation.resample', resam(False))
    ob('resample to another count', 'ParticleApproximation.resample', resam(True))

    def one(s):
        a = app(s)
        n = len(s.I.events)
        v = s.meth(a, 'sample')
        w0, x0 = s.arr('w', N), s.arr('x', N, lx)
        return anyof(same(s, v, s.at(x0, s.at(s.ref('flt', 'systematic', s.ref('flt', 'normw', w0), sc(ONEP, 'i'), u), 0)))
                     for u in uni(s, n))
    ob('sample one particle', 'ParticleApproximation.sample', one)

    def best(s):
        a = app(s)
        k = sc(const(2), 'i')
        v = s.meth(a, 'find_best_particles', k)
        w = s.arr('w', N)
        return anyof([same(s, v, s.ref('flt', r, w, k)) for r in ('best_down', 'best_up', 'best_rev')])
    s_dims = 'n largest weights'
    ob('best particles (%s)' % s_dims, 'ParticleApproximation.find_best_particles', best)

    def best1(s):
        a = app(s)
        v = s.meth(a, 'find_best_particles')
        w = s.arr('w', N)
        return anyof([same(s, v, s.ref('flt', r, w, sc(ONEP, 'i'))) for r in ('best_down', 'best_up', 'best_rev')])
    ob('best particle (default)', 'ParticleApproximation.find_best_particles', best1)


def c02(rep, tier):
    from . import smo
    flt.c02(rep, tier)
    smo.c02(rep, tier)

    def ob(name, con, fn):
        box = []

        def go():
            s = Scene(dims=[dict(N=4, lx=2, M=3), dict(N=3, lx=3, M=5), dict(N=5, lx=1, M=2)])
            s.points = 4
            box.append(s)
            fn(s)
            return expsafe(s, s.I.events)
        rep.obligation(name, con, go)
        for s in box:
            rep.absorb(s)

    def app(s):
        return s.new('filter', 'ParticleApproximation', particles=s.arr('x', N, lx), logw=s.arr('w', N))
    ob('any log-weights: effective sample size', FILE + ':ParticleApproximation.calc_Neff', lambda s: s.meth(app(s), 'calc_Neff'))
    ob('any log-weights: resample', FILE + ':ParticleApproximation.resample',
       lambda s: s.meth(app(s), 'resample', s.call(model_cls(s, 'markov'))))
    # measurement update of the current step
    for kind in ('full', 'markov', 'sir'):
        box = []

        def upd():
            f = flt.FS('SIR' if kind == 'sir' else 'ParticleFilter', kind, 0)
            s = f.s
            box.append(s)
            pa = app(s)
            off = sc(mk_in('off0'), 'f')
            s.I.setattr(pa, 'w_offset', off, s.s)
            w0 = s.arr('w', N)
            x0 = s.arr('x', N, lx)
            anc = s.arr('anc', N, int=True, range=P(N), nonneg=True)
            tr = s.I.getitem(f.traj, (SliceV(None, sc(flt.n0, 'i'), None),), s.s)
            s.meth(f.pf, 'measure', traj=tr, ancestors=anc, pa=pa, uvec=f.us, yvec=f.ys, tvec=f.ts, cur_ind=f.ci)
            if kind == 'sir':
                ll = s.ref('flt', 'lik1', f.model, x0, s.at(f.ys, f.ci), s.at(f.ts, f.ci))
            else:
                ll = s.ref('flt', 'lik', f.model, tr, x0, anc, f.ci, f.us, f.ys, f.ts)
            w = s.attr(pa, 'w')
            return [('weight plus offset is the unshifted weight',
                     same(s, s.op('+', w, s.attr(pa, 'w_offset')), s.op('+', s.op('+', w0, off), ll))),
                    ('maximum 0', same(s, s.ref('flt', 'maxof', w), sc(ZERO, 'f'))),
                    ('particles unchanged', same(s, s.attr(pa, 'part'), x0))]
        rep.obligation('measurement update [%s]' % kind, FILE + ':measure', upd)
        for s in box:
            rep.absorb(s)


# ------------------------------------------------------------------- C11
def c11(rep, tier):
    con = FILE + ':ParticleTrajectory.__init__'
    for low, cls in sorted(NAMES.items()):
        for name in (low, low.upper()):
            box = []

            def go():
                d = Drv(name if name == low else low, None, 1)
                s = d.s
                box.append(s)
                kw = dict(model=d.model, N=sc(N, 'i'), filter=name)
                res = sc(mk_in('resarg'), 'f')
                kw['resample'] = res
                if low[0] == 'c':
                    kw['filter_options'] = ORef(alloc(DictC({'cond_traj': d.ct})))
                pt = s.new('filter', 'ParticleTrajectory', **kw)
                pf = s.attr(pt, 'pf')
                c = s.s.get(pf.cid)
                out = [('algorithm', Verdict(c.cls is s.get('filter', cls), 'selects ' + c.cls.name)),
                       ('model', Verdict(s.attr(pf, 'model') is d.model, 'model object'))]
                if low[0] == 'c':
                    ct = s.attr(pf, 'ctraj')
                    a = s.attr(s.attr(s.at(ct, 1), 'pa'), 'part')
                    b = s.attr(s.attr(s.at(d.ct, 1), 'pa'), 'part')
                    out.append(('conditioning trajectory', same(s, a, b)))
                else:
                    out.append(('resampling threshold', same(s, s.attr(pf, 'res'), res)))
                return out
            rep.obligation('filter name %r' % name, con, go)
            for s in box:
                rep.absorb(s)

    def bad():
        d = Drv('pf', None, 1)
        try:
            d.s.new('filter', 'ParticleTrajectory', model=d.model, N=sc(N, 'i'), filter='pff')
        except RaiseOut as e:
            return Verdict(e.exc.name == 'ValueError', 'raises ' + e.exc.name)
        return Verdict(False, 'accepted')
    rep.obligation('unknown filter name', con, bad)
    from . import smo
    smo.dispatch(rep, tier)


# ------------------------------------------------------------------- C12
def c12(rep, tier):
    SIMF = 'pyparticleest/simulator.py'
    K, Tn = sym('K'), sym('T', 2)

    def mk():
        s = Scene(dims=[dict(N=4, lx=2, T=4, K=3), dict(N=3, lx=3, T=3, K=2), dict(N=5, lx=1, T=2, K=4)])
        s.points = 3
        m = s.call(model_cls(s, 'markov'))
        y = s.matseq('y', Tn, ly)
        sim = s.new('simulator', 'Simulator', m, None, y)
        pt = obj(s, 'filter', 'ParticleTrajectory', traj=step_seq(s, 'tr', Tn, N, (lx,), True), N=sc(N, 'i'))
        st = obj(s, 'smoother', 'SmoothTrajectory', traj=step_seq(s, 'sm', Tn, K, (lx,)), M=sc(K, 'i'))
        s.I.setattr(sim, 'pt', pt, s.s)
        s.I.setattr(sim, 'straj', st, s.s)
        return s, sim

    def ob(name, con, fn):
        box = []

        def go():
            s, sim = mk()
            box.append(s)
            n = len(s.I.events)
            r = fn(s, sim)
            return r + [('nothing modified', unwritten(s.I.events[n:])), ('protected exponentials', expsafe(s, s.I.events[n:]))]
        rep.obligation(name, SIMF + ':' + con, go)
        for s in box:
            rep.absorb(s)

    def row(s, name, k, cnt):
        return newarr(mkav((cnt, lx), lambda i, d: mk_in(name + '.part', k, P(i), P(d))))

    def normed(s, k):
        raw = mkav((N,), lambda i: mk_in('tr.w', k, P(i)))
        return s.ref('flt', 'normw', newarr(raw))

    def filt(s, sim):
        r = s.tuplize(s.meth(sim, 'get_filtered_estimates'), 2)
        k = sc(mk_in('step'), 'i')
        t = fresh(Tn)
        w = s.av(normed(s, P(t)))
        wref = AV((Tn,) + w.shape, (t,) + w.vars, w.body)
        return [('particles', same(s, r[0], mkav((Tn, N, lx), lambda t, i, d: mk_in('tr.part', P(t), P(i), P(d))))),
                ('normalised weights', same(s, r[1], wref))]
    ob('filtered estimates', 'Simulator.get_filtered_estimates', filt)

    def fmean(s, sim):
        v = s.meth(sim, 'get_filtered_mean')
        t = fresh(Tn)
        m = s.av(s.ref('flt', 'wmean', newarr(mkav((N,), lambda i: mk_in('tr.w', P(t), P(i)))), row(s, 'tr', P(t), N)))
        return [('mean', same(s, v, AV((Tn,) + m.shape, (t,) + m.vars, m.body)))]
    ob('filtered mean', 'Simulator.get_filtered_mean', fmean)

    def smo_(s, sim):
        v = s.meth(sim, 'get_smoothed_estimates')
        return [('particles', same(s, v, mkav((Tn, K, lx), lambda t, i, d: mk_in('sm.part', P(t), P(i), P(d)))))]
    ob('smoothed estimates', 'Simulator.get_smoothed_estimates', smo_)

    def smean(s, sim):
        v = s.meth(sim, 'get_smoothed_mean')
        t = fresh(Tn)
        m = s.av(s.ref('flt', 'tmean', row(s, 'sm', P(t), K)))
        return [('mean', same(s, v, AV((Tn,) + m.shape, (t,) + m.vars, m.body)))]
    ob('smoothed mean', 'Simulator.get_smoothed_mean', smean)

    feeds(rep)


def feeds(rep):
    """simulate(): which data are fed to the filter, in which order"""
    SIMF = 'pyparticleest/simulator.py'
    for first in (False, True):
        for given in (True, False):
            def run():
                s = Scene(dims=[dict(N=4, lx=2, ly=2, lu=1)])
                m = s.call(model_cls(s, 'markov'))
                ys = [s.arr('y%d' % i, ly) for i in range(3)]
                us = [s.arr('u%d' % i, lu) for i in range(3)]
                lst = lambda v: ORef(alloc(ListC(v)))
                sim = s.new('simulator', 'Simulator', m, lst(us) if given else None, lst(ys))
                s.meth(sim, 'simulate', sc(N, 'i'), sc(ZERO, 'i'), smoother=None, meas_first=first)
                pt = s.attr(sim, 'pt')
                o = 1 if first else 0
                out = []
                n = s.I.length(s.attr(pt, 'traj'), s.s)
                out.append(('number of steps', Verdict(n is const(4 - o), show(n))))
                for k in range(3 - o):
                    v = s.at(s.attr(pt, 'uvec'), k)
                    out.append(('input %d' % k, same(s, v, us[k], weaksize=True) if given else
                                Verdict(v is None, 'input without data')))
                    out.append(('measurement %d' % (k + 1), same(s, s.at(s.attr(pt, 'yvec'), k + 1), ys[k + o], weaksize=True)))
                if first:
                    out.append(('measurement 0', same(s, s.at(s.attr(pt, 'yvec'), 0), ys[0], weaksize=True)))
                rep.absorb(s)
                return out
            rep.obligation('simulation feeds the data in order [%s, %s]' % (
                'measurement first' if first else 'no initial measurement', 'inputs' if given else 'no inputs'),
                SIMF + ':Simulator.simulate', run)
