"""Smoothers: C08, C09, C10 and their share of C02, C07, C11."""
from fractions import Fraction
from pest.scene import *
from .trajs import *
from . import flt
from .flt import N, lx, ly, lu, n0, EXTRA, partsel, anyof, unwritten, expsafe, wsite

FILE = 'pyparticleest/smoother.py'
M = sym('M', 2)
K = sym('K', 2)
F_ = sym('nf')                # number of future steps


def ftsel(traj, find):
    """row i: particle find[i] of the first step of the future trajectory argument"""
    def d(I, st, env, node):
        if env[traj] is None:
            return (lambda i: 'None'), None
        first = I.getitem(env[traj], (sc(ZERO, 'i'),), st, node)
        p = I.getattr(I.getattr(first, 'pa', st), 'part', st)
        f, a = rowclo(I, st, I.getitem(p, (env[find],), st, node))
        return f, a.shape[0]
    return d


def past(traj, ind):
    """row i: particle ind[i] of the last step of a (possibly missing or empty) history"""
    ps = partsel(traj, ind)

    def d(I, st, env, node):
        if nohist(I, st, env[traj], node):
            return (lambda i: 'None'), None
        return ps(I, st, env, node)
    return d


def rowsopt(name, traj=None):
    """rows of an optional argument, irrelevant when history `traj` is missing or empty"""
    def d(I, st, env, node):
        if env[name] is None or traj and nohist(I, st, env[traj], node):
            return (lambda i: 'None'), None
        return rows(name)(I, st, env, node)
    return d


def nohist(I, st, v, node=None):
    return v is None or I.length(v, st, node) is ZERO


def lnh(name):
    def d(I, st, env, node):
        n = ZERO if env[name] is None else I.length(env[name], st, node)
        return (lambda i: n), None
    return d


def hooks():
    return dict(
        logp_xnext_full=dephook(
            'logp_xnext_full', ('part', 'past_trajs', 'pind', 'future_trajs', 'find', 'ut', 'yt', 'tt', 'cur_ind'), (),
            [rows('part'), lnh('past_trajs'), rowsopt('pind', 'past_trajs'), past('past_trajs', 'pind'), ftsel('future_trajs', 'find'),
             ln('future_trajs'), elem('ut', 'cur_ind'), elem('tt', 'cur_ind'), ln('yt'), whole_('cur_ind')]),
        logp_xnext_singlestep=dephook(
            'logp_xnext_singlestep',
            ('part', 'past_trajs', 'pind', 'future_parts', 'find', 'ut', 'yt', 'tt', 'cur_ind'), (),
            [rows('part'), lnh('past_trajs'), rowsopt('pind', 'past_trajs'), past('past_trajs', 'pind'), rowsel('future_parts', 'find'),
             elem('ut', 'cur_ind'), elem('tt', 'cur_ind'), whole_('cur_ind')]),
        cond_predict_single_step=dephook(
            'cond_predict', ('part', 'past_trajs', 'pind', 'future_parts', 'find', 'ut', 'yt', 'tt', 'cur_ind'), (lx,),
            [rows('part'), lnh('past_trajs'), rowsopt('pind', 'past_trajs'), past('past_trajs', 'pind'), rowsel('future_parts', 'find'),
             elem('ut', 'cur_ind'), elem('tt', 'cur_ind'), whole_('cur_ind')]),
        cond_sampled_initial=dephook('cond_initial', ('part', 't'), (lx,), [rows('part'), whole_('t')]),
        eval_logp_x0=dephook('logp_x0', ('particles', 't'), (), [rows('particles'), whole_('t')]),
        propose_smooth=dephook(
            'propose_smooth', ('ptraj', 'anc', 'future_trajs', 'find', 'yt', 'ut', 'tt', 'cur_ind'), (lx,),
            [past('ptraj', 'anc'), lnh('ptraj'), rowsopt('anc', 'ptraj'), ftsel('future_trajs', 'find'), ln('future_trajs'),
             elem('yt', 'cur_ind'), elem('tt', 'cur_ind'), whole_('cur_ind')],
            n=lambda I, st, env: I.length(env['find'] if env['find'] is not None else env['anc'], st)),
        logp_proposal=dephook(
            'logp_proposal', ('prop_part', 'ptraj', 'anc', 'future_trajs', 'find', 'yt', 'ut', 'tt', 'cur_ind'), (),
            [rows('prop_part'), past('ptraj', 'anc'), lnh('ptraj'), rowsopt('anc', 'ptraj'), ftsel('future_trajs', 'find'),
             ln('future_trajs'), elem('yt', 'cur_ind'), elem('tt', 'cur_ind'), whole_('cur_ind')]),
        sample_process_noise_full=dephook(
            'noise', ('ptraj', 'ancestors', 'ut', 'tt'), (lx,),
            [rows('ancestors'), partsel('ptraj', 'ancestors'), lnh('ptraj'), elem('ut', -1), elem('tt', -1), ln('ut')]),
        update_full=dephook(
            'update', ('particles', 'traj', 'uvec', 'yvec', 'tvec', 'ancestors', 'noise'), (lx,),
            [rows('particles'), rows('noise'), partsel('traj', 'ancestors'), lnh('traj'), ln('uvec'), ln('yvec'),
             ln('tvec'), elem('uvec', -1), elem('tvec', -1)], inplace='particles'),
        measure_full=uhook('measure_full', ('particles', 'traj', 'uvec', 'yvec', 'tvec', 'ancestors'), measure_full),
        create_initial_estimate=uhook('create_initial_estimate', ('N',), lambda I, st, env, node: newarr(mkav(
            (I.av(env['N'], st).body, lx), lambda i, k: mk_in('init', P(i), P(k))))),
        sample_smooth=dephook(
            'sample_smooth', ('part', 'ptraj', 'anc', 'future_trajs', 'find', 'ut', 'yt', 'tt', 'cur_ind'), (lx,),
            [rows('part'), lnh('ptraj'), rowsopt('anc', 'ptraj'), past('ptraj', 'anc'), ftsel('future_trajs', 'find'),
             ln('future_trajs'), elem('yt', 'cur_ind'), elem('tt', 'cur_ind'), ln('ut'), whole_('cur_ind')]),
    )


def measure_full(I, st, env, node):
    """the measurement update of a Rao-Blackwellised model also writes the conditioned linear part"""
    ds = [d(I, st, env, node) for d in (
        rows('particles'), past('traj', 'ancestors'), lnh('traj'), rowsopt('ancestors', 'traj'), elem('yvec', -1), elem('tvec', -1),
        ln('uvec'), ln('yvec'))]
    n = next(m for _, m in ds if m is not None)
    v = newarr(mkav((n,), lambda i: mk_in('measure', *[f(P(i)) for f, _ in ds])))
    x = mkav((n, lx), lambda i, k: mk_in('measured', *([f(P(i)) for f, _ in ds] + [P(k)])))
    I.write(env['particles'], newarr(x), st, node)
    return v


class SS(object):
    """backward step at index n0 of a filter run"""

    def __init__(self, dims=None, points=5, npast=n0, drop=()):
        s = self.s = Scene(dims=dims or [dict(N=4, n0=2, x=2, lx=2, ly=2, lu=1, M=3, K=2, nf=2),
                                         dict(N=3, n0=1, x=1, lx=3, ly=1, lu=2, M=4, K=3, nf=1),
                                         dict(N=5, n0=3, x=1, lx=1, ly=2, lu=2, M=3, K=2, nf=2)])
        s.points = points
        base = [s.get('interfaces', 'ParticleFilteringNonMarkov'), s.get('interfaces', 'FFBSiNonMarkov')]
        self.H = {k: v for k, v in hooks().items() if k not in drop}
        self.model = s.call(Cls('UserModel', base, dict(self.H), base[0].mod))
        self.pt = step_seq(s, 'tr', n0, N, (lx,))
        self.cur = step_seq(s, 'cu', ONEP, N, (lx,))
        st0 = s.at(self.cur, 0)
        self.pa, self.pind = s.attr(st0, 'pa'), s.attr(st0, 'ancestors')
        self.ft = step_seq(s, 'ft', F_, M, (lx,))
        L = n0 + 1 + EXTRA
        self.us, self.ys, self.ts = s.matseq('us', L, lu), s.matseq('ys', L, ly), s.matseq('ts', L)
        self.ci = sc(n0, 'i')

    def common(self):
        return dict(ut=self.us, yt=self.ys, tt=self.ts, cur_ind=self.ci)

    def r(self, fn, *a):
        return self.s.ref('smo', fn, *a)

    def draws(self, events, kind):
        """random draws in program order: (event, AV)"""
        out = []
        for e in events:
            if e.kind == 'random' and e.data['dist'] == kind:
                out.append(e)
        return out


def uav(e, j=None):
    """value of draw event e as an array over its shape; j: loop index for draws inside a loop"""
    sh = e.data['shape']
    lv = tuple(P(l.k) for l in e.loops) if j is None else (P(j),)
    if e.data['dist'] == 'perm':
        lv += (sh[0],)
    return mkav(sh, lambda *i: P(mk_atom('rand', e.data['dist'], e.data['seq'], lv, tuple(P(x) for x in i))),
                'i' if e.data['dist'] == 'perm' else 'f')


def single(e):
    return all(d is ONEP for d in e.data['shape'])


def common(b):
    return (b.us, b.ys, b.ts, b.ci)


def fullref(b, ev, find, count):
    """backward indices of full backward simulation for the future trajectories `find`: list of alternatives"""
    out = []
    for e in ev:
        if not (e.kind == 'random' and e.data['dist'] == 'uniform'):
            continue
        sh = e.data['shape']
        j = fresh(count)
        if e.loops:
            if len(e.loops) != 1 or not single(e):
                continue
            u = P(mk_atom('rand', 'uniform', e.data['seq'], (P(j),), (ZERO,) * len(sh)))
        elif len(sh) >= 1 and not single(e):
            u = P(mk_atom('rand', 'uniform', e.data['seq'], (), (P(j),) + (ZERO,) * (len(sh) - 1)))
        else:
            continue
        fj = sc(b.s.av(find).at((P(j),)), 'i')
        v = b.s.av(b.r('full_one', b.model, b.pa, b.pt, b.pind, b.ft, fj, b.us, b.ys, b.ts, b.ci, sc(u, 'f')))
        out.append(AV((count,), (j,), v.body, 'i'))
    return out


def c08(rep, tier):
    delegate(rep)
    kernels(rep)


def kernels(rep, only=None):
    """the backward samplers; `only`: keep the facts of that name"""
    def ob(name, con, fn):
        box = []

        def go():
            b = SS()
            box.append(b)
            n = len(b.s.I.events)
            r = fn(b)
            return [x for x in side(b, n, []) if x[0] == only] if only else r
        rep.obligation(name, '%s:%s' % (FILE, con), go)
        for b in box:
            rep.absorb(b.s)

    def side(b, n, out):
        ev = b.s.I.events[n:]
        out.append(('exponentials protected', expsafe(b.s, ev)))
        out.append(('arguments unchanged', unwritten(ev)))
        return out

    def full(b):
        s = b.s
        META['find'] = {'int': True, 'range': P(M), 'nonneg': True}
        find = s.arr('find', K, int=True, range=P(M), nonneg=True)
        n = len(s.I.events)
        v = s.call(s.get('smoother', 'bsi_full'), b.model, b.pa, b.pt, b.pind, b.ft, find, **b.common())
        alt = fullref(b, s.I.events[n:], find, K)
        return side(b, n, [('indices', anyof((same(s, v, a) for a in alt), 'no draw of its own for every trajectory'))])
    ob('full backward simulation', 'bsi_full', full)

    def rs_ref(b, ev, rounds, maxpdf, tail=True):
        """all results of `rounds` rejection rounds and the full evaluation"""
        s = b.s
        todo = b.r('arange', sc(M, 'i'))
        res = b.r('zeros', sc(M, 'i'))
        us = [e for e in ev if e.kind == 'random' and e.data['dist'] == 'uniform' and not e.loops]
        one = [e for e in us if single(e)]
        test = [e for e in us if not single(e)]
        perm = [e for e in ev if e.kind == 'random' and e.data['dist'] == 'perm']
        if len(one) < rounds or len(test) < rounds or len(perm) < rounds:
            return None, None
        w = s.attr(b.pa, 'w')
        todos = []
        for k in range(rounds):
            n = sc(s.I.length(todo, s.s), 'i')
            u = sc(uav(one[k]).at((ZERO,) * len(one[k].data['shape'])), 'f')
            ind = b.r('propose', w, n, u, newarr(uav(perm[k])))
            p = b.r('at', b.model, b.pa, b.pt, b.pind, b.ft, ind, todo, b.us, b.ys, b.ts, b.ci)
            acc = b.r('accept', newarr(uav(test[k])), s.op('-', p, maxpdf))
            res = b.r('put', res, b.r('compress', acc, todo), b.r('compress', acc, ind))
            todo = b.r('compress', b.r('neg', acc), todo)
            todos.append(todo)
        return res, todo

    def rs(rounds):
        def go(b):
            s = b.s
            mp = sc(mk_in('maxpdf'), 'f')
            n = len(s.I.events)
            v = s.call(s.get('smoother', 'bsi_rs'), b.model, b.pa, b.pt, b.pind, b.ft, b.r('arange', sc(M, 'i')),
                       maxpdf=mp, max_iter=sc(const(rounds), 'i'), **b.common())
            ev = s.I.events[n:]
            res, todo = rs_ref(b, ev, rounds, mp)
            if res is None:
                return Verdict(False, 'a rejection round draws candidates, a permutation and acceptance uniforms')
            cnt = s.I.length(todo, s.s)
            alts = [b.r('put', res, todo, newarr(a)) for a in fullref(b, ev, todo, cnt)]
            return side(b, n, [('indices', anyof((same(s, v, a) for a in alts), 'no full evaluation of the rest'))])
        return go
    for k in (0, 1, 2):
        ob('rejection sampling, %d rounds then full evaluation' % k, 'bsi_rs', rs(k))

    def rsas(rounds):
        def go(b):
            s = b.s
            mp = sc(mk_in('maxpdf'), 'f')
            pars = {x: sc(mk_in(x), 'f') for x in ('x1', 'P1', 'sv', 'sw', 'ratio')}
            n = len(s.I.events)
            s.I.whilerounds = rounds
            v = s.call(s.get('smoother', 'bsi_rsas'), b.model, b.pa, b.pt, b.pind, b.ft, b.r('arange', sc(M, 'i')),
                       maxpdf=mp, **pars, **b.common())
            s.I.whilerounds = None
            ev = s.I.events[n:]
            res, todo = rs_ref(b, ev, rounds, mp)
            if res is None:
                return Verdict(False, 'a rejection round draws candidates, a permutation and acceptance uniforms')
            cnt = s.I.length(todo, s.s)
            alts = [b.r('put', res, todo, newarr(a)) for a in fullref(b, ev, todo, cnt)]
            return side(b, n, [('indices', anyof((same(s, v, a) for a in alts), 'no full evaluation of the rest'))])
        return go
    for k in (1, 2):
        ob('adaptive rejection sampling, stopping after %d rounds' % k, 'bsi_rsas', rsas(k))

    def mcmc(R):
        def go(b):
            s = b.s
            start = s.arr('start', M, int=True, range=P(N), nonneg=True)
            s.I.inputcells.pop(start.cid, None) if isinstance(start, Ref) else None
            n = len(s.I.events)
            find = b.r('arange', sc(M, 'i'))
            ind = b.r('put', start, find, start)
            v = s.call(s.get('smoother', 'bsi_mcmc'), b.model, b.pa, b.pt, b.pind, b.ft, find, R=sc(const(R), 'i'),
                       ancestors=start, **b.common())
            ev = s.I.events[n:]
            us = [e for e in ev if e.kind == 'random' and e.data['dist'] == 'uniform']
            one = [e for e in us if single(e)]
            test = [e for e in us if not single(e)]
            perm = [e for e in ev if e.kind == 'random' and e.data['dist'] == 'perm']
            if min(len(one), len(test), len(perm)) < R:
                return Verdict(False, 'a round draws candidates, a permutation and acceptance uniforms')
            cur = b.r('at', b.model, b.pa, b.pt, b.pind, b.ft, ind, find, b.us, b.ys, b.ts, b.ci)
            for k in range(R):
                u = sc(uav(one[k]).at((ZERO,) * len(one[k].data['shape'])), 'f')
                prop = b.r('propose', s.attr(b.pa, 'w'), sc(M, 'i'), u, newarr(uav(perm[k])))
                new = b.r('at', b.model, b.pa, b.pt, b.pind, b.ft, prop, find, b.us, b.ys, b.ts, b.ci)
                acc = b.r('accept', newarr(uav(test[k])), s.op('-', new, cur))
                ind = b.r('pick', acc, prop, ind)
                cur = b.r('pick', acc, new, cur)
            return side(b, n, [('indices', same(s, v, ind))])
        return go
    for k in (1, 2):
        ob('MCMC backward sampling, %d proposals' % k, 'bsi_mcmc', mcmc(k))


def delegate(rep):
    """Markov models: the full-history calls use the last history entry, the first future state and the data of the step"""
    def mk(base):
        b = SS()
        s = b.s
        H = dict(logp_xnext=dephook('logp_xnext', ('particles', 'next_part', 'u', 't'), (),
                                    [rows('particles'), rows('next_part'), whole_('u'), whole_('t')]),
                 logp_xnext_max=uhook('logp_xnext_max', ('particles', 'u', 't'), lambda I, st, env, node: sc(mk_in(
                     'lmax', *[whole_clo(I, st, env[x]) for x in ('particles', 'u', 't')]), 'f')))
        base = s.get('interfaces', base)
        b.model = s.call(Cls('UserModel', [base], H, base.mod))
        b.part = s.arr('part', M, lx)
        return b

    def tr(b, nxt):
        s = b.s
        return s.meth(b.model, 'logp_xnext', particles=b.part, next_part=nxt, u=s.at(b.us, b.ci), t=s.at(b.ts, b.ci))

    def full(b):
        s = b.s
        find = s.arr('find', M, int=True, range=P(M), nonneg=True)
        pind = s.arr('pind', M, int=True, range=P(N), nonneg=True)
        v = s.meth(b.model, 'logp_xnext_full', part=b.part, past_trajs=b.pt, pind=pind, future_trajs=b.ft, find=find,
                   ut=b.us, yt=b.ys, tt=b.ts, cur_ind=b.ci)
        nxt = s.I.getitem(s.attr(s.attr(s.at(b.ft, 0), 'pa'), 'part'), (find,), s.s)
        return same(s, v, tr(b, nxt))

    def single_(b):
        s = b.s
        find = s.arr('find', M, int=True, range=P(K), nonneg=True)
        pind = s.arr('pind', M, int=True, range=P(N), nonneg=True)
        fp = s.arr('fp', K, lx)
        v = s.meth(b.model, 'logp_xnext_singlestep', part=b.part, past_trajs=b.pt, pind=pind, future_parts=fp, find=find,
                   ut=b.us, yt=b.ys, tt=b.ts, cur_ind=b.ci)
        return same(s, v, tr(b, s.I.getitem(fp, (find,), s.s)))

    def mx(b):
        s = b.s
        pind = s.arr('pind', M, int=True, range=P(N), nonneg=True)
        v = s.meth(b.model, 'logp_xnext_max_full', part=b.part, past_trajs=b.pt, pind=pind, uvec=b.us, yvec=b.ys,
                   tvec=b.ts, cur_ind=b.ci)
        return same(s, v, s.meth(b.model, 'logp_xnext_max', particles=b.part, u=s.at(b.us, b.ci), t=s.at(b.ts, b.ci)))
    for nm, base, meth_, fn in (('transition to the future trajectory', 'FFBSi', 'logp_xnext_full', full),
                                ('transition to given states', 'FFBSi', 'logp_xnext_singlestep', single_),
                                ('bound', 'FFBSiRS', 'logp_xnext_max_full', mx)):
        box = []

        def go():
            b = mk(base)
            box.append(b)
            return fn(b)
        rep.obligation('Markov model: ' + nm, 'pyparticleest/interfaces.py:%s.%s' % (base, meth_), go)
        for b in box:
            rep.absorb(b.s)


# ------------------------------------------------------------------- C09
DEFAULTS = ('cond_predict_single_step', 'cond_sampled_initial')


def c09(rep, tier, only=None, drop=()):
    for hist in (True, False):
        for fut in (True, False):
            for reduced in (False, True):
                for meas in (True, False):
                    if not hist and not fut and reduced:
                        continue
                    tag = ('library conditioning, ' if drop else '') + '%s, %s, %s, %s' % ('history' if hist else 'first step', 'future' if fut else 'last step',
                                              'proposal from the prior' if reduced else 'proposal',
                                              'measurement' if meas else 'no measurement')
                    box = []

                    def go():
                        b = SS(drop=drop)
                        box.append(b)
                        s = b.s
                        if not meas:
                            b.ys = s.seq('ys', n0 + 1 + EXTRA, lambda st, k: None)
                        part = s.arr('part', M, lx)
                        pp = s.arr('pp', M, int=True, range=P(N), nonneg=True) if hist else None
                        pc = s.arr('pc', M, int=True, range=P(N), nonneg=True) if hist else None
                        ci = b.ci if hist else sc(ZERO, 'i')
                        find = b.r('arange', sc(M, 'i'))
                        n = len(s.I.events)
                        kw = dict(ptraj=b.pt if hist else None, pind_prop=pp, pind_curr=pc,
                                  future_trajs=b.ft if fut else None, find=find, ut=b.us, yt=b.ys, tt=b.ts, cur_ind=ci,
                                  reduced=reduced)
                        v = s.tuplize(s.call(s.get('smoother', 'mc_step'), model=b.model, part=part, **kw), 2)
                        ev = s.I.events[n:]
                        us = [e for e in ev if e.kind == 'random' and e.data['dist'] == 'uniform' and not single(e)]
                        rs_ = [s.tuplize(b.r('mc', b.model, part, kw['ptraj'], pp, pc, kw['future_trajs'], find, b.us, b.ys,
                                             b.ts, ci, reduced, newarr(uav(e))), 2) for e in us]
                        if only:
                            return [('arguments unchanged', unwritten(ev))]
                        if not rs_:
                            return Verdict(False, 'no uniform per trajectory drawn')
                        return [('acceptance', anyof(same(s, v[1], r[1]) for r in rs_)),
                                ('particles', anyof(same(s, v[0], r[0]) for r in rs_)),
                                ('arguments unchanged', unwritten(ev))]
                    rep.obligation('MH step [%s]' % tag, '%s:mc_step' % FILE, go)
                    for b in box:
                        rep.absorb(b.s)


# ------------------------------------------------------------------- C10
def mock(s, name, fn, need):
    """replace a function of the smoother module by an unknown function of its (named) arguments"""
    f = s.get('smoother', name)
    ps = params(f)[0]
    for p in need:
        if p not in ps:
            raise Missing('argument %s of %s' % (p, name))
    m = s.mod('smoother')
    s.I.modframe(s.s, m).vars[name] = uhook(name, ps, fn)


def kernel(name, extra, mcmc=False):
    def fn(I, st, env, node):
        def wh(v):
            return whole_clo(I, st, v)
        pa = env['pa']
        first = I.getitem(env['future_trajs'], (sc(ZERO, 'i'),), st, node)
        fp = I.getattr(I.getattr(first, 'pa', st), 'part', st)
        rf, a = rowclo(I, st, I.getitem(fp, (env['find'],), st, node))
        deps = [wh(I.getattr(pa, 'part', st)), wh(I.getattr(pa, 'w', st)),
                ZERO if env['ptraj'] is None else I.length(env['ptraj'], st, node), wh(env['pind']),
                I.length(env['future_trajs'], st, node), wh(I.getitem(env['ut'], (env['cur_ind'],), st)),
                wh(I.getitem(env['tt'], (env['cur_ind'],), st)), I.length(env['yt'], st), wh(env['cur_ind'])]
        deps += [wh(env[x]) for x in extra]
        META['ind:' + name] = {'int': True, 'range': P(N), 'nonneg': True}
        return newarr(mkav((a.shape[0],), lambda i: mk_in('ind:' + name, *(deps + [rf(P(i))])), 'i'))
    return fn


KERNELS = {'full': ('bsi_full', ()), 'rs': ('bsi_rs', ('maxpdf', 'max_iter')),
           'rsas': ('bsi_rsas', ('maxpdf', 'x1', 'P1', 'sv', 'sw', 'ratio')), 'mcmc': ('bsi_mcmc', ('R', 'ancestors'))}
BASE = ('pa', 'ptraj', 'pind', 'future_trajs', 'find', 'ut', 'yt', 'tt', 'cur_ind')


def mc_mock(I, st, env, node):
    ds = [d(I, st, env, node) for d in (
        rows('part'), past('ptraj', 'pind_prop'), past('ptraj', 'pind_curr'), rowsopt('pind_prop', 'ptraj'),
        rowsopt('pind_curr', 'ptraj'), lnh('ptraj'), ftsel('future_trajs', 'find'), ln('future_trajs'),
        elem('yt', 'cur_ind'), elem('tt', 'cur_ind'), ln('ut'), whole_('cur_ind'))]
    red = env['reduced']
    tag = 'r' if red is True or isinstance(red, AV) and red.body is ONEP else 'p'
    n = next(m for _, m in ds if m is not None)
    x = mkav((n, lx), lambda i, k: mk_in('mc_part', *([f(P(i)) for f, _ in ds] + [tag, P(k)])))
    a = mkav((n,), lambda i: mk_pos(mk_in('mc_acc', *([f(P(i)) for f, _ in ds] + [tag]))), 'b')
    return (newarr(x), newarr(a))


class TS(object):
    """a filter run of T steps and a smoother run on it"""

    def __init__(self, T_, hooks_extra=None):
        s = self.s = Scene(dims=[dict(N=4, lx=2, ly=2, lu=1, M=3), dict(N=3, lx=3, ly=1, lu=2, M=4),
                                 dict(N=5, lx=1, ly=2, lu=2, M=2)])
        s.points = 3
        self.T = T_
        base = [s.get('interfaces', 'ParticleFilteringNonMarkov'), s.get('interfaces', 'FFBSiNonMarkov')]
        H = hooks()
        H.update(logp_xnext_max_full=uhook(
            'logp_xnext_max_full', ('part', 'past_trajs', 'pind', 'uvec', 'yvec', 'tvec', 'cur_ind'), self.maxpdf))
        H.update(hooks_extra or {})
        self.model = s.call(Cls('UserModel', base, H, base[0].mod))
        self.st = []
        for k in range(T_):
            one = step_seq(s, 'tr%d' % k, ONEP, N, (lx,))
            self.st.append(s.at(one, 0))
        self.pt = self.lst(self.st)
        n = const(T_)
        self.us, self.ys, self.ts = s.matseq('us', n, lu), s.matseq('ys', n, ly), s.matseq('ts', n)
        pf = obj(s, 'filter', 'ParticleFilter', model=self.model)
        self.run = obj(s, 'filter', 'ParticleTrajectory', traj=self.pt, uvec=self.us, yvec=self.ys, tvec=self.ts, pf=pf,
                       N=sc(N, 'i'), T=sc(n, 'i'), ind=sc(const(T_ - 1), 'i'), using_pfy=False)
        for nm, (fn, extra) in KERNELS.items():
            mock(s, fn, kernel(fn, extra), BASE + extra)
        mock(s, 'mc_step', mc_mock, ('part', 'ptraj', 'pind_prop', 'pind_curr', 'future_trajs', 'find', 'ut', 'yt', 'tt',
                                     'cur_ind', 'reduced'))
        self.find = s.ref('smo', 'arange', sc(M, 'i'))

    def lst(self, v):
        return ORef(alloc(ListC(list(v))))

    def maxpdf(self, I, st, env, node):
        ds = [whole_clo(I, st, env['part']), I.length(env['past_trajs'], st), whole_clo(I, st, env['pind'])]
        i = env['cur_ind']
        ds += [whole_clo(I, st, I.getitem(env[x], (i,), st)) for x in ('uvec', 'tvec')] + [whole_clo(I, st, i)]
        return sc(mk_in('maxfull', *ds), 'f')

    # ------------------------------------------------------------ reference
    def part(self, k):
        return self.s.attr(self.s.attr(self.st[k], 'pa'), 'part')

    def w(self, k):
        return self.s.attr(self.s.attr(self.st[k], 'pa'), 'w')

    def anc(self, k):
        return self.s.attr(self.st[k], 'ancestors')

    def take(self, a, i):
        return self.s.ref('flt', 'gather', a, i)

    def mkstep(self, part):
        return obj(self.s, 'filter', 'TrajectoryStep', pa=approx(self.s, part, None, sc(M, 'i')), ancestors=self.find)

    def quiet(self, name, *a, **kw):
        s = self.s
        n = len(s.I.events)
        s.I.mute += 1
        try:
            f = name if not isinstance(name, str) else s.I.getattr(self.model, name, s.s)
            r = s.I.call(f, list(a), kw, s.s)
        finally:
            s.I.mute -= 1
        del s.I.events[n:]
        return r

    def hist(self, src, k):
        return None if k == 0 else self.lst(src[:k])

    def smooth(self, part, k, anc, fut, hist=None):
        return self.quiet('sample_smooth', part=part, ptraj=self.hist(self.st if hist is None else hist, k), anc=anc,
                          future_trajs=self.lst(fut) if fut else None, find=self.find if fut else None,
                          ut=self.us, yt=self.ys, tt=self.ts, cur_ind=sc(const(k), 'i'))

    def start(self, u):
        return self.s.ref('flt', 'systematic', self.s.ref('flt', 'normw', self.w(self.T - 1)), sc(M, 'i'), u)

    def bsi(self, method, u, opt):
        s = self.s
        ind = self.start(u)
        out = []
        for k in range(self.T - 1, -1, -1):
            if k < self.T - 1:
                if method == 'ancestor':
                    ind = anc
                else:
                    fn, extra = KERNELS[method]
                    ex = {}
                    for x in extra:
                        if x == 'maxpdf':
                            ex[x] = s.at(opt['maxpdf'], k)
                        elif x == 'max_iter':
                            ex[x] = s.I.call(Builtin('builtins.int'), [opt['R']], {}, s.s)
                        elif x == 'ancestors':
                            ex[x] = anc
                        else:
                            ex[x] = opt[x]
                    ind = self.quiet(s.get('smoother', fn), pa=s.attr(self.st[k], 'pa'), model=self.model,
                                     ptraj=self.hist(self.st, k), pind=self.anc(k), future_trajs=self.lst(out),
                                     find=self.find, ut=self.us, yt=self.ys, tt=self.ts, cur_ind=sc(const(k), 'i'), **ex)
            anc = self.take(self.anc(k), ind)
            out.insert(0, self.mkstep(self.smooth(self.take(self.part(k), ind), k, anc, list(out))))
        return out

    def mc(self, part, k, hist, pp, pc, fut, reduced):
        return self.s.tuplize(self.quiet(
            self.s.get('smoother', 'mc_step'), model=self.model, part=part, ptraj=self.hist(hist, k), pind_prop=pp,
            pind_curr=pc, future_trajs=self.lst(fut) if fut else None, find=self.find, ut=self.us, yt=self.ys, tt=self.ts,
            cur_ind=sc(const(k), 'i'), reduced=reduced), 2)

    def mhips(self, u, R, reduced):
        cur = self.bsi('ancestor', u, {})
        for _ in range(R):
            out = []
            for k in range(self.T - 1, -1, -1):
                x, _a = self.mc(self.s.attr(self.s.attr(cur[k], 'pa'), 'part'), k, cur, self.find, self.find, out, reduced)
                out.insert(0, self.mkstep(self.smooth(x, k, self.find, list(out), cur)))
            cur = out
        return cur

    def mhbp(self, us, R, perms):
        s = self.s
        cind = self.start(us[0])
        out = []
        j = 0
        for k in range(self.T - 1, -1, -1):
            x = self.take(self.part(k), cind)
            anc = self.take(self.anc(k), cind) if k else None
            for _ in range(R):
                pa = None
                if k:
                    pa = s.ref('smo', 'propose', self.w(k - 1), sc(M, 'i'), us[1 + j], perms[j])
                    j += 1
                x, acc = self.mc(x, k, self.st, pa, anc, out, False)
                if k:
                    anc = s.ref('smo', 'pick', acc, pa, anc)
            out.insert(0, self.mkstep(self.smooth(x, k, anc, list(out))))
            cind = anc
        return out


def anysame(s, got, refs):
    return anyof((same(s, got, r) for r in refs), 'no uniform drawn')


def trajectories(rep, tier, want_):
    for method in ('full', 'mcmc', 'rs', 'rsas', 'ancestor', 'mhips', 'mhips_reduced', 'mhbp'):
        for T_ in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)):
            if method[:2] == 'mh' and T_ == 3 and False:
                continue
            for R in ((1, 2) if method[:2] == 'mh' and T_ < 3 else (1,)):
                tag = '%s, %d steps%s' % (method, T_, ', %d passes' % R if method[:2] == 'mh' else '')
                con = '%s:SmoothTrajectory' % FILE
                box = []

                def go():
                    b = TS(T_)
                    box.append(b)
                    s = b.s
                    opt = {x: sc(mk_in('opt_' + x), 'f') for x in ('x1', 'P1', 'sv', 'sw', 'ratio')}
                    opt['maxpdf'] = s.arr('maxpdf', const(T_))
                    opt['R'] = sc(const(R), 'i') if method[:2] == 'mh' else sc(mk_in('opt_R'), 'f')
                    n = len(s.I.events)
                    st = s.new('smoother', 'SmoothTrajectory', b.run, M=sc(M, 'i'), method=method,
                               options=ORef(alloc(DictC(dict(opt)))))
                    ev = s.I.events[n:]
                    us = [sc(uav(e).at((ZERO,) * len(e.data['shape'])), 'f') for e in ev
                          if e.kind == 'random' and e.data['dist'] == 'uniform' and single(e)]
                    perms = [newarr(uav(e)) for e in ev if e.kind == 'random' and e.data['dist'] == 'perm']
                    if not us:
                        return Verdict(False, 'the last state is not drawn')
                    out = []
                    m = s.I.length(s.attr(st, 'traj'), s.s)
                    out.append(('number of steps', Verdict(m is const(T_), show(m))))
                    if method in KERNELS or method == 'ancestor':
                        refs = [b.bsi(method, u, opt) for u in us]
                    elif method == 'mhbp':
                        if len(us) < 1 + R * (T_ - 1) or len(perms) < R * (T_ - 1):
                            return Verdict(False, 'ancestors are proposed by a draw and a permutation for every move')
                        refs = [b.mhbp(us, R, perms)]
                    else:
                        refs = [b.mhips(u, R, method == 'mhips_reduced') for u in us]
                    for k in range(T_):
                        got = s.attr(s.attr(s.at(s.attr(st, 'traj'), k), 'pa'), 'part')
                        out.append(('state %d' % k, anysame(s, got, [s.attr(s.attr(r[k], 'pa'), 'part') for r in refs])))
                    L = s.attr(st, 'traj')
                    for nm, v in (('u', b.us), ('y', b.ys), ('t', b.ts)):
                        a = s.attr(st, nm)
                        for k in range(T_):
                            out.append(('data %s[%d]' % (nm, k), same(s, s.at(a, k), s.at(v, k))))
                    est = s.meth(st, 'get_smoothed_estimates')
                    for k in range(T_):
                        p = s.attr(s.attr(s.at(L, k), 'pa'), 'part')
                        out.append(('estimate %d' % k, same(s, s.at(est, k), p)))
                    if want_ == 'C07':
                        out = [('filter history unchanged', unwritten(ev))]
                    if want_ == 'C02':
                        out = [('protected exponentials', expsafe(s, ev))]
                    return out
                rep.obligation('smoother [%s]' % tag, con, go)
                for b in box:
                    rep.absorb(b.s)


def c10(rep, tier):
    trajectories(rep, tier, 'C10')


# ------------------------------------------------------- C11: smoother names
def dispatch(rep, tier):
    rep.limit = min(rep.limit, 20.0)
    con = 'pyparticleest/filter.py:ParticleTrajectory.perform_smoothing'

    def run(method, T_, opts, how='run', extra=None):
        b = TS(T_, extra)
        s = b.s
        s.I.maxunroll = 40
        n = len(s.I.events)
        o = None if opts is None else ORef(alloc(DictC(dict(opts))))
        if how == 'run':
            st = s.meth(b.run, 'perform_smoothing', M=sc(M, 'i'), method=method, smoother_options=o)
        elif how == 'default':
            st = s.meth(b.run, 'perform_smoothing', sc(M, 'i'))
        else:
            st = s.new('smoother', 'SmoothTrajectory', b.run, M=sc(M, 'i'), method=method,
                       options=ORef(alloc(DictC(dict(opts or {})))))
        return b, st, [e for e in s.I.events[n:] if e.kind == 'hook']

    def names(ev):
        return [e.data['name'] for e in ev]

    own = {'full': 'bsi_full', 'mcmc': 'bsi_mcmc', 'rs': 'bsi_rs', 'rsas': 'bsi_rsas', 'ancestor': None, 'mhips': 'mc_step',
           'mhips_reduced': 'mc_step', 'mhbp': 'mc_step'}
    for method in own:
        box = []

        def sel():
            b, st, ev = run(method, 2, {'R': sc(const(2), 'i')} if method[:2] == 'mh' else None)
            box.append(b)
            got = [x for x in names(ev) if x in ('bsi_full', 'bsi_mcmc', 'bsi_rs', 'bsi_rsas', 'mc_step')]
            want = own[method]
            ok = set(got) == ({want} if want else set())
            out = [('algorithm', Verdict(ok, 'calls %s' % sorted(set(got))))]
            if want == 'mc_step':
                r = [e.data['a_reduced'] for e in ev if e.data['name'] == 'mc_step']
                red = method == 'mhips_reduced'
                out.append(('reduced', Verdict(all((x is True or isinstance(x, AV) and x.body is ONEP) == red for x in r),
                                               'reduced arguments %r' % (r[:2],))))
            out.append(('number of trajectories', same(b.s, b.s.attr(st, 'M'), sc(M, 'i'))))
            return out
        rep.obligation('smoother name %r' % method, con, sel)

        for post in (True, False):
            def once():
                def ps(I, st, env, node):
                    return I.getattr(env['straj'], 'traj', st)
                b, st, ev = run(method, 2, {'R': sc(const(1), 'i')}, 'run', {'post_smoothing': uhook(
                    'post_smoothing', ('straj',), ps)} if post else {})
                box.append(b)
                k = names(ev).count('post_smoothing')
                i = [j for j, x in enumerate(names(ev)) if x == 'post_smoothing']
                last = max([j for j, x in enumerate(names(ev)) if x == 'sample_smooth'] + [-1])
                if not post:
                    return Verdict(k == 0, '%d calls' % k)
                return Verdict(k == 1 and i[0] > last, 'post_smoothing called %d times%s' % (
                    k, '' if not i or i[0] > last else ', before the last state is drawn'))
            rep.obligation('post-processing %s [%s]' % ('applied once' if post else 'is optional', method), con, once)

        def result():
            mark = []

            def ps(I, st, env, node):
                mark.append(ORef(alloc(ListC([]))))
                return mark[-1]
            b, st, ev = run(method, 2, {'R': sc(const(1), 'i')}, 'run', {'post_smoothing': uhook('post_smoothing', ('straj',), ps)})
            box.append(b)
            v = b.s.attr(st, 'traj')
            return Verdict(isinstance(v, ORef) and v.cid == mark[-1].cid if mark else False,
                           'the trajectory kept is not the post-processed one')
        rep.obligation('post-processed trajectory is kept [%s]' % method, con, result)
        for b in box:
            rep.absorb(b.s)

    def args(method, ev, nm):
        fn = own[method]
        return [e.data['a_' + nm] for e in ev if e.data['name'] == fn]

    def options(method, opts, expect):
        def go():
            b, st, ev = run(method, 2, opts)
            rep.absorb(b.s)
            out = []
            for nm, v in expect.items():
                a = args(method, ev, nm)
                if not a:
                    return Verdict(False, 'sampler not called')
                ref = v(b) if callable(v) else sc(v, 'f')
                out.append((nm, same(b.s, a[0], ref, weaksize=True)))
            return out
        return go
    one = P(1) if False else ONEP

    def maxpdf(b):
        return b.s.meth(b.model, 'logp_xnext_max_full', part=b.part(0), past_trajs=b.lst([]), pind=b.anc(0), uvec=b.us,
                        yvec=b.ys, tvec=b.ts, cur_ind=sc(ZERO, 'i'))

    def nround(b):
        return b.s.I.call(Builtin('builtins.int'), [b.s.op('*', sc(const(Fraction(1, 10)), 'f'), sc(N, 'i'))], {}, b.s.s)
    rep.obligation('defaults of rs', con, options('rs', None, {'maxpdf': maxpdf, 'max_iter': nround}))
    rep.obligation('defaults of rsas', con, options('rsas', None, dict(
        {x: one for x in ('x1', 'P1', 'sv', 'sw', 'ratio')}, maxpdf=maxpdf)))
    rep.obligation('defaults of mcmc', con, options('mcmc', None, {'R': const(30)}))
    val = mk_in('useropt')
    for method, keys in (('rs', ('maxpdf', 'R')), ('rsas', ('x1', 'P1', 'sv', 'sw', 'ratio', 'maxpdf')), ('mcmc', ('R',))):
        for k in keys:
            if k == 'maxpdf':
                v = newarr(mkav((const(2),), lambda i: mk_in('usermax', P(i))))
                ref = sc(mk_in('usermax', ZERO), 'f')
                exp = {k: lambda b, ref=ref: ref}
            elif method == 'rs':
                v = sc(const(7), 'i')
                exp = {'max_iter': const(7)}
            else:
                v = sc(val, 'f')
                exp = {k: val}
            rep.obligation('user option %s of %s' % (k, method), con, options(method, {k: v}, exp))

    def moves(method, opts, how, count):
        def go():
            pre = []

            def hook(I, st, env, node):
                return I.getattr(env['straj'], 'traj', st)
            ss = uhook('sample_smooth', ('part', 'ptraj', 'anc', 'future_trajs', 'find', 'ut', 'yt', 'tt', 'cur_ind'),
                       lambda I, st, env, node: newarr(mkav((M, lx), lambda i, k: mk_in('smoothed', P(i), P(k)))))
            b, st, ev = run(method, 1, opts, how, {'sample_smooth': ss, 'pre_mhips_pass': uhook('pre_mhips_pass', ('straj',), hook)})
            rep.absorb(b.s)
            k = names(ev).count('mc_step')
            out = [('moves', Verdict(k == count, '%d moves of the only state' % k))]
            if method != 'mhbp':
                p = names(ev).count('pre_mhips_pass')
                out.append(('pre-processing', Verdict(p == count, 'pre_mhips_pass called %d times' % p)))
            return out
        return go
    for method in ('mhips', 'mhbp'):
        rep.obligation('default number of passes [%s]' % method, con, moves(method, None, 'run', 30))
    for method in ('mhips', 'mhips_reduced', 'mhbp'):
        rep.obligation('requested number of passes [%s]' % method, con, moves(method, {'R': sc(const(3), 'i')}, 'run', 3))
        rep.obligation('number of passes without options [%s]' % method, '%s:SmoothTrajectory.__init__' % FILE,
                       moves(method, {}, 'direct', 10))

    def deflt():
        b, st, ev = run(None, 2, None, 'default')
        rep.absorb(b.s)
        return Verdict('bsi_full' in names(ev), 'default method calls %s' % sorted(set(names(ev))))
    rep.obligation('default smoother is full backward simulation', con, deflt)

    def bad():
        try:
            run('fulll', 2, None)
        except RaiseOut as e:
            return Verdict(e.exc.name == 'ValueError', 'raises ' + e.exc.name)
        return Verdict(False, 'accepted')
    rep.obligation('unknown smoother name', con, bad)


def c07(rep, tier):
    kernels(rep, 'arguments unchanged')
    c09(rep, tier, 'arguments unchanged')
    # a model whose measurement update writes its particles and that keeps the library's conditioning operations
    c09(rep, tier, 'arguments unchanged', DEFAULTS)
    defaults(rep)
    trajectories(rep, tier, 'C07')


def defaults(rep):
    """conditioning and drawing operations a model inherits return the given states; what is stored is an array of its own"""
    def ob(name, con, fn):
        box = []

        def go():
            b = SS(drop=DEFAULTS + ('sample_smooth',))
            box.append(b)
            return fn(b, b.s)
        rep.obligation(name, 'pyparticleest/interfaces.py:' + con, go)
        for b in box:
            rep.absorb(b.s)

    def own(s, n, v, ref, stored=True):
        out = [('value', same(s, v, ref)), ('arguments unchanged', unwritten(s.I.events[n:]))]
        ok = isinstance(v, Ref) and v.cid not in s.I.inputcells
        if stored:
            out.append(('array of its own', Verdict(ok, 'returned array shares memory with %s' % s.I.inputcells.get(getattr(v, 'cid', None)))))
        return out

    def condpred(b, s):
        x = s.arr('x', M, lx)
        pind = s.arr('pc', M, int=True, range=P(N), nonneg=True)
        n = len(s.I.events)
        f = s.arr('f', M, lx)
        v = s.meth(b.model, 'cond_predict_single_step', part=x, past_trajs=b.pt, pind=pind, future_parts=f,
                   find=b.r('arange', sc(M, 'i')), ut=b.us, yt=b.ys, tt=b.ts, cur_ind=b.ci)
        return own(s, n, v, f, False)
    ob('inherited conditioning on the next state', 'ParticleFilteringNonMarkov.cond_predict_single_step', condpred)

    def condinit(b, s):
        x = s.arr('x', M, lx)
        n = len(s.I.events)
        return own(s, n, s.meth(b.model, 'cond_sampled_initial', x, s.at(b.ts, 0)), x, False)
    ob('inherited conditioning on the initial state', 'ParticleFilteringNonMarkov.cond_sampled_initial', condinit)

    def smooth(b, s):
        x = s.arr('x', M, lx)
        n = len(s.I.events)
        v = s.meth(b.model, 'sample_smooth', part=x, ptraj=b.pt, anc=s.arr('pc', M, int=True, range=P(N), nonneg=True),
                   future_trajs=b.ft, find=b.r('arange', sc(M, 'i')), ut=b.us, yt=b.ys, tt=b.ts, cur_ind=b.ci)
        return own(s, n, v, x)
    ob('inherited smoothed draw', 'FFBSiNonMarkov.sample_smooth', smooth)

    def copyind(given):
        def go(b, s):
            x = s.arr('x', N, lx)
            i = s.arr('pc', M, int=True, range=P(N), nonneg=True)
            n = len(s.I.events)
            v = s.meth(b.model, 'copy_ind', x, i) if given else s.meth(b.model, 'copy_ind', x)
            return own(s, n, v, s.at(x, i) if given else x)
        return go
    ob('selected copies', 'ParticleFilteringNonMarkov.copy_ind', copyind(True))
    ob('copies of all particles', 'ParticleFilteringNonMarkov.copy_ind', copyind(False))


def c02(rep, tier):
    kernels(rep, 'exponentials protected')
    trajectories(rep, tier, 'C02')
