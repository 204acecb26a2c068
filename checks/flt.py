"""Filter steps: C01-C07."""
from pest.scene import *
from .trajs import *

FILE = 'pyparticleest/filter.py'
N = sym('N', 2)
lx, ly, lu = sym('lx'), sym('ly'), sym('lu')
n0 = sym('n0')                 # index of the current step
EXTRA = sym('x')               # further, not yet used data entries


def model_cls(s, kind):
    p3 = ('particles', 'u', 't')
    trans = dict(
        logp_xnext=dephook('logp_xnext', ('particles', 'next_part', 'u', 't'), (),
                           [rows('particles'), rows('next_part'), whole_('u'), whole_('t')]))
    init = dict(create_initial_estimate=uhook('create_initial_estimate', ('N',), lambda I, st, env, node: newarr(mkav(
        (I.av(env['N'], st).body, lx), lambda i, k: mk_in('init', P(i), P(k))))))
    prop = dict(propose_from_y=uhook('propose_from_y', ('N', 'y', 't'), lambda I, st, env, node: newarr(mkav(
        (I.av(env['N'], st).body, lx), lambda i, k: mk_in('propy', P(i), whole_clo(I, st, env['y']),
                                                          whole_clo(I, st, env['t']), P(k))))))
    meas = dict(measure=dephook('measure', ('particles', 'y', 't'), (), [rows('particles'), whole_('y'), whole_('t')]))
    sir = dict(qsample=dephook('qsample', ('particles', 'u', 'y', 't'), (lx,),
                               [rows('particles'), whole_('u'), whole_('y'), whole_('t')]),
               logp_q=dephook('logp_q', ('particles', 'next_part', 'u', 'y', 't'), (),
                              [rows('particles'), rows('next_part'), whole_('u'), whole_('y'), whole_('t')]))
    step1 = dict(logp_xnext_singlestep=dephook(
        'logp_xnext_singlestep', ('part', 'past_trajs', 'pind', 'future_parts', 'find', 'ut', 'yt', 'tt', 'cur_ind'), (),
        [rows('part'), ln('past_trajs'), rows('pind'), rowsel('future_parts', 'find'), elem('ut', 'cur_ind'),
         elem('tt', 'cur_ind')]))
    H = {}
    if kind == 'markov':
        H.update(sample_process_noise=dephook('noise', p3, (lx,), [rows('particles'), whole_('u'), whole_('t')]),
                 update=dephook('update', p3 + ('noise',), (lx,),
                                [rows('particles'), rows('noise'), whole_('u'), whole_('t')], inplace='particles'),
                 eval_1st_stage_weights=dephook('stage1', ('particles', 'u', 'y', 't'), (),
                                                [rows('particles'), whole_('u'), whole_('y'), whole_('t')]))
        for x in (trans, init, meas):
            H.update(x)
        b = [s.get('interfaces', 'ParticleFiltering'), s.get('interfaces', 'AuxiliaryParticleFiltering'),
             s.get('interfaces', 'FFBSi')]
    elif kind == 'full':
        # history-dependent model
        H.update(sample_process_noise_full=dephook(
                    'noise', ('ptraj', 'ancestors', 'ut', 'tt'), (lx,),
                    [rows('ancestors'), partsel('ptraj', 'ancestors'), ln('ptraj'), elem('ut', -1), elem('tt', -1)]),
                 update_full=dephook(
                    'update', ('particles', 'traj', 'uvec', 'yvec', 'tvec', 'ancestors', 'noise'), (lx,),
                    [rows('particles'), rows('noise'), partsel('traj', 'ancestors'), ln('traj'), ln('uvec'), ln('yvec'),
                     ln('tvec'), elem('uvec', -1), elem('yvec', -1), elem('tvec', -1)], inplace='particles'),
                 measure_full=dephook(
                    'measure', ('particles', 'traj', 'uvec', 'yvec', 'tvec', 'ancestors'), (),
                    [rows('particles'), partsel('traj', 'ancestors'), ln('traj'), ln('yvec'), ln('tvec'),
                     elem('yvec', -1), elem('tvec', -1)]))
        for x in (init, step1, prop):
            H.update(x)
        b = [s.get('interfaces', 'ParticleFilteringNonMarkov'), s.get('interfaces', 'FFBSiNonMarkov')]
    elif kind == 'sir':
        for x in (trans, init, meas, sir):
            H.update(x)
        b = [s.get('interfaces', 'SIR')]
    return Cls('UserModel', b, dict(H), b[0].mod)


def partsel(traj, ind):
    """row i: particle ind[i] of the last step of trajectory argument traj"""
    def d(I, st, env, node):
        last = I.getitem(env[traj], (sc(-ONEP, 'i'),), st, node)
        p = I.getattr(I.getattr(last, 'pa', st), 'part', st)
        f, a = rowclo(I, st, I.getitem(p, (env[ind],), st, node))
        return f, a.shape[0]
    return d


class FS(object):
    """a filter about to step from index n0 to n0+1"""

    def __init__(self, flt, kind, res=None, normed=False, ynone=False, used=False):
        s = self.s = Scene(dims=[dict(N=4, n0=2, x=2, lx=2, ly=2, lu=1), dict(N=3, n0=1, x=1, lx=3, ly=1, lu=2),
                                 dict(N=5, n0=3, x=1, lx=1, ly=2, lu=2)])
        s.points = 6
        self.flt, self.kind = flt, kind
        self.model = s.call(model_cls(s, kind))
        self.traj = step_seq(s, 'tr', n0 + 1, N, (lx,), normed)
        self.ctraj = step_seq(s, 'ct', n0 + 2 + EXTRA, ONEP, (lx,))
        L = n0 + 2 + EXTRA
        self.us, self.ts = s.matseq('us', L, lu), s.matseq('ts', L)
        if ynone:
            self.ys = s.seq('ys', L, lambda st, k: None)
        else:
            self.ys = s.matseq('ys', L, ly)
        self.ci = sc(n0, 'i')
        kw = dict(model=self.model)
        if flt in ('FFPropY', 'CPFYAS'):
            kw['N'] = sc(N, 'i')
        if flt in ('CPF', 'CPFAS', 'CPFYAS', 'CSIRAS'):
            kw['cond_traj'] = self.ctraj
        else:
            if res is None:
                META['res'] = {'lo': 0.35, 'hi': 1.1, 'pos': True}
                kw['res'] = self.res = sc(mk_in('res'), 'f')
            else:
                kw['res'] = self.res = sc(P(res), 'i')
        self.pf = s.new('filter', flt, **kw)
        if used:
            # the filter object has made a step of another run before
            with warm():
                tr = step_seq(s, 'tr', n0 + 1, N, (lx,), normed)
                us, ts = s.matseq('us', L, lu), s.matseq('ts', L)
                ys = s.seq('ys', L, lambda st, k: None) if ynone else s.matseq('ys', L, ly)
                s.meth(self.pf, 'forward', traj=tr, yvec=ys, uvec=us, tvec=ts, cur_ind=self.ci)
            del s.I.events[:]

    def forward(self):
        s = self.s
        n = len(s.I.events)
        r = s.tuplize(s.meth(self.pf, 'forward', traj=self.traj, yvec=self.ys, uvec=self.us, tvec=self.ts,
                             cur_ind=self.ci), 3)
        self.pa, self.resampled, self.anc = r
        self.events = s.I.events[n:]
        self.part, self.w = s.attr(self.pa, 'part'), s.attr(self.pa, 'w')
        last = s.at(self.traj, -1)
        self.p0, self.w0 = s.attr(s.attr(last, 'pa'), 'part'), s.attr(s.attr(last, 'pa'), 'w')
        self.a0 = s.attr(last, 'ancestors')
        return self

    def uniforms(self):
        out = []
        for e in self.events:
            if e.kind == 'random' and e.data['dist'] == 'uniform' and not e.loops:
                sh = e.data['shape']
                out.append(sc(P(mk_atom('rand', 'uniform', e.data['seq'], (), (ZERO,) * len(sh))), 'f'))
        return out

    def r(self, fn, *a):
        return self.s.ref('flt', fn, *a)


def anyof(vs, none='no draw made'):
    """verdict of 'one of the alternatives holds'"""
    vs = list(vs)
    if not vs:
        return Verdict(False, none)
    for v in vs:
        if v.ok:
            return v
    for v in vs:
        if v.ok is None:
            return v
    return vs[0]


def upto(s, a, b):
    return same(s, a, b, upto=0)


def step(kind_, flt, tag, x, what):
    """obligations of one forward step; what: set of property ids -> list of (name, thunk)"""


def facts(f):
    """name -> (properties, thunk) for the executed step of scene f"""
    s = f.s
    out = []

    def add(props, name, fn):
        out.append((props, name, fn))
    n = sc(N, 'i')
    ci1 = sc(n0 + 1, 'i')
    plain = f.flt in ('ParticleFilter', 'AuxiliaryParticleFilter', 'SIR', 'FFPropY')
    if plain:
        wd = f.w0
        if f.flt == 'AuxiliaryParticleFilter' and not f.ynone:
            l1 = s.meth(f.model, 'eval_1st_stage_weights', f.p0, s.at(f.us, f.ci), s.at(f.ys, ci1), s.at(f.ts, f.ci))
            wd = s.op('+', f.w0, l1)
        dec = f.r('decide', f.res, wd)
        add(('C03', 'C05'), 'resampled exactly when the effective sample size is below threshold',
            lambda: same(s, f.resampled, dec))
        add(('C03', 'C05'), 'ancestors are identity or systematic draws',
            lambda: anyof(same(s, f.anc, f.r('anc_pf', dec, wd, u)) for u in f.uniforms()) if f.uniforms()
            else same(s, f.anc, f.r('ident', n)))
        base = f.r('base', dec, wd)
        anc = f.anc
    else:
        base = f.r('uniform', n)
        anc = f.anc
        nw = f.r('normw', f.w0)
        us = f.uniforms()
        nm1 = sc(N - 1, 'i')
        head = s.I.getitem(f.anc, (SliceV(None, sc(-ONEP, 'i'), None),), s.s)
        tail = s.at(f.anc, -1)
        add(('C03', 'C04', 'C05'), 'free ancestors are systematic draws from the previous weights',
            lambda: anyof(same(s, head, f.r('systematic', nw, nm1, u)) for u in us))
        if f.flt == 'CPF':
            add(('C03', 'C04'), 'reference slot is its own ancestor', lambda: same(s, tail, nm1))
        else:
            cnext = s.attr(s.attr(s.at(f.ctraj, ci1), 'pa'), 'part')
            find = f.r('zeros', n)
            if f.flt == 'CSIRAS':
                tr = s.meth(f.model, 'logp_xnext', particles=f.p0, next_part=f.r('take', cnext, find),
                            u=s.at(f.us, f.ci), t=s.at(f.ts, f.ci))
            else:
                tr = f.r('trans1', f.model, f.traj, f.p0, f.r('ident', n), f.a0, cnext, find, f.us, f.ys, f.ts, f.ci)
            wa = f.r('normw', s.op('+', f.w0, tr))
            add(('C04', 'C03'), 'reference ancestor drawn by weight times transition density',
                lambda: anyof(same(s, tail, s.at(f.r('systematic', wa, sc(ONEP, 'i'), u), 0)) for u in us))

            def indep():
                # the draw of the reference ancestor is not the one of the free ancestors
                if len(us) < 2:
                    return Verdict(False, 'a single draw is shared by free and reference ancestors')
                return Verdict(True, 'separate draws')
            add(('C04',), 'reference ancestor uses a draw of its own', indep)
        add(('C03',), 'step reports resampling', lambda: Verdict(f.resampled is True or (
            isinstance(f.resampled, AV) and f.resampled.body is ONEP), 'resampled flag %r' % (f.resampled,)))
    # propagation
    if f.flt in ('ParticleFilter', 'AuxiliaryParticleFilter', 'CPF', 'CPFAS'):
        x = f.r('move', f.model, f.traj, f.p0, anc, f.ci, f.us, f.ys, f.ts)
        why = 'particles are the moved previous particles of the ancestors'
    elif f.flt in ('SIR', 'CSIRAS'):
        x = f.r('sirprop', f.model, f.r('gather', f.p0, anc), f.us, f.ys, f.ts, f.ci)
        why = 'particles are proposed from the previous particles of the ancestors'
    else:
        x = s.meth(f.model, 'propose_from_y', n, s.at(f.ys, ci1), s.at(f.ts, ci1))
        why = 'particles are proposed from the next measurement'
    if not plain:
        x = f.r('last', x, s.at(s.attr(s.attr(s.at(f.ctraj, ci1), 'pa'), 'part'), 0))
        why += ', reference state in the last slot'
    props = ('C01', 'C03', 'C06') if plain else ('C01', 'C03', 'C04', 'C06')
    add(props, why, lambda: same(s, f.part, x))
    # weights
    if f.flt in ('ParticleFilter', 'AuxiliaryParticleFilter', 'CPF', 'CPFAS'):
        ll = None if f.ynone and f.flt[:3] == 'CPF' else \
            f.r('lik', f.model, f.traj, x, anc, ci1, f.us, f.ys, f.ts)
        if f.flt == 'AuxiliaryParticleFilter' and not f.ynone:
            # base holds the first stage weights only when not resampled
            ll = s.op('-', ll, f.r('take', l1, anc))
    elif f.flt in ('SIR', 'CSIRAS'):
        ll = f.r('sir', f.model, f.r('gather', f.p0, anc), x, f.us, f.ys, f.ts, f.ci)
    else:
        ll = f.r('trans1', f.model, f.traj, f.p0, anc, f.a0, x, f.r('ident', n), f.us, f.ys, f.ts, f.ci)
    full = base if ll is None else s.op('+', base, ll)
    add(('C01', 'C06'), 'weights', lambda: upto(s, f.w, full))
    if not f.ynone or f.flt == 'ParticleFilter':
        add(('C02',), 'stored log-weights have maximum 0', lambda: same(s, f.r('maxof', f.w), sc(ZERO, 'f')))
    if f.flt in ('ParticleFilter', 'SIR', 'FFPropY', 'CPFYAS') :
        def offs():
            w = s.op('+', f.w, s.attr(f.pa, 'w_offset'))
            return same(s, w, full if f.flt != 'CPFYAS' else ll)
        add(('C02',), 'stored weight plus offset is the unshifted weight', offs)
    add(('C07',), 'step leaves the stored history unchanged', lambda: unwritten(f.events))
    add(('C07',), 'step owns its arrays', lambda: owns(s, f))
    add(('C02',), 'exponentials of weights are protected', lambda: expsafe(s, f.events))
    add(('C03', 'C12'), 'particle count', lambda: same(s, s.attr(f.pa, 'num'), n))
    return out


def unwritten(events, allow=()):
    bad = [e for e in events if e.kind == 'write-input' and e.data.get('name') not in allow]
    if bad:
        e = bad[0]
        return Verdict(False, 'writes to %s at %s' % (e.data.get('name'), wsite(e)))
    return Verdict(True, 'no write to an input array')


def wsite(e):
    st = e.site
    return '%s (%s)' % (st[0], st[1]) if isinstance(st, tuple) else str(st)


def owns(s, f):
    cells = []
    for v, nm in ((f.part, 'particles'), (f.w, 'weights'), (f.anc, 'ancestors')):
        if isinstance(v, Ref):
            if v.cid in s.I.inputcells:
                return Verdict(False, 'stored %s share memory with %s' % (nm, s.I.inputcells[v.cid]))
            cells.append((v.cid, nm))
    return Verdict(True, 'stored arrays are new')


def expsafe(s, events):
    """every exponentiated vector of log-weights has maximum 0"""
    n = 0
    for e in events:
        if e.kind != 'exp':
            continue
        n += 1
        v = e.data['arg']
        if not isinstance(v, AV) or not v.shape:
            continue
        m = s.ref('flt', 'maxof', newarr(v))
        r = same(s, m, sc(ZERO, 'f'))
        if r.ok is False:
            r2 = uniformvec(s, v)
            if r2:
                continue
            return Verdict(False, 'exponentiates log-weights with maximum not 0 at %s: %s' % (wsite(e), r.why))
        if r.ok is None:
            return r
    return Verdict(True, '%d exponentials' % n)


def uniformvec(s, v):
    d = s.I.elementwise(lambda x, y: x - y, [v, sc(v.at([ZERO] * len(v.shape)), 'f')], s.s)
    return same(s, d, mkav(v.shape, lambda *i: ZERO)).ok


CONFIGS = [
    ('ParticleFilter', 'full', None, False), ('ParticleFilter', 'full', 0, False), ('ParticleFilter', 'markov', None, False),
    ('AuxiliaryParticleFilter', 'markov', None, False), ('AuxiliaryParticleFilter', 'markov', 0, False),
    ('AuxiliaryParticleFilter', 'markov', None, True),
    ('SIR', 'sir', None, False), ('SIR', 'sir', 0, False), ('FFPropY', 'full', None, False), ('FFPropY', 'full', 0, False),
    ('CPF', 'full', None, False), ('CPF', 'full', None, True), ('CPF', 'markov', None, False), ('CPFAS', 'full', None, False),
    ('CPFAS', 'full', None, True), ('CPFAS', 'markov', None, False), ('CSIRAS', 'sir', None, False),
    ('CPFYAS', 'full', None, False)]


def steps(rep, prop, sel=None):
    for flt, kind, res, ynone, used in [c + (False,) for c in CONFIGS] + (
            [c + (True,) for c in CONFIGS if c[1] != 'markov' or c[0] == 'AuxiliaryParticleFilter'] if prop in ('C01', 'C03', 'C04') else []):
        tag = '%s, %s model%s%s%s' % (flt, kind, ', never resampling' if res == 0 else '', ', no measurement' if ynone else '',
                                      ', used before' if used else '')
        con = '%s:%s.forward' % (FILE, flt)
        box = []

        def go():
            f = FS(flt, kind, res, normed=prop == 'C02', ynone=ynone, used=used)
            f.ynone = ynone
            box.append(f)
            f.forward()
            out = []
            for props, name, fn in facts(f):
                if prop in props:
                    out.append((name, fn))
            return out
        try:
            lst = []
            rep.obligation('step [%s]' % tag, con, lambda: (lst.extend(go()), Verdict(True, 'summarised'))[1])
            for name, fn in lst:
                rep.obligation('%s [%s]' % (name, tag), con, fn)
        finally:
            for f in box:
                rep.absorb(f.s)


def c01(rep, tier):
    from . import drv
    steps(rep, 'C01')
    drv.starts(rep, 'C01')


def c02(rep, tier):
    steps(rep, 'C02')


def c03(rep, tier):
    from . import drv
    steps(rep, 'C03')
    drv.starts(rep, 'C03')


def c04(rep, tier):
    from . import drv
    steps(rep, 'C04')
    drv.starts(rep, 'C04')


def c05(rep, tier):
    steps(rep, 'C05')


def c06(rep, tier):
    steps(rep, 'C06')


def c07(rep, tier):
    steps(rep, 'C07')
