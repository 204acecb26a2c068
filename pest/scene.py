"""Analysis contexts (symbolic inputs, user-model hooks) and decision of obligations."""
import ast
import contextlib
import json
import os
import signal
import sys
import time
import traceback
import numpy as np
from . import interp as _interp
from . import npmodel, loops            # noqa: F401  (register transfer functions)
from .npmodel import fail
from . import terms as T
from . import pit as _pit
from .values import *
from .terms import *
from .interp import Interp, RaiseOut, Give

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
REPO = os.environ.get('PEST_REPO', '/repo')


LIVE = []           # scenes created by the obligation being decided
LIGHT = [False]     # compare shapes only (aggregate checks)
WARM = [None]       # inputs made now are others than those of the same name (True: all of them, a set: those named)
_mk_in = mk_in


def mk_in(name, *idx):
    w = WARM[0]
    if w is not None and (w is True or name in w):
        if name in META:
            META[name + '~'] = META[name]
        name += '~'
    return _mk_in(name, *idx)


@contextlib.contextmanager
def warm(names=True, light=True):
    """run operations on other data (light: only for what they leave behind)"""
    old = WARM[0], LIGHT[0]
    WARM[0], LIGHT[0] = names, light
    try:
        yield
    finally:
        WARM[0], LIGHT[0] = old


DATA = frozenset(('u', 't', 'y', 'us', 'ts', 'ys', 'ci', 'tt', 'ut', 'yt', 'x', 'xi', 'z', 'p', 'part'))


def has(s, cls, name):
    """does the class define or inherit the attribute"""
    for c in cls.mro:
        if name in c.attrs:
            return True
        if c.node is not None and any(isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == name
                                      for n in ast.walk(c.node)):
            return True
    return False


def again(m, fns, before=None):
    """verdicts of operations on an object that has already worked under other parameters, then on other data"""
    s = m.s

    def setp():
        cls = s.s.get(m.o.cid).cls
        if has(s, cls, 'set_params'):
            s.meth(m.o, 'set_params', s.arr('par', sym('lp')))
    # other parameters: every operation of the user's model may return something else
    with warm():
        setp()
        for f in fns:
            f(m, s)
    setp()

    def real(tag):
        out = []
        del s.I.events[:]
        for k, f in enumerate(fns):
            r = f(m, s)
            out += [('%d%s' % (k, tag), r)] if isinstance(r, Verdict) else [('%d%s, %s' % (k, tag, n), v) for n, v in r]
        return out
    out = real(', after new parameters')
    # other data
    with warm(DATA, LIGHT[0]):
        for a in ('u', 't', 'y'):
            if hasattr(m, a):
                av = s.av(getattr(m, a))
                setattr(m, a, s.arr(a, *av.shape) if av.shape else s.scal(a))
        out += real(', after other data')
    return out


class Scene(object):
    """one symbolic execution context: an interpreter, a state and named inputs"""

    def __init__(self, compiled=False, dims=None):
        LIVE.append(self)
        self.I = Interp(REPO, compiled, (HERE,))
        self.st = None
        self.dims = list(dims) if isinstance(dims, list) else [dict(dims or {})]
        self._st()

    def _st(self):
        # lazily fork after module loading
        pass

    @property
    def s(self):
        if self.st is None:
            self.st = self.I.st0.fork()
        return self.st

    # -------------------------------------------------------------- inputs
    def arr(self, name, *shape, **meta):
        """named input array"""
        dt = 'i' if meta.get('int') else 'f'
        if meta:
            META[name] = meta
        a = newarr(mkav(shape, lambda *i: mk_in(name, *[P(x) for x in i]), dt))
        if not meta.get('mutable'):
            self.I.inputcells[a.cid] = name
        return a

    def own(self, name, *shape, **meta):
        """input array the callee may modify"""
        meta['mutable'] = True
        return self.arr(name, *shape, **meta)

    def scal(self, name, **meta):
        if meta:
            META[name] = meta
        return sc(mk_in(name), 'i' if meta.get('int') else 'f')

    def seq(self, name, n, fn):
        """input list of n elements fn(st, k)"""
        cid = alloc(SeqC(name, n, fn))
        self.I.inputcells[cid] = name
        return ORef(cid)

    def matseq(self, name, n, *shape, **meta):
        """list of arrays; element k is an input array (view of one rank+1 input)"""
        dt = 'i' if meta.get('int') else 'f'
        if meta:
            META[name] = meta
        memo = {}

        def fn(st, k):
            if k not in memo:
                a = newarr(mkav(shape, lambda *i: mk_in(name, k, *[P(x) for x in i]), dt))
                self.I.inputcells[a.cid] = name
                memo[k] = a
            return memo[k]
        return self.seq(name, n, fn)

    # ---------------------------------------------------------------- code
    def mod(self, name):
        return self.I.module('pyparticleest.' + name if not name.startswith('pestref') else name)

    def get(self, modname, name):
        m = self.mod(modname)
        if m is None:
            raise Missing(modname)
        fc = self.I.modframe(self.s, m)
        if name not in fc.vars:
            raise Missing('%s.%s' % (modname, name))
        return fc.vars[name]

    def call(self, f, /, *args, **kw):
        self.s
        return self.I.call(f, list(args), kw, self.s)

    def meth(self, o, name, /, *args, **kw):
        return self.I.call(self.I.getattr(o, name, self.s), list(args), kw, self.s)

    def new(self, modname, cls, /, *args, **kw):
        return self.call(self.get(modname, cls), *args, **kw)

    def attr(self, o, name):
        return self.I.getattr(o, name, self.s)

    def av(self, v):
        if isinstance(v, AV):
            return v
        return self.I.av(v, self.s)

    def ref(self, modname, fn, /, *args, **kw):
        f = self.get('pestref.' + modname, fn)
        n = len(self.I.events)
        a0 = set(self.I.analysed)
        self.I.mute += 1
        try:
            r = self.I.call(f, list(args), kw, self.s)
        finally:
            self.I.mute -= 1
        self.I.analysed = a0
        del self.I.events[n:]
        return r

    def at(self, v, i):
        """v[i]"""
        if isinstance(i, int):
            i = sc(P(i), 'i')
        return self.I.getitem(v, (i,), self.s)

    def op(self, o, a, b):
        ops = {'+': ast.Add(), '-': ast.Sub(), '*': ast.Mult(), '/': ast.Div()}
        return self.I.binop(ops[o], a, b, self.s)

    def item(self, v, *idx):
        return self.I.getitem(v, tuple(sc(P(i), 'i') for i in idx), self.s)

    def array(self, shape, fn, dt='f'):
        return newarr(mkav(shape, fn, dt))

    def tuplize(self, v, n):
        return self.I.unpack(v, n, self.s, None)


class Missing(Exception):
    pass


# ------------------------------------------------------------------ deciding
DIMSETS = [
    dict(N=4, M=3, lx=3, lxi=2, lz=2, ly=2, ln=2, lu=2, lp=2, d=3, e=2, T=4, n=4, K=3),
    dict(N=3, M=4, lx=2, lxi=3, lz=3, ly=1, ln=3, lu=1, lp=3, d=2, e=3, T=3, n=3, K=2),
    dict(N=2, M=2, lx=1, lxi=1, lz=2, ly=3, ln=2, lu=3, lp=1, d=1, e=2, T=5, n=2, K=4),
]


class Verdict(object):
    def __init__(self, ok, why=''):
        self.ok, self.why = ok, why          # ok: True / False / None(undecided)


def pits(scene, k=3):
    k = max(k, getattr(scene, 'points', 0))
    out = []
    for i in range(k):
        d = dict(DIMSETS[i % len(DIMSETS)])
        if scene is not None:
            d.update(scene.dims[i % len(scene.dims)])
        out.append(_pit.Pit(seed=11 + 7 * i + 1000 * (SEED - 1), dims=d))
    return out


def common(a, b):
    vs = [fresh(d) for d in a.shape]
    idx = [ZERO if d is ONEP else P(v) for v, d in zip(vs, a.shape)]
    return vs, a.at(idx), b.at(idx)


def same_shape(a, b, ps):
    if len(a.shape) != len(b.shape):
        return 'rank %d instead of %d' % (len(a.shape), len(b.shape))
    for x, y in zip(a.shape, b.shape):
        if x is y:
            continue
        if has_top(x) or has_top(y):
            return None
        for p in ps:
            try:
                (l1, u), (l2, v) = p.ev(x), p.ev(y)
            except _pit.NoEval:
                continue
            if l1 or l2:
                continue
            if abs(float(u) - float(v)) > 0.5:
                return 'shape (%s) instead of (%s)' % (', '.join(map(show, a.shape)), ', '.join(map(show, b.shape)))
    return ''


def same(scene, a, b, upto=None, where=None, weaksize=False):
    """Verdict that array values a (code) and b (reference) are equal.

    upto=axis: equal up to a constant along that axis.
    where: fn(idx polys)->indicator restricting the comparison."""
    a, b = scene.av(a), scene.av(b)
    ps = pits(scene)
    if weaksize:
        a, b = squeeze(a), squeeze(b)
    s = same_shape(a, b, ps)
    if s:
        return Verdict(False, s)
    if s is None:
        return Verdict(None, 'shape unknown')
    if LIGHT[0]:
        return Verdict(True, 'shapes only')
    vs, x, y = common(a, b)
    if where is not None:
        g = where(*[P(v) for v in vs])
        x, y = x * g, y * g
    if x is y:
        return Verdict(True, 'identical normal forms')
    if has_top(x):
        return Verdict(None, 'value not tracked: ' + tops(x))
    if has_top(y):
        return Verdict(None, 'reference not tracked: ' + tops(y))
    n = 0
    why = None
    nanbad = 0
    for p in ps:
        try:
            labs, (u, v) = p.align([p.ev(x), p.ev(y)])
        except _pit.NoEval as e:
            why = str(e)
            continue
        except (np.linalg.LinAlgError, ValueError, FloatingPointError, MemoryError) as e:
            why = 'evaluation: ' + str(e)
            continue
        if upto is not None:
            ax = vs[upto]
            if ax in labs:
                i = labs.index(ax)
                u = u - np.take(u, [0], axis=i)
                v = v - np.take(v, [0], axis=i)
        fin = np.isfinite(u) & np.isfinite(v)
        sc_ = 1.0 + np.abs(u) + np.abs(v)
        bad = fin & (np.abs(u - v) > 1e-6 * sc_)
        infbad = np.isinf(v) & ~(u == v) & ~np.isnan(u)
        if bad.any() or infbad.any():
            i = np.argwhere(bad | infbad)[0]
            pos = {show_atom(w): int(k) for w, k in zip(labs, i)}
            return Verdict(False, 'value %.6g instead of %.6g at %s' % (u[tuple(i)], v[tuple(i)],
                                                                      ['i%d' % vs.index(w) + '=%d' % k for w, k in
                                                                       zip(labs, i) if w in vs] or 'scalar'))
        if (np.isnan(u) & np.isfinite(v)).any():
            nanbad += 1
        n += 1
    if n == 0:
        return Verdict(None, 'not evaluated: ' + str(why))
    if nanbad == n:
        return Verdict(False, 'undefined value (not a number) where the reference is defined')
    return Verdict(True, 'equal at %d random points' % n)


def squeeze(a):
    keep = [i for i, d in enumerate(a.shape) if d is not ONEP]
    return AV([a.shape[i] for i in keep], [a.vars[i] for i in keep],
              subst(a.body, {a.vars[i]: ZERO for i in range(len(a.vars)) if i not in keep}), a.dt)


def tops(x):
    seen = set()

    def walk(y):
        if isinstance(y, tuple):
            for z in y:
                walk(z)
        elif isinstance(y, Poly):
            if 'top' in y.kinds:
                for f, s, c in y.terms:
                    for a, e in f:
                        walk(a)
        elif isinstance(y, Closure):
            walk(y.body)
        elif isinstance(y, Atom) and 'top' in y.kinds:
            if y.kind == 'top':
                seen.add(str(y.args[0]))
            walk(y.args)
    walk(x)
    return ', '.join(sorted(seen))[:200]


# ----------------------------------------------------------- distributions
class Probe(object):
    """random override: all normals are 0 except one instance"""

    def __init__(self, only=None, rec=None, vals=None):
        self.only, self.rec, self.vals = only, rec, vals

    def __call__(self, p, kind, n, lv, idx):
        if kind != 'normal':
            return None
        items = []
        for t in (lv, idx):
            for x in t:
                items.append(p.ev(x))
        if items:
            labs, xs = p.align(items)
            shape = xs[0].shape
        else:
            labs, xs, shape = (), [], ()
        out = np.zeros(shape)
        for pos in np.ndindex(*shape):
            key = (n,) + tuple(int(round(float(x[pos]))) for x in xs)
            if self.rec is not None:
                self.rec.add(key)
            if self.only == key:
                out[pos] = 1.0
            elif self.vals is not None:
                out[pos] = self.vals(key)
        return labs, out


def moments(p0, vs, x):
    """(mean, covariance) of an array value that is affine in its normal draws"""
    def run(probe):
        p = _pit.Pit(p0.seed, p0.dims, probe)
        l, a = p.ev(x)
        labs, xs = p.align([(l, a)] + [((v,), np.arange(p.axis(v), dtype=float)) for v in vs])
        a = xs[0]
        a = np.transpose(a, [labs.index(v) for v in vs])
        return a
    rec = set()
    mean = run(Probe(rec=rec))
    if len(rec) > 80:
        raise _pit.NoEval('too many draws')
    cols = []
    for k in sorted(rec):
        cols.append((run(Probe(only=k)) - mean).ravel())
    C = np.zeros((mean.size, mean.size))
    for c in cols:
        C += np.outer(c, c)
    # affinity
    import hashlib
    w = {k: (int(hashlib.md5(repr(k).encode()).hexdigest()[:8], 16) / 2.0 ** 31 - 1) for k in rec}
    z = run(Probe(vals=lambda k: w.get(k, 0.0)))
    lin = mean.ravel() + sum((w[k] * c for k, c in zip(sorted(rec), cols)), np.zeros(mean.size))
    aff = np.allclose(z.ravel(), lin, rtol=1e-6, atol=1e-7, equal_nan=True)
    return mean, C, aff


def same_dist(scene, a, b):
    """equal distribution for values affine in Gaussian draws"""
    a, b = scene.av(a), scene.av(b)
    ps = pits(scene)
    s = same_shape(a, b, ps)
    if s:
        return Verdict(False, s)
    if s is None:
        return Verdict(None, 'shape unknown')
    if LIGHT[0]:
        return Verdict(True, 'shapes only')
    vs, x, y = common(a, b)
    if x is y:
        return Verdict(True, 'identical normal forms')
    if has_top(x) or has_top(y):
        return Verdict(None, 'value not tracked: ' + tops(x) + tops(y))
    n = 0
    why = ''
    for p in ps:
        try:
            m1, c1, f1 = moments(p, vs, x)
            m2, c2, f2 = moments(p, vs, y)
        except (_pit.NoEval, np.linalg.LinAlgError, ValueError) as e:
            why = str(e)
            continue
        if not f1 or not f2:
            why = 'not affine in its draws'
            continue
        n += 1
        for what, u, v in (('mean', m1, m2), ('covariance', c1, c2)):
            fin = np.isfinite(u) & np.isfinite(v)
            bad = fin & (np.abs(u - v) > 1e-6 * (1 + np.abs(u) + np.abs(v)))
            if bad.any():
                i = tuple(np.argwhere(bad)[0])
                return Verdict(False, '%s of the draw is %.6g instead of %.6g at %s' % (what, u[i], v[i], list(map(int, i))))
    if not n:
        return Verdict(None, why)
    return Verdict(True, 'equal mean and covariance at %d random points' % n)


# ----------------------------------------------------------------- reporting
START = time.time()


class TimeUp(BaseException):
    """the time limit of one obligation, or of the whole check, is over"""


def _timeup(sig, frame):
    raise TimeUp()


class Limit(object):
    """bounds the time of the outermost obligation in this process"""
    active = False

    def __init__(self, limit):
        left = BUDGET - (time.time() - START)
        self.limit = min(limit, left)

    def __enter__(self):
        self.own = not Limit.active
        if not self.own:
            return
        if self.limit <= 0:
            raise TimeUp()
        Limit.active = True
        signal.signal(signal.SIGALRM, _timeup)
        signal.setitimer(signal.ITIMER_REAL, self.limit)

    def __exit__(self, *exc):
        if self.own:
            signal.setitimer(signal.ITIMER_REAL, 0)
            Limit.active = False


BUDGET = 10800.0 if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 800.0


class Report(object):
    limit = 240.0

    def __init__(self, prop):
        self.prop = prop
        self.obs = []
        self.analysed = set()
        self.files = set()
        self.t0 = time.time()
        self.events = 0
        self.extra = {}

    def add(self, name, status, construct, detail=''):
        self.obs.append(dict(name=name, status=status, construct=construct, detail=detail))
        if os.environ.get('PEST_VERBOSE') and (status != 'ok' or os.environ['PEST_VERBOSE'] == '2'):
            print('  [%s] %s @ %s %s' % (status, name, construct, detail))

    def verdict(self, name, v, construct):
        self.add(name, 'ok' if v.ok else ('undecided' if v.ok is None else 'fail'), construct, v.why)

    def absorb(self, scene):
        self.analysed |= {(os.path.relpath(p, REPO) if p else '?', q) for p, q in scene.I.analysed
                          if p and p.startswith(REPO)}
        self.files |= {os.path.relpath(f, REPO) for f in scene.I.files if f.startswith(REPO)}
        self.events += len(scene.I.events)

    queue = None

    def defer(self):
        if self.queue is None:
            self.queue = []

    def flush(self, workers=8):
        """run the queued obligations in forked workers (fixed assignment: results do not depend on timing)"""
        q, self.queue = self.queue, None
        if not q:
            return
        import gc
        import pickle
        workers = min(workers, len(q))
        order = sorted(range(len(q)), key=lambda i: (hashlib.md5(repr((q[i][0], q[i][1])).encode()).hexdigest()))
        sys.stdout.flush()
        gc.freeze()
        kids = []
        for w in range(workers):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    self.obs, self.analysed, self.files, self.events, self.extra = [], set(), set(), 0, {}
                    out = []
                    for i in order[w::workers]:
                        n = len(self.obs)
                        self.obligation(*q[i])
                        out.append((i, self.obs[n:]))
                    sys.stdout.flush()
                    with os.fdopen(wr, 'wb') as f:
                        pickle.dump((out, self.analysed, self.files, self.events, self.extra), f)
                    code = 0
                except BaseException:
                    traceback.print_exc(limit=-3)
                finally:
                    os._exit(code)
            os.close(wr)
            kids.append((pid, r))
        got = {}
        for w, (pid, r) in enumerate(kids):
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            if data:
                out, an, fi, ev, ex = pickle.loads(data)
                got.update(out)
                self.analysed |= an
                self.files |= fi
                self.events += ev
                self.extra.update(ex)
        for i, (name, construct, fn) in enumerate(q):
            if i in got:
                self.obs += got[i]
            else:
                self.add(name, 'undecided', construct, 'analysis worker ended')

    def obligation(self, name, construct, fn):
        if self.queue is not None:
            self.queue.append((name, construct, fn))
            return
        n = len(LIVE)
        k = len(self.obs)
        self._obligation(name, construct, fn)
        for s in LIVE[n:]:
            self.absorb(s)
        self.decided(name, construct, LIVE[n:], k)
        del LIVE[n:]

    def decided(self, name, construct, scenes, k):
        """hook for aggregate checks: obligation decided, its results are self.obs[k:]"""

    def _obligation(self, name, construct, fn):
        """run fn() -> Verdict or list of (subname, Verdict); analysis failures are 'undecided',
        a callee that raises on every path is a violation"""
        try:
            with Limit(self.limit):
                r = fn()
        except TimeUp:
            self.add(name, 'undecided', construct, 'time limit of the analysis')
            return
        except RaiseOut as e:
            site = e.site[0] + ' ' + e.site[1] if isinstance(e.site, tuple) else str(e.site)
            self.add(name, 'fail', construct, 'raises %s%s at %s on every path' % (
                getattr(e.exc, 'name', '?'), list(getattr(e.exc, 'args', ())), site))
            return
        except Give as e:
            self.add(name, 'undecided', construct, 'analysis gave up: %s' % e)
            return
        except Missing as e:
            self.add(name, 'undecided', construct, 'anchor not found: %s' % e)
            return
        except RecursionError:
            self.add(name, 'undecided', construct, 'recursion limit')
            return
        except Exception as e:
            if os.environ.get('PEST_DEBUG'):
                traceback.print_exc(limit=-3)
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.add(name, 'undecided', construct, 'analysis error %s: %s (%s:%d)' % (
                type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
            return
        if isinstance(r, Verdict):
            self.verdict(name, r, construct)
        elif r:
            for sub, v in r:
                self.verdict(name + ' / ' + sub, v, construct)


def known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                parts = dict(x.split('=', 1) for x in line[8:].split(' | ')[0].split() if '=' in x)
                rest = line.split(' | ')
                if parts.get('property') == prop and len(rest) >= 3:
                    out.append((rest[1].strip(), rest[2].strip()))
    return out


def finish(rep, tier, technique, rule, level='other'):
    """evidence, KNOWN-FINDING / VIOLATION lines, exit status"""
    kf = known(rep.prop)
    bad = []
    seen = set()
    for o in rep.obs:
        if o['status'] != 'fail':
            continue
        for key, what in kf:
            if key == o['name']:
                o['status'] = 'known-finding'
                if key not in seen:
                    seen.add(key)
                    print('KNOWN-FINDING: property=%s %s' % (rep.prop, what))
                break
        else:
            bad.append(o)
    cnt = {}
    for o in rep.obs:
        cnt[o['status']] = cnt.get(o['status'], 0) + 1
    ev = {
        'property': rep.prop,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': level,
        'result': 'violation' if bad else 'held',
        'wall_s': round(time.time() - rep.t0, 2),
        'violations': len(bad),
        'repo_head': None,
        'coverage': {
            'explanation': rule,
            'technique': technique,
            'obligations': len(rep.obs),
            'discharged': cnt.get('ok', 0),
            'undecided': [dict(name=o['name'], why=o['detail']) for o in rep.obs if o['status'] == 'undecided'],
            'by_status': cnt,
            'functions_analysed': sorted('%s:%s' % x for x in rep.analysed),
            'files_read': sorted(rep.files),
            'events_inspected': rep.events,
            'obligation_list': [dict(name=o['name'], status=o['status'], construct=o['construct'],
                                     decision=o['detail'][:160]) for o in rep.obs],
        },
    }
    ev['coverage'].update(rep.extra)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', rep.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %s, %d functions analysed, %.1fs' % (
        rep.prop, len(rep.obs), ', '.join('%s %d' % (k, v) for k, v in sorted(cnt.items())), len(rep.analysed),
        time.time() - rep.t0))
    if bad:
        rp = os.path.join(HERE, 'evidence', 'replay-%s.json' % rep.prop)
        with open(rp, 'w') as f:
            json.dump(bad, f, indent=1)
        for o in bad[:10]:
            print('  violated: %s at %s: %s' % (o['name'], o['construct'], o['detail']))
        print('VIOLATION property=%s replay=%s' % (rep.prop, rp))
        return 1
    if not rep.obs:
        print('no obligation could be formed')
        return 2
    return 0


def params(fn):
    a = fn.node.args
    return tuple(x.arg for x in a.posonlyargs + a.args), a.vararg is not None, a.kwarg is not None


def public(scene, modname):
    m = scene.mod(modname)
    if m is None:
        raise Missing(modname)
    out = {}
    for k, v in scene.I.modframe(scene.s, m).vars.items():
        if k.startswith('_'):
            continue
        if isinstance(v, Fn) and v.mod is m:
            out[k] = v
        elif isinstance(v, Cls) and v.mod is m:
            for c in reversed(v.mro):
                for n, f in c.attrs.items():
                    if isinstance(f, Fn) and (not n.startswith('_') or n == '__init__'):
                        out[k + '.' + n] = f
    return out


# ------------------------------------------------------------- user models
def rowclo(I, st, v, lead=1):
    """fn(i...) -> closure of the trailing part of array value v"""
    a = I.av(v, st)

    def f(*i):
        tail = [fresh(d) for d in a.shape[lead:]]
        return mk_closure(tail, a.at(list(i) + [ZERO if d is ONEP else P(x) for d, x in zip(a.shape[lead:], tail)]))
    return f, a


def whole_clo(I, st, v):
    """closure of a whole array argument / constant for None"""
    if v is None:
        return 'None'
    if isinstance(v, str):
        return v
    if isinstance(v, Gated):
        c = v.c
        return ('gated', c, whole_clo(I, st, v.a), whole_clo(I, st, v.b))
    if isinstance(v, TopV):
        return T.top(v.why)
    a = I.av(v, st)
    if not a.shape:
        return a.body
    return mk_closure([fresh(d) for d in ()] or a.vars, a.body)


def uhook(name, params, fn, optional=()):
    """hook with named parameters; fn(I, st, args dict, node) -> value; a 'hook' event is recorded"""
    def run(I, st, self_, args, kw, node):
        env = {}
        if len(args) > len(params):
            I.ev('binderr', st, node, msg='%s() takes %d arguments but %d were given' % (name, len(params), len(args)))
            raise RaiseOut(ExcV('TypeError', (name + '() argument count',)), I.where(node))
        for p, v in zip(params, args):
            env[p] = v
        for k, v in kw.items():
            if k not in params or k in env:
                I.ev('binderr', st, node, msg='%s() got an unexpected or repeated argument %r' % (name, k))
                raise RaiseOut(ExcV('TypeError', (name + '() argument ' + k,)), I.where(node))
            env[k] = v
        for p in params:
            if p not in env:
                if p in optional:
                    env[p] = None
                    continue
                I.ev('binderr', st, node, msg='%s() missing argument %r' % (name, p))
                raise RaiseOut(ExcV('TypeError', (name + '() missing ' + p,)), I.where(node))
        I.ev('hook', st, node, name=name, **{'a_' + k: v for k, v in env.items()})
        return fn(I, st, env, node)
    return Hook(name, run)


def perpart(name, shape, deps, params, sym=False, optional=(), part='particles'):
    """hook returning an (N,)+shape array whose row i depends on particle i and the other named arguments"""
    k = 2 + len(deps)          # name, row, deps...
    if sym:
        META[name] = {'sym': (1 + len(deps), 2 + len(deps))}

    def fn(I, st, env, node):
        row, a = rowclo(I, st, env[part])
        n = a.shape[0]
        ds = [whole_clo(I, st, env[d]) for d in deps]
        return newarr(mkav((n,) + tuple(shape), lambda i, *r: mk_in(name, row(i), *(ds + [P(x) for x in r]))))
    return uhook(name, params, fn, optional)


# ------------------------------------------------- hooks with row semantics
def rows(name):
    def d(I, st, env, node):
        if env[name] is None or not isinstance(env[name], TopV) and not I.av(env[name], st, node).shape:
            fail(I, st, node, 'binderr', 'argument %s passed to the model is not an array' % name, 'TypeError')
        f, a = rowclo(I, st, env[name])
        return f, a.shape[0]
    return d


def rowsel(name, ind):
    """row i is name[ind[i]]"""
    def d(I, st, env, node):
        v = I.getitem(env[name], (env[ind],), st, node)
        f, a = rowclo(I, st, v)
        return f, a.shape[0]
    return d


def elem(name, ind=None):
    """element ind (an argument name or an integer) of a sequence argument"""
    def d(I, st, env, node):
        i = env[ind] if isinstance(ind, str) else sc(P(ind), 'i')
        if isinstance(ind, str) and not isinstance(i, TopV) and (i is None or I.av(i, st, node).shape):
            fail(I, st, node, 'binderr', 'index %s passed to the model is not an integer' % ind, 'TypeError')
        x = whole_clo(I, st, I.getitem(env[name], (i,), st, node))
        return (lambda i: x), None
    return d


def ln(name):
    def d(I, st, env, node):
        if env[name] is None:
            return (lambda i: 'None'), None
        n = I.length(env[name], st, node)
        return (lambda i: n), None
    return d


def whole_(name):
    def d(I, st, env, node):
        x = whole_clo(I, st, env[name])
        return (lambda i: x), None
    return d


def dephook(name, params, shape, deps, inplace=None, optional=(), n=None, sym=False, dt='f'):
    """hook returning an (n,)+shape array (or writing it to argument `inplace`) whose row i is an unknown
    function of the row-i values of deps"""
    if sym:
        META[name] = {'sym': (len(deps), len(deps) + 1)}

    def fn(I, st, env, node):
        fs = [d(I, st, env, node) for d in deps]
        cnt = n(I, st, env) if n else next(m for _, m in fs if m is not None)
        v = newarr(mkav((cnt,) + tuple(shape),
                        lambda i, *r: mk_in(name, *([f(P(i)) for f, _ in fs] + [P(x) for x in r])), dt))
        if inplace:
            I.write(env[inplace], v, st, node)
            return env[inplace]
        return v
    return uhook(name, params, fn, optional)


def user_class(scene, modname, base, hooks, name='UserModel'):
    b = scene.get(modname, base) if isinstance(base, str) else base
    bases = [b] if not isinstance(b, list) else b
    return Cls(name, bases, dict(hooks), bases[0].mod)
