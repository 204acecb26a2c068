"""Equality of value terms by evaluating the two *terms* at random points
(random interpretation / polynomial identity testing).  No code of the
analysed program runs: only normal-form terms produced by the analysis are
evaluated, over hashed pseudo-random inputs.
"""
import numpy as np
from .terms import *
from . import terms as T

np.seterr(all='ignore')
U = np.uint64


class NoEval(Exception):
    pass


def mix(x):
    x = (x + U(0x9E3779B97F4A7C15))
    x = (x ^ (x >> U(30))) * U(0xBF58476D1CE4E5B9)
    x = (x ^ (x >> U(27))) * U(0x94D049BB133111EB)
    return x ^ (x >> U(31))


def h0(s):
    import hashlib
    return U(int.from_bytes(hashlib.md5(repr(s).encode()).digest()[:8], 'little'))


def unit(h):
    return (h >> U(11)).astype(np.float64) / float(1 << 53)


def toint(a):
    return np.rint(np.nan_to_num(a, nan=0, posinf=0, neginf=0)).astype(np.int64)


class Pit(object):
    def __init__(self, seed=1, dims=None, rnd=None):
        self.seed = seed
        self.dims = dict(dims or {})
        self.rnd = rnd            # override for random atoms: fn(kind, seqno, lv, idx arrays) -> array
        self.cache = {}
        self.bind = {}
        self.cref = None
        self.used = set()

    # -------------------------------------------------------------- helpers
    def sub(self, bind, cref):
        o = Pit.__new__(Pit)
        o.seed, o.dims, o.rnd, o.used = self.seed, self.dims, self.rnd, self.used
        o.bind = dict(self.bind)
        o.bind.update(bind)
        o.cref = cref
        o.cache = {}
        return o

    def symval(self, a):
        name, mn = a.args[0], a.args[1]
        if isinstance(name, tuple) and name and name[-1] == '+':
            base = [x for x in T._intern.values() if False]
            raise NoEval('shifted sym')
        if name in self.dims:
            return float(max(mn, self.dims[name]))
        h = int(mix(h0((name, self.seed))))
        return float(max(mn, 2 + h % 2))

    def extent(self, v):
        """(labels, array) of the extent of a variable"""
        return self.ev(v.args[1])

    def extmax(self, v):
        l, a = self.extent(v)
        return int(max(0, np.max(np.rint(a)))) if a.size else 0

    def axis(self, v):
        n = self.extmax(v)
        if n > 40:
            raise NoEval('large extent')
        return n

    def align(self, items, extra=()):
        """broadcast labelled arrays to the union of their labels"""
        labs = []
        for l, a in items:
            for v in l:
                if v not in labs:
                    labs.append(v)
        out = []
        for l, a in items:
            idx = []
            order = [v for v in labs if v in l]
            a2 = np.transpose(a, [l.index(v) for v in order])
            sh = []
            k = 0
            for v in labs:
                if v in l:
                    sh.append(a2.shape[k])
                    k += 1
                else:
                    sh.append(1)
            out.append(a2.reshape(sh))
        if len(labs) > 12:
            raise NoEval('too many variables')
        tot = 1
        for v in labs:
            tot *= max(1, self.axis(v))
        if tot > 3000000:
            raise NoEval('too large')
        out = np.broadcast_arrays(*out) if out else []
        return tuple(labs), [np.asarray(x) for x in out]

    # ----------------------------------------------------------- evaluation
    def ev(self, p):
        r = self.cache.get(p)
        if r is None:
            r = self.cache[p] = self._ev(p)
        return r

    def _ev(self, p):
        if not p.terms:
            return ((), np.zeros(()))
        tot = None
        for f, s, c in p.terms:
            t = self.term(f, s, float(c))
            if tot is None:
                tot = t
            else:
                labs, (x, y) = self.align([tot, t])
                tot = (labs, x + y)
        return tot

    def term(self, f, s, c):
        fs = []
        mask = []
        for a, e in f:
            l, x = self.atom(a)
            if a.kind in T.IND:
                mask.append((l, x))
                continue
            if e != 1:
                if e.denominator == 1:
                    x = x ** float(e) if e > 0 else 1.0 / (x ** float(-e))
                else:
                    x = np.power(x, float(e))
            fs.append((l, x))
        for v in s:
            if v.args[1].fv:
                el, ex = self.extent(v)
                labs, (vv, ee) = self.align([self.var(v), (el, ex)])
                mask.append((labs, (vv < ee - 0.5).astype(float)))
        items = fs + mask
        if not items:
            r = ((), np.asarray(c))
            for v in s:
                el, ex = self.extent(v)
                r = self.mul(r, (el, ex))
            return r
        have = set()
        for l, x in items:
            have |= set(l)
        miss = [v for v in s if v not in have]
        finite = all(np.all(np.isfinite(x)) for l, x in items)
        if finite and len(items) <= 12 and s:
            names = {}
            ops = []
            labs = []
            for l, x in items:
                for v in l:
                    if v not in names:
                        names[v] = len(names)
                ops += [x, [names[v] for v in l]]
            out = [v for v in names if v not in s]
            if len(names) > 40:
                raise NoEval('too many variables')
            r = (tuple(out), np.einsum(*(ops + [[names[v] for v in out]]), optimize='greedy') * c)
        else:
            labs, xs = self.align(items)
            val = np.ones(xs[0].shape) * c
            for x in xs[:len(fs)]:
                val = val * x
            for m in xs[len(fs):]:
                val = np.where(m == 0, 0.0, val)
            ax = tuple(i for i, v in enumerate(labs) if v in s)
            if ax:
                val = val.sum(axis=ax)
            r = (tuple(v for v in labs if v not in s), val)
        for v in miss:
            el, ex = self.extent(v)
            r = self.mul(r, (el, ex))
        return r

    def mul(self, a, b):
        labs, (x, y) = self.align([a, b])
        return labs, x * y

    def var(self, v):
        if v in self.bind:
            return ((), np.asarray(float(self.bind[v])))
        return ((v,), np.arange(self.axis(v), dtype=float))

    def atom(self, a):
        r = self.cache.get(a)
        if r is None:
            r = self.cache[a] = self._atom(a)
        return r

    def arr(self, c):
        """closure -> (env labels, array with closure axes last)"""
        key = ('A', c)
        r = self.cache.get(key)
        if r is not None:
            return r
        sub = self
        if any(v in self.bind for v in c.vars):
            raise NoEval('rebound')
        l, a = self.ev(c.body)
        env = tuple(v for v in l if v not in c.vars)
        order = [l.index(v) for v in env]
        a = np.transpose(a, order + [l.index(v) for v in c.vars if v in l])
        sh = list(a.shape[:len(env)])
        k = len(env)
        full = list(sh)
        for v in c.vars:
            n = self.axis(v)
            full.append(n)
            if v in l:
                sh.append(a.shape[k])
                k += 1
            else:
                sh.append(1)
        a = np.broadcast_to(a.reshape(sh), full)
        r = self.cache[key] = (env, a)
        return r

    def valid(self, c):
        """mask of valid positions of a closure with ragged extents, or None"""
        m = None
        for v in c.vars:
            if v.args[1].fv:
                el, ex = self.extent(v)
                labs, (x, y) = self.align([((v,), np.arange(self.axis(v), dtype=float)), (el, ex)])
                t = (labs, (x < y - 0.5).astype(float))
                m = t if m is None else self.mul(m, t)
        return m

    def gather(self, env, A, idx):
        """A[env..., i, j, ...] at labelled index arrays"""
        n = len(idx)
        items = [(v, np.arange(A.shape[k], dtype=float)) for k, v in enumerate(env)]
        items = [((v,), x) for v, x in items] + list(idx)
        if not items:
            return ((), A)
        labs, xs = self.align(items)
        ii = []
        for k, x in enumerate(xs):
            n = A.shape[k]
            if n == 0:
                return labs, np.zeros(xs[0].shape)
            ii.append(np.clip(toint(x), 0, n - 1))
        return labs, A[tuple(ii)]

    def features(self, args):
        """discrete hash items and real-valued features of the arguments"""
        disc, real, static = [], [], []

        def walk(x):
            if isinstance(x, Poly):
                if x.kinds & {'top'}:
                    raise NoEval('top')
                l, a = self.ev(x)
                (disc if is_int(x) else real).append((l, a))
            elif isinstance(x, Closure):
                env, A = self.arr(x)
                if 'top' in x.kinds:
                    raise NoEval('top')
                static.append(A.shape[len(env):])
                m = self.valid(x)
                isint = is_int(x.body)
                for pos in np.ndindex(*A.shape[len(env):]):
                    (disc if isint else real).append((env, A[(Ellipsis,) + pos]))
            elif isinstance(x, tuple):
                static.append(len(x))
                for y in x:
                    walk(y)
            elif isinstance(x, Atom):
                real.append(self.atom(x))
            else:
                static.append(x)
        for x in args:
            walk(x)
        return disc, real, static

    def hashed(self, name, args, meta=None, pos=False):
        disc, real, static = self.features(args)
        meta = meta or {}
        s = h0((name, self.seed, tuple(map(str, static)), len(disc), len(real)))
        if not disc and not real:
            labs, D, R = (), [], []
            shape = ()
        else:
            labs, xs = self.align(disc + real)
            D, R = xs[:len(disc)], xs[len(disc):]
            shape = xs[0].shape
        D = [toint(x) for x in D]
        h = np.full(shape, s, dtype=U)
        for x in D:
            h = mix(h ^ mix(x.astype(np.int64).view(U) if x.shape else U(int(x) & (2**64 - 1))))
        if meta.get('int'):
            hi = meta.get('range')
            if hi is not None:
                l2, n = self.ev(hi)
                if l2:
                    raise NoEval('ranged')
                n = int(np.rint(n))
            else:
                n = 3
            return labs, (mix(h) % U(max(1, n))).astype(float)
        if not R:
            v = unit(mix(h)) * 2 - 1
            v = v + np.sign(v) * 0.25
        else:
            v = np.zeros(shape)
            for q in range(2):
                ph = unit(mix(h ^ U(77 + q))) * 6.0
                for k, x in enumerate(R):
                    w = unit(mix(h ^ U(1000 + 91 * k + q))) * 1.1 + 0.35
                    ph = ph + w * np.clip(np.nan_to_num(x, nan=0.5), -1e6, 1e6)
                v = v + np.cos(ph) * (0.9 - 0.3 * q)
        if meta.get('pos') or meta.get('nonneg') or pos:
            v = np.abs(v) * 0.8 + 0.3
        elif meta.get('lo') is not None:
            v = meta['lo'] + (meta['hi'] - meta['lo']) * unit(mix(h))
        elif meta.get('scale'):
            v = v * meta['scale']
        return labs, v

    def _atom(self, a):
        k = a.kind
        A = a.args
        if k == 'var':
            return self.var(a)
        if k == 'sym':
            return ((), np.asarray(self.symval(a)))
        if k == 'in':
            m = META.get(A[0]) or {}
            if m.get('sym'):
                return self.symhook(A[0], A[1:], m)
            return self.hashed(('in', A[0]), A[1:], m)
        if k == 'num':
            return ((), np.asarray(float(A[0])))
        if k == 'pi':
            return ((), np.asarray(np.pi))
        if k == 'inf':
            return ((), np.asarray(np.inf))
        if k == 'nan':
            return ((), np.asarray(np.nan))
        if k == 'poly':
            return self.ev(A[0])
        if k == 'el':
            env, X = self.arr(A[0])
            return self.gather(env, X, [self.ev(x) for x in A[1:]])
        if k == 'exp':
            l, x = self.ev(A[0])
            return l, np.exp(x)
        if k == 'log':
            l, x = self.ev(A[0])
            return l, np.log(x)
        if k == 'ge':
            l, x = self.ev(A[0])
            return l, (x > -0.5).astype(float)
        if k == 'pos':
            l, x = self.ev(A[0])
            return l, (x > 0).astype(float)
        if k == 'eq':
            l, x = self.ev(A[0])
            return l, (np.abs(x) < 1e-9).astype(float)
        if k == 'trunc':
            l, x = self.ev(A[0])
            return l, np.trunc(x + np.sign(x) * 1e-9)
        if k == 'floor':
            l, x = self.ev(A[0])
            return l, np.floor(x + 1e-9)
        if k == 'abs':
            l, x = self.ev(A[0])
            return l, np.abs(x)
        if k == 'pow':
            l, (x, y) = self.align([self.ev(A[0]), self.ev(A[1])])
            return l, np.power(x, y)
        if k in ('div', 'mod'):
            l, (x, y) = self.align([self.ev(A[0]), self.ev(A[1])])
            x, y = np.rint(x), np.rint(y)
            q = np.floor_divide(x, y)
            return l, (q if k == 'div' else x - q * y)
        if k in ('sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'arctan', 'arcsin', 'arccos'):
            l, x = self.ev(A[0])
            return l, getattr(np, k)(x)
        if k in ('inv', 'cholU', 'chof', 'psdF'):
            env, X = self.arr(A[0])
            if k == 'inv':
                M = np.linalg.inv(X) if X.shape[-1] == X.shape[-2] else _bad()
            elif k == 'psdF':
                M = _psd(X)
            else:
                M = _chol(X)
                if k == 'chof':
                    n = X.shape[-1]
                    low = np.tril(np.ones((n, n)), -1) > 0
                    g = unit(mix(np.arange(n * n).astype(U) ^ h0(('chof', self.seed)))).reshape(n, n) + 3
                    M = np.where(low, g, M)
            return self.gather(env, M, [self.ev(x) for x in A[1:3]])
        if k == 'logdet':
            env, X = self.arr(A[0])
            s, ld = np.linalg.slogdet(X)
            return env, np.where(s > 0, ld, np.nan)
        if k in ('svdU', 'svdS', 'svdV'):
            env, X = self.arr(A[0])
            u, s, v = np.linalg.svd(X)
            M = {'svdU': u, 'svdS': s, 'svdV': v}[k]
            return self.gather(env, M, [self.ev(x) for x in A[1:]])
        if k == 'max':
            c = A[0]
            env, X = self.arr(c)
            m = self.valid(c)
            if m is not None:
                labs, (x, y) = self.align([(env + c.vars, X), m])
                X = np.where(y == 0, -np.inf, x)
                env = tuple(v for v in labs if v not in c.vars)
                X = np.transpose(X, [labs.index(v) for v in env] + [labs.index(v) for v in c.vars])
            ax = tuple(range(len(env), X.ndim))
            if any(X.shape[i] == 0 for i in ax):
                return env, np.full(X.shape[:len(env)], np.nan)
            return env, np.max(X, axis=ax)
        if k in ('cnt', 'count'):
            env, X = self.masked(A[0])
            ax = tuple(range(len(env), X.ndim))
            return env, (X > 0.5).sum(axis=ax).astype(float)
        if k in ('nz', 'rank', 'argmax', 'argsort', 'searchsorted', 'member', 'lastat', 'pctl'):
            return self.special(k, A)
        if k == 'rand':
            kind, n, lv, idx = A
            if self.rnd is not None:
                r = self.rnd(self, kind, n, lv, idx)
                if r is not None:
                    return r
            if kind == 'perm':
                return self.permute(n, lv, idx[0])
            return self.hashed(('rand', kind, n), (lv, idx), None) if kind == 'normal' \
                else self.unif(kind, n, lv, idx)
        if k == 'undef':
            return self.hashed(('undef',), A)
        if k == 'gamma':
            return self.hashed(('gamma',), A)
        if k == 'mu':
            return self.mu(A)
        if k == 'cref':
            if A[0] not in (self.cref or {}):
                raise NoEval('cref')
            st = self.cref[A[0]]
            return self.gather((), st, [self.ev(x) for x in A[2:]])
        if k == 'perm':
            raise NoEval('perm')
        raise NoEval(k)

    def permute(self, n, lv, i):
        h, x = self.hashed(('rand', 'perm', n), (lv, ()), None), self.ev(i)
        labs, (v, xi, d) = self.align([h, x, self.ev(lv[-1])])
        d = np.maximum(d, 1)
        r = np.floor(np.abs(v) * 1e6)
        return labs, np.mod(np.where(np.mod(r, 2) == 0, 1, -1) * xi + np.floor(r / 2), d)

    def unif(self, kind, n, lv, idx):
        l, v = self.hashed(('rand', kind, n), (lv, idx), {'int': False})
        return l, np.clip(np.abs(v) * 0.8 - 0.1, 0.02, 0.98)

    def symhook(self, name, args, m):
        pi_, pj_ = m['sym']
        li, lj = self.ev(args[pi_]), self.ev(args[pj_])
        rest = tuple(x for k, x in enumerate(args) if k not in (pi_, pj_))
        labs, (x, y) = self.align([li, lj])
        lo, hi = np.minimum(x, y), np.maximum(x, y)
        disc, real, static = self.features(rest)
        disc = [(labs, lo), (labs, hi)] + disc
        s = h0((name, self.seed, tuple(map(str, static)), len(disc), len(real)))
        L, xs = self.align(disc + real + [(labs, x), (labs, y)])
        D, R = xs[:len(disc)], xs[len(disc):-2]
        x, y = xs[-2:]
        h = np.full(xs[0].shape, s, dtype=U)
        for d in D:
            h = mix(h ^ mix(toint(d).view(U) if d.shape else U(int(toint(d)) & (2**64 - 1))))
        v = unit(mix(h)) * 2 - 1
        if R:
            ph = unit(mix(h ^ U(5))) * 6
            for k, r in enumerate(R):
                ph = ph + (unit(mix(h ^ U(1000 + 91 * k))) * 1.1 + 0.35) * r
            v = np.cos(ph)
        return L, np.where(np.rint(x) == np.rint(y), 2.4 + 0.5 * v, 0.3 * v)

    def masked(self, c):
        env, X = self.arr(c)
        m = self.valid(c)
        if m is not None:
            labs, (x, y) = self.align([(env + c.vars, X), m])
            X = np.where(y == 0, 0.0, x)
            env = tuple(v for v in labs if v not in c.vars)
            X = np.transpose(X, [labs.index(v) for v in env] + [labs.index(v) for v in c.vars])
        return env, X

    def special(self, k, A):
        c = A[0]
        env, X = self.arr(c) if k != 'nz' and k != 'rank' else self.masked(c)
        if len(c.vars) != 1:
            raise NoEval(k)
        n = X.shape[-1]
        if n == 0:
            raise NoEval('empty')
        m = self.valid(c)
        if m is not None and k not in ('nz', 'rank'):
            raise NoEval('ragged')
        if k == 'argmax':
            return env, np.argmax(X, axis=-1).astype(float)
        if k == 'pctl':
            l, q = self.ev(A[1])
            if l:
                raise NoEval('pctl')
            return env, np.percentile(X, float(np.clip(q, 0, 100)), axis=-1)
        if k == 'argsort':
            return self.gather(env, np.argsort(X, axis=-1, kind='stable').astype(float), [self.ev(A[1])])
        if k == 'rank':
            R = np.cumsum(X > 0.5, axis=-1) - (X > 0.5)
            return self.gather(env, R.astype(float), [self.ev(A[1])])
        if k == 'nz':
            order = np.argsort(~(X > 0.5), axis=-1, kind='stable').astype(float)
            return self.gather(env, order, [self.ev(A[1])])
        q = self.ev(A[1])
        labs, xs = self.align([((v,), np.arange(X.shape[i], dtype=float)) for i, v in enumerate(env)] + [q])
        ii = tuple(toint(x) for x in xs[:-1])
        Y = np.broadcast_to(X[ii] if env else X, xs[-1].shape + (n,))
        qq = xs[-1][..., None]
        if k == 'searchsorted':
            if A[2] == 'right':
                r = (Y <= qq + 1e-12).sum(-1)
            else:
                r = (Y < qq - 1e-12).sum(-1)
            return labs, r.astype(float)
        eq = np.abs(Y - qq) < 1e-9
        if k == 'member':
            return labs, eq.any(-1).astype(float)
        last = n - 1 - np.argmax(eq[..., ::-1], axis=-1)
        return labs, last.astype(float)

    def mu(self, A):
        group, my, kk = A[0], A[1], A[2]
        idx = A[3:]
        lev = my - my % 1000
        for init, step in group:
            if step.fv or init.fv:
                raise NoEval('open recurrence')
        lk, kv = self.ev(kk)
        K = int(np.max(np.rint(kv))) if kv.size else 0
        key = ('mu', group)
        hist = self.cache.get(key)
        if hist is None:
            st = [self.arr(init)[1] for init, step in group]
            hist = self.cache[key] = [st]
        while len(hist) <= K:
            k = len(hist) - 1
            st = hist[-1]
            new = []
            for n, (init, step) in enumerate(group):
                s = self.sub({step.vars[0]: k}, {**(self.cref or {}), **{lev + j: x for j, x in enumerate(st)}})
                c = step
                l, a = s.ev(c.body)
                vs = c.vars[1:]
                sh = []
                order = [l.index(v) for v in vs if v in l]
                if len(order) != len(l):
                    raise NoEval('open recurrence')
                a = np.transpose(a, order)
                kx = 0
                full = []
                for v in vs:
                    full.append(s.axis(v))
                    if v in l:
                        sh.append(a.shape[kx])
                        kx += 1
                    else:
                        sh.append(1)
                new.append(np.broadcast_to(a.reshape(sh), full))
            hist.append(new)
            if len(hist) > 60:
                raise NoEval('long recurrence')
        S = np.stack([h[my - lev] for h in hist[:K + 1]])
        return self.gather((), S, [(lk, kv)] + [self.ev(x) for x in idx])


def _bad():
    raise NoEval('shape')


def _chol(X):
    S = (X + np.swapaxes(X, -1, -2)) * 0.5
    try:
        return np.swapaxes(np.linalg.cholesky(S), -1, -2)
    except np.linalg.LinAlgError:
        out = np.full(X.shape, np.nan)
        for p in np.ndindex(*X.shape[:-2]):
            try:
                out[p] = np.linalg.cholesky(S[p]).T
            except np.linalg.LinAlgError:
                pass
        return out


def _psd(X):
    w, v = np.linalg.eigh((X + np.swapaxes(X, -1, -2)) * 0.5)
    return np.where(w[..., None, :] > -1e-9, v * np.sqrt(np.maximum(w, 0))[..., None, :], np.nan)
