"""Value domain of the analysis: canonical sums of products over index variables.

A scalar value is a `Poly`: a sum of terms  coef * prod(atom ** exp), each term
possibly summed over bound index variables.  Array values are closures (lambda
abstractions) over index variables.  Nodes are hash-consed and put in a normal
form, so that value equality is node identity (global value numbering).
"""
import hashlib
import itertools
from fractions import Fraction

ONE = 1


def Fr(*a):
    """rational; whole numbers are plain ints"""
    if len(a) == 1 and type(a[0]) is int:
        return a[0]
    r = Fraction(*a)
    return r.numerator if r.denominator == 1 else r


def qdiv(a, b):
    r = Fraction(a) / b
    return r.numerator if r.denominator == 1 else r


def qpow(a, n):
    r = Fraction(a) ** n
    return r.numerator if r.denominator == 1 else r

_intern = {}
_fresh = itertools.count()


def _digest(s):
    return hashlib.md5(s.encode()).hexdigest()[:20]


def akey(a):
    if isinstance(a, (Atom, Poly, Closure)):
        return a.key
    if isinstance(a, tuple):
        return '(' + ','.join(akey(x) for x in a) + ')'
    return repr(a)


def _fv(a):
    if isinstance(a, (Atom, Poly, Closure)):
        return a.fv
    if isinstance(a, tuple):
        r = frozenset()
        for x in a:
            f = _fv(x)
            if f:
                r = r | f
        return r
    return frozenset()


def _height(a):
    if isinstance(a, (Atom, Poly, Closure)):
        return a.height
    if isinstance(a, tuple):
        return max((_height(x) for x in a), default=0)
    return 0


def _kinds(a):
    if isinstance(a, (Atom, Poly, Closure)):
        return a.kinds
    if isinstance(a, tuple):
        r = frozenset()
        for x in a:
            f = _kinds(x)
            if f:
                r = r | f
        return r
    return frozenset()


class Atom(object):
    __slots__ = ('kind', 'args', 'key', 'fv', 'height', 'kinds')

    def __repr__(self):
        return show_atom(self)


def mk_atom(kind, *args):
    k = (kind,) + args
    r = _intern.get(k)
    if r is None:
        r = Atom()
        r.kind = kind
        r.args = args
        if kind == 'var':
            r.key = 'v' + repr(args[0]) + (args[1].key if args[0][0] not in 'fu' else '')
            r.fv = frozenset((r,)) | _fv(args[1:])
            r.height = 0
        else:
            r.key = kind[:3] + _digest(kind + akey(args))
            r.fv = _fv(args)
            r.height = _height(args)
        r.kinds = _kinds(args) | frozenset((kind,))
        _intern[k] = r
    return r


class Poly(object):
    __slots__ = ('terms', 'key', 'fv', 'height', 'kinds')

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return padd(self, P(o))
    __radd__ = __add__

    def __sub__(self, o):
        return padd(self, pscale(P(o), -ONE))

    def __rsub__(self, o):
        return padd(P(o), pscale(self, -ONE))

    def __mul__(self, o):
        return pmul(self, P(o))
    __rmul__ = __mul__

    def __neg__(self):
        return pscale(self, -ONE)


class Closure(object):
    """lambda vars: body -- canonical, vars renamed by height."""
    __slots__ = ('vars', 'body', 'key', 'fv', 'height', 'kinds')

    def __repr__(self):
        return 'λ%s.%s' % (','.join(map(repr, self.vars)), show(self.body))

    @property
    def dims(self):
        return tuple(v.args[1] for v in self.vars)


def _mk_poly(d):
    items = [(f, s, c) for (f, s), c in d.items() if c != 0]
    if len(items) > 1:
        items.sort(key=lambda t: (tkey(t[0], t[1])))
    tup = ('P',) + tuple(items)
    r = _intern.get(tup)
    if r is None:
        r = Poly()
        r.terms = tuple(items)
        r.key = 'P' + _digest(';'.join(tkey(f, s) + '*' + str(c) for f, s, c in items))
        fv = set()
        kinds = set()
        h = 0
        for f, s, c in items:
            tf = set()
            for a, e in f:
                tf |= a.fv
                kinds |= a.kinds
                if a.height > h:
                    h = a.height
            for v in s:
                tf |= _fv(v.args[1])
                n = v.args[0]
                if n[0] == 's' and n[1] > h:
                    h = n[1]
            tf -= set(s)
            fv |= tf
        r.fv = frozenset(fv)
        r.kinds = frozenset(kinds)
        r.height = h
        _intern[tup] = r
    return r


_tk = {}


def tkey(f, s):
    k = (f, s)
    r = _tk.get(k)
    if r is None:
        r = '.'.join(a.key + '^' + str(e) for a, e in f)
        if s:
            r += '|S' + ','.join(v.key + ':' + v.args[1].key for v in s)
        _tk[k] = r
    return r


ZERO = _mk_poly({})


def const(c):
    c = Fr(c)
    if c == 0:
        return ZERO
    return _mk_poly({((), ()): c})


ONEP = const(1)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        r = _pat.get(x)
        if r is None:
            r = _pat[x] = _mk_poly({(((x, ONE),), ()): ONE})
        return r
    return const(x)


_pat = {}


def is_const(p):
    return not p.terms or (len(p.terms) == 1 and not p.terms[0][0] and not p.terms[0][1])


def cval(p):
    if not p.terms:
        return Fr(0)
    return p.terms[0][2]


def pscale(p, c):
    if c == 1:
        return p
    return _mk_poly({(f, s): k * c for f, s, k in p.terms})


def padd(a, b):
    if not a.terms:
        return b
    if not b.terms:
        return a
    d = {(f, s): c for f, s, c in a.terms}
    for f, s, c in b.terms:
        d[(f, s)] = d.get((f, s), 0) + c
    return _cancel(_mk_poly(d))


def psum(ps):
    d = {}
    for p in ps:
        for f, s, c in p.terms:
            d[(f, s)] = d.get((f, s), 0) + c
    return _cancel(_mk_poly(d))


_mulcache = {}


def pmul(a, b):
    if not a.terms or not b.terms:
        return ZERO
    if is_const(a):
        return pscale(b, cval(a))
    if is_const(b):
        return pscale(a, cval(b))
    k = (a.key, b.key) if a.key < b.key else (b.key, a.key)
    r = _mulcache.get(k)
    if r is not None:
        return r
    if len(a.terms) * len(b.terms) > 6 or _nsum(a) + _nsum(b) > 1:
        # keep large factors shared instead of distributing them
        a2, b2 = a, b
        if len(a.terms) * len(b.terms) > 6:
            a2, b2 = wrap(a), wrap(b)
            if len(a2.terms) * len(b2.terms) > 15:
                a2, b2 = wrap(a, force=len(a.terms) > 3), wrap(b, force=len(b.terms) > 3)
        if _nsum(a2) + _nsum(b2) > 1:
            if _nsum(a2) >= _nsum(b2):
                a2 = wrap(a2, True)
            else:
                b2 = wrap(b2, True)
        if a2 is not a or b2 is not b:
            r = pmul(a2, b2)
            _mulcache[k] = r
            return r
    out = []
    for f1, s1, c1 in a.terms:
        for f2, s2, c2 in b.terms:
            if s1 and s2:
                ren = {v: P(fresh(v.args[1])) for v in s2}
                f2x = [(subst_atom_ren(x, ren), e) for x, e in f2]
                s2x = [ren[v].terms[0][0][0][0] for v in s2]
            else:
                f2x, s2x = f2, s2
            out.append(product(c1 * c2, list(f1) + list(f2x), list(s1) + list(s2x)))
    r = psum(out)
    _mulcache[k] = r
    return r


def _nsum(p):
    return max((len(s) for f, s, c in p.terms), default=0)


def wrap(p, sums=False, force=False):
    """shared subterm, lambda-lifted over its free variables: el(closure, args)"""
    if len(p.terms) <= 1 and not (sums and p.terms and p.terms[0][1]):
        return p
    if 'top' in p.kinds or 'car' in p.kinds:
        return p
    if not force:
        for f, s, c in p.terms:
            for x, e in f:
                if x.kind in IND:
                    return p
    if is_int(p):
        return p
    fv = p.fv
    for v in fv:
        if v.args[1].fv:
            fv = fv | v.args[1].fv
    vs = []
    for v in sorted(fv, key=lambda v: (v.args[1].key, v.key)):
        _order(v, vs)
    c = mk_closure(vs, p)
    return _mk_poly({(((mk_atom('el', c, *[P(v) for v in vs]), ONE),), ()): ONE})


def _order(v, vs):
    if v in vs:
        return
    for w in sorted(v.args[1].fv, key=lambda v: (v.args[1].key, v.key)):
        _order(w, vs)
    vs.append(v)


def lift(c):
    """closure whose body is kept as one shared element when it is large"""
    b = c.body
    if len(b.terms) <= 2 and not _nsum(b):
        return c
    nv = [fresh(v.args[1]) for v in c.vars]
    if any(v.args[1].fv for v in c.vars):
        return c
    w = wrap(subst(b, {v: P(n) for v, n in zip(c.vars, nv)}), True, len(b.terms) > 3)
    return mk_closure(nv, w)


def fresh(dim, tag='f'):
    return mk_atom('var', (tag, next(_fresh), 0), P(dim))


def var(name, dim):
    return mk_atom('var', ('u', name, 0), P(dim))


def sym(name, minval=1):
    return P(mk_atom('sym', name, minval))


def subst_atom_ren(a, ren):
    """rename variables in an atom; result must stay an atom (pure renaming)"""
    if not (a.fv & ren.keys()):
        return a
    p = subst_atom(a, ren)
    # renaming may simplify (symmetry reorder, ge orientation); keep as Poly atom if needed
    if len(p.terms) == 1 and p.terms[0][2] == 1 and len(p.terms[0][0]) == 1 and not p.terms[0][1] \
            and p.terms[0][0][0][1] == 1:
        return p.terms[0][0][0][0]
    return mk_atom('poly', p)


# ------------------------------------------------------------------ integers
_pn = {}


def prove_ge0(p, depth=0):
    """True when integer/real poly p >= 0 provably (vars in range, syms >= min)."""
    if is_const(p):
        return cval(p) >= 0
    r = _pn.get(p)
    if r is None:
        r = _prove(p, depth)
        _pn[p] = r
    return r


def _prove(p, depth):
    if depth > 8:
        return False
    # pick a var
    vs = sorted([v for v in p.fv], key=lambda v: (-len(v.args[1].fv), v.key))
    for v in vs:
        co = {}
        rest = {}
        ok = True
        for f, s, c in p.terms:
            if s:
                return False
            fe = dict(f)
            e = fe.get(v, 0)
            if e == 0:
                if any(v in a.fv for a in fe):
                    ok = False
                    break
                rest[(f, s)] = c
            elif e == 1:
                del fe[v]
                if any(v in a.fv for a in fe):
                    ok = False
                    break
                co[(tuple((a, x) for a, x in f if a is not v), s)] = c
            else:
                ok = False
                break
        if not ok:
            continue
        cop = _mk_poly(co)
        restp = _mk_poly(rest)
        if not cop.terms:
            continue
        if prove_ge0(cop, depth + 1):
            return prove_ge0(restp, depth + 1)
        if prove_ge0(-cop, depth + 1):
            return prove_ge0(restp + cop * (v.args[1] - ONEP), depth + 1)
    # no vars left: syms
    q = p
    syms = set()
    for f, s, c in p.terms:
        if s:
            return False
        for a, e in f:
            if a.kind == 'sym':
                syms.add(a)
            elif a.kind == 'var':
                return False
            elif nonneg_atom(a):
                pass
            else:
                return False
    mp = {}
    for a in syms:
        mp[a] = P(mk_atom('sym', (a.args[0], '+'), 0)) + const(a.args[1])
    if mp:
        q = psum([_shift_term(f, c, mp) for f, s, c in p.terms])
    return all(c >= 0 for f, s, c in q.terms)


def _shift_term(f, c, mp):
    r = const(c)
    for a, e in f:
        b = mp.get(a)
        if b is None:
            b = P(a)
        if e < 0 or e.denominator != 1:
            r = r * _mk_poly({(((a, e),), ()): ONE})
        else:
            for _ in range(int(e)):
                r = r * b
    return r


def nonneg_atom(a):
    if a.kind in ('ge', 'eq', 'pos', 'exp', 'logdetarg', 'abs', 'cnt'):
        return True
    if a.kind == 'sym':
        return a.args[1] >= 0
    if a.kind == 'in':
        return bool(META.get(a.args[0], {}).get('nonneg') or META.get(a.args[0], {}).get('pos'))
    if a.kind == 'var':
        return True
    if a.kind == 'rand':
        return a.args[0] in ('uniform', 'rand', 'perm')
    if a.kind in ('searchsorted', 'argmax', 'argsort', 'perm', 'nz', 'rank'):
        return True
    return False


def is_int_atom(a):
    if a.kind in ('var', 'sym', 'ge', 'eq', 'pos', 'div', 'mod', 'searchsorted', 'argmax', 'argsort', 'perm', 'cnt', 'nz', 'rank', 'floor', 'trunc'):
        return True
    if a.kind == 'in':
        return bool(META.get(a.args[0], {}).get('int'))
    if a.kind == 'car':
        return bool(a.args and META.get(('car', a.args[0]), {}).get('int'))
    if a.kind == 'max':
        return is_int(a.args[0].body)
    if a.kind == 'rand':
        return a.args[0] == 'perm'
    if a.kind == 'mu':
        return False
    return False


def is_int(p):
    for f, s, c in p.terms:
        if c.denominator != 1:
            return False
        for a, e in f:
            if e.denominator != 1 or e < 0 or not is_int_atom(a):
                return False
    return True


META = {}
IND = ('ge', 'eq', 'pos')


# ------------------------------------------------------------------ product
_prodcache = {}


def product(coef, factors, sumvars):
    """canonical Poly for coef * prod(factors) summed over sumvars"""
    if coef == 0:
        return ZERO
    key = (tuple(sorted(((a.key, e) for a, e in factors))), tuple(sorted((v.key, v.args[1].key) for v in sumvars)))
    r = _prodcache.get(key)
    if r is None:
        r = _product(list(factors), list(sumvars))
        _prodcache[key] = r
    return pscale(r, coef)


def _product(factors, sumvars):
    d = {}
    for a, e in factors:
        d[a] = d.get(a, 0) + e
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
        elif a.kind in IND:
            if e > 0:
                d[a] = ONE
    # expand poly atoms with positive integer exponents
    for a in list(d):
        if a.kind == 'poly' and d[a] > 0 and d[a].denominator == 1:
            e = int(d.pop(a))
            base = _terms_sum([(c, list(f) + list(d.items()), list(s) + sumvars) for f, s, c in _open_terms(a.args[0])])
            for _ in range(e - 1):
                base = base * a.args[0] if not sumvars else _mul_under(base, a.args[0])
            return base
    # indicators
    inds = [a for a in d if a.kind == 'ge']
    if len(inds) > 1:
        for x, y in itertools.permutations(inds, 2):
            if x in d and y in d:
                if prove_ge0(y.args[0] - x.args[0]):
                    del d[y]
                elif prove_ge0(const(-1) - x.args[0] - y.args[0]):
                    return ZERO
    inds = [a for a in d if a.kind == 'pos']
    if len(inds) > 1:
        for x, y in itertools.permutations(inds, 2):
            if x in d and y in d:
                s = sign_of(y.args[0] - x.args[0])
                if s is not None and s >= 0:
                    del d[y]
                else:
                    s = sign_of(-(x.args[0] + y.args[0]))
                    if s is not None and s >= 0:
                        return ZERO
    # equality indicators: substitute
    for a in sorted([a for a in d if a.kind == 'eq'], key=lambda a: a.key):
        v, sol = _solve_eq(a.args[0], sumvars)
        if v is None:
            continue
        if v in sumvars:
            sumvars = [w for w in sumvars if w is not v]
            del d[a]
            lo = mk_ge(sol)
            hi = mk_ge(v.args[1] - ONEP - sol)
            m = {v: sol}
            res = lo * hi if not sumvars else None
            if res is not None:
                for b, e in d.items():
                    res = res * ppow(subst_atom(b, m), e)
                return res
            acc = [(ONE, [], [])]
            return _rebuild([lo, hi] + [ppow(subst_atom(b, m), e) for b, e in d.items()], sumvars)
        # free variable: rewrite other factors
        others = [b for b in d if b is not a and v in b.fv]
        if others:
            m = {v: sol}
            parts = []
            for b, e in d.items():
                if b is a:
                    parts.append(P(a))
                else:
                    parts.append(ppow(subst_atom(b, m), e) if v in b.fv else ppow(P(b), e))
            return _rebuild(parts, sumvars)
    # sum variables
    for v in list(sumvars):
        dim = v.args[1]
        if dim is ONEP:
            rest = [w for w in sumvars if w is not v]
            m = {v: ZERO}
            return _rebuild([ppow(subst_atom(b, m), e) if v in b.fv else ppow(P(b), e) for b, e in d.items()], rest)
        if is_const(dim) and cval(dim) <= 0:
            return ZERO
        if not any(v in b.fv for b in d) and not any(v in w.args[1].fv for w in sumvars if w is not v):
            rest = [w for w in sumvars if w is not v]
            return _rebuild([dim] + [ppow(P(b), e) for b, e in d.items()], rest)
        # ge(v - c): shift range ; ge(c - v): truncate
        for b in list(d):
            if b.kind == 'ge' and v in b.fv:
                lin = _linear(b.args[0], v)
                if lin is None:
                    continue
                co, c0 = lin
                rest = [w for w in sumvars if w is not v]
                if (c0.fv & set(rest)):
                    continue
                if co == 1:
                    # v >= -c0
                    lo = -c0
                    if prove_ge0(lo):
                        nv = fresh(dim - lo)
                        m = {v: P(nv) + lo}
                    else:
                        continue
                elif co == -1:
                    # v <= c0 -> dim' = c0+1 (known <= dim-1?)
                    if prove_ge0(dim - ONEP - c0):
                        nv = fresh(c0 + ONEP)
                        m = {v: P(nv)}
                    else:
                        continue
                else:
                    continue
                dd = dict(d)
                del dd[b]
                return _rebuild([ppow(subst_atom(x, m), e) if v in x.fv else ppow(P(x), e) for x, e in dd.items()],
                                rest + [nv])
    if sumvars:
        r = _contract(d, sumvars)
        if r is not None:
            return r
    fs = tuple(sorted(d.items(), key=lambda t: t[0].key))
    if not sumvars:
        return _mk_poly({(fs, ()): ONE})
    return _canon_sum(fs, sumvars)


def _mul_under(base, p):
    return base * p


def _open_terms(p):
    """terms with sum variables renamed to fresh ones"""
    out = []
    for f, s, c in p.terms:
        if s:
            ren = {v: P(fresh(v.args[1])) for v in s}
            f = tuple((subst_atom_ren(x, ren), e) for x, e in f)
            s = tuple(ren[v].terms[0][0][0][0] for v in s)
        out.append((f, s, c))
    return out


def _terms_sum(lst):
    return psum([product(c, f, s) for c, f, s in lst])


def _rebuild(parts, sumvars):
    """sum over sumvars of the product of polys"""
    r = ONEP
    for p in parts:
        r = r * p
    if not sumvars:
        return r
    return sum_over(r, sumvars, split=False)


def sum_over(p, vs, split=True):
    """sum of poly p over variables vs (free in p)"""
    vs = list(vs)
    if 'undef' in p.kinds:
        for v in vs:
            if is_const(v.args[1]) and 0 <= cval(v.args[1]) <= 8 and v in p.fv:
                rest = [w for w in vs if w is not v]
                return psum([sum_over(subst(p, {v: const(k)}), rest, split) for k in range(int(cval(v.args[1])))])
    if split:
        for v in vs:
            p2 = _split_ranges(p, v)
            if p2 is not None:
                rest = [w for w in vs if w is not v]
                return psum([sum_over(q, rest + [nv]) for q, nv in p2])
    out = []
    for f, s, c in _open_terms(p):
        used = set()
        out.append(product(c, f, list(s) + vs))
    return psum(out)


def _split_ranges(p, v):
    """if p contains ge indicators linear in v, split v's range at the break points"""
    dim = v.args[1]
    pts = []
    for f, s, c in p.terms:
        for a, e in f:
            if a.kind == 'ge' and v in a.fv:
                lin = _linear(a.args[0], v)
                if lin is None or lin[0] not in (1, -1):
                    return None
                b = -lin[1] if lin[0] == 1 else lin[1] + ONEP
                if b.fv & set(s):
                    return None
                if b not in pts:
                    pts.append(b)
    if not pts:
        return None
    # order break points
    import functools
    ok = [True]

    def cmp(a, b):
        if prove_ge0(b - a):
            return -1
        if prove_ge0(a - b):
            return 1
        ok[0] = False
        return 0
    pts = sorted(pts, key=functools.cmp_to_key(cmp))
    if not ok[0]:
        return None
    if not prove_ge0(pts[0]) or not prove_ge0(dim - pts[-1]):
        return None
    edges = [ZERO] + pts + [dim]
    out = []
    for lo, hi in zip(edges, edges[1:]):
        ln = hi - lo
        if is_const(ln) and cval(ln) <= 0:
            continue
        nv = fresh(ln)
        out.append((subst(p, {v: P(nv) + lo}), nv))
    return out


def _linear(p, v):
    """p = co*v + rest with rational co, or None"""
    co = Fr(0)
    rest = {}
    for f, s, c in p.terms:
        if not s and len(f) == 1 and f[0][0] is v and f[0][1] == 1:
            co += c
        else:
            if any(v in a.fv for a, e in f):
                return None
            rest[(f, s)] = c
    return co, _mk_poly(rest)


def _solve_eq(p, sumvars):
    """choose a variable to eliminate from p == 0"""
    cands = []
    for f, s, c in p.terms:
        if not s and len(f) == 1 and f[0][0].kind == 'var' and f[0][1] == 1 and c in (1, -1):
            cands.append(f[0][0])
    sv = [v for v in cands if v in sumvars]
    for v in sorted(sv, key=lambda v: v.key) + sorted([v for v in cands if v not in sumvars], key=lambda v: v.key,
                                                       reverse=True):
        lin = _linear(p, v)
        if lin is None:
            continue
        co, rest = lin
        sol = pscale(rest, qdiv(-1, co))
        return v, sol
    return None, None


def _canon_sum(fs, sumvars):
    # factor keys height
    h = 0
    for a, e in fs:
        h = max(h, a.height)
    for v in sumvars:
        h = max(h, v.args[1].height)
    h += 1
    n = len(sumvars)
    # signatures
    if n == 1:
        orders = [tuple(sumvars)]
    else:
        mark = {}
        sigs = {}
        for v in sumvars:
            ren = {}
            for w in sumvars:
                ren[w] = P(mk_atom('var', ('@', 0 if w is v else 1, 0), w.args[1]))
            parts = []
            for a, e in fs:
                if a.fv & ren.keys():
                    if v in a.fv:
                        parts.append(subst_atom(a, ren).key + str(e))
            sigs[v] = (v.args[1].key, tuple(sorted(parts)))
        groups = {}
        for v in sumvars:
            groups.setdefault(sigs[v], []).append(v)
        glist = [groups[k] for k in sorted(groups)]
        total = 1
        for g in glist:
            for i in range(2, len(g) + 1):
                total *= i
        if total > 200:
            orders = [tuple(itertools.chain(*glist))]
        else:
            orders = [tuple(itertools.chain(*c)) for c in
                      itertools.product(*[list(itertools.permutations(g)) for g in glist])]
    best = None
    for o in orders:
        ren = {}
        nvs = []
        # dims may depend on other sum vars: rename sequentially
        for k, v in enumerate(o):
            nv = mk_atom('var', ('s', h, k), subst(v.args[1], ren) if ren else v.args[1])
            ren[v] = P(nv)
            nvs.append(nv)
        nf = []
        simple = True
        extra = ONEP
        for a, e in fs:
            if a.fv & ren.keys():
                p = subst_atom(a, ren)
                if len(p.terms) == 1 and not p.terms[0][1] and p.terms[0][2] == 1 and len(p.terms[0][0]) == 1 and \
                        p.terms[0][0][0][1] == 1:
                    nf.append((p.terms[0][0][0][0], e))
                elif len(p.terms) == 1 and not p.terms[0][1] and e.denominator == 1:
                    # sign flips etc.
                    extra = pscale(extra, qpow(p.terms[0][2], int(e)))
                    nf.extend((x, y * e) for x, y in p.terms[0][0])
                else:
                    nf.append((mk_atom('poly', p) if e != 1 or True else a, e))
                    simple = False
            else:
                nf.append((a, e))
        dd = {}
        for a, e in nf:
            dd[a] = dd.get(a, 0) + e
        f2 = tuple(sorted(((a, e) for a, e in dd.items() if e != 0), key=lambda t: t[0].key))
        cand = (tkey(f2, tuple(nvs)), f2, tuple(nvs), extra)
        if best is None or cand[0] < best[0]:
            best = cand
    return pscale(_mk_poly({(best[1], best[2]): ONE}), cval(best[3]))


def _contract(d, sumvars):
    """algebraic contractions of summed matrix atoms"""
    for v in sumvars:
        use = [a for a in d if v in a.fv]
        rest = [w for w in sumvars if w is not v]
        if any(v in w.args[1].fv for w in rest):
            continue
        if len(use) == 1:
            a = use[0]
            e = d[a]
            # sum_i log(U(A;i,i)) = logdet(A)/2
            if e == 1 and a.kind == 'log':
                inner = a.args[0]
                if len(inner.terms) == 1 and not inner.terms[0][1] and len(inner.terms[0][0]) == 1:
                    b, be = inner.terms[0][0][0]
                    if b.kind == 'cholU' and be == 1 and b.args[1] is b.args[2] and b.args[1] is P(v) \
                            and v not in b.args[0].fv and b.args[0].dims[0] is v.args[1]:
                        return _rebuild([mk_logdet(b.args[0]) * const(Fr(1, 2))] +
                                        [ppow(P(x), y) for x, y in d.items() if x is not a], rest)
            if e == 2 and a.kind in ('cholU', 'psdF'):
                A, i, j = a.args
                k, o = (i, j) if a.kind == 'cholU' else (j, i)
                if k is P(v) and v not in o.fv and v not in A.fv:
                    return _rebuild([apply(A, (o, o))] + [ppow(P(x), y) for x, y in d.items() if x is not a], rest)
        if len(use) == 2:
            a, b = use
            if d[a] == 1 and d[b] == 1:
                for a, b in ((a, b), (b, a)):
                    if a.kind == b.kind and a.kind in ('cholU', 'psdF') and a.args[0] is b.args[0] \
                            and v not in a.args[0].fv:
                        s = 1 if a.kind == 'cholU' else 2
                        o = 3 - s
                        if a.args[s] is P(v) and b.args[s] is P(v) and v not in a.args[o].fv and v not in b.args[o].fv:
                            return _rebuild([apply(a.args[0], (a.args[o], b.args[o]))] +
                                            [ppow(P(x), y) for x, y in d.items() if x is not a and x is not b], rest)
                    if a.kind == 'inv' and v not in a.args[0].fv and a.args[0].dims[0] is v.args[1]:
                        A = a.args[0]
                        body = A.body
                        if len(body.terms) == 1 and len(body.terms[0][0]) == 1 and not body.terms[0][1]:
                            pb = P(b)
                            for s in (1, 2):
                                o = 3 - s
                                if a.args[s] is not P(v) or v in a.args[o].fv:
                                    continue
                                # inv[o,v]*A[v,x] or A[x,v]*inv[v,o]
                                x = _match_elem(A, b, v, 0 if s == 2 else 1)
                                if x is not None:
                                    return _rebuild([mk_eq(a.args[o] - x)] +
                                                    [ppow(P(q), y) for q, y in d.items() if q is not a and q is not b],
                                                    rest)
    return None


def _match_elem(A, b, v, pos):
    """b == A[..] with index v at position pos -> other index"""
    if b.kind != 'in' and not b.args:
        return None
    cands = set()

    def walk(x):
        if isinstance(x, Poly):
            cands.add(x)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    walk(b.args)
    for c in sorted(cands, key=lambda p: p.key):
        if v in c.fv:
            continue
        idx = (P(v), c) if pos == 0 else (c, P(v))
        if apply(A, idx) is P(b):
            return c
    return None


# ------------------------------------------------------------- cancellation
def _cancel(p):
    if 'poly' not in p.kinds:
        return p
    groups = {}
    for f, s, c in p.terms:
        for a, e in f:
            if a.kind == 'poly' and e == -1 and not (a.fv & set(s)):
                groups.setdefault(a, []).append((f, s, c))
    for a in sorted(groups, key=lambda x: x.key):
        ts = groups[a]
        base = a.args[0]
        nb = len(base.terms)
        if len(ts) < nb:
            continue
        G = _mk_poly({(tuple((x, e) for x, e in f if x is not a), s): c for f, s, c in ts})
        q = _try_div(G, base)
        if q is not None:
            others = {(f, s): c for f, s, c in p.terms}
            for f, s, c in ts:
                others.pop((f, s))
            return padd(_mk_poly(others), q)
    return p


def _try_div(G, B):
    """q with G == q*B (greedy on monomials) or None"""
    if len(G.terms) % len(B.terms) and len(G.terms) > 40:
        return None
    # candidate monomials: G term / B lead term
    lead = None
    for t in B.terms:
        if lead is None or len(t[1]) > len(lead[1]):
            lead = t
    bf, bs, bc = lead
    q = ZERO
    rem = G
    for _ in range(12):
        if not rem.terms:
            return q
        found = False
        for f, s, c in rem.terms:
            m = _term_div(f, s, c, bf, bs, bc)
            if m is None:
                continue
            r2 = _padd_raw(rem, pscale(_pmul_raw(m, B), -ONE))
            if len(r2.terms) < len(rem.terms):
                rem = r2
                q = _padd_raw(q, m)
                found = True
                break
        if not found:
            return None
    return None


def _padd_raw(a, b):
    d = {(f, s): c for f, s, c in a.terms}
    for f, s, c in b.terms:
        d[(f, s)] = d.get((f, s), 0) + c
    return _mk_poly(d)


def _pmul_raw(a, b):
    d = {}
    for f1, s1, c1 in a.terms:
        for f2, s2, c2 in b.terms:
            if s1 and s2:
                ren = {v: P(fresh(v.args[1])) for v in s2}
                f2x = [(subst_atom_ren(x, ren), e) for x, e in f2]
                s2x = [ren[v].terms[0][0][0][0] for v in s2]
            else:
                f2x, s2x = f2, s2
            for f, s, c in product(c1 * c2, list(f1) + list(f2x), list(s1) + list(s2x)).terms:
                d[(f, s)] = d.get((f, s), 0) + c
    return _mk_poly(d)


def _term_div(f, s, c, bf, bs, bc):
    """monomial m (maybe with sums) with m * (bf,bs,bc) == (f,s,c)"""
    if not bs:
        d = dict(f)
        for a, e in bf:
            if a not in d:
                return None
            d[a] = d[a] - e
            if d[a] == 0:
                del d[a]
            elif d[a] < 0 and e > 0 and False:
                return None
        return product(qdiv(c, bc), list(d.items()), list(s))
    # summed lead term: need a matching component
    if len(bs) > len(s):
        return None
    # try to map bound vars of b onto subsets of s
    for sub in itertools.permutations(s, len(bs)):
        ren = {}
        ok = True
        for v, w in zip(bs, sub):
            if v.args[1] is not w.args[1]:
                ok = False
                break
            ren[v] = P(w)
        if not ok:
            continue
        d = dict(f)
        for a, e in bf:
            a2 = subst_atom_ren(a, ren)
            if d.get(a2, 0) != e and not (a2 in d and not (a2.fv & set(sub))):
                ok = False
                break
            d[a2] = d[a2] - e
            if d[a2] == 0:
                del d[a2]
        if not ok:
            continue
        if any(a.fv & set(sub) for a in d):
            continue
        rest = [v for v in s if v not in sub]
        return product(qdiv(c, bc), list(d.items()), rest)
    return None


# ------------------------------------------------------------- substitution
def subst(x, m):
    """substitute variables (Var atom -> Poly) in Poly / Closure / tuple"""
    if isinstance(x, Poly):
        if not (x.fv & m.keys()):
            return x
        out = []
        ren = _isren(m)
        for f, s, c in x.terms:
            hit = [a for a, e in f if a.fv & m.keys()]
            sdep = any(v.args[1].fv & m.keys() for v in s)
            if not hit and not sdep:
                out.append(_mk_poly({(f, s): c}))
                continue
            if s and ren is not None and not sdep and not (ren & set(s)):
                mm = m
                sv = s
            elif s:
                # open sum vars
                rn = {}
                for v in s:
                    rn[v] = P(fresh(subst(v.args[1], m)))
                mm = dict(m)
                mm.update(rn)
                sv = [rn[v].terms[0][0][0][0] for v in s]
            else:
                mm = m
                sv = []
            r = const(c)
            for a, e in f:
                if a.fv & mm.keys():
                    r = r * ppow(subst_atom(a, mm), e)
                else:
                    r = r * _mk_poly({(((a, e),), ()): ONE})
            if sv:
                r = sum_over(r, sv)
            out.append(r)
        return psum(out)
    if isinstance(x, Atom):
        p = subst_atom(x, m)
        return p
    if isinstance(x, Closure):
        if not (x.fv & m.keys()):
            return x
        ren = _isren(m)
        if ren is not None and not (ren & set(x.vars)) and not any(v.args[1].fv for v in x.vars):
            b = subst(x.body, m)
            if b.height == x.body.height:
                return close(x.vars, b, x.height)
            return mk_closure(x.vars, b)
        nv = [fresh(subst(v.args[1], m)) for v in x.vars]
        mm = {k: v for k, v in m.items()}
        mm.update({v: P(n) for v, n in zip(x.vars, nv)})
        return mk_closure(nv, subst(x.body, mm))
    if isinstance(x, tuple):
        return tuple(subst(y, m) for y in x)
    if hasattr(x, 'subst_'):
        return x.subst_(m)
    return x


_sa = {}


def subst_atom(a, m):
    """substitute in an atom -> Poly"""
    if a.kind == 'var':
        r = m.get(a)
        return r if r is not None else P(a)
    if not (a.fv & m.keys()):
        return P(a)
    k = (a, tuple(sorted(((v.key, id(v), p.key) for v, p in m.items() if v in a.fv))))
    r = _sa.get(k)
    if r is None:
        args = tuple(subst(x, m) if isinstance(x, (Poly, Closure, tuple, Atom)) else x for x in a.args)
        r = rebuild(a.kind, args)
        _sa[k] = r
    return r


CONS = {}


def rebuild(kind, args):
    f = CONS.get(kind)
    if f is not None:
        return f(*args)
    return P(mk_atom(kind, *args))


def mk_closure(vs, body):
    vs = list(vs)
    # variables of extent 1 are always 0
    m1 = {v: ZERO for v in vs if v.args[1] is ONEP and v in body.fv}
    if m1:
        body = subst(body, m1)
    h = max([body.height] + [v.args[1].height for v in vs]) + 1
    ren = {}
    nv = []
    for k, v in enumerate(vs):
        n = mk_atom('var', ('p', h, k), subst(v.args[1], ren) if ren else v.args[1])
        nv.append(n)
        ren[v] = P(n)
    b2 = subst(body, {k: v for k, v in ren.items() if k in body.fv})
    return close(nv, b2, max(h, b2.height + 1 if b2.height >= h else h))


def _isren(m):
    """the set of new variables when m only renames variables, else None"""
    out = set()
    for p in m.values():
        if len(p.terms) != 1:
            return None
        f, s, c = p.terms[0]
        if s or c != 1 or len(f) != 1 or f[0][1] != 1 or f[0][0].kind != 'var':
            return None
        out.add(f[0][0])
    return out


def close(nv, b2, h):
    k = ('C', tuple(nv), b2)
    r = _intern.get(k)
    if r is None:
        r = Closure()
        r.vars = tuple(nv)
        r.body = b2
        r.key = 'C' + _digest(','.join(v.key + ':' + v.args[1].key for v in nv) + '.' + b2.key)
        fv = set(b2.fv)
        for v in nv:
            fv |= _fv(v.args[1])
        r.fv = frozenset(fv - set(nv))
        r.height = h
        r.kinds = b2.kinds
        _intern[k] = r
    return r


def apply(c, idx):
    m = {v: P(i) for v, i in zip(c.vars, idx)}
    return subst(c.body, m)


# ----------------------------------------------------------------- powers
def content(p, bound_ok=False):
    """p = c * prod(atoms) * rest ; returns (c, {atom: exp}, rest)"""
    if not p.terms:
        return ONE, {}, p
    com = None
    for f, s, c in p.terms:
        d = {a: e for a, e in f if not (a.fv & set(s))}
        if com is None:
            com = dict(d)
        else:
            for a in list(com):
                if a not in d:
                    # absent = exponent 0
                    if com[a] < 0:
                        continue
                    del com[a]
                else:
                    if (com[a] > 0) != (d[a] > 0):
                        if min(com[a], d[a]) < 0:
                            com[a] = min(com[a], d[a])
                        else:
                            del com[a]
                    else:
                        com[a] = min(com[a], d[a])
            for a, e in d.items():
                if e < 0 and a not in com:
                    com[a] = e
    com = {a: e for a, e in com.items() if a.kind not in IND}
    import math
    num = 0
    den = 1
    for f, s, c in p.terms:
        num = math.gcd(num, abs(c.numerator))
        den = den * c.denominator // math.gcd(den, c.denominator)
    cc = Fr(num, den)
    # common factor must really apply to all terms
    rest = p
    if com:
        inv = [(a, -e) for a, e in com.items()]
        rest = psum([product(c, list(f) + inv, list(s)) for f, s, c in _open_terms(p)])
    if cc != 1:
        rest = pscale(rest, qdiv(1, cc))
    return cc, com, rest


def ppow(p, e):
    e = Fr(e)
    if e == 1:
        return p
    if e == 0:
        return ONEP
    if not p.terms:
        return ZERO if e > 0 else top('div by zero')
    if 'top' in p.kinds:
        return top('pow', p)
    r = split_ind(lambda q: ppow(q, e), p) if e < 0 or e.denominator != 1 else None
    if r is not None:
        return r
    if len(p.terms) == 1 and not p.terms[0][1]:
        f, s, c = p.terms[0]
        if e.denominator == 1:
            if any(a.kind in IND for a, _ in f) and e < 0:
                return top('recip of indicator', p)
            return product(qpow(c, int(e)), [(a, x * e) for a, x in f], [])
        if c > 0:
            return num_pow(c, e) * product(ONE, [(a, x * e) for a, x in f], [])
    if e.denominator == 1 and e > 0:
        r = p
        for _ in range(int(e) - 1):
            r = r * p
        return r
    c, com, rest = content(p)
    if rest.terms and rest.terms[0][2] < 0 and e.denominator == 1:
        rest = -rest
        c = -c
    if is_const(rest):
        base = ppow(rest, e)
    elif len(rest.terms) == 1 and not rest.terms[0][1]:
        base = ppow(rest, e)
    else:
        base = product(ONE, [(mk_atom('poly', rest), e)], [])
    if c < 0 and e.denominator != 1:
        return product(ONE, [(mk_atom('poly', p), e)], [])
    return num_pow(c, e) * product(ONE, [(a, x * e) for a, x in com.items()], []) * base


def num_pow(c, e):
    if e.denominator == 1:
        return const(qpow(c, int(e)))
    r = ONEP
    for n, sg in ((c.numerator, 1), (c.denominator, -1)):
        for pr, k in factorint(n):
            x = e * k * sg
            ip = x.numerator // x.denominator
            fr = x - ip
            r = pscale(r, qpow(pr, ip))
            if fr:
                r = r * _mk_poly({(((mk_atom('num', pr), fr),), ()): ONE})
    return r


def factorint(n):
    out = []
    d = 2
    while d * d <= n:
        k = 0
        while n % d == 0:
            n //= d
            k += 1
        if k:
            out.append((d, k))
        d += 1
        if d > 10000:
            break
    if n > 1:
        out.append((n, 1))
    return out


CONS['poly'] = lambda p: p


def mk_el(c, *idx):
    if 'undef' in c.kinds and all(is_const(x) for x in idx):
        return apply(c, idx)
    return P(mk_atom('el', c, *idx))


CONS['el'] = mk_el


def CONS_num(n):
    return P(mk_atom('num', n))


def recip(p):
    return ppow(p, -1)


def top_inds(p):
    """indicator atoms occurring at top level, free of the term's bound vars"""
    out = []
    for f, s, c in p.terms:
        for a, e in f:
            if a.kind in IND and not (a.fv & set(s)) and a not in out:
                out.append(a)
    return out


def set_ind(p, a, val):
    out = []
    for f, s, c in p.terms:
        if any(x is a for x, e in f):
            if val == 0:
                continue
            f2 = [(x, e) for x, e in f if x is not a]
            out.append(product(c, f2, list(s)))
        else:
            out.append(_mk_poly({(f, s): c}))
    return psum(out)


def split_ind(fn, p):
    inds = top_inds(p)
    if not inds or len(inds) > 6:
        return None
    a = sorted(inds, key=lambda x: x.key)[0]
    p1 = set_ind(p, a, 1)
    p0 = set_ind(p, a, 0)
    i = P(a)
    return i * fn(p1) + (ONEP - i) * fn(p0)


_topc = itertools.count()


def top(reason, *deps):
    return P(mk_atom('top', reason, next(_topc)))


def has_top(x):
    if isinstance(x, (Poly, Closure, Atom)):
        return 'top' in x.kinds
    if isinstance(x, tuple):
        return any(has_top(y) for y in x)
    return False


def mk_exp(p):
    if 'top' in p.kinds:
        return top('exp')
    r = split_ind(mk_exp, p)
    if r is not None:
        return r
    out = ONEP
    for f, s, c in p.terms:
        if not f and not s:
            out = out * _mk_poly({(((mk_atom('exp', ONEP), c),), ()): ONE})
            continue
        if not s and len(f) == 1 and f[0][0].kind == 'log' and f[0][1] == 1:
            out = out * ppow(f[0][0].args[0], c)
            continue
        out = out * _mk_poly({(((mk_atom('exp', _mk_poly({(f, s): ONE})), c),), ()): ONE})
    return out


CONS['exp'] = mk_exp


def mk_log(p):
    if 'top' in p.kinds:
        return top('log')
    if not p.terms:
        return top('log 0')
    r = split_ind(mk_log, p)
    if r is not None:
        return r
    c, com, rest = content(p)
    if rest.terms[0][2] < 0 and len(rest.terms) == 1:
        return P(mk_atom('log', p))
    out = ZERO
    for n, sg in ((c.numerator, 1), (c.denominator, -1)):
        for pr, k in factorint(n):
            out = out + pscale(P(mk_atom('log', const(pr))), Fr(k * sg))
    for a, e in com.items():
        out = out + pscale(_log_atom(a), e)
    if rest is not ONEP:
        if len(rest.terms) == 1 and not rest.terms[0][1]:
            f = rest.terms[0][0]
            for a, e in f:
                out = out + pscale(_log_atom(a), e)
        else:
            out = out + P(mk_atom('log', rest))
    return out


def _log_atom(a):
    if a.kind == 'exp':
        return a.args[0]
    if a.kind == 'poly':
        return P(mk_atom('log', a.args[0]))
    if a.kind == 'num':
        return P(mk_atom('log', const(a.args[0])))
    return P(mk_atom('log', P(a)))


CONS['log'] = mk_log


# ----------------------------------------------------------------- signs
def sign_of(p):
    """+1 / -1 when p is provably (almost surely) positive / negative, 0 if zero, else None"""
    if not p.terms:
        return 0
    s = None
    for f, sv, c in p.terms:
        x = 1 if c > 0 else -1
        for a, e in f:
            t = _sign_atom(a)
            if t is None:
                return None
            if e.denominator == 1 and int(e) % 2 == 0:
                t = 1
            x *= t
        if s is None:
            s = x
        elif s != x:
            return None
    return s


def _sign_atom(a):
    if a.kind in ('exp',):
        return 1
    if a.kind == 'sym' and a.args[1] >= 1:
        return 1
    if a.kind == 'num':
        return 1
    if a.kind == 'in' and META.get(a.args[0], {}).get('pos'):
        return 1
    if a.kind == 'rand' and a.args[0] in ('uniform', 'rand'):
        return 1
    if a.kind == 'log':
        inner = a.args[0]
        if is_const(inner):
            return 1 if cval(inner) > 1 else -1
        if len(inner.terms) == 1 and len(inner.terms[0][0]) == 1 and not inner.terms[0][1]:
            b, e = inner.terms[0][0][0]
            if b.kind == 'rand' and b.args[0] in ('uniform', 'rand') and inner.terms[0][2] == 1 and e > 0:
                return -1
            if b.kind == 'sym' and inner.terms[0][2] >= 1 and b.args[1] >= 2:
                return 1
    if a.kind == 'poly':
        return sign_of(a.args[0])
    if a.kind == 'el':
        return sign_of(a.args[0].body)
    return None


_nnc = {}


def nonneg(p):
    """provably >= 0: on every combination of its indicators, terms with non-negative coefficients and factors"""
    r = _nnc.get(p)
    if r is None:
        r = _nnc[p] = _nonneg(p, 8)
    return r


def _nonneg(p, left):
    if _nnterms(p):
        return True
    inds = top_inds(p) if left else ()
    if not inds or all(c < 0 for f, s, c in p.terms):
        return False
    a = sorted(inds, key=lambda x: x.key)[0]
    return _nonneg(set_ind(p, a, 1), left - 1) and _nonneg(set_ind(p, a, 0), left - 1)


def _nnterms(p):
    return all(c >= 0 and all((e.denominator == 1 and int(e) % 2 == 0) or _nn(a) for a, e in f) for f, s, c in p.terms)


def _nn(a):
    if nonneg_atom(a) or _sign_atom(a) == 1:
        return True
    if a.kind in ('poly', 'max', 'el', 'pctl'):
        q = a.args[0] if a.kind == 'poly' else a.args[0].body
        return nonneg(q)
    return False


def mk_pos(p):
    """indicator p > 0"""
    if 'top' in p.kinds:
        return top('cmp')
    if is_const(p):
        return ONEP if cval(p) > 0 else ZERO
    if is_int(p):
        return mk_ge(p - ONEP)
    r = split_ind(mk_pos, p)
    if r is not None:
        return r
    s = sign_of(p)
    if s is not None:
        return ONEP if s > 0 else ZERO
    if nonneg(-p):
        return ZERO
    c, com, rest = content(p)
    keep = {}
    sg = 1
    for a, e in com.items():
        t = _sign_atom(a)
        if t is None:
            if e.denominator == 1 and int(e) % 2 == 0:
                continue
            keep[a] = ONE
        else:
            if e.denominator == 1 and int(e) % 2 == 0:
                t = 1
            sg *= t
    q = rest
    if keep:
        q = q * product(ONE, list(keep.items()), [])
    if sg < 0:
        q = -q
    # comparison of two positive monomials -> compare logarithms
    if len(q.terms) == 2:
        (f1, s1, c1), (f2, s2, c2) = q.terms
        if (c1 > 0) != (c2 > 0) and not s1 and not s2:
            if c1 < 0:
                (f1, s1, c1), (f2, s2, c2) = (f2, s2, c2), (f1, s1, c1)
            if all(_sign_atom(a) == 1 for a, e in f1 + f2) and any(a.kind == 'exp' for a, e in f1 + f2):
                la = mk_log(_mk_poly({(f1, ()): c1}))
                lb = mk_log(_mk_poly({(f2, ()): -c2}))
                return mk_pos(la - lb)
    return P(mk_atom('pos', q))


CONS['pos'] = mk_pos


def mk_ge(p):
    """indicator p >= 0 for integer p"""
    if 'top' in p.kinds:
        return top('cmp')
    if is_const(p):
        return ONEP if cval(p) >= 0 else ZERO
    if prove_ge0(p):
        return ONEP
    if prove_ge0(-p - ONEP):
        return ZERO
    r = split_ind(mk_ge, p)
    if r is not None:
        return r
    # orientation by the first non-constant term
    for f, s, c in p.terms:
        if f:
            if c < 0:
                return ONEP - P(mk_atom('ge', -p - ONEP))
            break
    return P(mk_atom('ge', p))


CONS['ge'] = mk_ge


def mk_eq(p):
    if 'top' in p.kinds:
        return top('cmp')
    if is_const(p):
        return ONEP if cval(p) == 0 else ZERO
    if is_int(p):
        if prove_ge0(p - ONEP) or prove_ge0(-p - ONEP):
            return ZERO
    elif sign_of(p) in (1, -1):
        return ZERO
    r = split_ind(mk_eq, p)
    if r is not None:
        return r
    c, com, rest = content(p)
    if not is_int(p):
        p = rest
    for f, s, c in p.terms:
        if f:
            if c < 0:
                p = -p
            break
    return P(mk_atom('eq', p))


CONS['eq'] = mk_eq


def cond_ge(a, b):
    """a >= b"""
    d = a - b
    if is_int(d):
        return mk_ge(d)
    return ONEP - mk_pos(-d)


def cond_gt(a, b):
    d = a - b
    if is_int(d):
        return mk_ge(d - ONEP)
    return mk_pos(d)


# ------------------------------------------------------------ input atoms
def mk_in(name, *idx):
    m = META.get(name)
    if m and m.get('sym'):
        i, j = m['sym']
        idx = list(idx)
        if idx[i].key > idx[j].key:
            idx[i], idx[j] = idx[j], idx[i]
        idx = tuple(idx)
    return P(mk_atom('in', name, *idx))


CONS['in'] = mk_in


# --------------------------------------------------------------- matrices
def transpose(c):
    a, b = fresh(c.vars[1].args[1]), fresh(c.vars[0].args[1])
    return mk_closure([a, b], apply(c, (P(b), P(a))))


def is_sym(c):
    return transpose(c) is c


def mk_inv(c, i, j):
    if has_top(c):
        return top('inv')
    c = lift(c)
    n = c.dims[0]
    if n is ONEP:
        return recip(apply(c, (ZERO, ZERO)))
    a, b = fresh(n), fresh(n)
    # scalar content
    cc, com, rest = content(c.body)
    if cc != 1 or any(not (x.fv & set(c.vars)) for x in com):
        cm = {x: e for x, e in com.items() if not (x.fv & set(c.vars))}
        body = psum([product(k, list(f) + [(x, -e) for x, e in cm.items()], list(s)) for f, s, k in _open_terms(c.body)])
        body = pscale(body, qdiv(1, cc))
        nv = [fresh(v.args[1]) for v in c.vars]
        c2 = mk_closure(nv, subst(body, {v: P(w) for v, w in zip(c.vars, nv)}))
        return product(qdiv(1, cc), [(x, -e) for x, e in cm.items()], []) * mk_inv(c2, i, j)
    # identity
    if apply(c, (P(a), P(b))) is mk_eq(P(a) - P(b)):
        return mk_eq(i - j)
    # inverse of an inverse
    if len(c.body.terms) == 1 and len(c.body.terms[0][0]) == 1 and not c.body.terms[0][1] and c.body.terms[0][2] == 1:
        x, e = c.body.terms[0][0][0]
        if x.kind == 'inv' and e == 1 and not (x.args[0].fv & set(c.vars)):
            if x.args[1] is P(c.vars[0]) and x.args[2] is P(c.vars[1]):
                return apply(x.args[0], (i, j))
            if x.args[2] is P(c.vars[0]) and x.args[1] is P(c.vars[1]):
                return apply(x.args[0], (j, i))
    t = transpose(c)
    if t is c:
        if i.key > j.key:
            i, j = j, i
    elif t.key < c.key:
        c, i, j = t, j, i
    return P(mk_atom('inv', c, i, j))


CONS['inv'] = mk_inv


def mk_logdet(c):
    if has_top(c):
        return top('logdet')
    c = lift(c)
    n = c.dims[0]
    if n is ONEP:
        return mk_log(apply(c, (ZERO, ZERO)))
    a, b = fresh(n), fresh(n)
    if apply(c, (P(a), P(b))) is mk_eq(P(a) - P(b)):
        return ZERO
    cc, com, rest = content(c.body)
    cm = {x: e for x, e in com.items() if not (x.fv & set(c.vars))}
    if cc != 1 or cm:
        k = product(cc, list(cm.items()), [])
        body = psum([product(q, list(f) + [(x, -e) for x, e in cm.items()], list(s)) for f, s, q in _open_terms(c.body)])
        body = pscale(body, qdiv(1, cc))
        nv = [fresh(v.args[1]) for v in c.vars]
        c2 = mk_closure(nv, subst(body, {v: P(w) for v, w in zip(c.vars, nv)}))
        return n * mk_log(k) + mk_logdet(c2)
    if len(c.body.terms) == 1 and len(c.body.terms[0][0]) == 1 and not c.body.terms[0][1] and c.body.terms[0][2] == 1:
        x, e = c.body.terms[0][0][0]
        if x.kind == 'inv' and e == 1 and not (x.args[0].fv & set(c.vars)):
            return -mk_logdet(x.args[0])
    t = transpose(c)
    if t.key < c.key:
        c = t
    return P(mk_atom('logdet', c))


CONS['logdet'] = mk_logdet


def mk_cholU(c, i, j):
    """upper Cholesky factor element (U^T U = A)"""
    if has_top(c):
        return top('chol')
    c = lift(c)
    if c.dims[0] is ONEP:
        return ppow(apply(c, (ZERO, ZERO)), Fr(1, 2))
    if prove_ge0(i - j - ONEP):
        return ZERO
    a, b = fresh(c.dims[0]), fresh(c.dims[0])
    if apply(c, (P(a), P(b))) is mk_eq(P(a) - P(b)):
        return mk_eq(i - j)
    return P(mk_atom('cholU', c, i, j))


CONS['cholU'] = mk_cholU


def mk_chof(c, i, j):
    """cho_factor output: upper triangle valid, rest unspecified"""
    if has_top(c):
        return top('chof')
    c = lift(c)
    if c.dims[0] is ONEP:
        return ppow(apply(c, (ZERO, ZERO)), Fr(1, 2))
    if prove_ge0(j - i):
        return mk_cholU(c, i, j)
    return P(mk_atom('chof', c, i, j))


CONS['chof'] = mk_chof


def mk_psdF(c, i, j):
    if has_top(c):
        return top('psdF')
    c = lift(c)
    return P(mk_atom('psdF', c, i, j))


CONS['psdF'] = mk_psdF


def mk_max(c):
    """max over all variables of the closure; pulls out additive constants"""
    if has_top(c):
        return top('max')
    if len(c.vars) == 1 and is_const(c.vars[0].args[1]) and 1 <= cval(c.vars[0].args[1]) <= 8:
        x = [apply(c, (const(k),)) for k in range(int(cval(c.vars[0].args[1])))]
        if all(is_const(y) for y in x):
            return const(max(cval(y) for y in x))
    vs = set(c.vars)
    out = {}
    inn = {}
    for f, s, k in c.body.terms:
        if any(a.fv & vs for a, e in f) or any(v.args[1].fv & vs for v in s):
            inn[(f, s)] = k
        else:
            out[(f, s)] = k
    o = _mk_poly(out)
    if not inn:
        return o
    if out:
        nv = [fresh(v.args[1]) for v in c.vars]
        body = subst(_mk_poly(inn), {v: P(w) for v, w in zip(c.vars, nv)})
        c = mk_closure(nv, body)
    # drop unused variables
    used = [v for v in c.vars if v in c.body.fv]
    if len(used) < len(c.vars):
        nv = [fresh(v.args[1]) for v in used]
        c = mk_closure(nv, subst(c.body, {v: P(w) for v, w in zip(used, nv)}))
    # max of max
    return o + P(mk_atom('max', c))


CONS['max'] = mk_max


def mk_div(a, n):
    """floor division of integer poly a by positive n"""
    if is_const(a) and is_const(n):
        return const(cval(a) // cval(n))
    q, r = divmod_poly(a, n)
    if r is not None:
        return q
    return P(mk_atom('div', a, n))


def mk_mod(a, n):
    if is_const(a) and is_const(n):
        return const(cval(a) % cval(n))
    q, r = divmod_poly(a, n)
    if r is not None:
        return r
    return P(mk_atom('mod', a, n))


CONS['div'] = mk_div
CONS['mod'] = mk_mod


def divmod_poly(a, n):
    """try a = q*n + r with 0 <= r < n provably"""
    if n is ONEP:
        return a, ZERO
    if prove_ge0(a) and prove_ge0(n - ONEP - a):
        return ZERO, a
    # candidate quotients: terms divisible by n (n a monomial or general)
    if len(n.terms) == 1:
        nf, ns, nc = n.terms[0]
        q = ZERO
        r = ZERO
        for f, s, c in a.terms:
            m = _term_div(f, s, c, nf, ns, nc)
            if m is not None and is_int(m):
                q = q + m
            else:
                r = r + _mk_poly({(f, s): c})
        if q.terms and prove_ge0(r) and prove_ge0(n - ONEP - r):
            return q, r
    else:
        # polynomial n: try to divide greedily
        q = ZERO
        r = a
        for _ in range(6):
            done = True
            for f, s, c in r.terms:
                for nf, ns, nc in n.terms:
                    if not nf:
                        continue
                    m = _term_div(f, s, c, nf, ns, nc)
                    if m is None or not is_int(m) or m.kinds and any(e < 0 for t in m.terms for x, e in t[0]):
                        continue
                    r2 = r - m * n
                    if len(r2.terms) < len(r.terms):
                        q, r, done = q + m, r2, False
                        break
                if not done:
                    break
            if done:
                break
        if prove_ge0(r) and prove_ge0(n - ONEP - r):
            return q, r
    return None, None


# ------------------------------------------------------------------ show
_depth = [0]


def show(p, lim=2000):
    """readable form; deep or long parts are abbreviated"""
    if not p.terms:
        return '0'
    if _depth[0] > 6:
        return '..'
    _depth[0] += 1
    try:
        r = _show(p)
    finally:
        _depth[0] -= 1
    return r if len(r) <= lim else r[:lim] + '...'


def _show(p):
    out = []
    for f, s, c in p.terms:
        t = []
        if c != 1 or not f:
            t.append(str(c))
        for a, e in f:
            t.append(show_atom(a) + ('' if e == 1 else '^%s' % e))
        x = '*'.join(t)
        if s:
            x = 'Σ[%s](%s)' % (','.join('%s<%s' % (show_atom(v), show(v.args[1])) for v in s), x)
        out.append(x)
        if len(out) > 20:
            break
    return ' + '.join(out)


def show_atom(a):
    if a.kind == 'var':
        n = a.args[0]
        return {'s': 's', 'p': 'p', 'f': 'f', 'u': '', '@': '@'}.get(n[0], '?') + '_'.join(str(x) for x in n[1:] if x != 0 or n[0] != 'u')
    if a.kind == 'sym':
        return str(a.args[0])
    if a.kind == 'in':
        return '%s[%s]' % (a.args[0], ','.join(show_any(x) for x in a.args[1:]))
    if a.kind == 'poly':
        return '(%s)' % show(a.args[0])
    return '%s(%s)' % (a.kind, ', '.join(show_any(x) for x in a.args))


def show_any(x):
    if isinstance(x, Poly):
        return show(x)
    if isinstance(x, tuple):
        return '(' + ','.join(show_any(y) for y in x) + ')'
    if isinstance(x, str):
        return x
    return repr(x)
