"""Transfer functions for the library calls the code base uses (numpy, scipy, math, copy, builtins)."""
import ast
from .values import *
from .values import _cid
from . import terms as T
from .interp import Give, RaiseOut, fpow

REMOVED = {'numpy.' + n for n in
           'int float bool object str complex long unicode Inf_ alltrue_ asscalar typeDict product_ cumproduct_'.split()}
KNOWN_MISSING = REMOVED | {'builtins.xrange', 'builtins.unicode', 'builtins.raw_input', 'builtins.reduce'}
KNOWN_PREFIX = ('numpy', 'scipy', 'math', 'copy', 'abc', 'sys', 'time', 'matplotlib', 'builtins', 'itertools',
                'functools', 'collections', 'warnings', 'os', 'operator', 'types', 'random')

try:
    import math as _m, copy as _c, abc as _a, itertools as _i, functools as _f, collections as _co, operator as _o
    STD = {'math': _m, 'copy': _c, 'abc': _a, 'itertools': _i, 'functools': _f, 'collections': _co, 'operator': _o}
except ImportError:
    STD = {}


def exists(full):
    if full in KNOWN_MISSING:
        return False
    p = full.split('.')
    if p[0] in STD and len(p) == 2:
        return hasattr(STD[p[0]], p[1])
    if full in F or full in CONST:
        return True
    if p[0] == 'numpy' and len(p) == 2 and NPNAMES and p[1] not in NPNAMES:
        return False
    if p[0] == 'numpy' and len(p) == 3 and p[1] == 'random' and NPRANDOM and p[2] not in NPRANDOM:
        return False
    if p[0] == 'numpy' and len(p) == 3 and p[1] == 'linalg' and NPLINALG and p[2] not in NPLINALG:
        return False
    if p[0] == 'scipy' and len(p) == 3 and p[1] == 'linalg' and SPLINALG and p[2] not in SPLINALG:
        return False
    return True


def _names(fn):
    import os
    p = os.path.join(os.path.dirname(__file__), 'names', fn)
    try:
        return set(open(p).read().split())
    except IOError:
        return set()


NPNAMES = _names('numpy.txt')
NPRANDOM = _names('numpy_random.txt')
NPLINALG = _names('numpy_linalg.txt')
SPLINALG = _names('scipy_linalg.txt')

PI = P(mk_atom('pi'))
INF = P(mk_atom('inf'))
CONST = {'numpy.pi': sc(PI, 'f'), 'math.pi': sc(PI, 'f'), 'numpy.newaxis': None, 'numpy.inf': sc(INF, 'f'),
         'numpy.Inf': sc(INF, 'f'), 'math.inf': sc(INF, 'f'), 'numpy.nan': sc(P(mk_atom('nan')), 'f'),
         'numpy.NaN': sc(P(mk_atom('nan')), 'f'), 'math.e': sc(mk_exp(ONEP), 'f'), 'numpy.e': sc(mk_exp(ONEP), 'f')}


def constant(full):
    if full == 'numpy.newaxis':
        return NEWAXIS
    return CONST.get(full)


class _NA(object):
    pass


NEWAXIS = None  # numpy.newaxis is None in indices


def constant(full):  # noqa: F811
    if full == 'numpy.newaxis':
        return None
    return CONST.get(full)


F = {}


def reg(*names):
    def d(f):
        for n in names:
            F[n] = f
        return f
    return d


def call(I, name, args, kw, st, node):
    if not exists(name):
        I.ev('attrerror', st, node, obj='library', name=name)
        raise RaiseOut(ExcV('AttributeError', (name,)), I.where(node))
    f = F.get(name)
    if f is None:
        return I.topv('unmodelled call ' + name, st, node)
    for a in list(args) + list(kw.values()):
        if isinstance(a, TopV) and name not in TOPOK:
            return TopV('call of %s on %s' % (name, a.why))
    # distribute over gated non-array arguments
    if name not in NOGATE:
        for i, a in enumerate(args):
            if isinstance(a, Gated) and not I.is_array(a, st):
                return _gated(I, a, lambda x, s2: call(I, name, args[:i] + [x] + args[i + 1:], kw, s2, node), st)
    return f(I, st, node, *args, **kw)


TOPOK = {'builtins.print', 'builtins.isinstance', 'builtins.hasattr', 'builtins.getattr', 'builtins.str',
         'builtins.range', 'builtins.enumerate', 'builtins.zip', 'builtins.len', 'copy.copy', 'copy.deepcopy',
         'builtins.object.__init__', 'builtins.type', 'builtins.id', 'builtins.callable', 'builtins.list',
         'builtins.super', 'builtins.setattr'}
NOGATE = {'builtins.print', 'builtins.object.__init__'}


def _gated(I, g, f, st):
    t = I.branch(g.c, st, lambda s2: ('r', s2, f(g.a, s2)), lambda s2: ('r', s2, f(g.b, s2)))
    if t[0] == 'r':
        st.become(t[1])
        return t[2]
    raise Give('gated')


# ------------------------------------------------------------------ helpers
def num(I, v, st, node=None):
    return I.av(v, st, node)


def cint(I, v, st):
    p = I.av(v, st).body
    if not is_const(p):
        raise Give('constant expected')
    return int(cval(p))


def shape_arg(I, v, st):
    if isinstance(v, (AV, bool)):
        return (I.av(v, st).body,)
    if isinstance(v, Gated):
        a, b = shape_arg(I, v.a, st), shape_arg(I, v.b, st)
        return tuple(v.c * x + (ONEP - v.c) * y for x, y in zip(a, b))
    if isinstance(v, tuple):
        return tuple(I.av(x, st).body for x in v)
    if isinstance(v, ORef):
        c = st.get(v.cid)
        if isinstance(c, ListC):
            return tuple(I.av(x, st).body for x in c.items)
    if isinstance(v, Ref):
        a = I.av(v, st)
        if len(a.shape) == 1 and is_const(a.shape[0]):
            return tuple(a.at((const(i),)) for i in range(int(cval(a.shape[0]))))
        if not a.shape:
            return (a.body,)
    raise Give('shape argument')


def axis_arg(I, v, nd, st):
    if v is None:
        return None
    if isinstance(v, tuple):
        return tuple(sorted((cint(I, x, st) + nd) % nd for x in v))
    k = cint(I, v, st)
    return ((k + nd) % nd,)


def fail(I, st, node, kind, msg, exc='ValueError', **kw):
    I.ev(kind, st, node, msg=msg, **kw)
    raise RaiseOut(ExcV(exc, (msg,)), I.where(node))


def same(a, b):
    return a is b or has_top(a) or has_top(b)


def need_same(I, st, node, a, b, what):
    if not same(a, b):
        fail(I, st, node, 'shape', '%s: %s vs %s' % (what, show(a), show(b)), dims=(a, b))


def elem(I, st, node, f, *vs, **kw):
    return I.ret(I.elementwise(f, [I.av(v, st, node) for v in vs], st, node, kw.get('dt')))


def reduce_(I, av, axis, f, keep=False):
    """f(vars, poly) -> poly, reduces given axes (None = all)"""
    nd = len(av.shape)
    axes = tuple(range(nd)) if axis is None else axis
    vs = [fresh(d) for d in av.shape]
    body = av.at([P(v) if d is not ONEP else ZERO for v, d in zip(vs, av.shape)])
    rv = [vs[a] for a in axes]
    r = f(rv, body)
    shape, ovs = [], []
    for a in range(nd):
        if a in axes:
            if keep:
                shape.append(ONEP)
                ovs.append(fresh(ONEP))
        else:
            shape.append(av.shape[a])
            ovs.append(vs[a])
    return AV(shape, ovs, r, av.dt)


def is_int_dt(v):
    return v.dt in ('i', 'b')


# ------------------------------------------------------------------ creation
def dtype_of(v):
    if v is None:
        return None
    if isinstance(v, Builtin):
        n = v.name.split('.')[-1]
        if n in ('object', 'object_', 'ndarray', 'list', 'dict', 'tuple'):
            return 'o'
        if n.startswith('int') or n.startswith('uint') or n in ('intp', 'int_', 'long'):
            return 'i'
        if n.startswith('bool'):
            return 'b'
        return 'f'
    if isinstance(v, str):
        if v in ('object', 'O'):
            return 'o'
        if v.startswith('int') or v == 'i':
            return 'i'
        if v.startswith('bool') or v == '?':
            return 'b'
        return 'f'
    if isinstance(v, Cls):
        return 'o'
    return 'f'


def create(I, st, shape, fill, dt):
    sh = shape_arg(I, shape, st)
    if dt == 'o':
        if len(sh) != 1:
            raise Give('object matrix')
        return ORef(alloc(OAC(sh[0])))
    if fill is None:
        s = next(_cid)
        av = mkav(sh, lambda *i: P(mk_atom('undef', s, *i)), dt or 'f')
    else:
        av = mkav(sh, lambda *i: fill, dt or 'f')
    return newarr(av)


@reg('numpy.zeros')
def _zeros(I, st, node, shape, dtype=None, order=None):
    return create(I, st, shape, ZERO, dtype_of(dtype))


@reg('numpy.ones')
def _ones(I, st, node, shape, dtype=None, order=None):
    return create(I, st, shape, ONEP, dtype_of(dtype))


@reg('numpy.empty', 'numpy.ndarray')
def _empty(I, st, node, shape, dtype=None, order=None):
    return create(I, st, shape, None, dtype_of(dtype))


@reg('numpy.full')
def _full(I, st, node, shape, fill_value, dtype=None):
    f = I.av(fill_value, st)
    return create(I, st, shape, f.body, dtype_of(dtype) or f.dt)


def like(I, st, a, fill, dtype):
    if isinstance(a, (ORef, SeqV)) and isinstance(st.get(a.cid), (OAC, OACar, SeqC)):
        if fill is None:
            return ORef(alloc(OAC(I.length(a, st))))
    av = I.av(a, st)
    return create(I, st, tuple(sc(d, 'i') for d in av.shape), fill, dtype_of(dtype) or av.dt)


@reg('numpy.zeros_like')
def _zl(I, st, node, a, dtype=None):
    return like(I, st, a, ZERO, dtype)


@reg('numpy.ones_like')
def _ol(I, st, node, a, dtype=None):
    return like(I, st, a, ONEP, dtype)


@reg('numpy.empty_like')
def _el(I, st, node, a, dtype=None):
    return like(I, st, a, None, dtype)


@reg('numpy.full_like')
def _fl(I, st, node, a, fill_value, dtype=None):
    return like(I, st, a, I.av(fill_value, st).body, dtype)


@reg('numpy.eye', 'numpy.identity')
def _eye(I, st, node, n, M=None, dtype=None):
    n = I.av(n, st).body
    m = n if M is None else I.av(M, st).body
    return newarr(mkav((n, m), lambda i, j: mk_eq(P(i) - P(j)), 'f'))


@reg('numpy.arange')
def _arange(I, st, node, *a, **kw):
    vs = [I.av(x, st, node) for x in a]
    ps = [v.body for v in vs]
    dt = 'i' if all(v.dt == 'i' for v in vs) else 'f'
    d = dtype_of(kw.get('dtype'))
    if len(ps) == 1:
        lo, hi, step = ZERO, ps[0], ONEP
    elif len(ps) == 2:
        lo, hi, step = ps[0], ps[1], ONEP
    else:
        lo, hi, step = ps
    return newarr(range_av(lo, hi, step, d or dt))


def range_av(lo, hi, step, dt='i'):
    n = hi - lo if step is ONEP else (lo - hi if is_const(step) and cval(step) == -1 else
                                      mk_div(hi - lo + step - ONEP, step))
    return mkav((n,), lambda k: lo + P(k) * step, dt)


@reg('numpy.linspace')
def _linspace(I, st, node, a, b, num=None, **kw):
    lo, hi = I.av(a, st).body, I.av(b, st).body
    n = const(50) if num is None else I.av(num, st).body
    return newarr(mkav((n,), lambda k: lo + P(k) * (hi - lo) * recip(n - ONEP)))


@reg('numpy.copy', 'numpy.array')
def _copy(I, st, node, a, dtype=None, copy=True, order=None, ndmin=None):
    return to_array(I, st, node, a, True, dtype_of(dtype))


@reg('numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asanyarray', 'numpy.atleast_1d_')
def _asarray(I, st, node, a, dtype=None, order=None):
    return to_array(I, st, node, a, False, dtype_of(dtype))


def to_array(I, st, node, a, copy, dt):
    if isinstance(a, Gated) and not I.is_array(a, st):
        return _gated(I, a, lambda x, s2: to_array(I, s2, node, x, copy, dt), st)
    if isinstance(a, Ref) and not copy and dt in (None, st.get(a.cid).dt if isinstance(st.get(a.cid), AV) else None):
        return a
    if isinstance(a, Gated) and not copy and dt is None:
        return a
    if a is None or isinstance(a, str):
        return TopV('array of %r' % (a,))
    if isinstance(a, (ORef, SeqV)):
        c = st.get(a.cid)
        if isinstance(c, (OAC, OACar)) or isinstance(c, SeqC):
            n = I.length(a, st)
            k = fresh(n)
            if dt != 'o':
                I.mute += 1
                try:
                    e = I.getitem(a, (sc(P(k), 'i'),), st.fork(), node)
                finally:
                    I.mute -= 1
                isnum = I.is_array(e, st)
            else:
                isnum = False
            if not isnum:
                if not copy:
                    return a
                r = ORef(alloc(OAC(n)))
                e = I.getitem(a, (sc(P(k), 'i'),), st, node)
                I.oa_write(r.cid, ('rg', k, n, P(k), e), st)
                return r
        elif isinstance(c, (ListC, SymListC)):
            items = c.items if isinstance(c, ListC) else [s[-1] for s in c.segs]
            if dt == 'o' or items and not all(_numlike(I, x, st) for x in items):
                if isinstance(c, SymListC) and len(c.segs) == 1 and c.segs[0][0] == 'rep':
                    _, n, vv, val = c.segs[0]
                    return ORef(alloc(OAC(n, [('rg', vv, n, P(vv), val)])))
                if isinstance(c, ListC):
                    return ORef(alloc(OAC(const(len(items)), [('pt', const(i), x) for i, x in enumerate(items)])))
                return TopV('object array of list')
        elif isinstance(c, (ObjC, SymObjC, DictC)):
            r = ORef(alloc(OAC(ONEP, [('pt', ZERO, a)])))
            return r
    av = I.av(a, st, node)
    return newarr(AV(av.shape, av.vars, av.body, dt or av.dt))


def _numlike(I, x, st):
    if isinstance(x, (AV, Ref, bool)):
        return True
    if isinstance(x, Gated):
        return I.is_array(x, st)
    if isinstance(x, tuple):
        return all(_numlike(I, y, st) for y in x)
    if isinstance(x, ORef):
        c = st.get(x.cid)
        if isinstance(c, ListC):
            return all(_numlike(I, y, st) for y in c.items)
        if isinstance(c, SymListC):
            return all(s[0] != 'car' and _numlike(I, s[-1], st) for s in c.segs)
    return False


# ------------------------------------------------------------------ elementwise
def ew(names, f, dt=None):
    def g(I, st, node, *a, **kw):
        for k in kw:
            if k not in ('dtype', 'out', 'axis'):
                raise Give('keyword ' + k)
        r = elem(I, st, node, f, *a, dt=dt)
        if kw.get('out') is not None:
            I.write(kw['out'], r, st, node)
            return kw['out']
        return r
    reg(*names)(g)


ew(['numpy.exp', 'math.exp'], mk_exp, 'f')
_EXP = F['numpy.exp']


def _exp(I, st, node, x, *a, **kw):
    if not I.mute and not isinstance(x, TopV):
        try:
            I.ev('exp', st, node, arg=I.av(x, st, node))
        except Give:
            pass
    return _EXP(I, st, node, x, *a, **kw)


reg('numpy.exp', 'math.exp')(_exp)
ew(['numpy.log', 'math.log'], mk_log, 'f')
ew(['numpy.sqrt', 'math.sqrt', 'scipy.sqrt'], lambda p: ppow(p, Fr(1, 2)), 'f')
ew(['numpy.square'], lambda p: p * p)
ew(['numpy.power', 'math.pow'], fpow)
ew(['numpy.add'], lambda p, q: p + q)
ew(['numpy.subtract'], lambda p, q: p - q)
ew(['numpy.multiply'], lambda p, q: p * q)
ew(['numpy.divide', 'numpy.true_divide'], lambda p, q: p * recip(q), 'f')
ew(['numpy.negative'], lambda p: -p)
ew(['numpy.abs', 'numpy.absolute', 'math.fabs', 'numpy.fabs'], lambda p: mk_abs(p))
ew(['numpy.logical_not'], lambda p: ONEP - tobool(p), 'b')
ew(['numpy.logical_and'], lambda p, q: tobool(p) * tobool(q), 'b')
ew(['numpy.logical_or'], lambda p, q: tobool(p) + tobool(q) - tobool(p) * tobool(q), 'b')
ew(['numpy.less'], lambda p, q: cond_gt(q, p), 'b')
ew(['numpy.greater'], cond_gt, 'b')
ew(['numpy.less_equal'], lambda p, q: cond_ge(q, p), 'b')
ew(['numpy.greater_equal'], cond_ge, 'b')
ew(['numpy.equal'], lambda p, q: mk_eq(p - q), 'b')
ew(['numpy.not_equal'], lambda p, q: ONEP - mk_eq(p - q), 'b')
ew(['numpy.floor', 'math.floor', 'numpy.trunc'], lambda p: p if is_int(p) else P(mk_atom('floor', p)))
ew(['numpy.ceil', 'math.ceil'], lambda p: p if is_int(p) else -P(mk_atom('floor', -p)))
ew(['math.lgamma', 'math.gamma'], lambda p: P(mk_atom('gamma', p)))


def tobool(p):
    if all(a.kind in T.IND for f, s, c in p.terms for a, e in f) and not any(s for f, s, c in p.terms):
        return p
    return ONEP - mk_eq(p)


def mk_abs(p):
    if prove_ge0(p):
        return p
    if prove_ge0(-p):
        return -p
    s = T.sign_of(p)
    if s is not None:
        return p if s >= 0 else -p
    c = mk_pos(p)
    return c * p - (ONEP - c) * p


def mk_max2(a, b):
    if a is b:
        return a
    if T.nonneg(a - b):
        return a
    if T.nonneg(b - a):
        return b
    c = cond_gt(a, b)
    return c * a + (ONEP - c) * b


ew(['numpy.maximum', 'numpy.fmax'], mk_max2)
ew(['numpy.minimum', 'numpy.fmin'], lambda a, b: -mk_max2(-a, -b))
ew(['numpy.isfinite'], lambda p: ONEP, 'b')
ew(['numpy.isnan', 'numpy.isinf', 'math.isnan', 'math.isinf'], lambda p: ZERO, 'b')


@reg('numpy.where')
def _where(I, st, node, c, a=None, b=None):
    if a is None:
        cv = I.av(c, st, node)
        if len(cv.shape) != 1:
            raise Give('where')
        return (nonzero(I, cv),)
    return elem(I, st, node, lambda p, x, y: p * x + (ONEP - p) * y, tob(I, c, st), a, b)


def tob(I, c, st):
    v = I.av(c, st)
    if v.dt == 'b':
        return v
    return mkav(v.shape, lambda *i: tobool(v.at(i)), 'b')


def nonzero(I, cv):
    clo = mkav(cv.shape, lambda *i: tobool(cv.at(i))).clo()
    n = mk_cnt(clo)
    return newarr(mkav((n,), lambda k: mk_nz(clo, P(k)), 'i'))


@reg('numpy.nonzero', 'numpy.flatnonzero')
def _nonzero(I, st, node, a):
    cv = I.av(a, st, node)
    if len(cv.shape) != 1:
        raise Give('nonzero')
    r = nonzero(I, cv)
    return (r,)


F['numpy.flatnonzero'] = lambda I, st, node, a: _nonzero(I, st, node, a)[0]


def mk_cnt(clo):
    if clo.body is ONEP:
        return clo.dims[0]
    if clo.body is ZERO:
        return ZERO
    v = constmask(clo)
    if v is not None:
        return const(sum(v))
    return P(mk_atom('cnt', clo))


def constmask(clo, lim=12):
    """values of an indicator over a known small range, if all are decided"""
    d = clo.dims
    if len(d) != 1 or not is_const(d[0]) or not 0 <= cval(d[0]) <= lim:
        return None
    out = [apply(clo, (const(i),)) for i in range(int(cval(d[0])))]
    return [int(cval(x)) for x in out] if all(is_const(x) for x in out) else None


def mk_nz(clo, k):
    if has_top(clo):
        return top('nz')
    if clo.body is ONEP:
        return k
    if len(k.terms) == 1 and len(k.terms[0][0]) == 1 and k.terms[0][2] == 1:
        a, e = k.terms[0][0][0]
        if a.kind == 'rank' and e == 1 and a.args[0] is clo:
            return a.args[1]
    v = constmask(clo)
    if v is not None:
        at = [i for i, x in enumerate(v) if x]
        if is_const(k):
            return const(at[int(cval(k))]) if 0 <= cval(k) < len(at) else top('nz')
        if at == list(range(len(at))):
            return k
        return psum([mk_eq(k - const(j)) * const(i) for j, i in enumerate(at) if i] or [ZERO])
    return P(mk_atom('nz', clo, k))


def mk_rank(clo, i):
    if clo.body is ONEP:
        return i
    if len(i.terms) == 1 and len(i.terms[0][0]) == 1 and i.terms[0][2] == 1:
        a, e = i.terms[0][0][0]
        if a.kind == 'nz' and e == 1 and a.args[0] is clo:
            return a.args[1]
    return P(mk_atom('rank', clo, i))


T.CONS['nz'] = mk_nz
T.CONS['rank'] = mk_rank
T.CONS['cnt'] = mk_cnt


@reg('numpy.count_nonzero')
def _cnz(I, st, node, a):
    v = tob(I, a, st)
    clo = v.clo()
    if len(v.shape) == 1:
        return sc(mk_cnt(clo), 'i')
    return I.ret(reduce_(I, v, None, lambda vs, b: sum_over(b, vs)))


# ------------------------------------------------------------------ reductions
def _axis_reduce(I, st, node, a, axis, f, keepdims=False, dt=None):
    if isinstance(a, (ORef, tuple)) and not I.numeric(a, st):
        raise Give('reduction of objects')
    av = I.av(a, st, node)
    ax = axis_arg(I, axis, len(av.shape), st)
    if ax is not None:
        for x in ax:
            pass
    k = keepdims is True
    r = reduce_(I, av, ax, f, k)
    if dt:
        r = AV(r.shape, r.vars, r.body, dt)
    elif r.dt == 'b':
        r = AV(r.shape, r.vars, r.body, 'i')
    return I.ret(r)


@reg('numpy.sum', 'builtins.sum', 'math.fsum', 'numpy.add.reduce')
def _sum(I, st, node, a, axis=None, dtype=None, keepdims=False, start=None):
    if isinstance(a, IterV):
        raise Give('sum of iterator')
    if isinstance(a, (ORef, tuple)) and not I.numeric(a, st):
        if isinstance(a, ORef) and isinstance(st.get(a.cid), SymListC):
            pass
        raise Give('sum of objects')
    return _axis_reduce(I, st, node, a, axis, lambda vs, b: sum_over(b, vs) if vs else b, keepdims)


def _bsum(I, st, node, a, start=None):
    av = I.av(a, st, node)
    r = reduce_(I, av, (0,), lambda vs, b: sum_over(b, vs))
    return I.ret(r)


F['builtins.sum'] = _bsum


@reg('numpy.mean', 'numpy.average')
def _mean(I, st, node, a, axis=None, dtype=None, keepdims=False, weights=None):
    if weights is not None:
        av, wv = I.av(a, st), I.av(weights, st)
        ax = axis_arg(I, axis, len(av.shape), st)
        if ax is None and len(av.shape) == 1:
            ax = (0,)
        if ax is None or len(ax) != 1 or len(wv.shape) != 1:
            raise Give('average')
        j = fresh(wv.shape[0])
        tot = sum_over(wv.at((P(j),)), [j])
        m = mkav(av.shape, lambda *i: av.at(i) * wv.at((i[ax[0]],)))
        r = reduce_(I, m, ax, lambda vs, b: sum_over(b, vs))
        return I.ret(AV(r.shape, r.vars, r.body * recip(tot), 'f'))

    def f(vs, b):
        r = sum_over(b, vs) if vs else b
        for v in vs:
            r = r * recip(v.args[1])
        return r
    return _axis_reduce(I, st, node, a, axis, f, keepdims, 'f')


def _mx(vs, b):
    vs = [v for v in vs if v in b.fv]
    if not vs:
        return b
    return mk_max(mk_closure(vs, b))


@reg('numpy.max', 'numpy.amax', 'numpy.nanmax')
def _max(I, st, node, a, axis=None, keepdims=False, initial=None):
    if isinstance(axis, Builtin) or isinstance(axis, (Ref,)):
        raise Give('max axis')
    return _axis_reduce(I, st, node, a, axis, _mx, keepdims)


@reg('numpy.min', 'numpy.amin')
def _min(I, st, node, a, axis=None, keepdims=False):
    return _axis_reduce(I, st, node, a, axis, lambda vs, b: -_mx(vs, -b), keepdims)


@reg('builtins.max')
def _bmax(I, st, node, *a, **kw):
    if kw:
        raise Give('max key')
    if len(a) == 1:
        return _max(I, st, node, a[0])
    r = a[0]
    for x in a[1:]:
        r = elem(I, st, node, mk_max2, r, x)
    return r


@reg('builtins.min')
def _bmin(I, st, node, *a, **kw):
    if kw:
        raise Give('min key')
    if len(a) == 1:
        return _min(I, st, node, a[0])
    r = a[0]
    for x in a[1:]:
        r = elem(I, st, node, lambda p, q: -mk_max2(-p, -q), r, x)
    return r


@reg('numpy.any')
def _any(I, st, node, a, axis=None):
    v = tob(I, a, st)
    ax = axis_arg(I, axis, len(v.shape), st)

    def f(vs, b):
        vs = [x for x in vs if x in b.fv]
        if not vs:
            return b
        if has_top(b):
            return top('any')
        return mk_any(mk_closure(vs, b))
    r = reduce_(I, v, ax, f)
    return I.from_cond(r.body) if not r.shape else newarr(AV(r.shape, r.vars, r.body, 'b'))


def mk_any(c):
    return mk_cond_max(c)


def mk_cond_max(c):
    # any(b) as an indicator atom "number of true entries >= 1"
    return mk_ge(P(mk_atom('count', c)) - ONEP)


@reg('numpy.all')
def _all(I, st, node, a, axis=None):
    v = tob(I, a, st)
    n = mkav(v.shape, lambda *i: ONEP - v.at(i), 'b')
    ax = axis_arg(I, axis, len(v.shape), st)

    def f(vs, b):
        vs = [x for x in vs if x in b.fv]
        if not vs:
            return b
        if has_top(b):
            return top('all')
        return mk_any(mk_closure(vs, b))
    r = reduce_(I, n, ax, f)
    r = AV(r.shape, r.vars, ONEP - r.body, 'b')
    return I.from_cond(r.body) if not r.shape else newarr(r)


@reg('numpy.argmax', 'numpy.argmin')
def _argmax(I, st, node, a, axis=None):
    v = I.av(a, st, node)
    if len(v.shape) != 1:
        raise Give('argmax')
    return sc(mk_argmax(v.clo()), 'i')


def _argmin(I, st, node, a, axis=None):
    v = I.av(a, st, node)
    if len(v.shape) != 1:
        raise Give('argmin')
    return sc(mk_argmax(mkav(v.shape, lambda *i: -v.at(i)).clo()), 'i')


F['numpy.argmin'] = _argmin


def mk_argmax(c):
    if has_top(c):
        return top('argmax')
    # drop additive constants
    v = c.vars[0]
    body = T._mk_poly({(f, s): k for f, s, k in c.body.terms
                       if any(v in a.fv for a, e in f) or any(v in w.args[1].fv for w in s)})
    return P(mk_atom('argmax', mk_closure([v], body) if body is not c.body else c))


T.CONS['argmax'] = mk_argmax


@reg('numpy.argsort')
def _argsort(I, st, node, a, axis=None, kind=None):
    v = I.av(a, st, node)
    if len(v.shape) != 1:
        raise Give('argsort')
    clo = v.clo()
    if has_top(clo):
        return TopV('argsort')
    return newarr(mkav(v.shape, lambda k: P(mk_atom('argsort', clo, P(k))), 'i'))


@reg('numpy.sort')
def _sort(I, st, node, a, axis=None):
    v = I.av(a, st, node)
    if len(v.shape) != 1:
        raise Give('sort')
    clo = v.clo()
    return newarr(mkav(v.shape, lambda k: apply(clo, (P(mk_atom('argsort', clo, P(k))),)), v.dt))


@reg('numpy.cumsum')
def _cumsum(I, st, node, a, axis=None):
    v = I.av(a, st, node)
    if len(v.shape) != 1:
        raise Give('cumsum')

    def f(i):
        j = fresh(P(i) + ONEP)
        return sum_over(v.at((P(j),)), [j])
    return newarr(mkav(v.shape, f, v.dt))


@reg('numpy.diff')
def _diff(I, st, node, a):
    v = I.av(a, st, node)
    return newarr(mkav((v.shape[0] - ONEP,) + tuple(v.shape[1:]), lambda i, *r: v.at((P(i) + ONEP,) + r) - v.at((i,) + r)))


@reg('numpy.searchsorted')
def _searchsorted(I, st, node, a, v, side='left'):
    x, q = I.av(a, st, node), I.av(v, st, node)
    clo = x.clo()
    side = side if isinstance(side, str) else 'left'
    if has_top(clo):
        return TopV('searchsorted')

    def f(*i):
        p = q.at(i)
        if 'top' in p.kinds:
            return top('searchsorted')
        return P(mk_atom('searchsorted', clo, p, side))
    return I.ret(mkav(q.shape, f, 'i'))


@reg('numpy.percentile')
def _percentile(I, st, node, a, q=None, **kw):
    return pctl(I, st, node, a, q, kw)


@reg('numpy.quantile')
def _quantile(I, st, node, a, q=None, **kw):
    v = I.av(q, st)
    return pctl(I, st, node, a, sc(v.body * 100) if not v.shape else q, kw)


@reg('numpy.median')
def _median(I, st, node, a, **kw):
    return pctl(I, st, node, a, sc(const(50)), kw)


def pctl(I, st, node, a, q, kw):
    v, qq = I.av(a, st), I.av(q, st)
    if kw or len(v.shape) != 1 or qq.shape:
        return I.topv('percentile', st, node)
    clo = v.clo()
    if has_top(clo) or 'top' in qq.body.kinds:
        return TopV('percentile')
    return I.ret(sc(mk_pctl(clo, qq.body)))


def mk_pctl(clo, q):
    d = clo.dims[0]
    if is_const(d) and is_const(q) and 0 < cval(d) <= 12 and 0 <= cval(q) <= 100:
        x = [apply(clo, (const(i),)) for i in range(int(cval(d)))]
        if all(is_const(y) for y in x):
            x = sorted(cval(y) for y in x)
            h = Fraction(cval(q)) * (len(x) - 1) / 100
            k = int(h)
            return const(x[k] + (h - k) * (x[min(k + 1, len(x) - 1)] - x[k]))
        if len(x) == 1:
            return x[0]
    if not clo.body.fv & set(clo.vars):
        return clo.body
    return P(mk_atom('pctl', clo, q))


T.CONS['pctl'] = mk_pctl


@reg('numpy.var', 'numpy.std', 'numpy.cov')
def _var(I, st, node, *a, **kw):
    return I.topv('variance', st, node)


@reg('numpy.unique')
def _unique(I, st, node, a, **kw):
    v = I.av(a, st, node)
    return TopV('unique')


@reg('numpy.array_equiv', 'numpy.array_equal', 'numpy.allclose')
def _aeq(I, st, node, a, b, **kw):
    x, y = I.av(a, st, node), I.av(b, st, node)
    if len(x.shape) != len(y.shape):
        return False
    try:
        I.mute += 1
        d = I.elementwise(lambda p, q: ONEP - mk_eq(p - q), [x, y], st, node, 'b')
    except RaiseOut:
        return False
    finally:
        I.mute -= 1
    r = reduce_(I, d, None, lambda vs, b: b if not [v for v in vs if v in b.fv] else mk_any(mk_closure([v for v in vs if v in b.fv], b)))
    return I.from_cond(ONEP - r.body)


@reg('numpy.isscalar')
def _isscalar(I, st, node, a):
    return isinstance(a, (AV, bool, str)) and not getattr(a, 'shape', ())


@reg('numpy.ndim')
def _ndim(I, st, node, a):
    return sc(len(I.av(a, st).shape), 'i')


@reg('numpy.shape')
def _shape(I, st, node, a):
    return tuple(sc(d, 'i') for d in I.av(a, st).shape)


@reg('numpy.size')
def _size(I, st, node, a, axis=None):
    r = ONEP
    for d in I.av(a, st).shape:
        r = r * d
    return sc(r, 'i')


# ------------------------------------------------------------------ linear algebra
def matmul(I, a, b, st, node, op='matmul'):
    if not a.shape or not b.shape:
        return I.ret(I.elementwise(lambda p, q: p * q, [a, b], st, node))
    na, nb = len(a.shape), len(b.shape)
    ka = a.shape[-1]
    kb = b.shape[-2] if nb >= 2 else b.shape[0]
    need_same(I, st, node, ka, kb, 'dot product shapes')
    dt = 'f' if 'f' in (a.dt, b.dt) else 'i'
    if op == 'matmul' and (na > 2 or nb > 2):
        # broadcasting over leading axes
        la = a.shape[:-2] if na >= 2 else ()
        lb = b.shape[:-2] if nb >= 2 else ()
        lead = I.bshape([la, lb], st, node) if (la or lb) else []
        rows = (a.shape[-2],) if na >= 2 else ()
        cols = (b.shape[-1],) if nb >= 2 else ()

        def f(*i):
            L = i[:len(lead)]
            r = i[len(lead):len(lead) + len(rows)]
            c = i[len(lead) + len(rows):]
            k = fresh(ka)
            ia = [ZERO if d is ONEP else x for d, x in zip(la, L[len(L) - len(la):])]
            ib = [ZERO if d is ONEP else x for d, x in zip(lb, L[len(L) - len(lb):])]
            bi = ib + [P(k)] + list(c) if nb >= 2 else [P(k)]
            return sum_over(a.at(ia + list(r) + [P(k)]) * b.at(bi), [k])
        return I.ret(mkav(tuple(lead) + rows + cols, f, dt))
    ra = a.shape[:-1]
    rb = b.shape[:-2] + b.shape[-1:] if nb >= 2 else ()

    def g(*i):
        k = fresh(ka)
        ia, ib = i[:len(ra)], i[len(ra):]
        if nb >= 2:
            bi = tuple(ib[:-1]) + (P(k),) + tuple(ib[-1:])
        else:
            bi = (P(k),)
        return sum_over(a.at(tuple(ia) + (P(k),)) * b.at(bi), [k])
    return I.ret(mkav(tuple(ra) + tuple(rb), g, dt))


@reg('numpy.dot', 'scipy.dot')
def _dot(I, st, node, a, b, out=None):
    return matmul(I, I.av(a, st, node), I.av(b, st, node), st, node, 'dot')


@reg('numpy.matmul')
def _matmul(I, st, node, a, b):
    return matmul(I, I.av(a, st, node), I.av(b, st, node), st, node)


@reg('numpy.inner', 'numpy.vdot')
def _inner(I, st, node, a, b):
    x, y = I.av(a, st, node), I.av(b, st, node)
    if len(x.shape) == 1 and len(y.shape) == 1:
        return matmul(I, x, y, st, node)
    raise Give('inner')


@reg('numpy.outer')
def _outer(I, st, node, a, b):
    x, y = flat(I, I.av(a, st, node)), flat(I, I.av(b, st, node))
    return newarr(mkav((x.shape[0], y.shape[0]), lambda i, j: x.at((i,)) * y.at((j,)),
                       'f' if 'f' in (x.dt, y.dt) else 'i'))


def flat(I, av):
    if len(av.shape) == 1:
        return av
    return reshape_av(av, (prod(av.shape),))


def prod(ds):
    r = ONEP
    for d in ds:
        r = r * d
    return r


@reg('numpy.trace')
def _trace(I, st, node, a):
    v = I.av(a, st, node)
    if len(v.shape) != 2:
        raise Give('trace')
    need_same(I, st, node, v.shape[0], v.shape[1], 'trace of a non-square matrix')
    i = fresh(v.shape[0])
    return sc(sum_over(v.at((P(i), P(i))), [i]), 'f')


@reg('numpy.diag')
def _diag(I, st, node, a, k=None):
    if k is not None:
        raise Give('diag k')
    v = I.av(a, st, node)
    if len(v.shape) == 1:
        n = v.shape[0]
        return newarr(mkav((n, n), lambda i, j: mk_eq(P(i) - P(j)) * v.at((i,)), v.dt))
    return _diagonal(I, st, node, a)


@reg('numpy.diagonal')
def _diagonal(I, st, node, a, offset=None, axis1=None, axis2=None):
    v = I.av(a, st, node)
    if axis1 is not None and (cint(I, axis1, st), cint(I, axis2, st)) not in ((0, 1), (-2, -1)) and len(v.shape) == 2:
        raise Give('diagonal axes')
    if len(v.shape) == 3 and axis1 is not None and (cint(I, axis1, st), cint(I, axis2, st)) in ((1, 2), (-2, -1)):
        return newarr(mkav(v.shape[:2], lambda i, j: v.at((i, j, j)), v.dt))
    if len(v.shape) != 2:
        raise Give('diagonal')
    return newarr(mkav((v.shape[0],), lambda i: v.at((i, i)), v.dt))


@reg('numpy.triu', 'scipy.linalg.triu')
def _triu(I, st, node, a, k=None):
    v = I.av(a, st, node)
    if len(v.shape) == 1:
        v = mkav(v.shape * 2, lambda i, j, u=v: u.at((j,)), v.dt)
    elif not v.shape:
        fail(I, st, node, 'shape', 'triu of a scalar', 'TypeError')
    off = ZERO if k is None else I.av(k, st).body
    return newarr(mkav(v.shape, lambda i, j: mk_ge(P(j) - P(i) - off) * v.at((i, j)), v.dt))


@reg('numpy.tril')
def _tril(I, st, node, a, k=None):
    v = I.av(a, st, node)
    if len(v.shape) == 1:
        v = mkav(v.shape * 2, lambda i, j, u=v: u.at((j,)), v.dt)
    elif not v.shape:
        fail(I, st, node, 'shape', 'tril of a scalar', 'TypeError')
    off = ZERO if k is None else I.av(k, st).body
    return newarr(mkav(v.shape, lambda i, j: mk_ge(P(i) - P(j) + off) * v.at((i, j)), v.dt))


@reg('numpy.transpose')
def _transpose(I, st, node, a, axes=None):
    v = a if isinstance(a, Ref) else newarr(I.av(a, st, node))
    nd = len(v.shape)
    perm = list(range(nd))[::-1] if axes is None else [int(cval(p)) % nd for p in shape_arg(I, axes, st)]
    return Ref(v.cid, [v.shape[p] for p in perm], [v.vars[p] for p in perm], v.idx)


@reg('numpy.swapaxes')
def _swap(I, st, node, a, x, y):
    v = a if isinstance(a, Ref) else newarr(I.av(a, st, node))
    nd = len(v.shape)
    perm = list(range(nd))
    i, j = cint(I, x, st) % nd, cint(I, y, st) % nd
    perm[i], perm[j] = perm[j], perm[i]
    return Ref(v.cid, [v.shape[p] for p in perm], [v.vars[p] for p in perm], v.idx)


def batched(I, av, f):
    """apply f(closure, i, j) over the last two axes"""
    def g(*i):
        a, b = fresh(av.shape[-2]), fresh(av.shape[-1])
        clo = mk_closure([a, b], av.at(list(i[:-2]) + [P(a), P(b)]))
        return f(clo, P(i[-2]), P(i[-1]))
    return mkav(av.shape, g)


def square(I, st, node, v, what):
    if len(v.shape) < 2:
        fail(I, st, node, 'shape', '%s of a %d-dimensional array' % (what, len(v.shape)), 'LinAlgError')
    need_same(I, st, node, v.shape[-1], v.shape[-2], what + ' of a non-square matrix')


@reg('numpy.linalg.inv', 'scipy.linalg.inv', 'numpy.linalg.pinv')
def _inv(I, st, node, a, **kw):
    v = I.av(a, st, node)
    square(I, st, node, v, 'inverse')
    return newarr(batched(I, v, mk_inv))


def solve_av(I, st, node, A, b):
    square(I, st, node, A, 'solve')
    vec = len(b.shape) == 1 and len(A.shape) == 2
    row = b.shape[0] if vec else b.shape[-2]
    need_same(I, st, node, A.shape[-1], row, 'solve shapes')
    if len(A.shape) > 2 or len(b.shape) > 2:
        lead = I.bshape([A.shape[:-2], b.shape[:-2]], st, node)
    else:
        lead = []
    n = A.shape[-1]

    def f(*i):
        L = i[:len(lead)]

        def sub(sh):
            m = len(sh) - 2
            return [ZERO if d is ONEP else x for d, x in zip(sh[:m], L[len(L) - m:] if m else [])]
        x, y = fresh(n), fresh(n)
        clo = mk_closure([x, y], A.at(sub(A.shape) + [P(x), P(y)]))
        k = fresh(n)
        if vec:
            return sum_over(mk_inv(clo, P(i[0]), P(k)) * b.at((P(k),)), [k])
        return sum_over(mk_inv(clo, P(i[-2]), P(k)) * b.at(sub(b.shape) + [P(k), i[-1]]), [k])
    return mkav(tuple(lead) + ((n,) if vec else (n, b.shape[-1])), f)


@reg('numpy.linalg.solve', 'scipy.linalg.solve')
def _solve(I, st, node, a, b, **kw):
    return newarr(solve_av(I, st, node, I.av(a, st, node), I.av(b, st, node)))


def clo_of(v):
    return v.clo()


@reg('numpy.linalg.slogdet')
def _slogdet(I, st, node, a):
    v = I.av(a, st, node)
    square(I, st, node, v, 'slogdet')

    def f(*i):
        x, y = fresh(v.shape[-2]), fresh(v.shape[-1])
        return mk_logdet(mk_closure([x, y], v.at(list(i) + [P(x), P(y)])))
    return (I.ret(mkav(v.shape[:-2], lambda *i: ONEP)), I.ret(mkav(v.shape[:-2], f)))


@reg('numpy.linalg.det', 'scipy.linalg.det')
def _det(I, st, node, a):
    v = I.av(a, st, node)
    square(I, st, node, v, 'det')

    def f(*i):
        x, y = fresh(v.shape[-2]), fresh(v.shape[-1])
        return mk_exp(mk_logdet(mk_closure([x, y], v.at(list(i) + [P(x), P(y)]))))
    return I.ret(mkav(v.shape[:-2], f))


@reg('numpy.linalg.cholesky')
def _chol(I, st, node, a):
    v = I.av(a, st, node)
    square(I, st, node, v, 'cholesky')
    return newarr(batched(I, v, lambda c, i, j: mk_cholU(c, j, i)))


@reg('scipy.linalg.cholesky')
def _scholesky(I, st, node, a, lower=False, **kw):
    v = I.av(a, st, node)
    square(I, st, node, v, 'cholesky')
    if lower is True:
        return newarr(batched(I, v, lambda c, i, j: mk_cholU(c, j, i)))
    return newarr(batched(I, v, mk_cholU))


@reg('scipy.linalg.cho_factor')
def _chof(I, st, node, a, lower=False, overwrite_a=None, check_finite=True):
    v = I.av(a, st, node)
    square(I, st, node, v, 'cho_factor')
    if lower is True:
        clo = v.clo()

        def g(i, j):
            if prove_ge0(i - j):
                return mk_cholU(clo, j, i)
            return P(mk_atom('chof', clo, i, j))
        return (newarr(mkav(v.shape, g)), True)
    clo = v.clo()
    return (newarr(mkav(v.shape, lambda i, j: mk_chof(clo, P(i), P(j)))), False)


@reg('scipy.linalg.cho_solve')
def _chos(I, st, node, cl, b, overwrite_b=None, check_finite=True):
    if not isinstance(cl, tuple) or len(cl) != 2:
        fail(I, st, node, 'typeerror', 'cho_solve expects (c, lower)', 'TypeError')
    c, low = cl
    U = I.av(c, st, node)
    bb = I.av(b, st, node)
    lower = low is True or (isinstance(low, AV) and is_const(low.body) and cval(low.body) != 0)
    A = unchol(I, st, U, lower)
    return newarr(solve_av(I, st, node, A, bb))


def unchol(I, st, U, lower):
    """matrix whose factor is stored in U (only the named triangle is read)"""
    n = U.shape[0]
    vs = [fresh(n), fresh(n)]
    body = U.at([P(vs[0]), P(vs[1])])
    # recognise a factor
    if len(body.terms) == 1 and not body.terms[0][1]:
        f, s, c = body.terms[0]
        fs = [(a, e) for a, e in f if a.kind not in T.IND]
        hit = [a for a, e in fs if a.kind in ('chof', 'cholU') and e == 1]
        if c == 1 and len(hit) == 1 and len(fs) == 1:
            a = hit[0]
            ij = (P(vs[0]), P(vs[1]))
            if not (a.args[0].fv & set(vs)):
                if a.args[1:] == ij and not lower or a.kind == 'cholU' and a.args[1:] == ij[::-1] and lower:
                    clo = a.args[0]
                    return mkav((n, n), lambda i, j: apply(clo, (P(i), P(j))))
    if n is ONEP:
        return mkav((n, n), lambda i, j: U.at((ZERO, ZERO)) * U.at((ZERO, ZERO)))

    def f(i, j):
        k = fresh(n)
        if lower:
            x = mk_ge(i - P(k)) * U.at((i, P(k)))
            y = mk_ge(j - P(k)) * U.at((j, P(k)))
        else:
            x = mk_ge(i - P(k)) * U.at((P(k), i))
            y = mk_ge(j - P(k)) * U.at((P(k), j))
        return sum_over(x * y, [k])
    return mkav((n, n), f)


@reg('scipy.linalg.solve_triangular')
def _strtri(I, st, node, a, b, trans=None, lower=False, **kw):
    v = I.av(a, st, node)
    lo = lower is True
    t = mkav(v.shape, lambda i, j: (mk_ge(i - j) if lo else mk_ge(j - i)) * v.at((i, j)))
    if trans is not None and not (isinstance(trans, AV) and is_const(trans.body) and cval(trans.body) == 0):
        t2 = t
        t = mkav(v.shape, lambda i, j: t2.at((j, i)))
    return newarr(solve_av(I, st, node, t, I.av(b, st, node)))


@reg('numpy.linalg.svd')
def _svd(I, st, node, a, full_matrices=None):
    v = I.av(a, st, node)
    if len(v.shape) != 2:
        raise Give('svd')
    clo = v.clo()
    return (newarr(mkav((v.shape[0], v.shape[0]), lambda i, j: P(mk_atom('svdU', clo, P(i), P(j))))),
            newarr(mkav((v.shape[0],), lambda i: P(mk_atom('svdS', clo, P(i))))),
            newarr(mkav((v.shape[1], v.shape[1]), lambda i, j: P(mk_atom('svdV', clo, P(i), P(j))))))


@reg('numpy.linalg.norm')
def _norm(I, st, node, a, **kw):
    v = I.av(a, st, node)
    if kw:
        raise Give('norm')
    r = reduce_(I, v, None, lambda vs, b: sum_over(b * b, vs))
    return sc(ppow(r.body, Fr(1, 2)), 'f')


@reg('numpy.kron')
def _kron(I, st, node, a, b):
    x, y = I.av(a, st, node), I.av(b, st, node)
    if len(x.shape) != 2 or len(y.shape) != 2:
        raise Give('kron')
    p, q = y.shape
    return newarr(mkav((x.shape[0] * p, x.shape[1] * q), lambda i, j: x.at((mk_div(P(i), p), mk_div(P(j), q))) *
                       y.at((mk_mod(P(i), p), mk_mod(P(j), q)))))


@reg('numpy.einsum')
def _einsum(I, st, node, spec, *ops, **kw):
    if not isinstance(spec, str) or '.' in spec:
        raise Give('einsum')
    spec = spec.replace(' ', '')
    avs = [I.av(o, st, node) for o in ops]
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        out = ''.join(sorted(c for c in set(ins.replace(',', '')) if ins.count(c) == 1))
    ins = ins.split(',')
    dims = {}
    for s, a in zip(ins, avs):
        if len(s) != len(a.shape):
            fail(I, st, node, 'shape', 'einsum operand rank')
        for ch, d in zip(s, a.shape):
            if ch in dims and dims[ch] is not ONEP and d is not ONEP:
                need_same(I, st, node, dims[ch], d, 'einsum')
            if ch not in dims or dims[ch] is ONEP:
                dims[ch] = d

    def f(*i):
        m = {c: P(x) for c, x in zip(out, i)}
        sv = []
        for c in dims:
            if c not in m:
                v = fresh(dims[c])
                sv.append(v)
                m[c] = P(v)
        r = ONEP
        for s, a in zip(ins, avs):
            r = r * a.at([ZERO if d is ONEP else m[c] for c, d in zip(s, a.shape)])
        return sum_over(r, sv) if sv else r
    return I.ret(mkav([dims[c] for c in out], f))


@reg('numpy.tensordot')
def _tensordot(I, st, node, *a, **kw):
    raise Give('tensordot')


# ------------------------------------------------------------------ joining
def seq_items(I, v, st):
    """-> list of (n, fn(k)->AV)"""
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, ORef):
        c = st.get(v.cid)
        if isinstance(c, ListC):
            return list(c.items)
        if isinstance(c, SymListC) and all(s[0] == 'one' for s in c.segs):
            return [s[1] for s in c.segs]
    return None


def concat(I, st, node, avs, axis):
    sh = avs[0].shape
    nd = len(sh)
    axis = axis % nd
    for a in avs[1:]:
        if len(a.shape) != nd:
            fail(I, st, node, 'shape', 'concatenate ranks')
        for k in range(nd):
            if k != axis:
                need_same(I, st, node, a.shape[k], sh[k], 'concatenate shapes')
    avs = [a for a in avs if not (is_const(a.shape[axis]) and cval(a.shape[axis]) == 0)] or avs[:1]
    if len(avs) == 1:
        return newarr(avs[0])
    tot = psum([a.shape[axis] for a in avs])

    def f(*i):
        off = ZERO
        r = ZERO
        for a in avs:
            n = a.shape[axis]
            x = P(i[axis])
            if n is ONEP:
                m = mk_eq(x - off)
            else:
                m = mk_ge(x - off) * (ONEP - mk_ge(x - off - n))
            j = list(i)
            j[axis] = ZERO if n is ONEP else x - off
            r = r + m * a.at(j)
            off = off + n
        return r
    shape = list(sh)
    shape[axis] = tot
    dts = [a.dt for a in avs]
    return newarr(mkav(shape, f, dts[0] if len(set(dts)) == 1 else 'f'))


@reg('numpy.concatenate')
def _concat(I, st, node, seq, axis=None):
    items = seq_items(I, seq, st)
    if items is None:
        return _concat_rep(I, st, node, seq, 0 if axis is None else cint(I, axis, st))
    if any(isinstance(x, (ORef, SeqV)) and not I.numeric(x, st) for x in items):
        return _concat_obj(I, st, node, items)
    avs = [I.av(x, st, node) for x in items]
    if any(not a.shape for a in avs):
        fail(I, st, node, 'shape', 'zero-dimensional arrays cannot be concatenated')
    return concat(I, st, node, avs, 0 if axis is None else cint(I, axis, st))


def _concat_obj(I, st, node, items):
    n = psum([I.length(x, st) for x in items])
    r = ORef(alloc(OAC(n)))
    off = ZERO
    for x in items:
        m = I.length(x, st)
        k = fresh(m)
        e = I.getitem(x, (sc(P(k), 'i'),), st, node)
        I.oa_write(r.cid, ('rg', k, m, off + P(k), e), st)
        off = off + m
    return r


def _concat_rep(I, st, node, seq, axis):
    """concatenation of a symbolic-length sequence of equally shaped arrays"""
    a = I.av(seq, st, node)   # (n, ...)
    if len(a.shape) < 2:
        raise Give('concatenate')
    if axis != 0:
        raise Give('concatenate axis')
    n, m = a.shape[0], a.shape[1]
    return newarr(mkav((n * m,) + tuple(a.shape[2:]),
                       lambda i, *r: a.at((mk_div(P(i), m), mk_mod(P(i), m)) + r) if m is not ONEP else
                       a.at((i, ZERO) + r), a.dt))


def at2d(I, st, a):
    if len(a.shape) == 0:
        return mkav((ONEP, ONEP), lambda i, j: a.body, a.dt)
    if len(a.shape) == 1:
        return mkav((ONEP, a.shape[0]), lambda i, j: a.at((j,)), a.dt)
    return a


@reg('numpy.vstack', 'numpy.row_stack')
def _vstack(I, st, node, seq, **kw):
    items = seq_items(I, seq, st)
    if items is None:
        a = I.av(seq, st, node)
        if len(a.shape) == 2:
            return newarr(a)
        if len(a.shape) == 1:
            return newarr(mkav((a.shape[0], ONEP), lambda i, j: a.at((i,)), a.dt))
        return _concat_rep(I, st, node, seq, 0)
    return concat(I, st, node, [at2d(I, st, I.av(x, st, node)) for x in items], 0)


@reg('numpy.hstack')
def _hstack(I, st, node, seq, **kw):
    items = seq_items(I, seq, st)
    if items is None:
        a = I.av(seq, st, node)
        if len(a.shape) == 2:
            return _concat_rep(I, st, node, seq, 0)
        raise Give('hstack')
    avs = [I.av(x, st, node) for x in items]
    avs = [mkav((ONEP,), lambda i, a=a: a.body, a.dt) if not a.shape else a for a in avs]
    return concat(I, st, node, avs, 0 if len(avs[0].shape) == 1 else 1)


@reg('numpy.stack')
def _stack(I, st, node, seq, axis=None):
    if axis is not None and cint(I, axis, st) != 0:
        raise Give('stack axis')
    return newarr(I.av(seq, st, node))


@reg('numpy.column_stack')
def _cstack(I, st, node, seq):
    items = seq_items(I, seq, st)
    if items is None:
        raise Give('column_stack')
    avs = [I.av(x, st, node) for x in items]
    avs = [mkav((a.shape[0], ONEP), lambda i, j, a=a: a.at((i,)), a.dt) if len(a.shape) == 1 else a for a in avs]
    return concat(I, st, node, avs, 1)


@reg('numpy.atleast_2d')
def _al2(I, st, node, a):
    return newarr(at2d(I, st, I.av(a, st, node)))


@reg('numpy.repeat')
def _repeat(I, st, node, a, repeats, axis=None):
    if isinstance(a, (ORef, SeqV)) and not I.numeric(a, st):
        raise Give('repeat objects')
    v = I.av(a, st, node)
    n = I.av(repeats, st, node)
    if n.shape:
        raise Give('repeat counts')
    n = n.body
    if axis is None:
        if not v.shape:
            return newarr(mkav((n,), lambda i: v.body, v.dt))
        v = flat(I, v)
        ax = 0
    else:
        ax = cint(I, axis, st) % len(v.shape)
    sh = list(v.shape)
    sh[ax] = sh[ax] * n

    def f(*i):
        j = list(i)
        j[ax] = ZERO if v.shape[ax] is ONEP else mk_div(P(j[ax]), n)
        return v.at(j)
    return newarr(mkav(sh, f, v.dt))


@reg('numpy.tile')
def _tile(I, st, node, a, reps):
    v = I.av(a, st, node)
    r = shape_arg(I, reps, st)
    nd = max(len(v.shape), len(r))
    sh = (ONEP,) * (nd - len(v.shape)) + tuple(v.shape)
    r = (ONEP,) * (nd - len(r)) + tuple(r)

    def f(*i):
        j = [ZERO if d is ONEP else (P(x) if q is ONEP else mk_mod(P(x), d)) for x, d, q in zip(i, sh, r)]
        return v.at(j[nd - len(v.shape):])
    return newarr(mkav([a * b for a, b in zip(sh, r)], f, v.dt))


@reg('numpy.resize')
def _resize(I, st, node, a, shape):
    v = flat(I, I.av(a, st, node)) if I.av(a, st, node).shape else mkav((ONEP,), lambda i: I.av(a, st).body)
    sh = shape_arg(I, shape, st)
    if len(sh) != 1:
        raise Give('resize')
    return newarr(mkav(sh, lambda i: v.at((ZERO if v.shape[0] is ONEP else mk_mod(P(i), v.shape[0]),)), v.dt))


def resized(I, o, shape, st, node):
    """ndarray.resize: new extent, zero filled"""
    sh = shape_arg(I, shape, st)
    if isinstance(o, ORef):
        c = st.get(o.cid)
        if len(sh) != 1:
            raise Give('resize')
        st.set(o.cid, OAC(sh[0], c.writes, c.base))
        return o
    a = I.av(o, st)
    if len(sh) != len(a.shape):
        raise Give('resize rank')
    for x, y in zip(sh[1:], a.shape[1:]):
        if x is not y:
            raise Give('resize trailing')
    n = a.shape[0]
    if n is ONEP:
        return newarr(mkav(sh, lambda i, *r: mk_eq(P(i)) * a.at([ZERO] + list(r)) if sh[0] is not ONEP
                           else a.at([ZERO] + list(r)), a.dt))
    return newarr(mkav(sh, lambda i, *r: (ONEP - mk_ge(P(i) - n)) * a.at([P(i)] + list(r)), a.dt))


@reg('numpy.broadcast_to')
def _bto(I, st, node, a, shape):
    v = I.av(a, st, node)
    sh = shape_arg(I, shape, st)
    return newarr(I.elementwise(lambda p, q: p, [v, mkav(sh, lambda *i: ZERO)], st, node, v.dt))


@reg('numpy.take')
def _take(I, st, node, a, idx, axis=None):
    v = I.av(a, st, node)
    if axis is None and len(v.shape) != 1:
        raise Give('take')
    ax = 0 if axis is None else cint(I, axis, st) % len(v.shape)
    q = I.av(idx, st, node)
    pre, post = v.shape[:ax], v.shape[ax + 1:]

    def f(*i):
        return v.at(tuple(i[:ax]) + (q.at(i[ax:ax + len(q.shape)]),) + tuple(i[ax + len(q.shape):]))
    return I.ret(mkav(tuple(pre) + tuple(q.shape) + tuple(post), f, v.dt))


@reg('numpy.flipud', 'numpy.flip_')
def _flip(I, st, node, a):
    return I.getitem(a, (SliceV(None, None, sc(-1, 'i')),), st, node)


# ------------------------------------------------------------------ reshape
def resolve_shape(I, st, node, old, shape):
    sh = list(shape_arg(I, shape, st))
    tot = prod(old)
    for k, d in enumerate(sh):
        if is_const(d) and cval(d) == -1:
            rest = prod([x for j, x in enumerate(sh) if j != k])
            q, r = T.divmod_poly(tot, rest)
            if r is not None and not r.terms:
                sh[k] = q
            elif tot is rest:
                sh[k] = ONEP
            elif len(rest.terms) == 1:
                q = tot * recip(rest)
                if is_int(q):
                    sh[k] = q
                else:
                    raise Give('reshape -1')
            else:
                raise Give('reshape -1')
    if prod(sh) is not tot and not has_top(tot) and not any(has_top(d) for d in sh):
        fail(I, st, node, 'shape', 'cannot reshape %s into %s' % ([show(d) for d in old], [show(d) for d in sh]),
             dims=(prod(sh), tot))
    return sh


def reshape_map(old, new):
    """index polys (into old) for fresh vars of new; kind 'perm' (pure 1-insertion), 'split' or 'gen'"""
    nv = [fresh(d) for d in new]
    ni = [ZERO if d is ONEP else P(v) for v, d in zip(nv, new)]
    o = [(k, d) for k, d in enumerate(old) if d is not ONEP]
    n = [(k, d) for k, d in enumerate(new) if d is not ONEP]
    idx = [ZERO] * len(old)
    if len(o) == len(n) and all(a[1] is b[1] for a, b in zip(o, n)):
        for (a, _), (b, _) in zip(o, n):
            idx[a] = ni[b]
        return 'perm', nv, idx
    # group matching
    kind = 'split'
    i = j = 0
    while i < len(o) or j < len(n):
        if i < len(o) and j < len(n) and o[i][1] is n[j][1]:
            idx[o[i][0]] = ni[n[j][0]]
            i += 1
            j += 1
            continue
        found = None
        for a in range(1, len(o) - i + 1):
            for b in range(1, len(n) - j + 1):
                if prod([d for _, d in o[i:i + a]]) is prod([d for _, d in n[j:j + b]]):
                    found = (a, b)
                    break
            if found:
                break
        if not found:
            # remaining as one group
            found = (len(o) - i, len(n) - j)
        a, b = found
        og, ng = o[i:i + a], n[j:j + b]
        if a != 1:
            kind = 'gen'
        lin = ZERO
        for k, d in ng:
            lin = lin * d + ni[k]
        for q in range(len(og) - 1, -1, -1):
            d = og[q][1]
            if q == 0:
                idx[og[q][0]] = lin
            else:
                idx[og[q][0]] = mk_mod(lin, d)
                lin = mk_div(lin, d)
        i += a
        j += b
        if a == 0 and b == 0:
            break
    return kind, nv, idx


def reshape_av(av, sh):
    kind, nv, idx = reshape_map(av.shape, sh)
    return AV(sh, nv, av.at(idx), av.dt)


def contiguous(I, ref, st):
    c = st.get(ref.cid)
    if not isinstance(c, AV):
        return False
    # whole cell in order, or leading-axis slice
    vs = [v for v, d in zip(ref.vars, ref.shape) if d is not ONEP]
    ix = []
    for k, (p, d) in enumerate(zip(ref.idx, c.shape)):
        if d is ONEP:
            continue
        ix.append((p, d))
    # drop leading fixed indices
    while ix and not (ix[0][0].fv & set(ref.vars)):
        ix.pop(0)
    if len(ix) != len(vs):
        return False
    for k, ((p, d), v) in enumerate(zip(ix, vs)):
        if k == 0:
            if (p - P(v)).fv & set(ref.vars):
                return False
        elif p is not P(v) or v.args[1] is not d:
            return False
    return True


def reshape(I, st, node, a, shape):
    if isinstance(a, Gated):
        return _gated(I, a, lambda x, s2: reshape(I, s2, node, x, shape), st)
    if not isinstance(a, Ref):
        av = I.av(a, st, node)
        return newarr(reshape_av(av, resolve_shape(I, st, node, av.shape, shape)))
    sh = resolve_shape(I, st, node, a.shape, shape)
    kind, nv, idx = reshape_map(a.shape, sh)
    if kind in ('perm', 'split') or contiguous(I, a, st):
        m = {v: p for v, p in zip(a.vars, idx)}
        return Ref(a.cid, sh, nv, [subst(p, m) for p in a.idx])
    av = I.av(a, st)
    return newarr(AV(sh, nv, av.at(idx), av.dt))


@reg('numpy.reshape')
def _reshape(I, st, node, a, shape, order=None):
    return reshape(I, st, node, a, shape)


@reg('numpy.ravel')
def _ravel(I, st, node, a):
    return reshape(I, st, node, a, sc(-1, 'i'))


@reg('numpy.squeeze')
def _squeeze(I, st, node, a, axis=None):
    v = a if isinstance(a, Ref) else newarr(I.av(a, st, node))
    if axis is not None:
        ax = axis_arg(I, axis, len(v.shape), st)
        keep = [k for k in range(len(v.shape)) if k not in ax]
    else:
        keep = [k for k, d in enumerate(v.shape) if d is not ONEP]
    m = {v.vars[k]: ZERO for k in range(len(v.shape)) if k not in keep}
    r = Ref(v.cid, [v.shape[k] for k in keep], [v.vars[k] for k in keep], [subst(p, m) for p in v.idx])
    return r if keep else I.av(r, st)


@reg('numpy.expand_dims')
def _expand(I, st, node, a, axis):
    v = a if isinstance(a, Ref) else newarr(I.av(a, st, node))
    k = cint(I, axis, st)
    nd = len(v.shape) + 1
    k %= nd
    f = fresh(ONEP)
    return Ref(v.cid, v.shape[:k] + (ONEP,) + v.shape[k:], v.vars[:k] + (f,) + v.vars[k:], v.idx)


# ------------------------------------------------------------------ indexing
def arr_getitem(I, o, idx, st, node):
    av = I.av(o, st, node)
    # expand ellipsis
    nreal = sum(1 for x in idx if x is not None and not (isinstance(x, Builtin)))
    out = []
    for x in idx:
        if isinstance(x, Builtin) and x.name.endswith('Ellipsis'):
            out.extend([SliceV(None, None, None)] * (len(av.shape) - nreal))
        else:
            out.append(x)
    idx = out
    nreal = sum(1 for x in idx if x is not None)
    if nreal > len(av.shape):
        if not has_top(av.body):
            fail(I, st, node, 'shape', 'too many indices (%d for %d dimensions)' % (nreal, len(av.shape)), 'IndexError')
        return TopV('index')
    idx = idx + [SliceV(None, None, None)] * (len(av.shape) - nreal)
    adv = []
    items = []
    for x in idx:
        if x is None or isinstance(x, SliceV):
            items.append(x)
            continue
        if isinstance(x, (TopV,)):
            return TopV('index ' + x.why)
        if x is True or x is False:
            raise Give('boolean index')
        if isinstance(x, str):
            fail(I, st, node, 'typeerror', 'string index into array', 'IndexError')
        q = I.av(x, st, node)
        if q.shape:
            adv.append(len(items))
        items.append(q)
    cellref = o if isinstance(o, Ref) else None
    nvs, nsh = [], []
    pos = 0
    m = []          # index poly per source axis
    advshape = None
    if adv:
        # boolean masks
        for k in adv:
            q = items[k]
            if q.dt == 'b':
                if len(q.shape) != 1:
                    raise Give('matrix mask')
                clo = q.clo()
                items[k] = mkav((mk_cnt(clo),), lambda i, clo=clo: mk_nz(clo, P(i)), 'i')
        advshape = I.bshape([items[k].shape for k in adv], st, node)
        advvars = [fresh(d) for d in advshape]
        # numpy puts the advanced dims first when separated by a slice; adjacent -> in place
        ints = [k for k, x in enumerate(items) if isinstance(x, AV)]
        contiguous_adv = all(isinstance(items[k], AV) for k in range(min(ints), max(ints) + 1))
    placed = False
    if adv and not contiguous_adv:
        nvs.extend(advvars)
        nsh.extend(advshape)
        placed = True
    for k, x in enumerate(items):
        if x is None:
            nvs.append(fresh(ONEP))
            nsh.append(ONEP)
            continue
        d = av.shape[pos]
        pos += 1
        if isinstance(x, SliceV):
            lo, ln, stp = I.slice_bounds(x, d, st, node)
            v = fresh(ln)
            nvs.append(v)
            nsh.append(ln)
            m.append(lo + (ZERO if ln is ONEP else P(v)) * const(stp))
        elif adv:
            if not placed:
                nvs.extend(advvars)
                nsh.extend(advshape)
                placed = True
            kk = len(advvars) - len(x.shape)
            p = x.at([ZERO if dd is ONEP else P(advvars[kk + j]) for j, dd in enumerate(x.shape)])
            m.append(fix_neg(p, d))
        else:
            p = I.norm_index(x.body, d)
            if prove_ge0(p - d) or prove_ge0(-p - ONEP):
                fail(I, st, node, 'indexerror', 'index %s out of bounds for axis of size %s' % (show(p), show(d)),
                     'IndexError', dims=(p, d))
            m.append(p)
    if adv or cellref is None:
        r = AV(nsh, nvs, av.at(m), av.dt)
        return I.ret(r)
    mm = {v: p for v, p in zip(cellref.vars, m)}
    ref = Ref(cellref.cid, nsh, nvs, [subst(p, mm) for p in cellref.idx])
    if not nsh:
        return I.av(ref, st)
    return ref


def fix_neg(p, d):
    if is_const(p) and cval(p) < 0 or prove_ge0(-p - ONEP):
        return d + p
    return p


def invert(p, vs, c, dim, cdim):
    """solve p(vs) == c -> ({var: poly}, [indicator polys]) or None"""
    used = [v for v in vs if v in p.fv]
    if not used:
        return {}, [mk_eq(c - p)]
    if len(used) == 1:
        v = used[0]
        lin = T._linear(p, v)
        if lin is None or lin[0] not in (1, -1):
            if lin is not None and lin[0].denominator == 1 and lin[0] > 0:
                q = c - lin[1]
                co = const(lin[0])
                return {v: mk_div(q, co)}, [mk_eq(mk_mod(q, co)), mk_ge(mk_div(q, co))]
            return None
        sol = (c - lin[1]) if lin[0] == 1 else (lin[1] - c)
        inds = []
        if p is P(v) and v.args[1] is cdim:
            pass
        else:
            inds = [mk_ge(sol), ONEP - mk_ge(sol - v.args[1])]
        return {v: sol}, inds
    # mixed radix: sum_k v_k * stride_k
    terms = []
    off = ZERO
    for f, s, co in p.terms:
        t = T._mk_poly({(f, s): co})
        hit = [v for v in used if v in t.fv]
        if not hit:
            off = off + t
            continue
        if len(hit) != 1 or s:
            return None
        v = hit[0]
        if dict(f).get(v) != 1:
            return None
        stride = T._mk_poly({(tuple((a, e) for a, e in f if a is not v), ()): co})
        if v in stride.fv:
            return None
        terms.append((v, stride))
    st = {}
    for v, s in terms:
        st[v] = st.get(v, ZERO) + s
    # order strides: largest last
    order = []
    rem = dict(st)
    cur = ONEP
    while rem:
        nxt = [v for v, s in rem.items() if s is cur]
        if len(nxt) != 1:
            return None
        v = nxt[0]
        order.append(v)
        cur = cur * v.args[1]
        del rem[v]
    sol = {}
    q = c - off
    inds = []
    full = (not off.terms) and cur is cdim
    if not full:
        inds = [mk_ge(q), ONEP - mk_ge(q - cur)]
    for k, v in enumerate(order):
        if k == len(order) - 1:
            sol[v] = q
        else:
            sol[v] = mk_mod(q, v.args[1])
            q = mk_div(q, v.args[1])
    return sol, inds


def store(I, ref, av, st, node):
    """write av (broadcast) into the view ref"""
    if isinstance(ref, TopV):
        return
    if not isinstance(ref, Ref):
        raise Give('store into %r' % (ref,))
    if ref.cid in I.inputcells:
        I.ev('write-input', st, node, name=I.inputcells[ref.cid])
    c = st.get(ref.cid)
    if not isinstance(c, AV):
        return
    if ref.cid in I.repl:
        raise Give('in-place change of an element of a list of arrays')
    if len(av.shape) > len(ref.shape):
        lead = av.shape[:len(av.shape) - len(ref.shape)]
        if all(d is ONEP for d in lead):
            a0 = av
            av = mkav(av.shape[len(lead):], lambda *i: a0.at([ZERO] * len(lead) + list(i)), av.dt)
        else:
            fail(I, st, node, 'shape', 'could not broadcast %s into %s' % (
                [show(d) for d in av.shape], [show(d) for d in ref.shape]))
    k0 = len(ref.shape) - len(av.shape)
    for j, d in enumerate(av.shape):
        if d is not ONEP:
            need_same(I, st, node, d, ref.shape[k0 + j], 'could not broadcast input array')

    def val(vi):
        return av.at([ZERO if d is ONEP else vi[k0 + j] for j, d in enumerate(av.shape)])
    cv = [fresh(d) for d in c.shape]
    ci = [ZERO if d is ONEP else P(v) for v, d in zip(cv, c.shape)]
    sol = {}
    mask = ONEP
    ok = True
    for p, x, d in zip(ref.idx, ci, c.shape):
        r = invert(p, ref.vars, x, None, d)
        if r is None:
            ok = False
            break
        s, inds = r
        for v, q in s.items():
            if v in sol:
                mask = mask * mk_eq(sol[v] - q)
            else:
                sol[v] = q
        for i in inds:
            mask = mask * i
    if not ok:
        st.set(ref.cid, mkav(c.shape, lambda *i: top('store'), c.dt))
        return
    vi = [sol.get(v, ZERO) for v in ref.vars]
    new = val(vi)
    if av.dt == 'f' and c.dt == 'i' and not is_int(new):
        new = P(mk_atom('trunc', new)) if 'top' not in new.kinds else new
    if mask is ONEP:
        body = new
    else:
        body = mask * new + (ONEP - mask) * c.at(ci)
    st.set(ref.cid, AV(c.shape, cv, body, c.dt))


def arr_setitem(I, o, idx, v, st, node):
    if isinstance(v, TopV):
        av = None
    elif isinstance(v, Gated) and not I.is_array(v, st):
        raise Give('gated store')
    else:
        av = I.av(v, st, node)
    # advanced indices?
    hasadv = False
    for x in idx:
        if x is None or isinstance(x, (SliceV, Builtin)):
            continue
        if isinstance(x, TopV):
            if o.cid in I.inputcells:
                I.ev('write-input', st, node, name=I.inputcells[o.cid])
            c = st.get(o.cid)
            st.set(o.cid, mkav(c.shape, lambda *i: top('store at unknown index'), c.dt))
            return
        if I.av(x, st, node).shape:
            hasadv = True
    if not hasadv:
        tgt = arr_getitem_ref(I, o, idx, st, node)
        if av is None:
            av = AV((), (), top(v.why), 'f')
        store(I, tgt, av, st, node)
        return
    if av is None:
        av = AV((), (), top(v.why), 'f')
    adv_store(I, o, idx, av, st, node)


def arr_getitem_ref(I, o, idx, st, node):
    """like arr_getitem but keeps a reference even for a single element"""
    nreal = sum(1 for x in idx if x is not None and not isinstance(x, Builtin))
    out = []
    for x in idx:
        if isinstance(x, Builtin):
            out.extend([SliceV(None, None, None)] * (len(o.shape) - nreal))
        else:
            out.append(x)
    idx = out
    nreal = sum(1 for x in idx if x is not None)
    if nreal > len(o.shape):
        fail(I, st, node, 'shape', 'too many indices', 'IndexError')
    idx = list(idx) + [SliceV(None, None, None)] * (len(o.shape) - nreal)
    nvs, nsh, m = [], [], []
    pos = 0
    for x in idx:
        if x is None:
            nvs.append(fresh(ONEP))
            nsh.append(ONEP)
            continue
        d = o.shape[pos]
        pos += 1
        if isinstance(x, SliceV):
            lo, ln, s = I.slice_bounds(x, d, st, node)
            v = fresh(ln)
            nvs.append(v)
            nsh.append(ln)
            m.append(lo + (ZERO if ln is ONEP else P(v)) * const(s))
        else:
            p = I.norm_index(I.av(x, st, node).body, d)
            if prove_ge0(p - d):
                fail(I, st, node, 'indexerror', 'index %s out of bounds for axis of size %s' % (show(p), show(d)),
                     'IndexError', dims=(p, d))
            m.append(p)
    mm = {v: p for v, p in zip(o.vars, m)}
    return Ref(o.cid, nsh, nvs, [subst(p, mm) for p in o.idx])


def adv_store(I, o, idx, av, st, node):
    if o.cid in I.inputcells:
        I.ev('write-input', st, node, name=I.inputcells[o.cid])
    c = st.get(o.cid)
    idx = [x for x in idx if not isinstance(x, Builtin)]
    if any(x is None for x in idx):
        raise Give('advanced store')
    idx = idx + [SliceV(None, None, None)] * (len(o.shape) - len(idx))
    whole_ = all(p is (ZERO if d is ONEP else P(v)) for p, v, d in zip(o.idx, o.vars, o.shape)) and \
        len(o.shape) == len(c.shape)
    advk = [k for k, x in enumerate(idx) if not isinstance(x, SliceV) and I.av(x, st).shape]
    if len(advk) != 1:
        st.set(o.cid, mkav(c.shape, lambda *i: top('advanced store'), c.dt))
        return
    k = advk[0]
    q = I.av(idx[k], st)
    if len(q.shape) != 1:
        st.set(o.cid, mkav(c.shape, lambda *i: top('advanced store'), c.dt))
        return
    # target view with a full slice at axis k, then a masked write
    idx2 = list(idx)
    idx2[k] = SliceV(None, None, None)
    tgt = arr_getitem_ref(I, o, idx2, st, node)
    old = I.av(tgt, st)
    ax = sum(1 for x in idx2[:k] if isinstance(x, SliceV))
    d = tgt.shape[ax]
    if q.dt == 'b':
        clo = q.clo()
        def sel(i):
            return apply(clo, (i,)), mk_rank(clo, i)
        n = mk_cnt(clo)
    else:
        n = q.shape[0]
        kv = fresh(n)
        body = fix_neg(q.at((P(kv),)), d)
        lin = T._linear(body, kv) if n is not ONEP else None
        nzat = _single(body)
        if n is ONEP:
            def sel(i):
                return mk_eq(i - body), ZERO
        elif nzat is not None and nzat.kind == 'nz' and nzat.args[1] is P(kv):
            clo = nzat.args[0]

            def sel(i):
                return apply(clo, (i,)), mk_rank(clo, i)
        elif lin is not None and lin[0] in (1, -1):
            def sel(i):
                s = (i - lin[1]) if lin[0] == 1 else lin[1] - i
                return mk_ge(s) * (ONEP - mk_ge(s - n)), s
        elif not av.shape or (av.shape and len(av.shape) <= ax):
            # scalar scatter: membership
            clo = mk_closure([kv], body)

            def sel(i):
                kk = fresh(n)
                if 'top' in body.kinds:
                    return top('scatter'), ZERO
                return mk_any(mk_closure([kk], mk_eq(apply(clo, (P(kk),)) - i))), ZERO
        else:
            clo = mk_closure([kv], body)

            def sel(i):
                if has_top(clo):
                    return top('scatter'), ZERO
                return P(mk_atom('member', clo, i)), P(mk_atom('lastat', clo, i))
    nav = len(tgt.shape)
    k0 = nav - len(av.shape)
    for j, dd in enumerate(av.shape):
        want = n if k0 + j == ax else tgt.shape[k0 + j]
        if dd is not ONEP:
            need_same(I, st, node, dd, want, 'could not broadcast input array')

    def f(*i):
        m, r = sel(P(i[ax]))
        vi = [P(x) for x in i]
        vi[ax] = r
        x = av.at([ZERO if dd is ONEP else vi[k0 + j] for j, dd in enumerate(av.shape)])
        return m * x + (ONEP - m) * old.at(i)
    new = mkav(tgt.shape, f, c.dt)
    inp = I.inputcells.pop(o.cid, None)
    try:
        store(I, tgt, new, st, node)
    finally:
        if inp:
            I.inputcells[o.cid] = inp


def _single(p):
    if len(p.terms) == 1 and not p.terms[0][1] and p.terms[0][2] == 1 and len(p.terms[0][0]) == 1 and \
            p.terms[0][0][0][1] == 1:
        return p.terms[0][0][0][0]
    return None


# ------------------------------------------------------------------ attributes
ARRMETH = {'copy', 'reshape', 'ravel', 'flatten', 'dot', 'sum', 'mean', 'max', 'min', 'any', 'all', 'argmax',
           'argmin', 'argsort', 'cumsum', 'diagonal', 'trace', 'transpose', 'squeeze', 'astype', 'fill', 'item',
           'tolist', 'repeat', 'take', 'nonzero', 'swapaxes', 'std', 'var', 'sort', 'clip', 'prod', 'resize',
           'view', 'itemset', 'round', 'searchsorted'}


def arr_attr(I, o, name, st, node):
    if name == 'shape':
        return tuple(sc(d, 'i') for d in o.shape)
    if name == 'T':
        if isinstance(o, AV):
            return o
        return Ref(o.cid, o.shape[::-1], o.vars[::-1], o.idx)
    if name == 'size':
        return sc(prod(o.shape), 'i')
    if name == 'ndim':
        return sc(len(o.shape), 'i')
    if name == 'dtype':
        dt = I.av(o, st).dt
        return Builtin('numpy.' + {'f': 'float64', 'i': 'int64', 'b': 'bool_'}[dt])
    if name == 'flat':
        return reshape(I, st, node, o, sc(-1, 'i'))
    if name in ARRMETH:
        return BMethod(o, name)
    if isinstance(o, AV) and not o.shape and name in ('real', 'imag'):
        return o
    I.ev('attrerror', st, node, obj='ndarray', name=name)
    raise RaiseOut(ExcV('AttributeError', (name,)), I.where(node))


def seq_attr(I, o, c, name, st, node):
    if name == 'shape' and isinstance(c, (SeqC, OAC, OACar)):
        if isinstance(c, SeqC) and not isinstance(o, SeqV):
            I.mute += 1
            try:
                e = I.getitem(o, (sc(ZERO, 'i'),), st.fork(), node)
            finally:
                I.mute -= 1
            if I.is_array(e, st):
                return tuple(sc(d, 'i') for d in (I.length(o, st),) + tuple(I.av(e, st).shape))
        return (sc(I.length(o, st), 'i'),)
    if name == 'dtype':
        return Builtin('builtins.object')
    if name == 'ndim' and isinstance(c, (OAC, OACar)):
        return sc(1, 'i')
    if name == 'size':
        return sc(I.length(o, st), 'i')
    if name == 'T' and isinstance(c, (SeqC,)):
        return I.getattr(to_array(I, st, node, newarr(I.av(o, st)), False, None), 'T', st, node)
    return BMethod(o, name)


def method(I, o, name, args, kw, st, node):
    for a in list(args) + list(kw.values()):
        if isinstance(a, TopV) and name not in ('append', 'update', 'format', 'setdefault', 'insert', 'extend'):
            return TopV('method %s on %s' % (name, a.why))
    if isinstance(o, str):
        if name == 'format':
            return '<formatted>'
        if name in ('lower', 'upper', 'strip') and not args:
            return getattr(o, name)()
        if name in ('startswith', 'endswith') and isinstance(args[0], str):
            return getattr(o, name)(args[0])
        if name == 'join':
            return TopV('string')
        return TopV('string method')
    if isinstance(o, tuple):
        return TopV('tuple method')
    if isinstance(o, (ORef, SeqV)):
        return seq_method(I, o, st.get(o.cid), name, args, kw, st, node)
    for a in args:
        if isinstance(a, Gated) and not I.is_array(a, st):
            i = args.index(a)
            return _gated(I, a, lambda x, s2: method(I, o, name, args[:i] + [x] + args[i + 1:], kw, s2, node), st)
    if name == 'copy':
        return newarr(I.av(o, st)) if o.shape else o
    if name == 'reshape':
        sh = args[0] if len(args) == 1 else tuple(args)
        return reshape(I, st, node, o, sh)
    if name == 'ravel':
        return reshape(I, st, node, o, sc(-1, 'i'))
    if name == 'flatten':
        r = reshape(I, st, node, o, sc(-1, 'i'))
        return newarr(I.av(r, st))
    if name == 'dot':
        return _dot(I, st, node, o, args[0])
    if name == 'transpose':
        return _transpose(I, st, node, o, None if not args else (args[0] if len(args) == 1 else tuple(args)))
    if name == 'astype':
        d = dtype_of(args[0])
        av = I.av(o, st)
        b = av.body
        if d == 'i' and av.dt == 'f' and not is_int(b):
            b = P(mk_atom('trunc', b)) if 'top' not in b.kinds else b
        return I.ret(AV(av.shape, av.vars, b, d))
    if name == 'fill':
        store(I, o, I.av(args[0], st, node), st, node)
        return None
    if name in ('item',) and not args:
        av = I.av(o, st)
        return AV((), (), av.at([ZERO] * len(av.shape)), av.dt)
    if name == 'tolist':
        av = I.av(o, st)
        if len(av.shape) == 1:
            return ORef(alloc(SymListC([('rep', av.shape[0], av.vars[0], AV((), (), av.body, av.dt))])))
        raise Give('tolist')
    if name == 'sort':
        r = _sort(I, st, node, o)
        I.write(o, r, st, node)
        return None
    if name in ('sum', 'mean', 'max', 'min', 'any', 'all', 'argmax', 'argmin', 'argsort', 'cumsum', 'diagonal',
                'trace', 'squeeze', 'repeat', 'take', 'nonzero', 'swapaxes', 'searchsorted', 'std', 'var'):
        return F['numpy.' + name](I, st, node, o, *args, **kw)
    if name == 'prod':
        raise Give('prod')
    return I.topv('array method ' + name, st, node)


def seq_method(I, o, c, name, args, kw, st, node):
    if isinstance(c, (ListC, SymListC)):
        if name == 'append':
            I.append(o, args[0], st)
            return None
        if name == 'copy':
            return ORef(alloc(c))
        if name == 'extend':
            y = args[0]
            if isinstance(y, tuple):
                y = ORef(alloc(ListC(y)))
            cy = st.get(y.cid) if isinstance(y, ORef) else None
            if isinstance(cy, (ListC, SymListC)):
                if isinstance(c, ListC) and isinstance(cy, ListC):
                    st.set(o.cid, ListC(c.items + cy.items, c.kind))
                else:
                    st.set(o.cid, SymListC(I.segs(c) + I.segs(cy), c.kind))
                return None
            raise Give('extend')
        if name == 'insert' and isinstance(c, ListC):
            p = I.av(args[0], st).body
            if is_const(p):
                it = list(c.items)
                it.insert(int(cval(p)), args[1])
                st.set(o.cid, ListC(it, c.kind))
                return None
        if name == 'insert' and isinstance(c, SymListC):
            p = I.av(args[0], st).body
            if is_const(p) and cval(p) == 0:
                st.set(o.cid, SymListC((('one', args[1]),) + c.segs, c.kind))
                return None
        if name == 'pop' and isinstance(c, ListC):
            i = -1 if not args else cint(I, args[0], st)
            it = list(c.items)
            v = it.pop(i)
            st.set(o.cid, ListC(it, c.kind))
            return v
        if name == 'reverse' and isinstance(c, ListC):
            st.set(o.cid, ListC(c.items[::-1], c.kind))
            return None
        if name in ('sum', 'reshape', 'mean', 'ravel', 'dot', 'shape'):
            I.ev('attrerror', st, node, obj='list', name=name)
            raise RaiseOut(ExcV('AttributeError', (name,)), I.where(node))
        raise Give('list method ' + name)
    if isinstance(c, DictC):
        if name == 'get':
            k = args[0]
            if isinstance(k, str):
                if k in c.items:
                    v = c.items[k]
                    if isinstance(v, Gated) and v.b is UNBOUND:
                        return I.mergev(v.c, v.a, args[1] if len(args) > 1 else None, st)
                    return v
                if c.base is not None:
                    return TopV('dict get')
                return args[1] if len(args) > 1 else None
        if name == 'copy':
            return ORef(alloc(c))
        if name == 'update':
            y = args[0]
            d = dict(c.items)
            if isinstance(y, ORef) and isinstance(st.get(y.cid), DictC):
                d.update(st.get(y.cid).items)
            d.update(kw)
            if o.cid in I.inputcells:
                I.ev('write-input', st, node, name=I.inputcells[o.cid])
            st.set(o.cid, DictC(d, c.base))
            return None
        if name == 'keys':
            return tuple(c.items)
        if name == 'values':
            return tuple(c.items.values())
        if name == 'items':
            return tuple((k if isinstance(k, str) else sc(const(k)), v) for k, v in c.items.items())
        if name == 'pop' and isinstance(args[0], str):
            d = dict(c.items)
            v = d.pop(args[0], args[1] if len(args) > 1 else TopV('pop'))
            st.set(o.cid, DictC(d, c.base))
            return v
        if name == 'setdefault' and isinstance(args[0], str):
            if args[0] in c.items:
                return c.items[args[0]]
            d = dict(c.items)
            d[args[0]] = args[1] if len(args) > 1 else None
            st.set(o.cid, DictC(d, c.base))
            return d[args[0]]
        raise Give('dict method ' + name)
    # sequences of arrays / object arrays used as arrays
    if name in ('copy',):
        return to_array(I, st, node, o, True, None)
    if name in ARRMETH and I.numeric(o, st):
        return method(I, newarr(I.av(o, st, node)), name, args, kw, st, node)
    if name == 'astype':
        return to_array(I, st, node, o, True, None)
    return I.topv('method %s of object sequence' % name, st, node)


# ------------------------------------------------------------------ random
def rnd(I, st, node, kind, shape, f=None):
    n = I.randno.get(kind, 0)
    I.randno[kind] = n + 1
    I.ev('random', st, node, dist=kind, seq=n, shape=tuple(shape))
    lv = tuple(P(l.k) for l in I.loops)
    if kind == 'perm':
        lv += (shape[0],)
    return mkav(shape, lambda *i: P(mk_atom('rand', kind, n, lv, tuple(P(x) for x in i))))


def size_arg(I, st, size, *params):
    if size is None:
        avs = [I.av(p, st) for p in params if p is not None]
        return I.bshape([a.shape for a in avs], st, None) if avs else []
    return list(shape_arg(I, size, st))


@reg('numpy.random.uniform')
def _uniform(I, st, node, low=None, high=None, size=None):
    sh = size_arg(I, st, size, low, high)
    u = rnd(I, st, node, 'uniform', sh)
    if low is None and high is None:
        return I.ret(u)
    lo = I.av(low, st) if low is not None else sc(0)
    hi = I.av(high, st) if high is not None else sc(1)
    return I.ret(I.elementwise(lambda x, a, b: a + (b - a) * x, [u, lo, hi], st, node, 'f'))


@reg('numpy.random.rand')
def _rand(I, st, node, *dims):
    return I.ret(rnd(I, st, node, 'uniform', [I.av(d, st).body for d in dims]))


@reg('numpy.random.random', 'numpy.random.random_sample', 'numpy.random.sample', 'numpy.random.ranf')
def _random(I, st, node, size=None):
    return I.ret(rnd(I, st, node, 'uniform', size_arg(I, st, size)))


@reg('numpy.random.randn')
def _randn(I, st, node, *dims):
    return I.ret(rnd(I, st, node, 'normal', [I.av(d, st).body for d in dims]))


@reg('numpy.random.standard_normal')
def _stdn(I, st, node, size=None):
    return I.ret(rnd(I, st, node, 'normal', size_arg(I, st, size)))


@reg('numpy.random.normal')
def _normal(I, st, node, loc=None, scale=None, size=None):
    sh = size_arg(I, st, size, loc, scale)
    z = rnd(I, st, node, 'normal', sh)
    lo = I.av(loc, st) if loc is not None else sc(0)
    s = I.av(scale, st) if scale is not None else sc(1)
    return I.ret(I.elementwise(lambda x, a, b: a + b * x, [z, lo, s], st, node, 'f'))


@reg('numpy.random.multivariate_normal')
def _mvn(I, st, node, mean, cov, size=None, **kw):
    m, c = I.av(mean, st, node), I.av(cov, st, node)
    if len(m.shape) != 1 or len(c.shape) != 2:
        fail(I, st, node, 'shape', 'multivariate_normal: mean must be 1 dimensional and cov 2 dimensional')
    need_same(I, st, node, c.shape[0], c.shape[1], 'multivariate_normal cov')
    need_same(I, st, node, c.shape[0], m.shape[0], 'multivariate_normal mean/cov')
    n = m.shape[0]
    sh = [] if size is None else list(shape_arg(I, size, st))
    z = rnd(I, st, node, 'normal', sh + [n])
    clo = c.clo()

    def f(*i):
        k = fresh(n)
        return m.at((i[-1],)) + sum_over(T.mk_psdF(clo, P(i[-1]), P(k)) * z.at(tuple(i[:-1]) + (P(k),)), [k])
    return newarr(mkav(tuple(sh) + (n,), f))


@reg('numpy.random.permutation')
def _perm(I, st, node, n):
    v = I.av(n, st, node)
    if v.shape:
        m = v.shape[0]
        a = rnd(I, st, node, 'perm', [m])
        return newarr(mkav(v.shape, lambda i, *r: v.at((a.at((i,)),) + r), v.dt))
    a = rnd(I, st, node, 'perm', [v.body])
    return newarr(AV(a.shape, a.vars, a.body, 'i'))


@reg('numpy.random.randint')
def _randint(I, st, node, low, high=None, size=None):
    return I.topv('randint', st, node)


@reg('numpy.random.choice')
def _choice(I, st, node, *a, **kw):
    return I.topv('random.choice', st, node)


@reg('numpy.random.seed')
def _seed(I, st, node, *a):
    I.ev('reseed', st, node)
    return None


# ------------------------------------------------------------------ builtins
@reg('builtins.range')
def _range(I, st, node, *a):
    if any(isinstance(x, TopV) for x in a):
        return TopV('range')
    ps = []
    for x in a:
        v = I.av(x, st, node)
        if v.dt == 'f':
            fail(I, st, node, 'typeerror', 'range() of a float', 'TypeError')
        ps.append(v.body)
    if len(ps) == 1:
        return RangeV(ZERO, ps[0], ONEP)
    if len(ps) == 2:
        return RangeV(ps[0], ps[1] - ps[0], ONEP)
    lo, hi, s = ps
    if is_const(s) and cval(s) == 1:
        return RangeV(lo, hi - lo, ONEP)
    if is_const(s) and cval(s) == -1:
        return RangeV(lo, lo - hi, s)
    raise Give('range step')


@reg('builtins.len')
def _len(I, st, node, a):
    return sc(I.length(a, st, node), 'i')


@reg('builtins.reversed')
def _rev(I, st, node, a):
    if isinstance(a, RangeV):
        return RangeV(a.lo + (a.n - ONEP) * a.step, a.n, -a.step)
    if isinstance(a, tuple):
        return tuple(reversed(a))
    it = I.iterate(a, st, node)
    if isinstance(it, list):
        return tuple(reversed(it))
    return IterV(it.n, lambda st2, k: it.fn(st2, it.n - ONEP - k))


@reg('builtins.enumerate')
def _enum(I, st, node, a, start=None):
    s = ZERO if start is None else I.av(start, st).body
    it = I.iterate(a, st, node)
    if isinstance(it, list):
        return tuple((sc(s + const(i), 'i'), x) for i, x in enumerate(it))
    return IterV(it.n, lambda st2, k: (sc(s + P(k), 'i'), it.fn(st2, k)))


@reg('builtins.zip')
def _zip(I, st, node, *a):
    its = [I.iterate(x, st, node) for x in a]
    ls = [x for x in its if isinstance(x, list)]
    if ls:
        n = min(len(x) for x in ls)
        out = []
        for k in range(n):
            out.append(tuple(x[k] if isinstance(x, list) else x.fn(st, const(k)) for x in its))
        return tuple(out)
    n = its[0].n
    for x in its[1:]:
        if x.n is not n:
            if prove_ge0(n - x.n):
                n = x.n
            elif not prove_ge0(x.n - n):
                raise Give('zip lengths')
    return IterV(n, lambda st2, k: tuple(x.fn(st2, k) for x in its))


@reg('builtins.list')
def _list(I, st, node, a=None):
    return mkseq(I, st, node, a, 'list')


@reg('builtins.tuple')
def _tuple(I, st, node, a=None):
    if a is None:
        return ()
    if isinstance(a, tuple):
        return a
    it = I.iterate(a, st, node)
    if isinstance(it, list):
        return tuple(it)
    return mkseq(I, st, node, a, 'tuple')


def mkseq(I, st, node, a, kind):
    if a is None:
        return ORef(alloc(ListC([])))
    if isinstance(a, TopV):
        return a
    if isinstance(a, ORef) and isinstance(st.get(a.cid), (ListC, SymListC)):
        c = st.get(a.cid)
        return ORef(alloc(ListC(c.items) if isinstance(c, ListC) else SymListC(c.segs)))
    it = I.iterate(a, st, node)
    if isinstance(it, list):
        return ORef(alloc(ListC(it)))
    k = fresh(it.n)
    return ORef(alloc(SymListC([('rep', it.n, k, it.fn(st, P(k)))])))


@reg('builtins.int', 'numpy.int64', 'numpy.int32', 'numpy.int_', 'numpy.intp')
def _int(I, st, node, a=None):
    if isinstance(a, str):
        return TopV('int of string')
    v = I.av(a, st, node)
    b = v.body
    if len(v.shape):
        b = v.at([ZERO] * len(v.shape))
    if v.dt == 'f' and not is_int(b):
        b = P(mk_atom('trunc', b)) if 'top' not in b.kinds else b
    return AV((), (), b, 'i')


@reg('builtins.float', 'numpy.float64', 'numpy.double', 'numpy.float_', 'numpy.float32')
def _float(I, st, node, a=None):
    if isinstance(a, str):
        return sc(INF if 'inf' in a and '-' not in a else -INF if 'inf' in a else P(mk_atom('nan')), 'f')
    v = I.av(a, st, node)
    if any(d is not ONEP for d in v.shape):
        fail(I, st, node, 'typeerror', 'only size-1 arrays can be converted to Python scalars', 'TypeError')
    return AV((), (), v.at([ZERO] * len(v.shape)), 'f')


@reg('builtins.bool')
def _bool(I, st, node, a=False):
    c = I.cond(a, st)
    return I.from_cond(c)


@reg('builtins.abs')
def _abs(I, st, node, a):
    return elem(I, st, node, mk_abs, a)


@reg('builtins.isinstance')
def _isinstance(I, st, node, o, c):
    cs = c if isinstance(c, tuple) else (c,)
    if isinstance(o, TopV):
        return sc(top('isinstance'), 'b')
    if isinstance(o, Gated):
        return I.mergev(o.c, _isinstance(I, st, node, o.a, c), _isinstance(I, st, node, o.b, c), st)
    for k in cs:
        if isinstance(k, Cls):
            if isinstance(o, ORef):
                x = st.get(o.cid)
                if isinstance(x, ObjC) and k in x.cls.mro:
                    return True
                if isinstance(x, SymObjC) and ('isinstance:' + k.name) in x.hooks:
                    return True
        elif isinstance(k, Builtin):
            n = k.name.split('.')[-1]
            if n in ('ndarray',) and (isinstance(o, Ref) or isinstance(o, SeqV) or
                                      isinstance(o, ORef) and isinstance(st.get(o.cid), (OAC, OACar, SeqC))):
                return True
            if n == 'list' and isinstance(o, ORef) and isinstance(st.get(o.cid), (ListC, SymListC)):
                return True
            if n == 'dict' and isinstance(o, ORef) and isinstance(st.get(o.cid), DictC):
                return True
            if n == 'tuple' and isinstance(o, tuple):
                return True
            if n == 'str' and isinstance(o, str):
                return True
            if n in ('int', 'int64', 'integer', 'Integral') and isinstance(o, AV) and o.dt == 'i' and not o.shape:
                return True
            if n in ('float', 'float64', 'Number') and isinstance(o, AV) and o.dt == 'f' and not o.shape:
                return True
            if n == 'bool' and (isinstance(o, bool) or isinstance(o, AV) and o.dt == 'b'):
                return True
    return False


@reg('builtins.hasattr')
def _hasattr(I, st, node, o, name):
    if not isinstance(name, str):
        return sc(top('hasattr'), 'b')
    return I.from_cond(I.hasattr(o, name, st))


@reg('builtins.getattr')
def _getattr(I, st, node, o, name, *d):
    if not isinstance(name, str):
        return I.topv('getattr of unknown name', st, node)
    if d and I.hasattr(o, name, st) is False:
        return d[0]
    return I.getattr(o, name, st, node)


@reg('builtins.setattr')
def _setattr(I, st, node, o, name, v):
    if not isinstance(name, str):
        return I.topv('setattr of unknown name', st, node)
    I.setattr(o, name, v, st, node)
    return None


@reg('builtins.callable')
def _callable(I, st, node, o):
    return isinstance(o, (Fn, Bound, Hook, Builtin, BMethod, Cls))


@reg('builtins.print')
def _print(I, st, node, *a, **kw):
    return None


@reg('builtins.type')
def _type(I, st, node, o):
    if isinstance(o, ORef) and isinstance(st.get(o.cid), ObjC):
        return st.get(o.cid).cls
    return TopV('type')


@reg('builtins.str', 'builtins.repr')
def _str(I, st, node, *a):
    if a and isinstance(a[0], str):
        return a[0]
    return '<str>'


@reg('builtins.round', 'numpy.round')
def _round(I, st, node, a, nd=None):
    v = I.av(a, st, node)
    return I.ret(mkav(v.shape, lambda *i: P(mk_atom('floor', v.at(i) + const(Fr(1, 2)))), 'i'))


@reg('builtins.id')
def _id(I, st, node, a):
    return TopV('id')


@reg('builtins.dict')
def _dict(I, st, node, a=None, **kw):
    d = dict(kw)
    if isinstance(a, ORef) and isinstance(st.get(a.cid), DictC):
        d = dict(st.get(a.cid).items)
        d.update(kw)
    return ORef(alloc(DictC(d)))


@reg('builtins.set', 'builtins.frozenset')
def _set(I, st, node, a=()):
    return a


@reg('builtins.sorted')
def _sorted(I, st, node, a, **kw):
    if isinstance(a, tuple) and all(isinstance(x, str) for x in a):
        return tuple(sorted(a))
    items = a if isinstance(a, tuple) else st.get(a.cid).items if isinstance(a, ORef) and isinstance(st.get(a.cid), ListC) else None
    if items is not None and not kw and len(items) <= 3:
        v = [I.av(x, st, node) for x in items]
        if all(isinstance(x, AV) and not x.shape for x in v):
            for p in range(len(v) - 1):
                for q in range(len(v) - 1 - p):
                    v[q], v[q + 1] = _bmin(I, st, node, v[q], v[q + 1]), _bmax(I, st, node, v[q], v[q + 1])
            return ORef(alloc(ListC(v)))
    raise Give('sorted')


@reg('builtins.any', 'builtins.all')
def _bany(I, st, node, a):
    raise Give('any/all')


@reg('builtins.map', 'builtins.filter')
def _map(I, st, node, f, *its):
    raise Give('map')


@reg('builtins.object.__init__', 'builtins.object')
def _objinit(I, st, node, *a, **kw):
    if len(a) > 1 or kw:
        fail(I, st, node, 'binderr', 'object.__init__() takes exactly one argument', 'TypeError')
    return None


@reg('copy.copy')
def _ccopy(I, st, node, o):
    return copyv(I, st, node, o, False, {})


@reg('copy.deepcopy')
def _cdeep(I, st, node, o, memo=None):
    return copyv(I, st, node, o, True, {})


def copyv(I, st, node, o, deep, memo):
    if isinstance(o, Ref):
        return newarr(I.av(o, st))
    if isinstance(o, Gated):
        a, b = copyv(I, st, node, o.a, deep, memo), copyv(I, st, node, o.b, deep, memo)
        return I.mergev(o.c, a, b, st)
    if isinstance(o, tuple):
        return tuple(copyv(I, st, node, x, deep, memo) for x in o) if deep else o
    if isinstance(o, (ORef, SeqV)):
        if o.cid in memo and isinstance(o, ORef):
            return memo[o.cid]
        c = st.get(o.cid)
        d = (lambda v: copyv(I, st, node, v, True, memo)) if deep else (lambda v: v)
        if isinstance(c, ObjC):
            for k in c.cls.mro:
                hook = '__deepcopy__' if deep else '__copy__'
                if hook in k.attrs:
                    r = I.call(Bound(k.attrs[hook], o), [ORef(alloc(DictC({})))] if deep else [], {}, st, node)
                    memo[o.cid] = r
                    return r
            n = alloc(c)
            memo[o.cid] = ORef(n)
            st.set(n, ObjC(c.cls, {a: d(b) for a, b in c.attrs.items()}))
            return ORef(n)
        if isinstance(c, SymObjC):
            if '__copyid__' in c.hooks:
                return c.hooks['__copyid__'](I, st, o, deep)
            return o
        if isinstance(c, ListC):
            return ORef(alloc(ListC([d(x) for x in c.items], c.kind)))
        if isinstance(c, DictC):
            return ORef(alloc(DictC({a: d(b) for a, b in c.items.items()}, c.base)))
        if isinstance(c, SymListC):
            return ORef(alloc(SymListC([s if s[0] == 'car' else s[:-1] + (d(s[-1]),) for s in c.segs], c.kind)))
        if isinstance(c, OAC) and isinstance(o, ORef):
            def w(x):
                if x[0] == 'gate':
                    return ('gate', x[1], w(x[2]))
                return x[:-1] + (d(x[-1]),)
            return ORef(alloc(OAC(c.n, [w(x) for x in c.writes], c.base)))
        if isinstance(c, (SeqC, OAC, OACar)):
            n = I.length(o, st)
            k = fresh(n)
            r = ORef(alloc(OAC(n)))
            e = I.getitem(o, (sc(P(k), 'i'),), st, node)
            I.oa_write(r.cid, ('rg', k, n, P(k), d(e)), st)
            return r
    return o


@reg('scipy.optimize.minimize')
def _minimize(I, st, node, *a, **kw):
    I.ev('minimize', st, node, args=a, kw=dict(kw))
    h = getattr(I, 'minimize_hook', None)
    if h is not None:
        return h(I, st, node, a, kw)
    return I.topv('minimize', st, node)


@reg('time.time', 'time.clock')
def _time(I, st, node):
    return TopV('time')


for _n in ('numpy.random.set_state', 'numpy.set_printoptions', 'numpy.seterr', 'warnings.warn'):
    F[_n] = lambda I, st, node, *a, **kw: None
F['numpy.finfo'] = lambda I, st, node, *a: I.topv('finfo', st, node)
