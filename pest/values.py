"""Abstract values and the abstract heap."""
from .terms import *
from . import terms as T


class AV(object):
    """array (or scalar, shape ()) value: element at vars is body"""
    __slots__ = ('shape', 'vars', 'body', 'dt')

    def __init__(self, shape, vs, body, dt='f'):
        self.shape = tuple(shape)
        self.vars = tuple(vs)
        self.body = body
        self.dt = dt

    def at(self, idx):
        m = {v: i for v, i in zip(self.vars, idx) if v in self.body.fv}
        return subst(self.body, m) if m else self.body

    def clo(self):
        return mk_closure(self.vars, self.body)

    def __repr__(self):
        return 'AV%s%s' % (list(map(show, self.shape)), show(self.body, 300))


def sc(p, dt=None):
    p = P(p)
    if dt is None:
        dt = 'i' if is_int(p) else 'f'
    return AV((), (), p, dt)


def mkav(shape, fn, dt='f'):
    vs = [fresh(d) for d in shape]
    return AV(shape, vs, fn(*[ZERO if d is ONEP else P(v) for v, d in zip(vs, shape)]), dt)


class Ref(object):
    """array reference: view of a heap cell"""
    __slots__ = ('cid', 'shape', 'vars', 'idx')

    def __init__(self, cid, shape, vs, idx):
        self.cid = cid
        self.shape = tuple(shape)
        self.vars = tuple(vs)
        self.idx = tuple(idx)


class ORef(object):
    __slots__ = ('cid',)

    def __init__(self, cid):
        self.cid = cid


class SeqV(object):
    """view of a sequence cell (object array or input sequence): elements off .. off+n"""
    __slots__ = ('cid', 'off', 'n', 'sg')

    def __init__(self, cid, off, n, sg=1):
        self.cid = cid
        self.off = off
        self.n = n
        self.sg = sg


class Gated(object):
    """value selected by an indicator"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class TopV(object):
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Top(%s)' % self.why


class Unbound(object):
    pass


UNBOUND = Unbound()


class Fn(object):
    def __init__(self, node, mod, frame, cls=None, name=None):
        self.node, self.mod, self.frame, self.cls = node, mod, frame, cls
        self.name = name or getattr(node, 'name', '<lambda>')
        self.defaults = None
        self.decos = []

    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name


class Bound(object):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Cls(object):
    def __init__(self, name, bases, attrs, mod, node=None):
        self.name, self.bases, self.attrs, self.mod, self.node = name, bases, attrs, mod, node
        self.mro = linearize(self)


def linearize(c):
    seqs = [list(b.mro) for b in c.bases if isinstance(b, Cls)] + [[b for b in c.bases if isinstance(b, Cls)]]
    out = [c]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise Exception('MRO')
        out.append(h)
        for t in seqs:
            if t[0] is h:
                del t[0]


class Mod(object):
    def __init__(self, name, frame=None, ast_=None, path=None):
        self.name, self.frame, self.ast, self.path = name, frame, ast_, path


class Builtin(object):
    """library function known by dotted name"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class BMethod(object):
    """method of a builtin value"""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Hook(object):
    """callable supplied by the analysis context (user code the library calls)"""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Super(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SliceV(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class RangeV(object):
    def __init__(self, lo, n, step):
        self.lo, self.n, self.step = lo, n, step


class IterV(object):
    """n elements given by fn(st, k)"""
    def __init__(self, n, fn):
        self.n, self.fn = n, fn


class ExcV(object):
    def __init__(self, name, args=()):
        self.name, self.args = name, args


# --- heap contents (immutable) -------------------------------------------
class FrameC(object):
    __slots__ = ('vars', 'parent')

    def __init__(self, vs, parent):
        self.vars, self.parent = vs, parent


class ObjC(object):
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class SymObjC(object):
    """opaque user object: hooks by attribute name; writes recorded"""
    __slots__ = ('name', 'hooks', 'attrs')

    def __init__(self, name, hooks, attrs=None):
        self.name, self.hooks, self.attrs = name, hooks, attrs or {}


class ListC(object):
    __slots__ = ('items', 'kind')

    def __init__(self, items, kind='list'):
        self.items, self.kind = tuple(items), kind


class SymListC(object):
    """list/tuple of n elements, element k = template with var k"""
    __slots__ = ('segs', 'kind')
    # segs: tuple of ('one', value) | ('rep', n, var, value)

    def __init__(self, segs, kind='list'):
        self.segs, self.kind = tuple(segs), kind


class DictC(object):
    __slots__ = ('items', 'base')

    def __init__(self, items, base=None):
        self.items, self.base = items, base


class SeqC(object):
    """input sequence: n elements made by fn(st, k)"""
    __slots__ = ('name', 'n', 'fn')

    def __init__(self, name, n, fn):
        self.name, self.n, self.fn = name, n, fn


class OAC(object):
    """object array: n cells; writes is a tuple of ('pt', idx, value) | ('rg', var, n, idx, value) |
    ('gate', cond, pt)"""
    __slots__ = ('n', 'writes', 'base')

    def __init__(self, n, writes=(), base=None):
        self.n, self.writes, self.base = n, tuple(writes), base


class OACar(object):
    """carried object array inside a loop"""
    __slots__ = ('loop', 'slot', 'k', 'elem', 'init', 'pat', 'used')

    def __init__(self, loop, slot, k, elem, init, pat=None):
        self.loop, self.slot, self.k, self.elem, self.init, self.pat = loop, slot, k, elem, init, pat
        self.used = False


class CarUnk(object):
    def __init__(self, name):
        self.name = name


BIRTH = {}
_cid = itertools.count(1)


class State(object):
    __slots__ = ('d', 'pc')

    def __init__(self, d=None, pc=None):
        self.d = d if d is not None else {}
        self.pc = pc if pc is not None else ONEP

    def fork(self):
        return State(dict(self.d), self.pc)

    def get(self, cid):
        r = self.d.get(cid)
        return r if r is not None else BIRTH[cid]

    def set(self, cid, c):
        self.d[cid] = c

    def become(self, o):
        self.d = o.d
        self.pc = o.pc


def alloc(content):
    cid = next(_cid)
    BIRTH[cid] = content
    return cid


def newarr(av):
    """allocate an array cell, return a whole-array reference"""
    cid = alloc(av)
    return whole(cid, av)


def whole(cid, av):
    vs = [fresh(d) for d in av.shape]
    return Ref(cid, av.shape, vs, [ZERO if d is ONEP else P(v) for v, d in zip(vs, av.shape)])
