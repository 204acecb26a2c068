"""Abstract interpreter over Python syntax trees (gated value numbering)."""
import ast
import os
import re
import sys
from fractions import Fraction
import builtins as _bi
from .values import *
from .values import _cid
from . import terms as T

sys.setrecursionlimit(20000)

BUILTINS = set(dir(_bi))


class RaiseOut(Exception):
    """every path of the callee raises"""
    def __init__(self, exc, site=None):
        self.exc, self.site = exc, site


class Give(Exception):
    """analysis gives up on this construct"""


class Event(object):
    def __init__(self, kind, data, pc, loops, site):
        self.kind, self.data, self.pc, self.loops, self.site = kind, data, pc, loops, site


class Loop(object):
    def __init__(self, lid, k, n):
        self.lid, self.k, self.n = lid, k, n


def preprocess_pyx(src):
    """Cython source to plain Python syntax (types dropped, line numbers kept)"""
    pat = re.compile(r'^([ \t]*)(?:cpdef|cdef|def)[ \t]+(?:inline[ \t]+)?(?:[\w\.]+(?:\[[^\]]*\])?[ \t]+)?(\w+)[ \t]*\(', re.M)
    out = []
    pos = 0
    while True:
        m = pat.search(src, pos)
        if not m:
            out.append(src[pos:])
            break
        out.append(src[pos:m.start()])
        depth = 1
        j = m.end()
        parts, cur = [], ''
        while depth and j < len(src):
            ch = src[j]
            if ch in '([{':
                depth += 1
            elif ch in ')]}':
                depth -= 1
                if not depth:
                    break
            if ch == ',' and depth == 1:
                parts.append(cur)
                cur = ''
            else:
                cur += ch
            j += 1
        if cur.strip():
            parts.append(cur)
        k = src.find(':', j)
        res = []
        for p in parts:
            head, eq, dflt = p.partition('=') if not re.search(r'\[[^\]]*=', p) else (re.sub(r'\[[^\]]*\]', '', p).partition('='))
            head = re.sub(r'\[[^\]]*\]', '', head).strip()
            nm = head.split()[-1] if head.split() else ''
            if eq:
                nm += '=' + dflt.strip()
            res.append('\n' * p.count('\n') + nm)
        out.append(m.group(1) + 'def ' + m.group(2) + '(' + ', '.join(res) + ')' + '\n' * 0)
        pos = k
    src = ''.join(out)
    out = []
    for line in src.split('\n'):
        s = line.strip()
        ind = line[:len(line) - len(line.lstrip())]
        if re.match(r'(cimport\b|from\s+\S+\s+cimport\b)', s):
            out.append(ind + 'pass')
            continue
        if s.startswith('@cython.') or s.startswith('@boundscheck'):
            out.append('')
            continue
        if re.match(r'(cdef|ctypedef)\b', s):
            m = re.match(r'cdef\s+[^=]*?(\w+)\s*=\s*(.*)$', s)
            out.append(ind + (m.group(1) + ' = ' + m.group(2) if m else 'pass'))
            continue
        out.append(re.sub(r'<\s*(?:unsigned\s+)?(?:int|double|float|long|Py_ssize_t|size_t)[\w\s]*>', '', line))
    return '\n'.join(out)


def symatoms(p, out):
    """collect the size symbols of a polynomial over sizes and comparisons of sizes; False: other atoms occur"""
    for f, s, c in p.terms:
        if s:
            return False
        for a, e in f:
            if a.kind == 'sym':
                out.add(a)
            elif not (a.kind in ('ge', 'eq') and symatoms(a.args[0], out)):
                return False
    return True


def smallval(p, m):
    r = 0
    for f, s, c in p.terms:
        for a, e in f:
            if a.kind == 'sym':
                v = m[a]
            else:
                v = smallval(a.args[0], m)
                v = int(v >= 0) if a.kind == 'ge' else int(v == 0)
            c = c * v ** e
        r += c
    return r


def gate_shapes(c, a, b):
    """the shape valid on both sides of a gate: a where c holds, b elsewhere (small sizes are enumerated; the
    conditions met in the code compare sizes with 0, 1 or each other)"""
    import itertools
    at = set()
    if not all(symatoms(p, at) for p in (c,) + tuple(a) + tuple(b)) or not at or len(at) > 4:
        return None
    at = sorted(at, key=lambda x: str(x.args[0]))
    oka = okb = True
    for v in itertools.product(*[range(max(int(x.args[1]), 0), max(int(x.args[1]), 0) + 4) for x in at]):
        m = dict(zip(at, v))
        g = smallval(c, m)
        if [smallval(p, m) for p in a] != [smallval(p, m) for p in b]:
            if g:
                okb = False
            else:
                oka = False
    return a if oka else b if okb else None


WATCH = {'attrerror', 'nameerror', 'unbound', 'binderr', 'typeerror', 'shape', 'indexerror', 'keyerror', 'write-input'}
WATCHED = []          # events of these kinds, for checks that aggregate over all analysis contexts


def bound(v, name):
    """a variable bound on some paths only: nothing is known of the others"""
    a = bound(v.a, name) if isinstance(v.a, Gated) else v.a
    b = bound(v.b, name) if isinstance(v.b, Gated) else v.b
    if isinstance(a, (Unbound, CarUnk)):
        a = TopV('unbound ' + name)
    if isinstance(b, (Unbound, CarUnk)):
        b = TopV('unbound ' + name)
    return v if a is v.a and b is v.b else Gated(v.c, a, b)


class Interp(object):
    def __init__(self, root, compiled=False, extra_path=()):
        self.root = root
        self.compiled = compiled
        self.extra = tuple(extra_path)
        self.mods = {}
        self.events = []
        self.mute = 0
        self.loops = []
        self.depth = 0
        self.callstack = []
        self.site = None
        self.randno = {}
        self.loopno = itertools.count(1)
        self.analysed = set()
        self.files = set()
        self.inputcells = {}
        self.fixed = set()      # array cells that outlive the loop that stores views of them
        self.repl = {}          # array cells standing for one cell per element of a list
        self.viewof = {}
        self.st0 = State()
        self.carmap = {}
        self.budget = 400000
        self.callnode = []
        self.hookns = {}
        self.tainted = []

    # ------------------------------------------------------------ modules
    def find(self, name):
        rel = name.replace('.', '/')
        for r in (self.root,) + self.extra:
            for suf in ('.py', '/__init__.py', '.pyx'):
                p = os.path.join(r, rel + suf)
                if os.path.exists(p):
                    if suf == '.pyx' and not self.compiled:
                        continue
                    return p
        return None

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.find(name)
        if p is None:
            return None
        src = open(p).read()
        self.files.add(p)
        if p.endswith('.pyx'):
            src = preprocess_pyx(src)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, p)
        fr = alloc(FrameC({}, None))
        m = Mod(name, fr, tree, p)
        self.mods[name] = m
        st = self.st0
        self.mute += 1
        try:
            self.run_module(m, st)
        finally:
            self.mute -= 1
        return m

    def run_module(self, m, st):
        ctx = Ctx(m, m.frame, None)
        for s in m.ast.body:
            self.exec_stmt(s, st, ctx)

    # ------------------------------------------------------------- events
    def ev(self, kind, st, node=None, **data):
        if self.mute:
            return
        e = Event(kind, data, st.pc, tuple(self.loops), self.where(node))
        self.events.append(e)
        if kind in WATCH:
            WATCHED.append(e)

    def where(self, node=None):
        fn = self.callstack[-1] if self.callstack else None
        path = fn.mod.path if fn is not None and fn.mod is not None else '?'
        line = getattr(node, 'lineno', None) or (self.site and self.site.lineno) or 0
        return '%s:%s' % (os.path.relpath(path, self.root) if path and path != '?' else '?', line), \
            fn.qual() if fn is not None else '<module>'

    def topv(self, why, st=None, node=None):
        if st is not None:
            self.ev('top', st, node, why=why)
        return TopV(why)

    # --------------------------------------------------------- frames/env
    def lookup(self, st, ctx, name, node=None):
        f = ctx.frame
        while f is not None:
            fc = st.get(f)
            if name in fc.vars:
                v = fc.vars[name]
                if v is UNBOUND:
                    self.ev('unbound', st, node, name=name)
                    return TopV('unbound ' + name)
                if isinstance(v, CarUnk):
                    return self.topv('carried variable ' + name, st, node)
                if isinstance(v, Gated):
                    return bound(v, name)
                return v
            f = fc.parent
        fc = self.modframe(st, ctx.mod)
        if name in fc.vars:
            return fc.vars[name]
        if name in BUILTINS:
            return Builtin('builtins.' + name)
        if name in ('xrange',) and ctx.mod.path and ctx.mod.path.endswith('.pyx'):
            return Builtin('builtins.range')     # Cython translates it
        self.ev('nameerror', st, node, name=name)
        raise RaiseOut(ExcV('NameError', (name,)), self.where(node))

    def modframe(self, st, mod):
        return st.d.get(mod.frame) or self.st0.get(mod.frame)

    def setvar(self, st, ctx, name, v):
        f = ctx.frame
        if name in ctx.globals_:
            f = ctx.mod.frame
        fc = st.get(f)
        d = dict(fc.vars)
        d[name] = v
        st.set(f, FrameC(d, fc.parent))

    # --------------------------------------------------------- statements
    def exec_block(self, stmts, st, ctx):
        """-> outcome tree"""
        for i, s in enumerate(stmts):
            t = self.exec_stmt(s, st, ctx)
            if t is None:
                continue
            if t[0] == 'n':
                st = t[1]
                continue
            rest = stmts[i + 1:]
            if t[0] == 'br':
                return self.map_normal(t, lambda s2: self.exec_block(rest, s2, ctx) if rest else ('n', s2))
            return t
        return ('n', st)

    def map_normal(self, t, f):
        if t[0] == 'n':
            return f(t[1])
        if t[0] == 'br':
            a = self.map_normal(t[2], f)
            b = self.map_normal(t[3], f)
            return self.mk_br(t[1], a, b)
        return t

    def mk_br(self, c, a, b):
        if a[0] == 'x' and b[0] != 'x':
            return b
        if b[0] == 'x' and a[0] != 'x':
            return a
        if a[0] == b[0] == 'n':
            return ('n', self.merge(c, a[1], b[1]))
        if a[0] == b[0] and a[0] in 'bc' and len(a[0]) == 1:
            return (a[0], self.merge(c, a[1], b[1]))
        if a[0] == b[0] == 'r':
            st = self.merge(c, a[1], b[1])
            return ('r', st, self.mergev(c, a[2], b[2], st))
        return ('br', c, a, b)

    def exec_stmt(self, s, st, ctx):
        self.site = s
        self.budget -= 1
        if self.budget < 0:
            raise Give('budget')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Give('statement ' + type(s).__name__)
        try:
            return m(s, st, ctx)
        except RaiseOut as e:
            if ctx.toplevel:
                raise
            return ('x', st, e.exc)

    def s_Pass(self, s, st, ctx):
        return None

    s_Global = s_Pass

    def s_Expr(self, s, st, ctx):
        if isinstance(s.value, ast.Constant):
            return None
        v = s.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'resize' and \
                isinstance(v.func.value, (ast.Name, ast.Attribute)):
            # ndarray.resize changes the object in place: rebind the (only) name of the array
            o = self.eval(v.func.value, st, ctx)
            from . import npmodel
            if isinstance(o, Ref) or (isinstance(o, ORef) and isinstance(st.get(o.cid), OAC)):
                args = [self.eval(a, st, ctx) for a in v.args]
                if len(args) != 1:
                    raise Give('resize arguments')
                r = npmodel.resized(self, o, args[0], st, s)
                if r is not o:
                    self.assign(v.func.value, r, st, ctx)
                return None
        self.eval(v, st, ctx)
        return None

    def s_Import(self, s, st, ctx):
        for a in s.names:
            nm = a.name
            m = self.import_(nm)
            if a.asname:
                self.setvar(st, ctx, a.asname, m)
            else:
                self.setvar(st, ctx, nm.split('.')[0], self.import_(nm.split('.')[0]))
        return None

    def import_(self, nm):
        if nm.startswith('pyparticleest.utils.c') and not self.compiled and self.find(nm) is None:
            raise RaiseOut(ExcV('ImportError', (nm,)))
        m = self.module(nm) if self.find(nm) else None
        if m is None:
            if nm.split('.')[0] in ('pyparticleest',):
                if nm in ('pyparticleest', 'pyparticleest.utils', 'pyparticleest.models'):
                    return Mod(nm)
                raise RaiseOut(ExcV('ImportError', (nm,)))
            return Builtin(canon_lib(nm))
        return m

    def s_ImportFrom(self, s, st, ctx):
        for a in s.names:
            full = s.module + '.' + a.name
            if self.find(full):
                v = self.import_(full)
            elif self.find(s.module):
                m = self.module(s.module)
                fc = self.st0.get(m.frame)
                if a.name == '*':
                    for k, v in fc.vars.items():
                        self.setvar(st, ctx, k, v)
                    continue
                if a.name not in fc.vars:
                    self.ev('nameerror', st, s, name=full)
                    raise RaiseOut(ExcV('ImportError', (full,)), self.where(s))
                v = fc.vars[a.name]
            else:
                v = Builtin(canon_lib(full))
            self.setvar(st, ctx, a.asname or a.name, v)
        return None

    def s_FunctionDef(self, s, st, ctx):
        fn = Fn(s, ctx.mod, ctx.frame if not ctx.toplevel else None, ctx.cls)
        fn.defaults = self.eval_defaults(s.args, st, ctx)
        v = fn
        for d in reversed(s.decorator_list):
            nm = ast.unparse(d)
            if nm in ('abc.abstractmethod', 'abstractmethod'):
                fn.decos.append('abstract')
            elif nm in ('staticmethod', 'classmethod', 'property'):
                fn.decos.append(nm)
            else:
                fn.decos.append('?' + nm)
        self.setvar(st, ctx, s.name, v)
        return None

    def eval_defaults(self, args, st, ctx):
        d = {}
        pos = args.posonlyargs + args.args
        for a, v in zip(pos[len(pos) - len(args.defaults):], args.defaults):
            d[a.arg] = self.eval(v, st, ctx)
        for a, v in zip(args.kwonlyargs, args.kw_defaults):
            if v is not None:
                d[a.arg] = self.eval(v, st, ctx)
        return d

    def s_ClassDef(self, s, st, ctx):
        bases = [self.eval(b, st, ctx) for b in s.bases]
        bases = [b for b in bases if isinstance(b, Cls)] or []
        fr = alloc(FrameC({}, None))
        c = Cls(s.name, bases, {}, ctx.mod, s)
        c2 = Ctx(ctx.mod, fr, c)
        c2.toplevel = True
        c2.outer = ctx
        for b in s.body:
            # class scope can see module scope
            self.exec_stmt(b, st, c2)
        c.attrs = dict(st.get(fr).vars)
        self.setvar(st, ctx, s.name, c)
        return None

    def s_Return(self, s, st, ctx):
        v = self.eval(s.value, st, ctx) if s.value is not None else None
        return ('r', st, v)

    def s_Raise(self, s, st, ctx):
        exc = ExcV('Exception')
        if s.exc is not None:
            e = s.exc
            nm = e.func if isinstance(e, ast.Call) else e
            nm = ast.unparse(nm)
            exc = ExcV(nm)
        self.ev('raise', st, s, exc=exc.name)
        return ('x', st, exc)

    def s_Assert(self, s, st, ctx):
        c = self.cond(self.eval(s.test, st, ctx), st)
        self.ev('assert', st, s, cond=c)
        if c is False:
            return ('x', st, ExcV('AssertionError'))
        return None

    def s_Delete(self, s, st, ctx):
        return None

    def s_Break(self, s, st, ctx):
        return ('b', st)

    def s_Continue(self, s, st, ctx):
        return ('c', st)

    def s_Try(self, s, st, ctx):
        save = st.fork()
        try:
            was = ctx.toplevel
            try:
                t = None
                for b in s.body:
                    t = self.exec_stmt(b, st, ctx)
                    if t is not None and t[0] != 'n':
                        break
                if t is not None and t[0] == 'x':
                    raise RaiseOut(t[2])
                if t is not None and t[0] != 'n':
                    i = s.body.index(b)
                    rest = s.body[i + 1:] + s.orelse
                    t = self.map_normal(t, lambda s2: self.exec_block(rest, s2, ctx))
                    return t
            finally:
                ctx.toplevel = was
        except RaiseOut as e:
            st.become(save)
            for h in s.handlers:
                nm = ast.unparse(h.type) if h.type is not None else 'Exception'
                if nm in (e.exc.name, 'Exception', 'BaseException') or e.exc.name in nm:
                    if h.name:
                        self.setvar(st, ctx, h.name, TopV('exception'))
                    if ctx.toplevel:
                        for b in h.body:
                            self.exec_stmt(b, st, ctx)
                        return None
                    return self.exec_block(h.body, st, ctx)
            raise
        if s.orelse:
            return self.exec_block(s.orelse, st, ctx)
        return None

    def s_With(self, s, st, ctx):
        for it in s.items:
            v = self.eval(it.context_expr, st, ctx)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, ctx)
        return self.exec_block(s.body, st, ctx)

    def s_Assign(self, s, st, ctx):
        v = self.eval(s.value, st, ctx)
        for t in s.targets:
            self.assign(t, v, st, ctx)
        return None

    def s_AnnAssign(self, s, st, ctx):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, ctx), st, ctx)
        return None

    def s_AugAssign(self, s, st, ctx):
        op = s.op
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(st, ctx, t.id, t)
            v = self.eval(s.value, st, ctx)
            self.setvar(st, ctx, t.id, self.inplace(op, cur, v, st, s))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, ctx)
            cur = self.getattr(o, t.attr, st, t)
            v = self.eval(s.value, st, ctx)
            self.setattr(o, t.attr, self.inplace(op, cur, v, st, s), st, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, ctx)
            idx = self.eval_index(t.slice, st, ctx)
            cur = self.getitem(o, idx, st, t)
            v = self.eval(s.value, st, ctx)
            r = self.binop(op, cur, v, st, s)
            self.setitem(o, idx, r, st, t)
        else:
            raise Give('augassign')
        return None

    def inplace(self, op, cur, v, st, node):
        if isinstance(cur, (Ref, Gated)) and self.is_array(cur, st):
            r = self.binop(op, cur, v, st, node)
            self.write(cur, r, st, node)
            return cur
        if isinstance(cur, ORef) and isinstance(st.get(cur.cid), (ListC, SymListC)) and isinstance(op, ast.Add) \
                and getattr(st.get(cur.cid), 'kind', '') == 'list':
            r = self.binop(op, cur, v, st, node)
            if isinstance(r, ORef):
                st.set(cur.cid, st.get(r.cid))
                return cur
            return r
        return self.binop(op, cur, v, st, node)

    def s_If(self, s, st, ctx):
        c = self.cond(self.eval(s.test, st, ctx), st)
        if c is True:
            return self.exec_block(s.body, st, ctx)
        if c is False:
            return self.exec_block(s.orelse, st, ctx)
        return self.branch(c, st, lambda a: self.exec_block(s.body, a, ctx),
                           lambda b: self.exec_block(s.orelse, b, ctx))

    def branch(self, c, st, f, g):
        a, b = st.fork(), st.fork()
        if 'top' in c.kinds:
            pass
        a.pc = st.pc * c
        b.pc = st.pc * (ONEP - c)
        if not a.pc.terms:
            return g(b)
        if not b.pc.terms:
            return f(a)
        rn = dict(self.randno)
        ta = f(a)
        ra = self.randno
        self.randno = dict(rn)
        tb = g(b)
        for k, v in ra.items():
            self.randno[k] = max(v, self.randno.get(k, 0))
        t = self.mk_br(c, ta, tb)
        if t[0] == 'n':
            st.become(t[1])
            return ('n', st)
        return t

    # -------------------------------------------------------------- merge
    def merge(self, c, a, b):
        r = State(dict(a.d), a.pc + b.pc)
        for cid in set(a.d) | set(b.d):
            x, y = a.get(cid), b.get(cid)
            if x is y:
                continue
            r.d[cid] = self.mergec(c, x, y, r)
        return r

    def mergec(self, c, x, y, st):
        if x is y:
            return x
        if isinstance(x, AV) and isinstance(y, AV):
            m = self.merge_av(c, x, y)
            return m
        if isinstance(x, FrameC) and isinstance(y, FrameC):
            d = {}
            for k in list(x.vars) + [k for k in y.vars if k not in x.vars]:
                u, v = x.vars.get(k, UNBOUND), y.vars.get(k, UNBOUND)
                d[k] = u if u is v else self.mergev(c, u, v, st)
            return FrameC(d, x.parent)
        if isinstance(x, ObjC) and isinstance(y, ObjC):
            d = {}
            for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                u, v = x.attrs.get(k, UNBOUND), y.attrs.get(k, UNBOUND)
                d[k] = u if u is v else self.mergev(c, u, v, st)
            return ObjC(x.cls, d)
        if isinstance(x, SymObjC) and isinstance(y, SymObjC):
            d = {}
            for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                u, v = x.attrs.get(k, UNBOUND), y.attrs.get(k, UNBOUND)
                d[k] = u if u is v else self.mergev(c, u, v, st)
            return SymObjC(x.name, x.hooks, d)
        if isinstance(x, ListC) and isinstance(y, ListC) and len(x.items) == len(y.items):
            return ListC([self.mergev(c, u, v, st) for u, v in zip(x.items, y.items)], x.kind)
        if isinstance(x, DictC) and isinstance(y, DictC):
            d = {}
            for k in list(x.items) + [k for k in y.items if k not in x.items]:
                d[k] = self.mergev(c, x.items.get(k, UNBOUND), y.items.get(k, UNBOUND), st)
            return DictC(d, x.base)
        if isinstance(x, OAC) and isinstance(y, OAC) and x.base is y.base:
            n = 0
            while n < len(x.writes) and n < len(y.writes) and x.writes[n] is y.writes[n]:
                n += 1
            w = list(x.writes[:n])
            w += [('gate', c, u) for u in x.writes[n:]]
            w += [('gate', ONEP - c, u) for u in y.writes[n:]]
            return OAC(x.n, w, x.base)
        return CarUnk('merge of %s and %s' % (type(x).__name__, type(y).__name__))

    def merge_av(self, c, x, y):
        if len(x.shape) == len(y.shape) and all(a is b for a, b in zip(x.shape, y.shape)):
            return mkav(x.shape, lambda *i: c * x.at(i) + (ONEP - c) * y.at(i),
                        x.dt if x.dt == y.dt else 'f')
        if len(x.shape) == len(y.shape):
            k = gate_shapes(c, x.shape, y.shape)
            if k is x.shape or k is y.shape:
                return mkav(k, lambda *i: c * x.at(i) + (ONEP - c) * y.at(i), x.dt if x.dt == y.dt else 'f')
            sh = tuple(a if a is b else T.top('merge of different shapes') for a, b in zip(x.shape, y.shape))
        else:
            sh = (T.top('merge of different shapes'),)
        return mkav(sh, lambda *i: T.top('merge of different shapes'))

    def mergev(self, c, u, v, st):
        if u is v:
            return u
        if isinstance(u, bool) and isinstance(v, bool):
            if u == v:
                return u
            return sc(c if u else ONEP - c, 'b')
        su, sv = self.as_scalar(u), self.as_scalar(v)
        if su is not None and sv is not None:
            if su.body is sv.body:
                return u
            return AV((), (), c * su.body + (ONEP - c) * sv.body, su.dt if su.dt == sv.dt else 'f')
        if u is None and v is None:
            return None
        if isinstance(u, str) and u == v:
            return u
        if isinstance(u, tuple) and isinstance(v, tuple) and len(u) == len(v):
            return tuple(self.mergev(c, a, b, st) for a, b in zip(u, v))
        if isinstance(u, Ref) and isinstance(v, Ref) and u.cid == v.cid and len(u.shape) == len(v.shape) and \
                all(a is b for a, b in zip(u.shape, v.shape)):
            m = {y: P(x) for x, y in zip(u.vars, v.vars)}
            if all(p is subst(q, m) for p, q in zip(u.idx, v.idx)):
                return u
        if isinstance(u, ORef) and isinstance(v, ORef) and u.cid == v.cid:
            return u
        if isinstance(u, Gated) and u.c is c:
            u = u.a
        if isinstance(v, Gated) and v.c is c:
            v = v.b
        if u is v:
            return u
        return Gated(c, u, v)

    def as_scalar(self, v):
        if isinstance(v, AV) and not v.shape:
            return v
        if isinstance(v, bool):
            return sc(1 if v else 0, 'b')
        return None

    # -------------------------------------------------------------- loops
    maxunroll = 4
    def s_For(self, s, st, ctx):
        it = self.eval(s.iter, st, ctx)
        if s.orelse:
            raise Give('for-else')
        return self.loop(self.iterate(it, st, s), s, st, ctx,
                         lambda v, st2: self.assign(s.target, v, st2, ctx), s.body)

    def iterate(self, it, st, node=None):
        """-> list of values, or IterV"""
        if isinstance(it, IterV):
            if is_const(it.n) and cval(it.n) <= self.maxunroll and cval(it.n) >= 0:
                return [it.fn(st, const(i)) for i in range(int(cval(it.n)))]
            return it
        if isinstance(it, RangeV):
            if is_const(it.n):
                n = int(cval(it.n))
                if n <= self.maxunroll:
                    return [sc(it.lo + const(i) * it.step, 'i') for i in range(max(n, 0))]
            return IterV(it.n, lambda st2, k: sc(it.lo + k * it.step, 'i'))
        if isinstance(it, tuple):
            return list(it)
        if isinstance(it, ORef):
            c = st.get(it.cid)
            if isinstance(c, ListC):
                return list(c.items)
            if isinstance(c, DictC):
                return list(c.items)
            if isinstance(c, SymListC) and len(c.segs) == 1 and c.segs[0][0] == 'rep':
                _, n, var_, val = c.segs[0]
                return IterV(n, lambda st2, k: self.inst(val, {var_: k}, st2))
            if isinstance(c, (OAC, OACar, SeqC)):
                return IterV(c.n if not isinstance(c, OACar) else c.init.n,
                             lambda st2, k: self.getitem(it, (sc(k, 'i'),), st2, node))
        if isinstance(it, SeqV):
            return IterV(it.n, lambda st2, k: self.getitem(it, (sc(k, 'i'),), st2, node))
        if isinstance(it, str):
            return list(it)
        if self.is_array(it, st):
            av = self.av(it, st)
            if not av.shape:
                raise RaiseOut(ExcV('TypeError', ('iteration over a 0-d array',)), self.where(node))
            return IterV(av.shape[0], lambda st2, k: self.getitem(it, (sc(k, 'i'),), st2, node))
        raise Give('iterate %r' % (it,))

    def loop(self, it, s, st, ctx, bind, body):
        if isinstance(it, list):
            return self.unroll(it, s, st, ctx, bind, body)
        n = it.n
        lid = next(self.loopno)
        return self.summarise(lid, n, s, st, lambda st2, k: bind(it.fn(st2, k), st2),
                              lambda st2: self.exec_block(body, st2, ctx))

    def unroll(self, items, s, st, ctx, bind, body):
        if not items:
            return None
        bind(items[0], st)
        t = self.exec_block(body, st, ctx)

        def cont(t):
            if t[0] in ('n', 'c'):
                return self.unroll(items[1:], s, t[1], ctx, bind, body) or ('n', t[1])
            if t[0] == 'b':
                return ('n', t[1])
            if t[0] == 'br':
                return self.mk_br(t[1], cont(t[2]), cont(t[3]))
            return t
        t = cont(t)
        if t[0] == 'n':
            st.become(t[1])
            return ('n', st)
        return t

    def summarise(self, lid, n, node, st, bind, run):
        """generic-iteration summary of a counted loop with n iterations"""
        if is_const(n) and cval(n) <= 0:
            return None
        marker = next(_cid)
        # ---- discovery
        mod = {}
        rn = dict(self.randno)
        ln = None
        for rnd in range(2):
            st1 = st.fork()
            k0 = fresh(n)
            self.loops.append(Loop(lid, k0, n))
            self.mute += 1
            self.randno = dict(rn)
            try:
                if rnd:
                    self.havoc(lid, mod, st1, P(k0), marker)
                bind(st1, P(k0))
                t = run(st1)
            finally:
                self.mute -= 1
                self.loops.pop()
            leaves = self.leaves(t)
            new = False
            for kind, s2 in leaves:
                if kind == 'x':
                    continue
                for cid, c in s2.d.items():
                    if cid < marker and c is not st.get(cid):
                        for slot in self.diff(cid, st.get(cid), c):
                            if slot[0] not in mod:
                                mod[slot[0]] = slot + (k0,)
                                new = True
                            elif rnd == 0:
                                mod[slot[0]] = slot + (k0,)
            if not new and rnd:
                break
        # ---- generic iteration
        self.randno = dict(rn)
        st1 = st.fork()
        k = fresh(n)
        self.loops.append(Loop(lid, k, n))
        ev0 = len(self.events)
        cellmark = next(_cid)
        try:
            cars = self.havoc(lid, mod, st1, P(k), marker)
            bind(st1, P(k))
            t = run(st1)
        finally:
            self.loops.pop()
        lv = self.leaves(t)
        kinds = [x for x, _ in lv]
        exits = [x for x in kinds if x in ('r', 'b')]
        if all(x == 'x' for x in kinds):
            raise RaiseOut(self.first_exc(t))
        st2 = self.normal_state(t)
        if st2 is None or exits:
            # irregular loop: keep what is known, forget the rest
            self.ev('irregular-loop', st, node, lid=lid)
            ret = self.returns(t)
            for key, slot in mod.items():
                self.set_slot(st, slot, self.slot_top(slot, st))
            if ret:
                self.ev('loop-return', st, node, value=ret[0][1])
                c = T.top('loop exit')
                rs, rv = ret[0]
                return ('br', c, ('r', rs, rv), ('n', st))
            return None
        # ---- solve
        sol = self.solve(lid, n, k, mod, cars, st, st2, cellmark)
        final = {}
        for key, slot in mod.items():
            final[key] = sol.final(key, st2)
        # results: start from the state before the loop, add cells of the generic iteration
        for cid, c in st2.d.items():
            if cid >= marker:
                st.d[cid] = c
        for key, slot in mod.items():
            self.set_slot(st, slot, final[key])
        # resolve events recorded inside
        if not self.mute:
            for e in self.events[ev0:]:
                e.data = {a: self.rw_any(b, sol.rw, st2) for a, b in e.data.items()}
                e.pc = rewrite(e.pc, sol.rw) if isinstance(e.pc, Poly) else e.pc
        self.carmap[lid] = sol
        return None

    def leaves(self, t):
        if t[0] == 'br':
            return self.leaves(t[2]) + self.leaves(t[3])
        return [(t[0], t[1])]

    def first_exc(self, t):
        if t[0] == 'br':
            return self.first_exc(t[2])
        return t[2]

    def returns(self, t):
        if t[0] == 'br':
            return self.returns(t[2]) + self.returns(t[3])
        return [(t[1], t[2])] if t[0] == 'r' else []

    def normal_state(self, t):
        if t[0] in ('n', 'c'):
            return t[1]
        if t[0] == 'br':
            a, b = self.normal_state(t[2]), self.normal_state(t[3])
            if a is None:
                return b
            if b is None:
                return a
            return self.merge(t[1], a, b)
        return None

    def diff(self, cid, x, y):
        """slots of a cell that changed: (key, cid, sub, value-before, value-after)"""
        if isinstance(y, FrameC):
            return [((cid, v), cid, v, x.vars.get(v, UNBOUND), y.vars[v]) for v in y.vars
                    if y.vars[v] is not x.vars.get(v, UNBOUND)]
        if isinstance(y, (ObjC, SymObjC)):
            return [((cid, v), cid, v, x.attrs.get(v, UNBOUND), y.attrs[v]) for v in y.attrs
                    if y.attrs[v] is not x.attrs.get(v, UNBOUND)]
        return [((cid, None), cid, None, x, y)]

    def get_slot(self, st, slot):
        key, cid, sub = slot[:3]
        c = st.get(cid)
        if sub is None:
            return c
        if isinstance(c, FrameC):
            return c.vars.get(sub, UNBOUND)
        return c.attrs.get(sub, UNBOUND)

    def set_slot(self, st, slot, v):
        key, cid, sub = slot[:3]
        c = st.get(cid)
        if sub is None:
            st.set(cid, v)
        elif isinstance(c, FrameC):
            d = dict(c.vars)
            d[sub] = v
            st.set(cid, FrameC(d, c.parent))
        elif isinstance(c, SymObjC):
            d = dict(c.attrs)
            d[sub] = v
            st.set(cid, SymObjC(c.name, c.hooks, d))
        else:
            d = dict(c.attrs)
            d[sub] = v
            st.set(cid, ObjC(c.cls, d))

    def slot_top(self, slot, st):
        v = self.get_slot(st, slot)
        if isinstance(v, AV):
            return mkav(v.shape, lambda *i: T.top('irregular loop'), v.dt)
        if isinstance(v, Ref):
            return newarr(mkav(v.shape, lambda *i: T.top('irregular loop')))
        return CarUnk('irregular loop')

    def havoc(self, lid, mod, st, k, marker):
        """replace every modified slot by its value at the start of iteration k"""
        cars = {}
        for num, (key, slot) in enumerate(sorted(mod.items(), key=lambda t: (t[0][0], str(t[0][1])))):
            before = self.get_slot(st, slot)
            after = slot[4]
            name = (lid, num)
            kind = None
            if isinstance(before, AV):
                av = mkav(before.shape, lambda *i: P(mk_atom('car', name, k, *i)),
                          before.dt)
                if av.dt == 'i' or av.dt == 'b':
                    META[('car', name)] = {'int': True}
                self.set_slot(st, slot, av)
                kind = 'num' if slot[2] is None or not before.shape else 'num'
                cars[key] = (name, 'av', before)
            elif isinstance(before, bool) or (isinstance(before, AV)):
                cars[key] = (name, 'unk', before)
                self.set_slot(st, slot, CarUnk(str(key[1])))
            elif isinstance(before, (Ref, Gated)) and self.is_array(before, st) and (
                    isinstance(after, TopV) or self.is_array_like(after)):
                bav = self.av(before, st)
                same = self.shape_of(after)
                if same is not None and (len(same) != len(bav.shape) or any(a is not b for a, b in zip(same, bav.shape))):
                    cars[key] = (name, 'unk', before)
                    self.set_slot(st, slot, CarUnk(str(key[1])))
                    continue
                if bav.dt == 'i':
                    META[('car', name)] = {'int': True}
                av = mkav(bav.shape, lambda *i: P(mk_atom('car', name, k, *i)), bav.dt)
                self.set_slot(st, slot, newarr(av))
                cars[key] = (name, 'ref', bav)
            elif isinstance(before, OAC) or isinstance(before, SymListC) and isinstance(after, OAC) and \
                    len(before.segs) == 1 and before.segs[0][0] == 'rep':
                if isinstance(before, SymListC):
                    _, n0, v0, x0 = before.segs[0]
                    before = OAC(n0, [('rg', v0, n0, P(v0), x0)])
                elem = None
                if isinstance(after, OAC) and len(after.writes) > len(before.writes):
                    w = after.writes[-1]
                    while w[0] == 'gate':
                        w = w[2]
                    elem = w[-1]
                self.set_slot(st, slot, OACar(lid, name, k, elem, before, oapat(after, before, slot[5])))
                cars[key] = (name, 'oa', before)
            elif isinstance(before, (ListC, SymListC)):
                segs = self.segs(before)
                self.set_slot(st, slot, SymListC([('car', name, k, before)], before.kind))
                cars[key] = (name, 'list', before)
            else:
                cars[key] = (name, 'unk', before)
                self.set_slot(st, slot, CarUnk(str(key[1])))
        return cars

    def is_array_like(self, v):
        return isinstance(v, (Ref, AV)) or isinstance(v, Gated) and self.is_array_like(v.a)

    def shape_of(self, v):
        if isinstance(v, (Ref, AV)):
            return v.shape
        if isinstance(v, Gated):
            return self.shape_of(v.a)
        return None

    def segs(self, c):
        if isinstance(c, ListC):
            return tuple(('one', v) for v in c.items)
        return c.segs

    def solve(self, lid, n, k, mod, cars, st, st2, wm):
        from .loops import Solver
        return Solver(self, lid, n, k, mod, cars, st, st2, wm)

    def markrepl(self, v, wm, st):
        """arrays created by the loop that fills a list: one per element"""
        if isinstance(v, tuple):
            for x in v:
                self.markrepl(x, wm, st)
        elif isinstance(v, Gated):
            self.markrepl(v.a, wm, st)
            self.markrepl(v.b, wm, st)
        elif isinstance(v, Ref):
            if v.cid >= wm and v.cid not in self.fixed:
                self.repl[v.cid] = True
        elif isinstance(v, ORef) and v.cid >= wm:
            c = st.get(v.cid)
            for x in list(c.attrs.values()) if isinstance(c, ObjC) else list(c.items) if isinstance(c, ListC) else []:
                self.markrepl(x, wm, st)

    def s_While(self, s, st, ctx):
        from .loops import while_loop
        return while_loop(self, s, st, ctx)

    # ----------------------------------------------------------- rewriting
    def rw_any(self, v, fn, st=None):
        if isinstance(v, (Poly, Closure)):
            return rewrite(v, fn)
        if isinstance(v, AV):
            return AV(v.shape, v.vars, rewrite(v.body, fn), v.dt)
        if isinstance(v, tuple):
            return tuple(self.rw_any(x, fn, st) for x in v)
        if isinstance(v, list):
            return [self.rw_any(x, fn, st) for x in v]
        if isinstance(v, dict):
            return {a: self.rw_any(b, fn, st) for a, b in v.items()}
        return v

    def inst(self, v, m, st, memo=None, rw=None):
        """copy of a value graph with variables substituted (and atoms rewritten)"""
        if memo is None:
            memo = {}

        def sp(p):
            p = subst(p, m) if m else p
            if rw is not None:
                p = rewrite(p, rw)
            return p
        if isinstance(v, AV):
            if not v.shape:
                return AV((), (), sp(v.body), v.dt)
            nv = [fresh(sp(d)) for d in v.shape]
            b = subst(v.body, {a: P(c) for a, c in zip(v.vars, nv)})
            return AV([x.args[1] for x in nv], nv, sp(b), v.dt)
        if isinstance(v, Ref):
            c = st.get(v.cid)
            if self.unaffected(c, m, rw, st) and not any(_dep(p, m, rw) for p in v.idx) and \
                    not any(_dep(p, m, rw) for p in v.shape):
                return v
            if v.cid not in memo:
                if v.cid < memo.get('wm', -1) or v.cid in self.fixed:
                    memo[v.cid] = v.cid
                    self.fixed.add(v.cid)
                else:
                    memo[v.cid] = alloc(self.inst(c, m, st, memo, rw))
                    if 'wm' in memo or v.cid in self.repl:
                        self.repl[memo[v.cid]] = True
                if v.cid in self.inputcells:
                    self.inputcells[memo[v.cid]] = self.inputcells[v.cid]
            shape = [sp(d) for d in v.shape]
            nv = [fresh(d) for d in shape]
            ren = {a: P(b) for a, b in zip(v.vars, nv)}
            return Ref(memo[v.cid], shape, nv, [sp(subst(p, ren)) for p in v.idx])
        if isinstance(v, tuple):
            return tuple(self.inst(x, m, st, memo, rw) for x in v)
        if isinstance(v, ORef):
            c = st.get(v.cid)
            if isinstance(c, (SymObjC, SeqC, Mod)):
                return v
            if v.cid not in memo:
                if self.unaffected(c, m, rw, st):
                    return v
                memo[v.cid] = cid = alloc(None)
                BIRTH[cid] = self.instc(c, m, st, memo, rw)
            return ORef(memo[v.cid])
        if isinstance(v, Gated):
            c = sp(v.c)
            a, b = self.inst(v.a, m, st, memo, rw), self.inst(v.b, m, st, memo, rw)
            if c is ONEP:
                return a
            if not c.terms:
                return b
            return Gated(c, a, b)
        if isinstance(v, SeqV):
            c = st.get(v.cid)
            cid = v.cid
            if not isinstance(c, (SeqC,)):
                cid = self.inst(ORef(v.cid), m, st, memo, rw).cid
            return SeqV(cid, sp(v.off), sp(v.n), v.sg)
        if isinstance(v, RangeV):
            return RangeV(sp(v.lo), sp(v.n), sp(v.step))
        if isinstance(v, Bound):
            return Bound(v.fn, self.inst(v.self_, m, st, memo, rw))
        return v

    def unaffected(self, c, m, rw, st, seen=None):
        if seen is None:
            seen = set()
        return not self._affected(c, m, rw, st, seen)

    def _affected(self, c, m, rw, st, seen):
        if id(c) in seen:
            return False
        seen.add(id(c))
        if isinstance(c, AV):
            return _dep(c.body, m, rw) or any(_dep(d, m, rw) for d in c.shape)
        if isinstance(c, ObjC) or isinstance(c, SymObjC):
            return any(self._affected(x, m, rw, st, seen) for x in c.attrs.values())
        if isinstance(c, FrameC):
            return any(self._affected(x, m, rw, st, seen) for x in c.vars.values())
        if isinstance(c, ListC):
            return any(self._affected(x, m, rw, st, seen) for x in c.items)
        if isinstance(c, SymListC):
            return any(self._affected(x, m, rw, st, seen) for s in c.segs for x in s[1:])
        if isinstance(c, DictC):
            return any(self._affected(x, m, rw, st, seen) for x in c.items.values())
        if isinstance(c, OAC):
            return _dep(c.n, m, rw) or any(self._affected(x, m, rw, st, seen) for w in c.writes for x in w[1:])
        if isinstance(c, OACar):
            return True
        if isinstance(c, tuple):
            return any(self._affected(x, m, rw, st, seen) for x in c)
        if isinstance(c, Poly):
            return _dep(c, m, rw)
        if isinstance(c, Ref):
            return any(_dep(p, m, rw) for p in c.idx + c.shape) or self._affected(st.get(c.cid), m, rw, st, seen)
        if isinstance(c, ORef):
            return self._affected(st.get(c.cid), m, rw, st, seen)
        if isinstance(c, SeqV):
            return _dep(c.off, m, rw) or _dep(c.n, m, rw) or self._affected(st.get(c.cid), m, rw, st, seen)
        if isinstance(c, Gated):
            return _dep(c.c, m, rw) or self._affected(c.a, m, rw, st, seen) or self._affected(c.b, m, rw, st, seen)
        return False

    def instc(self, c, m, st, memo, rw):
        def sp(p):
            p = subst(p, m) if m else p
            if rw is not None:
                p = rewrite(p, rw)
            return p
        if isinstance(c, AV):
            return self.inst(c, m, st, memo, rw)
        if isinstance(c, ObjC):
            return ObjC(c.cls, {a: self.inst(b, m, st, memo, rw) for a, b in c.attrs.items()})
        if isinstance(c, ListC):
            return ListC([self.inst(x, m, st, memo, rw) for x in c.items], c.kind)
        if isinstance(c, DictC):
            return DictC({a: self.inst(b, m, st, memo, rw) for a, b in c.items.items()}, c.base)
        if isinstance(c, SymListC):
            out = []
            for s in c.segs:
                if s[0] == 'one':
                    out.append(('one', self.inst(s[1], m, st, memo, rw)))
                elif s[0] == 'rep':
                    out.append(('rep', sp(s[1]), s[2], self.inst(s[3], m, st, memo, rw)))
                else:
                    out.append(s)
            return SymListC(out, c.kind)
        if isinstance(c, OAC):
            def w(x):
                if x[0] == 'pt':
                    return ('pt', sp(x[1]), self.inst(x[2], m, st, memo, rw))
                if x[0] == 'rg':
                    return ('rg', x[1], sp(x[2]), sp(x[3]), self.inst(x[4], m, st, memo, rw))
                return ('gate', sp(x[1]), w(x[2]))
            return OAC(sp(c.n), [w(x) for x in c.writes], c.base)
        return c

    # -------------------------------------------------------- assignments
    def assign(self, t, v, st, ctx):
        if isinstance(t, ast.Name):
            self.setvar(st, ctx, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), st, t)
            for e, x in zip(t.elts, vals):
                self.assign(e, x, st, ctx)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, st, ctx), t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, ctx)
            self.setitem(o, self.eval_index(t.slice, st, ctx), v, st, t)
        else:
            raise Give('assign target')

    def unpack(self, v, n, st, node):
        if isinstance(v, tuple):
            if len(v) != n:
                self.ev('binderr', st, node, msg='unpack %d values into %d' % (len(v), n))
                raise RaiseOut(ExcV('ValueError'), self.where(node))
            return v
        if isinstance(v, Gated):
            a, b = self.unpack(v.a, n, st, node), self.unpack(v.b, n, st, node)
            return [self.mergev(v.c, x, y, st) for x, y in zip(a, b)]
        if isinstance(v, TopV):
            return [TopV('unpack of ' + v.why)] * n
        it = self.iterate(v, st, node)
        if isinstance(it, list):
            if len(it) != n:
                self.ev('binderr', st, node, msg='unpack %d values into %d' % (len(it), n))
                raise RaiseOut(ExcV('ValueError'), self.where(node))
            return it
        return [it.fn(st, const(i)) for i in range(n)]

    # -------------------------------------------------------- expressions
    def eval(self, e, st, ctx):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Give('expression ' + type(e).__name__)
        if hasattr(e, 'lineno'):
            self.site = e
        return m(e, st, ctx)

    def e_Constant(self, e, st, ctx):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, int):
            return sc(const(v), 'i')
        if isinstance(v, float):
            return sc(const(Fr(repr(v)) if v == v and abs(v) != float('inf') else 0), 'f')
        if v is Ellipsis:
            return Builtin('builtins.Ellipsis')
        return TopV('constant')

    def e_JoinedStr(self, e, st, ctx):
        return TopV('string')

    def e_Name(self, e, st, ctx):
        if e.id in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[e.id]
        # class scope sees module scope only
        return self.lookup(st, ctx, e.id, e)

    def e_Tuple(self, e, st, ctx):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.eval(x.value, st, ctx), st, e)
                if not isinstance(it, list):
                    raise Give('star in tuple')
                out.extend(it)
            else:
                out.append(self.eval(x, st, ctx))
        return tuple(out)

    def e_List(self, e, st, ctx):
        return ORef(alloc(ListC(self.e_Tuple(e, st, ctx))))

    def e_Dict(self, e, st, ctx):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Give('dict unpack')
            kk = self.eval(k, st, ctx)
            if isinstance(kk, AV) and is_const(kk.body):
                kk = cval(kk.body)
            if not isinstance(kk, (str, int, Fraction)):
                raise Give('dict key')
            d[kk] = self.eval(v, st, ctx)
        return ORef(alloc(DictC(d)))

    def e_Set(self, e, st, ctx):
        return self.e_Tuple(e, st, ctx)

    def e_Lambda(self, e, st, ctx):
        fn = Fn(e, ctx.mod, ctx.frame if not ctx.toplevel else None, ctx.cls, '<lambda>')
        fn.defaults = self.eval_defaults(e.args, st, ctx)
        return fn

    def e_IfExp(self, e, st, ctx):
        c = self.cond(self.eval(e.test, st, ctx), st)
        if c is True:
            return self.eval(e.body, st, ctx)
        if c is False:
            return self.eval(e.orelse, st, ctx)
        res = []

        def arm(x):
            def run(s2):
                return ('r', s2, self.eval(x, s2, ctx))
            return run
        t = self.branch(c, st, arm(e.body), arm(e.orelse))
        if t[0] == 'r':
            st.become(t[1])
            return t[2]
        raise Give('ifexp')

    def e_BoolOp(self, e, st, ctx):
        isand = isinstance(e.op, ast.And)
        acc = None
        vals = []
        for x in e.values:
            v = self.eval(x, st, ctx)
            c = self.cond(v, st)
            if c is True:
                if not isand:
                    if acc is None:
                        return v
                    return True
                vals.append(v)
                continue
            if c is False:
                if isand:
                    return False if acc is not None else v
                vals.append(v)
                continue
            if acc is None:
                acc = c
            elif isand:
                acc = acc * c
            else:
                acc = acc + c - acc * c
            vals.append(v)
        if acc is None:
            return vals[-1]
        return self.from_cond(acc)

    def from_cond(self, c):
        if isinstance(c, bool):
            return c
        if is_const(c):
            return cval(c) != 0
        return sc(c, 'b')

    def e_UnaryOp(self, e, st, ctx):
        v = self.eval(e.operand, st, ctx)
        if isinstance(e.op, ast.Not):
            c = self.cond(v, st)
            if isinstance(c, bool):
                return not c
            return self.from_cond(ONEP - c)
        if isinstance(v, TopV):
            return v
        av = self.av(v, st)
        if isinstance(e.op, ast.USub):
            return self.ret(mkav(av.shape, lambda *i: -av.at(i), av.dt if av.dt != 'b' else 'i'))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if av.dt == 'b':
                return self.ret(mkav(av.shape, lambda *i: ONEP - av.at(i), 'b'))
            return self.ret(mkav(av.shape, lambda *i: const(-1) - av.at(i), 'i'))
        raise Give('unary')

    def ret(self, av):
        """value of an array expression: scalars stay values, arrays get a cell"""
        if not av.shape:
            return av
        return newarr(av)

    def e_BinOp(self, e, st, ctx):
        a = self.eval(e.left, st, ctx)
        b = self.eval(e.right, st, ctx)
        return self.binop(e.op, a, b, st, e)

    def e_Compare(self, e, st, ctx):
        left = self.eval(e.left, st, ctx)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st, ctx)
            v = self.compare(op, left, right, st, e)
            if len(e.ops) == 1:
                return v
            c = self.cond(v, st)
            if c is False:
                return False
            if c is not True:
                acc = c if acc is None else acc * c
            left = right
        return True if acc is None else self.from_cond(acc)

    def is_none(self, v, st):
        """True/False/Poly"""
        if v is None:
            return True
        if isinstance(v, Gated):
            a, b = self.is_none(v.a, st), self.is_none(v.b, st)
            if isinstance(a, bool) and isinstance(b, bool) and a == b:
                return a
            pa = P(1 if a is True else 0) if isinstance(a, bool) else a
            pb = P(1 if b is True else 0) if isinstance(b, bool) else b
            return v.c * pa + (ONEP - v.c) * pb
        if isinstance(v, (TopV, CarUnk)):
            return T.top('is None of ' + getattr(v, 'why', '?'))
        return False

    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                c = self.is_none(b if a is None else a, st)
            elif isinstance(a, bool) and isinstance(b, bool):
                c = a == b
            elif isinstance(a, ORef) and isinstance(b, ORef):
                c = a.cid == b.cid
            elif isinstance(a, AV) and isinstance(b, AV):
                c = a.body is b.body or T.top('is')
            else:
                c = a is b
            if isinstance(op, ast.IsNot):
                c = (not c) if isinstance(c, bool) else ONEP - c
            return self.from_cond(c)
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(a, b, st, node)
            if isinstance(op, ast.NotIn):
                c = (not c) if isinstance(c, bool) else ONEP - c
            return self.from_cond(c)
        if isinstance(a, Gated) and not self.is_array(a, st) or isinstance(b, Gated) and not self.is_array(b, st):
            if isinstance(a, Gated):
                x, y = self.compare(op, a.a, b, st, node), self.compare(op, a.b, b, st, node)
                return self.mergev(a.c, x, y, st)
            x, y = self.compare(op, a, b.a, st, node), self.compare(op, a, b.b, st, node)
            return self.mergev(b.c, x, y, st)
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            if isinstance(a, TopV) or isinstance(b, TopV):
                return sc(T.top('compare'), 'b')
            eq = isinstance(a, str) and isinstance(b, str) and a == b or a is None and b is None
            if isinstance(op, ast.Eq):
                return eq
            if isinstance(op, ast.NotEq):
                return not eq
            self.ev('typeerror', st, node, msg='ordering comparison with %r' % ((a if not isinstance(a, AV) else b),))
            raise RaiseOut(ExcV('TypeError'), self.where(node))
        if isinstance(a, TopV) or isinstance(b, TopV):
            return sc(T.top('compare ' + (a.why if isinstance(a, TopV) else b.why)), 'b')
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, (ast.Eq, ast.NotEq)):
            r = len(a) == len(b)
            acc = ONEP
            if r:
                for x, y in zip(a, b):
                    c = self.cond(self.compare(ast.Eq(), x, y, st, node), st)
                    acc = acc * P(int(c) if isinstance(c, bool) else c)
            else:
                acc = ZERO
            return self.from_cond(acc if isinstance(op, ast.Eq) else ONEP - acc)
        if isinstance(a, bool) and isinstance(b, bool):
            if isinstance(op, ast.Eq):
                return a == b
            if isinstance(op, ast.NotEq):
                return a != b
        x, y = self.av(a, st), self.av(b, st)

        def f(p, q):
            if isinstance(op, ast.Lt):
                return cond_gt(q, p)
            if isinstance(op, ast.LtE):
                return cond_ge(q, p)
            if isinstance(op, ast.Gt):
                return cond_gt(p, q)
            if isinstance(op, ast.GtE):
                return cond_ge(p, q)
            if isinstance(op, ast.Eq):
                return mk_eq(p - q)
            if isinstance(op, ast.NotEq):
                return ONEP - mk_eq(p - q)
            raise Give('cmp')
        r = self.elementwise(f, [x, y], st, node, 'b')
        if not r.shape:
            return self.from_cond(r.body)
        return newarr(r)

    def contains(self, a, b, st, node):
        if isinstance(b, ORef):
            c = st.get(b.cid)
            if isinstance(c, DictC):
                if isinstance(a, str):
                    if a in c.items:
                        v = c.items[a]
                        if isinstance(v, Gated) and UNBOUND in (v.a, v.b):
                            return v.c if v.b is UNBOUND else ONEP - v.c
                        return v is not UNBOUND
                    return False if c.base is None else T.top('in dict')
            if isinstance(c, ListC):
                b = c.items
        if isinstance(b, tuple):
            acc = ZERO
            for x in b:
                q = self.cond(self.compare(ast.Eq(), a, x, st, node), st)
                if q is True:
                    return True
                if q is False:
                    continue
                acc = acc + q - acc * q
            return False if not acc.terms else acc
        return T.top('in')

    def cond(self, v, st):
        """truth value: True / False / indicator Poly"""
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, Gated):
            a, b = self.cond(v.a, st), self.cond(v.b, st)
            pa = P(int(a)) if isinstance(a, bool) else a
            pb = P(int(b)) if isinstance(b, bool) else b
            r = v.c * pa + (ONEP - v.c) * pb
            return cval(r) != 0 if is_const(r) else r
        if isinstance(v, TopV):
            return T.top('cond ' + v.why)
        if isinstance(v, AV) and not v.shape:
            if is_const(v.body):
                return cval(v.body) != 0
            if v.dt == 'b':
                return v.body
            r = ONEP - mk_eq(v.body)
            return cval(r) != 0 if is_const(r) else r
        if isinstance(v, ORef):
            c = st.get(v.cid)
            if isinstance(c, ListC):
                return bool(c.items)
            if isinstance(c, DictC):
                return bool(c.items)
            if isinstance(c, (ObjC, SymObjC)):
                return True
            n = self.length(v, st)
            r = ONEP - mk_eq(n)
            return cval(r) != 0 if is_const(r) else r
        if isinstance(v, (Ref,)):
            av = self.av(v, st)
            if all(d is ONEP for d in av.shape):
                return self.cond(AV((), (), av.at([ZERO] * len(av.shape)), av.dt), st)
            return T.top('truth of array')
        if isinstance(v, SeqV):
            r = ONEP - mk_eq(v.n)
            return cval(r) != 0 if is_const(r) else r
        return True

    def e_ListComp(self, e, st, ctx):
        if len(e.generators) != 1:
            raise Give('nested comprehension')
        g = e.generators[0]
        it = self.iterate(self.eval(g.iter, st, ctx), st, e)
        fr = alloc(FrameC({}, ctx.frame))
        c2 = ctx.sub(fr)
        if isinstance(it, list):
            out = []
            for x in it:
                self.assign(g.target, x, st, c2)
                ok = True
                for f in g.ifs:
                    c = self.cond(self.eval(f, st, c2), st)
                    if c is False:
                        ok = False
                    elif c is not True:
                        raise Give('comprehension filter')
                if ok:
                    out.append(self.eval(e.elt, st, c2))
            return ORef(alloc(ListC(out)))
        if g.ifs:
            raise Give('comprehension filter')
        lst = alloc(ListC([]))
        n = it.n
        lid = next(self.loopno)

        def run(st2):
            v = self.eval(e.elt, st2, c2)
            self.append(ORef(lst), v, st2)
            return ('n', st2)
        t = self.summarise(lid, n, e, st, lambda st2, k: self.assign(g.target, it.fn(st2, k), st2, c2), run)
        return ORef(lst)

    e_GeneratorExp = e_ListComp

    def append(self, ref, v, st):
        c = st.get(ref.cid)
        if isinstance(c, ListC):
            st.set(ref.cid, ListC(c.items + (v,), c.kind))
        elif isinstance(c, SymListC):
            st.set(ref.cid, SymListC(c.segs + (('one', v),), c.kind))
        else:
            raise Give('append')

    def e_Attribute(self, e, st, ctx):
        o = self.eval(e.value, st, ctx)
        return self.getattr(o, e.attr, st, e)

    def e_Subscript(self, e, st, ctx):
        o = self.eval(e.value, st, ctx)
        idx = self.eval_index(e.slice, st, ctx)
        return self.getitem(o, idx, st, e)

    def e_Starred(self, e, st, ctx):
        raise Give('starred')

    def e_NamedExpr(self, e, st, ctx):
        v = self.eval(e.value, st, ctx)
        self.assign(e.target, v, st, ctx)
        return v

    def eval_index(self, s, st, ctx):
        """-> tuple of index items"""
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_idx1(x, st, ctx) for x in s.elts)
        v = self.eval_idx1(s, st, ctx)
        if isinstance(v, tuple):
            return v
        return (v,)

    def eval_idx1(self, x, st, ctx):
        if isinstance(x, ast.Slice):
            def ev(q):
                return self.eval(q, st, ctx) if q is not None else None
            return SliceV(ev(x.lower), ev(x.upper), ev(x.step))
        return self.eval(x, st, ctx)

    # -------------------------------------------------------- attributes
    def getattr(self, o, name, st, node=None, default=None):
        from . import npmodel
        if isinstance(o, Gated):
            a = self.getattr(o.a, name, st, node)
            b = self.getattr(o.b, name, st, node)
            return self.mergev(o.c, a, b, st)
        if isinstance(o, TopV):
            return TopV('attribute %s of %s' % (name, o.why))
        if isinstance(o, Mod):
            if o.frame is None:
                return self.import_(o.name + '.' + name)
            fc = self.modframe(st, o)
            if name in fc.vars:
                return fc.vars[name]
            if self.find(o.name + '.' + name):
                return self.import_(o.name + '.' + name)
            self.ev('attrerror', st, node, obj='module ' + o.name, name=name)
            raise RaiseOut(ExcV('AttributeError', (name,)), self.where(node))
        if isinstance(o, Builtin):
            full = canon_lib(o.name + '.' + name)
            if not npmodel.exists(full):
                self.ev('attrerror', st, node, obj=o.name, name=name)
                raise RaiseOut(ExcV('AttributeError', (full,)), self.where(node))
            if full == 'numpy.newaxis':
                return None
            c = npmodel.constant(full)
            if c is not None:
                return c
            return Builtin(full)
        if isinstance(o, ORef):
            c = st.get(o.cid)
            if isinstance(c, ObjC):
                if name in c.attrs:
                    v = c.attrs[name]
                    if v is UNBOUND:
                        self.ev('attrerror', st, node, obj=c.cls.name, name=name)
                        return TopV('unset attribute ' + name)
                    if isinstance(v, CarUnk):
                        return self.topv('carried attribute ' + name, st, node)
                    return v
                for k in c.cls.mro:
                    if name in k.attrs:
                        v = k.attrs[name]
                        if isinstance(v, Fn):
                            if 'staticmethod' in v.decos:
                                return v
                            if 'property' in v.decos:
                                return self.call(Bound(v, o), [], {}, st, node)
                            return Bound(v, o)
                        if isinstance(v, Hook):
                            return Bound(v, o)
                        return v
                if name == '__class__':
                    return c.cls
                for k in c.cls.mro:
                    if '__getattr__' in k.attrs:
                        return self.call(Bound(k.attrs['__getattr__'], o), [name], {}, st, node)
                self.ev('attrerror', st, node, obj=c.cls.name, name=name)
                raise RaiseOut(ExcV('AttributeError', (name,)), self.where(node))
            if isinstance(c, SymObjC):
                if name in c.attrs:
                    return c.attrs[name]
                h = c.hooks.get(name)
                if h is None:
                    self.ev('attrerror', st, node, obj=c.name, name=name)
                    raise RaiseOut(ExcV('AttributeError', (name,)), self.where(node))
                if isinstance(h, Hook):
                    return Bound(h, o)
                return h
            if isinstance(c, (ListC, SymListC, DictC, SeqC, OAC, OACar)):
                return npmodel.seq_attr(self, o, c, name, st, node)
            return TopV('attribute of %s' % type(c).__name__)
        if isinstance(o, Cls):
            for k in o.mro:
                if name in k.attrs:
                    return k.attrs[name]
            if name == '__name__':
                return o.name
            if name == '__init__':
                return Builtin('builtins.object.__init__')
            self.ev('attrerror', st, node, obj='class ' + o.name, name=name)
            raise RaiseOut(ExcV('AttributeError', (name,)), self.where(node))
        if isinstance(o, Super):
            c = st.get(o.obj.cid)
            mro = c.cls.mro
            i = mro.index(o.cls) if o.cls in mro else -1
            for k in mro[i + 1:]:
                if name in k.attrs:
                    v = k.attrs[name]
                    return Bound(v, o.obj) if isinstance(v, (Fn, Hook)) else v
            if name == '__init__':
                return Builtin('builtins.object.__init__')
            self.ev('attrerror', st, node, obj='super of ' + o.cls.name, name=name)
            raise RaiseOut(ExcV('AttributeError', (name,)), self.where(node))
        if isinstance(o, (Ref, AV)):
            return npmodel.arr_attr(self, o, name, st, node)
        if isinstance(o, SeqV):
            return npmodel.seq_attr(self, o, st.get(o.cid), name, st, node)
        if isinstance(o, (str, tuple)):
            return BMethod(o, name)
        if isinstance(o, Fn) and name in ('__name__', '__doc__'):
            return o.name
        if o is None:
            self.ev('typeerror', st, node, msg="attribute %r of None" % name)
            raise RaiseOut(ExcV('AttributeError', ('None.' + name,)), self.where(node))
        return TopV('attribute %s of %r' % (name, o))

    def hasattr(self, o, name, st):
        if isinstance(o, ORef):
            c = st.get(o.cid)
            if isinstance(c, ObjC):
                if name in c.attrs or any(name in k.attrs for k in c.cls.mro):
                    return True
                if any('__getattr__' in k.attrs for k in c.cls.mro):
                    try:
                        self.mute += 1
                        self.getattr(o, name, st.fork())
                        return True
                    except RaiseOut:
                        return False
                    finally:
                        self.mute -= 1
                return False
            if isinstance(c, SymObjC):
                return name in c.hooks or name in c.attrs
        if isinstance(o, Cls):
            return any(name in k.attrs for k in o.mro)
        if isinstance(o, Mod):
            return name in self.modframe(self.st0, o).vars
        return T.top('hasattr')

    def setattr(self, o, name, v, st, node=None):
        if isinstance(o, Gated):
            self.gated_do(o, st, lambda x, s2: self.setattr(x, name, v, s2, node))
            return
        if isinstance(o, ORef):
            c = st.get(o.cid)
            if o.cid in self.inputcells:
                self.ev('write-input', st, node, name=self.inputcells[o.cid] + '.' + name)
            if isinstance(c, ObjC):
                d = dict(c.attrs)
                d[name] = v
                st.set(o.cid, ObjC(c.cls, d))
                return
            if isinstance(c, SymObjC):
                d = dict(c.attrs)
                d[name] = v
                self.ev('setattr', st, node, obj=c.name, name=name)
                st.set(o.cid, SymObjC(c.name, c.hooks, d))
                return
        if isinstance(o, TopV):
            return
        if isinstance(o, (Ref, AV)) and name == 'shape':
            raise Give('shape assignment')
        if isinstance(o, Cls):
            o.attrs[name] = v
            return
        if isinstance(o, Mod):
            return
        raise Give('setattr on %r' % (o,))

    def gated_do(self, g, st, f):
        t = self.branch(g.c, st, lambda s2: (f(g.a, s2), ('n', s2))[1], lambda s2: (f(g.b, s2), ('n', s2))[1])
        if t[0] == 'n' and t[1] is not st:
            st.become(t[1])

    # ------------------------------------------------------------- arrays
    def is_array(self, v, st):
        if isinstance(v, Ref):
            return True
        if isinstance(v, AV):
            return True
        if isinstance(v, Gated):
            return self.is_array(v.a, st) and self.is_array(v.b, st)
        return False

    def av(self, v, st, node=None):
        """numeric value of v"""
        if isinstance(v, AV):
            return v
        if isinstance(v, bool):
            return sc(1 if v else 0, 'b')
        if isinstance(v, Ref):
            c = st.get(v.cid)
            if not isinstance(c, AV):
                return mkav(v.shape, lambda *i: T.top('content'))
            return AV(v.shape, v.vars, c.at(v.idx), c.dt)
        if isinstance(v, Gated):
            a, b = self.av(v.a, st), self.av(v.b, st)
            return self.merge_av(v.c, a, b)
        if isinstance(v, RangeV):
            return mkav((v.n,), lambda i: v.lo + i * v.step, 'i')
        if isinstance(v, tuple):
            return self.stack(list(v), st)
        if isinstance(v, ORef):
            c = st.get(v.cid)
            if isinstance(c, ListC):
                return self.stack(list(c.items), st)
            if isinstance(c, SymListC):
                return self.stack_segs(c.segs, st)
            if isinstance(c, (SeqC, OAC, OACar)):
                k = fresh(c.n if not isinstance(c, OACar) else c.init.n)
                e = self.getitem(v, (sc(P(k), 'i'),), st)
                if self.is_array(e, st):
                    x = self.av(e, st)
                    return AV((k.args[1],) + x.shape, (k,) + x.vars, x.body, x.dt)
        if isinstance(v, SeqV):
            k = fresh(v.n)
            e = self.getitem(v, (sc(P(k), 'i'),), st)
            if self.is_array(e, st):
                x = self.av(e, st)
                return AV((v.n,) + x.shape, (k,) + x.vars, x.body, x.dt)
        if isinstance(v, TopV):
            return AV((), (), T.top(v.why), 'f')
        if v is None or isinstance(v, str):
            self.ev('typeerror', st, node, msg='numeric use of %r' % (v,))
            raise RaiseOut(ExcV('TypeError', ('numeric use of %r' % (v,),)), self.where(node))
        if isinstance(v, Unbound):
            return AV((), (), T.top('unbound'), 'f')
        raise Give('numeric value of %r' % (v,))

    def numeric(self, v, st):
        try:
            self.mute += 1
            self.av(v, st)
            return True
        except (Give, RaiseOut):
            return False
        finally:
            self.mute -= 1

    def stack(self, items, st):
        if not items:
            return AV((ZERO,), (fresh(ZERO),), ZERO, 'f')
        avs = [self.av(x, st) for x in items]
        sh = avs[0].shape
        for a in avs:
            if len(a.shape) != len(sh) or any(x is not y for x, y in zip(a.shape, sh)):
                return mkav((const(len(avs)),) + sh, lambda *i: T.top('ragged'))
        n = len(avs)
        if n == 1:
            return mkav((ONEP,) + tuple(sh), lambda *i: avs[0].at(i[1:]), avs[0].dt)

        def f(k, *i):
            r = ZERO
            for j, a in enumerate(avs):
                r = r + mk_eq(k - const(j)) * a.at(i)
            return r
        dt = 'i' if all(a.dt == 'i' for a in avs) else ('b' if all(a.dt == 'b' for a in avs) else 'f')
        return mkav((const(n),) + tuple(sh), f, dt)

    def stack_segs(self, segs, st):
        if len(segs) == 1 and segs[0][0] == 'rep':
            _, n, v, val = segs[0]
            a = self.av(val, st)
            return mkav((n,) + tuple(a.shape), lambda k, *i: subst(a.at(i), {v: k}), a.dt)
        # general: concatenate
        parts = []
        for s in segs:
            if s[0] == 'one':
                a = self.av(s[1], st)
                parts.append((ONEP, lambda k, i, a=a: a.at(i), a))
            elif s[0] == 'rep':
                a = self.av(s[3], st)
                parts.append((s[1], lambda k, i, a=a, v=s[2]: subst(a.at(i), {v: k}), a))
            else:
                raise Give('carried list as array')
        sh = parts[0][2].shape
        total = psum([p[0] for p in parts])

        def f(k, *i):
            r = ZERO
            off = ZERO
            for n, g, a in parts:
                m = mk_ge(k - off) * (ONEP - mk_ge(k - off - n))
                r = r + m * g(k - off, i)
                off = off + n
            return r
        return mkav((total,) + tuple(sh), f, parts[0][2].dt)

    def bshape(self, shapes, st, node):
        nd = max(len(s) for s in shapes)
        out = []
        for ax in range(nd):
            d = ONEP
            for s in shapes:
                j = ax - (nd - len(s))
                if j < 0 or s[j] is ONEP:
                    continue
                if d is ONEP:
                    d = s[j]
                elif d is not s[j]:
                    if has_top(d) or has_top(s[j]):
                        continue
                    self.ev('shape', st, node, msg='operands could not be broadcast: %s vs %s' % (show(d), show(s[j])),
                            dims=(d, s[j]))
                    raise RaiseOut(ExcV('ValueError', ('broadcast',)), self.where(node))
            out.append(d)
        return out

    def elementwise(self, f, avs, st, node=None, dt=None):
        sh = self.bshape([a.shape for a in avs], st, node)

        def at(a, idx):
            k = len(idx) - len(a.shape)
            return a.at([ZERO if a.shape[j] is ONEP else idx[k + j] for j in range(len(a.shape))])
        if dt is None:
            dts = [a.dt for a in avs]
            dt = 'f' if 'f' in dts else ('i')
        return mkav(sh, lambda *i: f(*[at(a, i) for a in avs]), dt)

    def binop(self, op, a, b, st, node=None):
        if isinstance(a, TopV) or isinstance(b, TopV):
            return TopV('arith on ' + (a.why if isinstance(a, TopV) else b.why))
        if isinstance(op, ast.Mod) and isinstance(a, str):
            if isinstance(b, TopV):
                return TopV('string')
            nspec = len(re.findall(r'%[^%]', a.replace('%%', '')))
            nargs = len(b) if isinstance(b, tuple) else 1
            if nspec != nargs:
                self.ev('typeerror', st, node, msg='format arguments')
                raise RaiseOut(ExcV('TypeError', ('format arguments',)), self.where(node))
            for x in (b if isinstance(b, tuple) else (b,)):
                if '%d' in a and x is None:
                    self.ev('typeerror', st, node, msg='%d format: a number is required')
                    raise RaiseOut(ExcV('TypeError', ('format',)), self.where(node))
            return '<formatted>'
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(op, ast.Add) and isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(op, ast.Mult):
                return TopV('string')
            self.ev('typeerror', st, node, msg='str arithmetic')
            raise RaiseOut(ExcV('TypeError', ('can only concatenate str',)), self.where(node))
        # sequence repetition / concatenation
        for x, y in ((a, b), (b, a)):
            seq = None
            if isinstance(x, tuple):
                seq, kind = x, 'tuple'
            elif isinstance(x, ORef) and isinstance(st.get(x.cid), ListC):
                seq, kind = st.get(x.cid).items, 'list'
            if seq is not None and isinstance(op, ast.Mult) and isinstance(y, AV) and not y.shape:
                if is_const(y.body):
                    items = list(seq) * int(cval(y.body))
                    return tuple(items) if kind == 'tuple' else ORef(alloc(ListC(items)))
                if len(seq) == 1:
                    v = fresh(y.body)
                    return ORef(alloc(SymListC([('rep', y.body, v, seq[0])], kind)))
                raise Give('sequence repetition')
        if isinstance(op, ast.Add):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            sa, sb = self.list_content(a, st), self.list_content(b, st)
            if sa is not None and sb is not None:
                if isinstance(sa, ListC) and isinstance(sb, ListC):
                    return ORef(alloc(ListC(sa.items + sb.items)))
                return ORef(alloc(SymListC(self.segs(sa) + self.segs(sb))))
        if isinstance(a, Gated) and not self.is_array(a, st):
            return self.mergev(a.c, self.binop(op, a.a, b, st, node), self.binop(op, a.b, b, st, node), st)
        if isinstance(b, Gated) and not self.is_array(b, st):
            return self.mergev(b.c, self.binop(op, a, b.a, st, node), self.binop(op, a, b.b, st, node), st)
        x, y = self.av(a, st, node), self.av(b, st, node)
        if isinstance(op, ast.MatMult):
            from . import npmodel
            return npmodel.matmul(self, x, y, st, node)
        dt = None
        if isinstance(op, ast.Add):
            f = lambda p, q: p + q
        elif isinstance(op, ast.Sub):
            f = lambda p, q: p - q
        elif isinstance(op, ast.Mult):
            f = lambda p, q: p * q
        elif isinstance(op, ast.Div):
            f = lambda p, q: p * recip(q)
            dt = 'f'
        elif isinstance(op, ast.FloorDiv):
            f = lambda p, q: mk_div(p, q)
        elif isinstance(op, ast.Mod):
            f = lambda p, q: mk_mod(p, q)
        elif isinstance(op, ast.Pow):
            f = fpow
        elif isinstance(op, ast.BitAnd):
            f = lambda p, q: p * q
            dt = 'b'
        elif isinstance(op, ast.BitOr):
            f = lambda p, q: p + q - p * q
            dt = 'b'
        else:
            raise Give('operator')
        if isinstance(op, (ast.BitAnd, ast.BitOr)) and (x.dt != 'b' or y.dt != 'b'):
            raise Give('bit operator')
        return self.ret(self.elementwise(f, [x, y], st, node, dt))

    def list_content(self, v, st):
        if isinstance(v, ORef) and isinstance(st.get(v.cid), (ListC, SymListC)):
            return st.get(v.cid)
        return None

    def length(self, v, st, node=None):
        if isinstance(v, tuple):
            return const(len(v))
        if isinstance(v, str):
            return const(len(v))
        if isinstance(v, (Ref, AV)):
            if not v.shape:
                self.ev('typeerror', st, node, msg='len() of unsized object')
                raise RaiseOut(ExcV('TypeError', ('len of unsized',)), self.where(node))
            return v.shape[0]
        if isinstance(v, SeqV):
            return v.n
        if isinstance(v, RangeV):
            return v.n
        if isinstance(v, Gated):
            a, b = self.length(v.a, st, node), self.length(v.b, st, node)
            return a if a is b else v.c * a + (ONEP - v.c) * b
        if isinstance(v, ORef):
            c = st.get(v.cid)
            if isinstance(c, ListC):
                return const(len(c.items))
            if isinstance(c, SymListC):
                return psum([ONEP if s[0] == 'one' else s[1] if s[0] == 'rep' else T.top('carried list length')
                             for s in c.segs])
            if isinstance(c, (SeqC, OAC)):
                return c.n
            if isinstance(c, OACar):
                return c.init.n
            if isinstance(c, DictC):
                return const(len(c.items))
            if isinstance(c, ObjC):
                for k in c.cls.mro:
                    if '__len__' in k.attrs:
                        r = self.call(Bound(k.attrs['__len__'], v), [], {}, st, node)
                        return self.av(r, st).body
            if isinstance(c, SymObjC) and '__len__' in c.hooks:
                return self.av(self.call(Bound(c.hooks['__len__'], v), [], {}, st, node), st).body
        if isinstance(v, TopV):
            return T.top('len of ' + v.why)
        if v is None:
            self.ev('typeerror', st, node, msg='len(None)')
            raise RaiseOut(ExcV('TypeError', ('len(None)',)), self.where(node))
        raise Give('len of %r' % (v,))

    # --------------------------------------------------------- subscripts
    def norm_index(self, p, n):
        """python index -> nonnegative index"""
        if is_const(p) and cval(p) < 0:
            return n + p
        if prove_ge0(-p - ONEP):
            return n + p
        return p

    def slice_bounds(self, s, n, st, node=None):
        """-> (lo, length, step) with step +-1 (or other const)"""
        step = 1
        if s.step is not None:
            p = self.av(s.step, st).body
            if not is_const(p):
                raise Give('slice step')
            step = int(cval(p))
        lo = self.av(s.lo, st, node).body if s.lo is not None else None
        hi = self.av(s.hi, st, node).body if s.hi is not None else None
        if step == -1 and lo is None and hi is None:
            return n - ONEP, n, -1
        if step != 1:
            if step > 1 and lo is None and hi is None:
                return ZERO, mk_div(n + const(step - 1), const(step)), step
            raise Give('slice step')
        lo = ZERO if lo is None else self.norm_index(lo, n)
        if hi is None:
            hi = n
        else:
            hi = self.norm_index(hi, n)
            if not prove_ge0(n - hi):
                if prove_ge0(hi - n):
                    hi = n
                # otherwise assume within bounds
        ln = hi - lo
        if is_const(ln) and cval(ln) < 0:
            ln = ZERO
        return lo, ln, 1

    def getitem(self, o, idx, st, node=None):
        from . import npmodel
        if isinstance(o, Gated):
            return self.mergev(o.c, self.getitem(o.a, idx, st, node), self.getitem(o.b, idx, st, node), st)
        if isinstance(o, TopV):
            return TopV('item of ' + o.why)
        if len(idx) == 1 and isinstance(idx[0], TopV):
            return TopV('index ' + idx[0].why)
        if isinstance(o, tuple):
            i = idx[0]
            if isinstance(i, SliceV):
                lo, n, s = self.slice_bounds(i, const(len(o)), st)
                if s == -1:
                    return tuple(reversed(o))
                return o[int(cval(lo)):int(cval(lo + n))]
            p = self.av(i, st).body
            if is_const(p):
                j = int(cval(p))
                if not -len(o) <= j < len(o):
                    raise RaiseOut(ExcV('IndexError'), self.where(node))
                return o[j]
            if all(x is o[0] for x in o):
                return o[0]
            return TopV('tuple index')
        if isinstance(o, str):
            return TopV('string index')
        if isinstance(o, ORef):
            c = st.get(o.cid)
            if isinstance(c, DictC):
                k = idx[0]
                if isinstance(k, AV) and is_const(k.body):
                    k = cval(k.body)
                if isinstance(k, (str, int, Fraction)):
                    if k in c.items:
                        return c.items[k]
                    if c.base is not None:
                        return c.base(self, k, st)
                    self.ev('keyerror', st, node, name=str(k))
                    raise RaiseOut(ExcV('KeyError', (k,)), self.where(node))
                return TopV('dict key')
            if isinstance(c, (ListC, SymListC)):
                return self.list_item(o, c, idx, st, node)
            if isinstance(c, (SeqC, OAC, OACar)):
                n = c.init.n if isinstance(c, OACar) else c.n
                return self.seq_item(SeqV(o.cid, ZERO, n), idx, st, node)
            if isinstance(c, ObjC):
                for k in c.cls.mro:
                    if '__getitem__' in k.attrs:
                        i = idx[0] if len(idx) == 1 else idx
                        return self.call(Bound(k.attrs['__getitem__'], o), [i], {}, st, node)
            if isinstance(c, SymObjC) and '__getitem__' in c.hooks:
                return self.call(Bound(c.hooks['__getitem__'], o), [idx[0]], {}, st, node)
            raise Give('subscript of %s' % type(c).__name__)
        if isinstance(o, SeqV):
            return self.seq_item(o, idx, st, node)
        if isinstance(o, RangeV):
            i = idx[0]
            if isinstance(i, SliceV):
                lo, n, s = self.slice_bounds(i, o.n, st)
                return RangeV(o.lo + lo * o.step, n, o.step * const(s))
            return sc(o.lo + self.norm_index(self.av(i, st).body, o.n) * o.step, 'i')
        if isinstance(o, (Ref, AV)):
            return npmodel.arr_getitem(self, o, idx, st, node)
        if o is None:
            self.ev('typeerror', st, node, msg='None is not subscriptable')
            raise RaiseOut(ExcV('TypeError', ('None[...]',)), self.where(node))
        raise Give('subscript of %r' % (o,))

    def list_item(self, o, c, idx, st, node):
        i = idx[0]
        if isinstance(i, SliceV):
            if isinstance(c, ListC):
                lo, n, s = self.slice_bounds(i, const(len(c.items)), st)
                if is_const(lo) and is_const(n):
                    if s == -1:
                        return ORef(alloc(ListC(tuple(reversed(c.items)), c.kind)))
                    a = int(cval(lo))
                    return ORef(alloc(ListC(c.items[a:a + int(cval(n))], c.kind)))
            if isinstance(c, SymListC) and len(c.segs) == 1 and c.segs[0][0] == 'rep':
                _, n, v, val = c.segs[0]
                lo, ln, s = self.slice_bounds(i, n, st)
                nv = fresh(ln)
                return ORef(alloc(SymListC([('rep', ln, nv, self.inst(val, {v: lo + const(s) * P(nv)}, st))], c.kind)))
            raise Give('list slice')
        p = self.av(i, st).body
        if isinstance(c, ListC):
            if is_const(p):
                j = int(cval(p))
                if not -len(c.items) <= j < len(c.items):
                    self.ev('indexerror', st, node, msg='list index')
                    raise RaiseOut(ExcV('IndexError'), self.where(node))
                return c.items[j]
            return TopV('list index')
        segs = c.segs
        if len(segs) == 1 and segs[0][0] == 'rep':
            _, n, v, val = segs[0]
            q = self.norm_index(p, n)
            if q is P(v):
                return val
            return self.inst(val, {v: q}, st)
        if is_const(p) and cval(p) < 0 and segs[-1][0] == 'one':
            j = int(cval(p))
            if all(s[0] == 'one' for s in segs[j:]):
                return segs[j][1]
        if segs[-1][0] == 'rep' and is_const(p) and cval(p) < 0:
            _, n, v, val = segs[-1]
            return self.inst(val, {v: n + p}, st)
        # walk segments
        off = ZERO
        for s in segs:
            if s[0] == 'car':
                return self.topv('item of list carried in a loop', st, node)
            n = ONEP if s[0] == 'one' else s[1]
            if prove_ge0(p - off) and prove_ge0(off + n - ONEP - p):
                if s[0] == 'one':
                    return s[1]
                return self.inst(s[3], {s[2]: p - off}, st)
            if not prove_ge0(p - off - n):
                break
            off = off + n
        return self.topv('list index', st, node)

    def seq_item(self, o, idx, st, node):
        c = st.get(o.cid)
        i = idx[0]
        if len(idx) > 1:
            rest = idx[1:]
            if isinstance(c, SeqC):
                # numeric data matrix y[k, :]
                e = self.seq_item(o, (i,), st, node)
                if isinstance(e, SeqV):
                    a = self.av(e, st)
                    return self.getitem(newarr(a), (SliceV(None, None, None),) + rest, st, node)
                return self.getitem(e, rest, st, node)
            raise Give('multi index of object array')
        if isinstance(i, SliceV):
            lo, ln, s = self.slice_bounds(i, o.n, st, node)
            if s == -1:
                return SeqV(o.cid, o.off + const(o.sg) * lo, ln, -o.sg)
            return SeqV(o.cid, o.off + const(o.sg) * lo, ln, o.sg)
        if isinstance(i, (Ref,)) or isinstance(i, ORef) or isinstance(i, RangeV):
            return TopV('fancy index of object array')
        if isinstance(i, TopV):
            return TopV('index ' + i.why)
        p = self.norm_index(self.av(i, st, node).body, o.n)
        q = o.off + const(o.sg) * p
        if prove_ge0(q * const(o.sg) - (o.off * const(o.sg) + o.n)):
            self.ev('indexerror', st, node, msg='index %s out of range (length %s)' % (show(p), show(o.n)))
            raise RaiseOut(ExcV('IndexError', ('sequence index',)), self.where(node))
        if isinstance(c, SeqC):
            self.ev('seqread', st, node, seq=c.name, idx=q)
            return c.fn(st, q)
        from .loops import oa_read
        return oa_read(self, o.cid, c, q, st, node)

    def setitem(self, o, idx, v, st, node=None):
        from . import npmodel
        if isinstance(o, Gated):
            self.gated_do(o, st, lambda x, s2: self.setitem(x, idx, v, s2, node))
            return
        if isinstance(o, TopV):
            return
        if isinstance(o, ORef):
            c = st.get(o.cid)
            if isinstance(c, DictC):
                k = idx[0]
                if isinstance(k, AV) and is_const(k.body):
                    k = cval(k.body)
                if not isinstance(k, (str, int, Fraction)):
                    raise Give('dict key')
                d = dict(c.items)
                d[k] = v
                if o.cid in self.inputcells:
                    self.ev('write-input', st, node, name=self.inputcells[o.cid])
                st.set(o.cid, DictC(d, c.base))
                return
            if isinstance(c, ListC):
                p = self.av(idx[0], st).body if not isinstance(idx[0], SliceV) else None
                if p is not None and is_const(p):
                    items = list(c.items)
                    items[int(cval(p))] = v
                    st.set(o.cid, ListC(items, c.kind))
                    return
                raise Give('list store')
            if isinstance(c, SymListC) and len(c.segs) == 1 and c.segs[0][0] == 'rep':
                # store into a list of arrays at symbolic index: view as object array
                _, n, vv, val = c.segs[0]
                st.set(o.cid, OAC(n, [('rg', vv, n, P(vv), val)]))
                c = st.get(o.cid)
            if isinstance(c, (OAC, OACar)):
                n = c.init.n if isinstance(c, OACar) else c.n
                return self.seq_store(SeqV(o.cid, ZERO, n), idx, v, st, node)
            if isinstance(c, SeqC):
                return self.seq_store(SeqV(o.cid, ZERO, c.n), idx, v, st, node)
            if isinstance(c, ObjC):
                for k in c.cls.mro:
                    if '__setitem__' in k.attrs:
                        self.call(Bound(k.attrs['__setitem__'], o), [idx[0], v], {}, st, node)
                        return
            raise Give('item store on %s' % type(c).__name__)
        if isinstance(o, SeqV):
            return self.seq_store(o, idx, v, st, node)
        if isinstance(o, Ref):
            return npmodel.arr_setitem(self, o, idx, v, st, node)
        raise Give('item store on %r' % (o,))

    def seq_store(self, o, idx, v, st, node):
        c = st.get(o.cid)
        i = idx[0]
        if isinstance(c, SeqC):
            self.ev('write-input', st, node, name=c.name)
            return
        if isinstance(i, SliceV):
            lo, ln, s = self.slice_bounds(i, o.n, st)
            k = fresh(ln)
            src = v
            if isinstance(src, (SeqV, ORef)):
                e = self.getitem(src, (sc(P(k), 'i'),), st, node)
                w = ('rg', k, ln, o.off + const(o.sg) * (lo + P(k)), e)
                self.oa_write(o.cid, w, st)
                return
            raise Give('object slice store')
        p = self.norm_index(self.av(i, st, node).body, o.n)
        q = o.off + const(o.sg) * p
        self.oa_write(o.cid, ('pt', q, v), st)

    def oa_write(self, cid, w, st):
        c = st.get(cid)
        if isinstance(c, OACar):
            c = OAC(c.init.n, [w], c)
        else:
            c = OAC(c.n, c.writes + (w,), c.base)
        st.set(cid, c)

    def write(self, target, v, st, node=None):
        """in-place full store into an array reference"""
        from . import npmodel
        if isinstance(target, Gated):
            self.gated_do(target, st, lambda x, s2: self.write(x, v, s2, node))
            return
        npmodel.store(self, target, self.av(v, st, node), st, node)

    # -------------------------------------------------------------- calls
    def e_Call(self, e, st, ctx):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super':
            if e.args:
                c = self.eval(e.args[0], st, ctx)
                o = self.eval(e.args[1], st, ctx)
                return Super(c, o)
            fc = st.get(ctx.frame)
            first = ctx.fn.node.args.args[0].arg
            return Super(ctx.cls, fc.vars[first])
        if isinstance(f, ast.Name) and f.id == 'locals':
            raise Give('locals')
        fv = self.eval(f, st, ctx)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.eval(a.value, st, ctx), st, e)
                if not isinstance(it, list):
                    raise Give('star args')
                args.extend(it)
            else:
                args.append(self.eval(a, st, ctx))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, st, ctx)
            if k.arg is None:
                if isinstance(v, ORef) and isinstance(st.get(v.cid), DictC):
                    for kk, vv in st.get(v.cid).items.items():
                        kw[kk] = vv
                elif isinstance(v, dict):
                    kw.update(v)
                else:
                    raise Give('** args')
            else:
                kw[k.arg] = v
        self.site = e
        return self.call(fv, args, kw, st, e)

    def call(self, f, args, kw, st, node=None):
        from . import npmodel
        if isinstance(f, Gated):
            res = []

            def arm(x):
                def run(s2):
                    return ('r', s2, self.call(x, args, kw, s2, node))
                return run
            t = self.branch(f.c, st, arm(f.a), arm(f.b))
            if t[0] == 'r':
                st.become(t[1])
                return t[2]
            raise Give('gated call')
        if isinstance(f, TopV):
            self.ev('topcall', st, node, why=f.why)
            return TopV('call of ' + f.why)
        if isinstance(f, Bound):
            if isinstance(f.fn, Hook):
                return self.call_hook(f.fn, f.self_, args, kw, st, node)
            if isinstance(f.fn, Fn):
                if 'classmethod' in f.fn.decos:
                    return self.call_fn(f.fn, [st.get(f.self_.cid).cls] + list(args), kw, st, node)
                return self.call_fn(f.fn, [f.self_] + list(args), kw, st, node)
            return self.call(f.fn, [f.self_] + list(args), kw, st, node)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, st, node)
        if isinstance(f, Hook):
            return self.call_hook(f, None, args, kw, st, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, st, node)
        if isinstance(f, Builtin):
            return npmodel.call(self, f.name, args, kw, st, node)
        if isinstance(f, BMethod):
            return npmodel.method(self, f.obj, f.name, args, kw, st, node)
        if isinstance(f, ORef):
            c = st.get(f.cid)
            if isinstance(c, ObjC):
                for k in c.cls.mro:
                    if '__call__' in k.attrs:
                        return self.call(Bound(k.attrs['__call__'], f), args, kw, st, node)
        if f is None:
            self.ev('typeerror', st, node, msg='None is not callable')
            raise RaiseOut(ExcV('TypeError', ('None()',)), self.where(node))
        raise Give('call of %r' % (f,))

    def call_hook(self, h, self_, args, kw, st, node):
        return h.fn(self, st, self_, list(args), dict(kw), node)

    def instantiate(self, c, args, kw, st, node):
        if any(k.name in ('Exception', 'BaseException') for k in c.mro):
            return ExcV(c.name)
        o = ORef(alloc(ObjC(c, {})))
        for k in c.mro:
            if '__init__' in k.attrs:
                self.call(Bound(k.attrs['__init__'], o), args, kw, st, node)
                return o
        if args or kw:
            self.ev('binderr', st, node, msg='%s() takes no arguments' % c.name)
            raise RaiseOut(ExcV('TypeError', (c.name,)), self.where(node))
        return o

    def bind(self, fn, args, kw, st, node):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(pos) and a.vararg is None:
            self.binderr(fn, 'takes %d positional arguments but %d were given' % (len(pos), len(args)), st, node)
        for nme, v in zip(pos, args):
            env[nme] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(pos):])
        kwo = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in pos or k in kwo:
                if k in env:
                    self.binderr(fn, 'got multiple values for argument %r' % k, st, node)
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.binderr(fn, 'got an unexpected keyword argument %r' % k, st, node)
        if a.kwarg is not None:
            env[a.kwarg.arg] = ORef(alloc(DictC(extra)))
        for nme in pos + kwo:
            if nme not in env:
                if fn.defaults and nme in fn.defaults:
                    env[nme] = fn.defaults[nme]
                else:
                    self.binderr(fn, 'missing required argument %r' % nme, st, node)
        return env

    def binderr(self, fn, msg, st, node):
        self.ev('binderr', st, node, msg='%s() %s' % (fn.qual(), msg))
        raise RaiseOut(ExcV('TypeError', (fn.qual() + '() ' + msg,)), self.where(node))

    def call_fn(self, fn, args, kw, st, node=None):
        if any(d.startswith('?') for d in fn.decos):
            return self.topv('decorated function ' + fn.name, st, node)
        env = self.bind(fn, args, kw, st, node)
        if self.depth > 60:
            raise Give('call depth')
        if sum(1 for f in self.callstack if f.node is fn.node) > 3:
            return self.topv('recursion', st, node)
        if self.yields(fn.node):
            return self.topv('generator', st, node)
        fr = alloc(FrameC(env, fn.frame))
        ctx = Ctx(fn.mod, fr, fn.cls)
        ctx.toplevel = False
        ctx.fn = fn
        self.depth += 1
        self.callstack.append(fn)
        if fn.mod is not None:
            self.analysed.add((fn.mod.path, fn.qual()))
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body, st, ctx)
            t = self.exec_block(fn.node.body, st, ctx)
            t = self.finish(t)
            if t[0] == 'x':
                raise RaiseOut(t[2], self.where(node))
            st.become(t[1])
            return t[2]
        finally:
            self.depth -= 1
            self.callstack.pop()

    def yields(self, node):
        if isinstance(node, ast.Lambda):
            return False
        r = getattr(node, '_yields', None)
        if r is None:
            r = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node))
            node._yields = r
        return r

    def finish(self, t):
        if t[0] == 'n':
            return ('r', t[1], None)
        if t[0] == 'br':
            a, b = self.finish(t[2]), self.finish(t[3])
            r = self.mk_br(t[1], a, b)
            return r
        return t


def fpow(p, q):
    if is_const(q):
        return ppow(p, cval(q))
    if is_const(p) and cval(p) > 0:
        return mk_exp(q * mk_log(p))
    return P(mk_atom('pow', p, q))


CONS['pow'] = fpow


class Ctx(object):
    def __init__(self, mod, frame, cls):
        self.mod, self.frame, self.cls = mod, frame, cls
        self.toplevel = True
        self.globals_ = ()
        self.fn = None
        self.outer = None

    def sub(self, frame):
        c = Ctx(self.mod, frame, self.cls)
        c.toplevel = False
        c.fn = self.fn
        return c


LIBALIAS = {'np': 'numpy'}


def canon_lib(nm):
    return nm


# ------------------------------------------------------------------ rewrite
def _dep(p, m, rw):
    if m and (p.fv & m.keys()):
        return True
    if rw is not None and 'car' in p.kinds:
        return True
    return False


def oapat(after, before, k):
    """the loop writes element k + c of an object array and nothing else: c"""
    from . import terms as T
    if not isinstance(after, OAC):
        return None
    ws = after.writes
    if not isinstance(after.base, OACar):
        if not isinstance(before, OAC) and len(ws) > 1:
            ws = ws[1:]
        else:
            ws = ws[len(before.writes):]
    out = None
    for w in ws:
        while w[0] == 'gate':
            w = w[2]
        if w[0] != 'pt':
            return None
        d = w[1] - P(k)
        if not is_const(d) or out is not None and d is not out:
            return None
        out = d
    return out


_rwmemo = {}


def rewrite(x, fn, memo=None):
    """rewrite atoms: fn(atom-with-rewritten-args) -> Poly or None (keep)"""
    if memo is None:
        memo = {}
    if isinstance(x, Poly):
        if 'car' not in x.kinds:
            return x
        if x in memo:
            return memo[x]
        out = []
        for f, s, c in x.terms:
            if not any('car' in a.kinds for a, e in f) and not any('car' in v.args[1].kinds for v in s):
                out.append(T._mk_poly({(f, s): c}))
                continue
            if s:
                ren = {v: P(fresh(rewrite(v.args[1], fn, memo))) for v in s}
                sv = [ren[v].terms[0][0][0][0] for v in s]
            else:
                ren, sv = None, []
            r = const(c)
            for a, e in f:
                p = subst_atom(a, ren) if ren else P(a)
                if 'car' in p.kinds:
                    p = rw_poly_atoms(p, fn, memo)
                r = r * ppow(p, e)
            if sv:
                r = sum_over(r, sv)
            out.append(r)
        r = psum(out)
        memo[x] = r
        return r
    if isinstance(x, Closure):
        if 'car' not in x.kinds:
            return x
        nv = [fresh(rewrite(v.args[1], fn, memo)) for v in x.vars]
        return mk_closure(nv, rewrite(apply(x, [P(v) for v in nv]), fn, memo))
    if isinstance(x, tuple):
        return tuple(rewrite(y, fn, memo) for y in x)
    return x


def rw_poly_atoms(p, fn, memo):
    out = []
    for f, s, c in p.terms:
        r = const(c)
        if s:
            return rewrite(p, fn, memo)
        for a, e in f:
            if 'car' in a.kinds:
                args = tuple(rewrite(y, fn, memo) for y in a.args)
                q = rebuild(a.kind, args)
                if a.kind == 'car':
                    b = q.terms[0][0][0][0]
                    z = fn(b)
                    if z is not None:
                        q = z
                r = r * ppow(q, e)
            else:
                r = r * ppow(P(a), e)
        out.append(r)
    return psum(out)
