"""C27 by name, member and call binding over the whole package source (every function, executed or not)."""
import ast
import builtins
import hashlib
import json
import os
import subprocess
from pest.scene import *
from pest.interp import preprocess_pyx

PKG = 'pyparticleest'
BUILT = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__path__', '__spec__', '__builtins__'}
PYX = {'xrange', 'long', 'unicode', 'basestring'}
HOOKS = {'maximize_weighted', 'get_lin_meas_dynamics'}        # methods the user's model has to supply
QUERY = r'''
import sys, json, importlib, inspect
req = json.load(sys.stdin)
def load(p):
    parts = p.split('.')
    for i in range(len(parts), 0, -1):
        try:
            o = importlib.import_module('.'.join(parts[:i]))
        except ImportError:
            continue
        for x in parts[i:]:
            o = getattr(o, x)
        return o
    raise ImportError(p)
out = {'missing': [], 'sig': {}, 'attrs': []}
for p in req['members']:
    try:
        o = load(p)
    except (ImportError, AttributeError) as e:
        out['missing'].append(p)
        continue
    if callable(o):
        try:
            s = inspect.signature(o)
            out['sig'][p] = [[x.name, x.kind.name, x.default is not x.empty] for x in s.parameters.values()]
        except (TypeError, ValueError):
            pass
import numpy
known = set()
import scipy.optimize, subprocess, threading, time
for o in (numpy.ndarray, numpy.float64, numpy.int64, numpy.dtype, list, dict, set, tuple, str, bytes, int, float, object, open(__import__('os').devnull),
          (lambda: 0), dict().items(), Exception, slice, complex, scipy.optimize.OptimizeResult, numpy.random.RandomState, range):
    known |= set(dir(o))
try:
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.figure, matplotlib.axes
    known |= set(dir(matplotlib.figure.Figure)) | set(dir(matplotlib.axes.Axes))
except ImportError:
    known |= {'clf', 'plot', 'show', 'draw', 'savefig', 'add_subplot'}
known |= {'x', 'fun', 'success', 'message', 'nit', 'nfev', 'status', 'jac', 'hess_inv', 'size', 'itervalues', 'iteritems'}
out['attrs'] = sorted(known)
print(json.dumps(out))
'''


class Mod(object):
    def __init__(self, name, path, src):
        self.name, self.path = name, path
        self.pyx = path.endswith('.pyx')
        self.bad = None
        try:
            self.tree = ast.parse(preprocess_pyx(src) if self.pyx else src)
        except SyntaxError as e:
            if self.pyx:
                raise Give('%s cannot be parsed after removing its declarations: %s' % (path, e))
            self.tree, self.bad = ast.parse(''), (e.lineno, str(e))
        self.names, self.imports, self.stars = set(), {}, []
        self.funcs, self.classes = {}, {}


def load():
    mods = {}
    root = os.path.join(REPO, PKG)
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if not x.startswith(('.', '__')))
        for f in sorted(files):
            if not f.endswith(('.py', '.pyx')):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, REPO)
            name = rel.rsplit('.', 1)[0].replace(os.sep, '.')
            if name.endswith('.__init__'):
                name = name[:-9]
            if name in mods and p.endswith('.pyx'):
                name += '#pyx'
            elif name in mods:
                mods[name + '#pyx'] = mods.pop(name)
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                mods[name] = Mod(name, rel, open(p, encoding='utf-8').read())
    return mods


def targets(t, out):
    if isinstance(t, ast.Name):
        out.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            targets(x, out)
    elif isinstance(t, ast.Starred):
        targets(t.value, out)


def bound(body, mod=None):
    """names bound in a scope body (not descending into nested scopes)"""
    out, glob = set(), set()

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    targets(x.target, out)
            return
        if isinstance(n, ast.Import):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.name != '*':
                    out.add(a.asname or a.name)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in body:
        walk(s)
    return out - glob, glob


class Sig(object):
    """call shape accepted by a definition"""

    def __init__(self, pos, ndef, kwonly, kwreq, var, kw):
        self.pos, self.ndef, self.kwonly, self.kwreq, self.var, self.kw = pos, ndef, kwonly, kwreq, var, kw

    @staticmethod
    def of(fn, bound_=False):
        a = fn.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        if bound_:
            pos = pos[1:]
        kwo = [x.arg for x in a.kwonlyargs]
        req = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        return Sig(pos, min(nd, len(pos)), kwo, req, a.vararg is not None, a.kwarg is not None)

    def reject(self, npos, kws, star, dstar):
        if npos > len(self.pos) and not self.var:
            return '%d positional arguments for %d parameters' % (npos, len(self.pos))
        for k in kws:
            if k in self.pos:
                if self.pos.index(k) < npos:
                    return 'argument %s given twice' % k
            elif k not in self.kwonly and not self.kw:
                return 'no parameter %s' % k
        if not star and not dstar:
            for i in range(npos, len(self.pos) - self.ndef):
                if self.pos[i] not in kws:
                    return 'parameter %s not given' % self.pos[i]
            for k in self.kwreq:
                if k not in kws:
                    return 'parameter %s not given' % k
        return None


def callshape(c):
    star = any(isinstance(a, ast.Starred) for a in c.args)
    npos = len([a for a in c.args if not isinstance(a, ast.Starred)])
    return npos, [k.arg for k in c.keywords if k.arg], star, any(k.arg is None for k in c.keywords)


class Program(object):
    def __init__(self):
        self.mods = load()
        self.found = []           # (rule, path, function, line, text)
        self.n = {}
        self.members = {}
        self.classes = {}         # id -> info
        for m in self.mods.values():
            self.scan(m)
        for m in self.mods.values():
            for n, c in m.classes.items():
                self.link(m, n, c)
        self.selfattrs()

    # ------------------------------------------------------------ structure
    def scan(self, m):
        m.names, _ = bound(m.tree.body)
        m.names |= {g for f in ast.walk(m.tree) if isinstance(f, ast.Global) for g in f.names}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.imports.setdefault(a.asname, []).append(a.name)
                    else:
                        m.imports.setdefault(a.name.split('.')[0], []).append(a.name.split('.')[0])
                        self.member(m, n, a.name)
            elif isinstance(n, ast.ImportFrom):
                base = self.absolute(m, n)
                for a in n.names:
                    if a.name == '*':
                        m.stars.append(base)
                    else:
                        m.imports.setdefault(a.asname or a.name, []).append(base + '.' + a.name)
                        self.member(m, n, base + '.' + a.name)
        for s in self.top(m.tree.body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.funcs.setdefault(s.name, []).append(s)
            elif isinstance(s, ast.ClassDef):
                m.classes[s.name] = dict(node=s, mod=m, name=s.name, methods={}, attrs=set(), bases=[], subs=[], unknown=False)
                for x in self.top(s.body):
                    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        m.classes[s.name]['methods'].setdefault(x.name, []).append(x)
                m.classes[s.name]['attrs'] = bound(s.body)[0]

    def top(self, body):
        """definitions at scope level, also under if/try/with"""
        for s in body:
            yield s
            for f in ('body', 'orelse', 'finalbody', 'handlers'):
                if isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While, ast.ExceptHandler)) and getattr(s, f, None):
                    for x in self.top(getattr(s, f)):
                        yield x

    def absolute(self, m, n):
        if not n.level:
            return n.module
        parts = m.name.replace('#pyx', '').split('.')
        if not m.path.endswith('__init__.py'):
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)] if n.level > 1 else parts
        return '.'.join(parts + ([n.module] if n.module else []))

    def member(self, m, node, dotted, call=None):
        self.members.setdefault(dotted, []).append((m, node, call))

    def resolve(self, m, name):
        """module-level name -> ('class', info) / ('func', [defs]) / ('module', dotted) / None"""
        if name in m.classes:
            return 'class', m.classes[name]
        if name in m.funcs:
            return 'func', (m, m.funcs[name])
        if name in m.imports and len(m.imports[name]) == 1:
            return self.dotted(m.imports[name][0])
        return None

    def dotted(self, d):
        if d in self.mods:
            return 'module', d
        if d.startswith(PKG) and '.' in d:
            b, x = d.rsplit('.', 1)
            if b in self.mods:
                return self.resolve(self.mods[b], x)
            return None
        return 'ext', d

    def link(self, m, n, c):
        for b in c['node'].bases:
            r = self.expr(m, b)
            if r and r[0] == 'class':
                c['bases'].append(r[1])
            elif isinstance(b, ast.Name) and b.id in ('object',):
                pass
            elif r and r[0] == 'ext' and r[1].startswith('abc.'):
                pass
            else:
                c['unknown'] = True

    def expr(self, m, e):
        """static meaning of a dotted expression at module level"""
        if isinstance(e, ast.Name):
            return self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            r = self.expr(m, e.value)
            if r and r[0] == 'module':
                if r[1] + '.' + e.attr in self.mods and e.attr not in self.mods[r[1]].names:
                    return 'module', r[1] + '.' + e.attr
                if e.attr in self.mods[r[1]].names:
                    return self.resolve(self.mods[r[1]], e.attr)
            elif r and r[0] == 'ext':
                return 'ext', r[1] + '.' + e.attr
        return None

    def mro(self, c):
        out = []

        def lin(c):
            seqs = [lin(b) for b in c['bases']] + [list(c['bases'])]
            res = [c]
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                res.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            return res
        return lin(c)

    def all(self):
        for m in self.mods.values():
            for c in m.classes.values():
                yield c

    def selfattrs(self):
        self.attrnames = set()
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.attrnames.add(n.attr)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self.attrnames.add(n.name)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 \
                        and isinstance(n.args[1], ast.Constant):
                    self.attrnames.add(n.args[1].value)
            self.attrnames |= m.names
            for c in m.classes.values():
                self.attrnames |= c['attrs']
        for c in self.all():
            c['self'] = set(c['attrs'])
            c['dynamic'] = False
            for f in (f for fs in c['methods'].values() for f in fs):
                s = f.args.args[0].arg if f.args.args else None
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == s:
                        c['self'].add(n.attr)
                    if isinstance(n, ast.Name) and n.id in ('setattr', '__dict__') or isinstance(n, ast.Attribute) and n.attr == '__dict__':
                        c['dynamic'] = True
            if '__getattr__' in c['methods'] or '__getattribute__' in c['methods']:
                c['dynamic'] = True
        self.defs = {}            # method name -> [(class, def)]
        for c in self.all():
            for k, fs in c['methods'].items():
                for f in fs:
                    self.defs.setdefault(k, []).append((c, f))
        self.fdefs = {}
        for m in self.mods.values():
            for k, fs in m.funcs.items():
                for f in fs:
                    self.fdefs.setdefault(k, []).append(f)

    # --------------------------------------------------------------- rules
    def note(self, rule, m, fn, node, text):
        self.found.append((rule, m.path, fn, getattr(node, 'lineno', 0), text))

    def count(self, rule, k=1):
        self.n[rule] = self.n.get(rule, 0) + k

    def run(self):
        for m in self.mods.values():
            stars = set()
            for b in m.stars:
                if b in self.mods:
                    stars |= self.mods[b].names
                else:
                    stars = None
                    break
            base = BUILT | m.names | (PYX if m.pyx else set())
            self.scope(m, m.tree.body, [base, stars], '<module>', None, m.tree)
        self.external()
        return self.found

    def scope(self, m, body, env, fn, cls, node):
        """names of one scope; env: visible names of enclosing scopes (None element: anything)"""
        unknown = any(e is None for e in env)
        vis = set().union(*[e for e in env if e])
        local, glob = (set(), set())
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            local = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            local |= {x.arg for x in (a.vararg, a.kwarg) if x}
            params = set(local)
            if not isinstance(node, ast.Lambda):
                b, glob = bound(body)
                local |= b
                self.unbound(m, node, fn, b - params)
        elif isinstance(node, ast.ClassDef):
            local, glob = bound(body)
        here = env + [local]
        inner = env + ([] if isinstance(node, ast.ClassDef) else [local])
        self.visit(m, body, here, inner, fn, cls, unknown)

    def visit(self, m, nodes, env, inner, fn, cls, unknown, selfname=None):
        vis = set().union(*[e for e in env if e])

        def walk(n, vis):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for x in n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d]:
                    walk(x, vis)
                q = n.name if fn == '<module>' else fn + '.' + n.name
                self.scope(m, n.body, inner, q, cls, n)
                return
            if isinstance(n, ast.ClassDef):
                for x in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                    walk(x, vis)
                c = m.classes.get(n.name)
                self.scope(m, n.body, inner, n.name, c if c and c['node'] is n else None, n)
                return
            if isinstance(n, ast.Lambda):
                for x in n.args.defaults:
                    walk(x, vis)
                self.scope(m, [n.body], inner + [vis - set()], fn, cls, n)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                t = set()
                for g in n.generators:
                    targets(g.target, t)
                for c in ast.iter_child_nodes(n):
                    walk(c, vis | t)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.count('name')
                if not unknown and n.id not in vis:
                    self.note('undefined name', m, fn, n, n.id)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                self.attr(m, n, fn, cls, env)
            if isinstance(n, ast.Call):
                self.callrule(m, n, fn, cls, env)
            for c in ast.iter_child_nodes(n):
                walk(c, vis)
        for n in nodes:
            walk(n, vis)

    def shadowed(self, env, name):
        return any(name in e for e in env[2:] if e)

    def attr(self, m, n, fn, cls, env):
        root = n
        chain = []
        while isinstance(root, ast.Attribute):
            chain.append(root.attr)
            root = root.value
        if isinstance(root, ast.Name) and not self.shadowed(env, root.id):
            r = self.resolve(m, root.id)
            if r and r[0] in ('module', 'ext'):
                e = self.expr(m, n.value)
                if e and e[0] == 'ext':
                    self.count('external member')
                    self.member(m, n, e[1] + '.' + n.attr)
                elif e and e[0] == 'module':
                    self.count('module member')
                    t = self.mods[e[1]]
                    if n.attr not in t.names and e[1] + '.' + n.attr not in self.mods and not t.stars \
                            and n.attr not in ('__name__', '__file__', '__doc__'):
                        self.note('missing module member', m, fn, n, e[1] + '.' + n.attr)
                return
        if isinstance(n.value, ast.Name) and n.value.id == 'self' and cls is not None:
            self.count('self attribute')
            if n.attr not in self.attrnames and n.attr not in HOOKS and not self.hasattr(cls, n.attr) and n.attr not in dir(object):
                self.note('missing attribute', m, fn, n, '%s.%s' % (cls['name'], n.attr))
            return
        self.count('object attribute')
        self.objattrs.append((m, n, fn))

    objattrs = None

    def family(self, c):
        """classes an instance running a method of c can belong to, with their bases"""
        fam = []
        for d in self.all():
            r = self.mro(d)
            if c in r:
                fam += [x for x in r if x not in fam]
        return fam

    def hasattr(self, c, name):
        for d in self.family(c):
            if d['unknown'] or d['dynamic'] or name in d['self']:
                return True
        return False

    def lookup(self, d, name):
        for x in self.mro(d):
            if name in x['methods']:
                return x, x['methods'][name]
            if name in x['self'] or x['unknown']:
                return None
        return None

    def sigs(self, fs, isclass=False):
        out = []
        for f in fs:
            st = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list)
            if any(not (isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property')
                        or isinstance(d, ast.Attribute) and d.attr.startswith('abstract')
                        or isinstance(d, ast.Name) and d.id.startswith('abstract')) for d in f.decorator_list):
                return None
            out.append(Sig.of(f, not st))
        return out

    def callrule(self, m, c, fn, cls, env):
        sh = callshape(c)
        f = c.func
        if isinstance(f, ast.Name) and self.shadowed(env, f.id):
            return
        r = self.expr(m, f) if not (isinstance(f, ast.Attribute) and self.rooted(f, env)) else None
        if r and r[0] == 'func':
            self.count('function call')
            mod, defs = r[1]
            if any(d.decorator_list for d in defs):
                return
            bad = [Sig.of(d).reject(*sh) for d in defs]
            if bad and all(bad):
                self.note('call does not fit', m, fn, c, '%s: %s' % (defs[0].name, bad[-1]))
            return
        if r and r[0] == 'class':
            self.count('constructor call')
            look = self.lookup(r[1], '__init__')
            if look is None:
                if not any(x['unknown'] for x in self.mro(r[1])) and (sh[0] or sh[1]):
                    self.note('call does not fit', m, fn, c, '%s takes no arguments' % r[1]['name'])
                return
            ss = self.sigs(look[1])
            bad = [s.reject(*sh) for s in ss or ()]
            if bad and all(bad):
                self.note('call does not fit', m, fn, c, '%s: %s' % (r[1]['name'], bad[-1]))
            return
        if r and r[0] == 'ext':
            self.count('external call')
            self.member(m, c, r[1], sh)
            return
        if not isinstance(f, ast.Attribute):
            return
        if isinstance(f.value, ast.Name) and f.value.id == 'self' and cls is not None:
            self.count('method call')
            why = None
            for d in self.all():
                if cls not in self.mro(d):
                    continue
                look = self.lookup(d, f.attr)
                if look is None:
                    continue
                ss = self.sigs(look[1])
                bad = [s.reject(*sh) for s in ss or ()]
                if bad and all(bad):
                    why = '%s.%s: %s' % (look[0]['name'], f.attr, bad[-1])
            if why:
                self.note('call does not fit', m, fn, c, why)
            return
        if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and cls is not None:
            self.count('super call')
            ok, why, seen = False, None, False
            for d in self.all():
                r = self.mro(d)
                if cls not in r:
                    continue
                for x in r[r.index(cls) + 1:]:
                    if x['unknown']:
                        ok = True
                        break
                    if f.attr in x['methods']:
                        seen = True
                        ss = self.sigs(x['methods'][f.attr])
                        bad = [s.reject(*sh) for s in ss or ()]
                        if bad and all(bad):
                            why = '%s.%s: %s' % (x['name'], f.attr, bad[-1])
                        break
                else:
                    if f.attr not in dir(object):
                        why = why or 'no %s after %s' % (f.attr, cls['name'])
                    elif f.attr == '__init__' and (sh[0] or sh[1]):
                        why = why or 'object.__init__ takes no arguments'
            if why and not ok:
                self.note('call does not fit', m, fn, c, why)
            return
        self.count('object method call')
        self.objcalls.append((m, c, fn, f.attr, sh))

    objcalls = None

    def rooted(self, f, env):
        while isinstance(f, ast.Attribute):
            f = f.value
        return isinstance(f, ast.Name) and self.shadowed(env, f.id)

    def unbound(self, m, node, fn, local):
        """loads of local names no path can have bound"""
        self.count('local binding')

        def stores(n):
            b, _ = bound([n])
            return b

        def loads(e, have):
            if e is None:
                return
            if isinstance(e, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
                return
            if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                t = set()
                for g in e.generators:
                    targets(g.target, t)
                have = have | t
            if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load) and e.id in local and e.id not in have:
                self.note('name used before any assignment', m, fn, e, e.id)
            for c in ast.iter_child_nodes(e):
                loads(c, have)

        def block(ss, have):
            """have: names some path may have bound"""
            for s in ss:
                have = stmt(s, have)
            return have

        def stmt(s, have):
            if isinstance(s, ast.If):
                loads(s.test, have)
                return block(s.body, set(have)) | block(s.orelse, set(have))
            if isinstance(s, (ast.For, ast.AsyncFor)):
                loads(s.iter, have)
                inside = have | stores(s)
                block(s.body, inside)
                return block(s.orelse, inside)
            if isinstance(s, ast.While):
                loads(s.test, have | stores(s))
                inside = have | stores(s)
                block(s.body, inside)
                return block(s.orelse, inside)
            if isinstance(s, ast.Try):
                a = block(s.body, set(have))
                out = block(s.orelse, set(a))
                for h in s.handlers:
                    out |= block(h.body, a | ({h.name} if h.name else set()))
                return block(s.finalbody, out | a)
            if isinstance(s, (ast.With, ast.AsyncWith)):
                for i in s.items:
                    loads(i.context_expr, have)
                    if i.optional_vars is not None:
                        have = have | stores(i.optional_vars)
                return block(s.body, have)
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                return have | stores(s)
            if isinstance(s, ast.AugAssign):
                loads(s.value, have)
                if isinstance(s.target, ast.Name):
                    if s.target.id in local and s.target.id not in have:
                        self.note('name used before any assignment', m, fn, s, s.target.id)
                else:
                    loads(s.target, have)
                return have | stores(s)
            loads(s, have | {x.id for x in ast.walk(s) if isinstance(x, ast.NamedExpr) and isinstance(x.target, ast.Name) for x in [x.target]})
            return have | stores(s)
        block(node.body, local_params(node))

    def groups(self, name):
        """definitions of a method name, grouped by the class declaring it first"""
        g = {}
        for c, f in self.defs.get(name, []):
            roots = [x for x in self.mro(c) if name in x['methods']]
            g.setdefault(id(roots[-1]), []).append((c, f))
        return list(g.values())

    def external(self):
        req = sorted(x for x in self.members if not x.startswith(PKG))
        r = subprocess.run(['/opt/venv/bin/python', '-c', QUERY], input=json.dumps(dict(members=req)), capture_output=True,
                           text=True, cwd='/')
        if r.returncode:
            raise Give('library metadata not available: ' + r.stderr[-200:])
        ans = json.loads(r.stdout)
        miss = set(ans['missing'])
        for x, uses in sorted(self.members.items()):
            for m, node, call in uses:
                if x.startswith(PKG):
                    if call is None and isinstance(node, (ast.Import, ast.ImportFrom)):
                        self.count('package import')
                        if not self.exists(x) and not guarded(m, node):
                            self.note('missing module member', m, where(m, node), node, x)
                    continue
                if x in miss:
                    # an undefined prefix is reported once, at the prefix
                    if call is None and x.rsplit('.', 1)[0] not in miss and not guarded(m, node):
                        self.note('missing module member', m, where(m, node), node, x)
                elif call is not None and x in ans['sig']:
                    why = fits(ans['sig'][x], call)
                    if why:
                        self.note('call does not fit', m, where(m, node), node, '%s: %s' % (x, why))
        known = set(ans['attrs'])
        for m, n, fn in self.objattrs:
            if n.attr not in self.attrnames and n.attr not in known and n.attr not in HOOKS:
                self.note('missing attribute', m, fn, n, n.attr + ' is defined by no class')
        for m, c, fn, name, sh in self.objcalls:
            if name in known or name not in self.defs:
                continue
            why, ok = None, False
            for g in self.groups(name):
                bad = []
                for k, f in g:
                    ss = self.sigs([f])
                    if ss is None:
                        continue
                    w = ss[0].reject(*sh)
                    if w:
                        bad.append('%s.%s: %s' % (k['name'], name, w))
                if not bad:
                    ok = True
                else:
                    why = bad[0]
            for f in self.fdefs.get(name, []):
                if not Sig.of(f).reject(*sh):
                    ok = True
            if why and not ok:
                self.note('call does not fit', m, fn, c, why)

    def exists(self, d):
        if d in self.mods:
            return True
        b, x = d.rsplit('.', 1)
        return b in self.mods and (x in self.mods[b].names or bool(self.mods[b].stars))


def local_params(node):
    a = node.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}


def fits(sig, call):
    ps = [p for p in sig if p[1] in ('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD')]
    kwo = [p[0] for p in sig if p[1] == 'KEYWORD_ONLY']
    req = [p[0] for p in sig if p[1] == 'KEYWORD_ONLY' and not p[2]]
    return Sig([p[0] for p in ps], len([1 for p in ps if p[2]]), kwo, req, any(p[1] == 'VAR_POSITIONAL' for p in sig),
               any(p[1] == 'VAR_KEYWORD' for p in sig)).reject(*call)


def guarded(m, node):
    """inside a try body with a handler for import or attribute errors"""
    for t in ast.walk(m.tree):
        if isinstance(t, ast.Try) and any(node is x for s in t.body for x in ast.walk(s)):
            for h in t.handlers:
                names = {x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)} if h.type is not None else {'Exception'}
                if names & {'ImportError', 'ModuleNotFoundError', 'AttributeError', 'Exception', 'NameError'}:
                    return True
    return False


def where(m, node):
    best = '<module>'
    for q, f in quals(m.tree):
        if f.lineno <= node.lineno <= f.end_lineno:
            best = q
    return best


def quals(t, pre=''):
    for s in ast.iter_child_nodes(t):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            q = pre + s.name
            if not isinstance(s, ast.ClassDef):
                yield q, s
            for x in quals(s, q + '.'):
                yield x
        else:
            for x in quals(s, pre):
                yield x


def run(rep, tier):
    p = Program()
    p.objattrs, p.objcalls = [], []
    p.run()
    per = {}
    for rule, path, fn, line, text in p.found:
        per.setdefault((path, fn), []).append((rule, line, text))
    nf = 0
    for m in p.mods.values():
        rep.files.add(m.path)
        fns = sorted({q for q, f in quals(m.tree)} | {'<module>'})
        if m.bad:
            rep.add('%s parses' % m.path, 'fail', m.path, 'line %s: %s' % m.bad)
        for q in fns:
            rep.analysed.add((m.path, q))
            nf += 1
            bad = per.pop((m.path, q), [])
            con = '%s:%s' % (m.path, q)
            if not bad:
                rep.add('binding in %s' % con, 'ok', con, 'every name, member and call binds')
            for rule, line, text in sorted(set(bad)):
                rep.add('binding in %s: %s %s' % (con, rule, text), 'fail', con, '%s: %s (line %d)' % (rule, text, line))
    for (path, q), bad in per.items():
        for rule, line, text in sorted(set(bad)):
            con = '%s:%s' % (path, q)
            rep.add('binding in %s: %s %s' % (con, rule, text), 'fail', con, '%s: %s (line %d)' % (rule, text, line))
    rep.extra['binding_obligations'] = p.n
