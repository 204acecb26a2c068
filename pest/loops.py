"""Closed forms for values carried around a counted loop."""
import ast
import copy as _copy
from .values import *
from . import terms as T
from .interp import Give, RaiseOut, rewrite


_mud = {}


def mudepth(p):
    """1 + nesting depth of the recurrences in a term (0: none)"""
    if isinstance(p, tuple):
        return max([mudepth(x) for x in p] + [0])
    if not isinstance(p, (Poly, Atom, Closure)) or 'mu' not in p.kinds:
        return 0
    r = _mud.get(p)
    if r is None:
        if isinstance(p, Poly):
            r = max([mudepth(a) for f, s, c in p.terms for a, e in f] +
                    [mudepth(x) for f, s, c in p.terms for x in s if isinstance(x, (Poly, Atom, Closure, tuple))] + [0])
        elif isinstance(p, Closure):
            r = mudepth(p.body)
        else:
            r = max([mudepth(x) for x in p.args] + [0]) + (p.kind == 'mu')
        _mud[p] = r
    return r


class Slot(object):
    pass


class Solver(object):
    def __init__(self, I, lid, n, k, mod, cars, st, st2, wm):
        self.I, self.lid, self.n, self.k = I, lid, n, k
        self.kv = k
        self.st, self.st2 = st, st2
        self.wm = wm
        self.slots = {}
        self.bykey = {}
        self.busy = []
        for key, slot in mod.items():
            if key not in cars:
                continue
            name, kind, before = cars[key]
            s = Slot()
            s.key, s.slot, s.name, s.kind, s.before = key, slot, name, kind, before
            s.after = I.get_slot(st2, slot)
            s.body = None
            s.pat = None
            s.mode = None
            if kind in ('av', 'ref'):
                s.init = before
                s.vs = [fresh(d) for d in before.shape]
                try:
                    I.mute += 1
                    if s.after is UNBOUND:
                        a = None
                    else:
                        a = s.after if isinstance(s.after, AV) else I.av(s.after, st2)
                except (Give, RaiseOut):
                    a = None
                finally:
                    I.mute -= 1
                if a is None or len(a.shape) != len(before.shape) or \
                        any(x is not y for x, y in zip(a.shape, before.shape)):
                    s.body = T.top('carried value changes shape')
                else:
                    s.body = a.at([ZERO if d is ONEP else P(v) for v, d in zip(s.vs, a.shape)])
            self.slots[name] = s
            self.bykey[key] = s
        for s in self.slots.values():
            if s.body is not None:
                s.pat = self.pattern(s)
        # reads of own or sibling locations that are not yet written
        for _ in range(2):
            ch = False
            for s in self.slots.values():
                if s.body is None or 'car' not in s.body.kinds:
                    continue
                b = rewrite(s.body, lambda a, s=s: self.pre(a, s))
                if b is not s.body:
                    s.body = b
                    s.pat = self.pattern(s)
                    ch = True
            if not ch:
                break

    # atoms of this loop: ('car', name, kidx, *idx)
    def mine(self, a):
        return a.kind == 'car' and a.args[0] in self.slots

    def own(self, s):
        return T.mk_atom('car', s.name, P(self.k), *[ZERO if v.args[1] is ONEP else P(v) for v in s.vs])

    def pattern(self, s):
        """body = A + C*car[own] with C indicator-valued; returns (A, c=1-C) or None"""
        own = self.own(s)
        A = []
        C = []
        for f, sv, c in s.body.terms:
            d = dict(f)
            if own in d:
                if d[own] != 1 or own.fv & set(sv):
                    return None
                del d[own]
                t = T.product(c, list(d.items()), list(sv))
                if any(own is a for ff, ss, cc in t.terms for a, e in ff):
                    return None
                C.append(t)
            else:
                A.append(T._mk_poly({(f, sv): c}))
        C = psum(C)
        A = psum(A)
        if self.dep(C, s.name) or any(self.has(C, n) for n in self.slots):
            return None
        return A, ONEP - C

    def has(self, p, name):
        """p mentions carried slot name"""
        if 'car' not in p.kinds:
            return False
        return name in self.names(p)

    dep = has

    def names(self, p):
        memo = getattr(self, '_nm', None)
        if memo is None:
            memo = self._nm = {}
        if p in memo:
            return memo[p]
        out = set()

        def walk(x):
            if isinstance(x, tuple):
                for y in x:
                    walk(y)
                return
            if not isinstance(x, (Poly, Atom, Closure)) or 'car' not in x.kinds:
                return
            if x in memo:
                out.update(memo[x])
                return
            if isinstance(x, Poly):
                for f, s, c in x.terms:
                    for a, e in f:
                        walk(a)
                    for v in s:
                        walk(v.args[1])
            elif isinstance(x, Closure):
                walk(x.body)
                for v in x.vars:
                    walk(v.args[1])
            else:
                if x.kind == 'car' and x.args[0] in self.slots:
                    out.add(x.args[0])
                walk(x.args)
        walk(p)
        memo[p] = out
        return out

    def kstar(self, s, idx):
        """iteration writing location idx: (kind, poly)
        ('at', k*) point; ('all',) every iteration; None unknown"""
        if s.pat is None:
            return None
        A, c = s.pat
        if not c.terms:
            return ('never', None)
        if self.k not in c.fv:
            return ('all', None)
        if len(c.terms) != 1 or c.terms[0][1]:
            return None
        for a, e in c.terms[0][0]:
            if a.kind == 'eq' and self.k in a.fv:
                lin = T._linear(a.args[0], self.k)
                if lin is None or lin[0] not in (1, -1):
                    continue
                sol = T.pscale(lin[1], T.qdiv(-1, lin[0]))
                m = {v: i for v, i in zip(s.vs, idx)}
                return ('at', subst(sol, m))
        return None

    def pre(self, a, s0):
        """reads of locations not written before this iteration -> initial value"""
        if not self.mine(a):
            return None
        s = self.slots[a.args[0]]
        if s.body is None or a.args[1] is not P(self.k):
            return None
        idx = a.args[2:]
        if s is s0 and a is self.own(s):
            ks = self.kstar(s, idx)
            # own location: unwritten so far when written once
            return None
        ks = self.kstar(s, idx)
        if ks is None:
            return None
        if ks[0] == 'never':
            return s.init.at(idx)
        if ks[0] == 'at':
            if prove_ge0(ks[1] - P(self.k)) or prove_ge0(-ks[1] - ONEP):
                return s.init.at(idx)
            # written region excluded by remaining conditions?
        return None

    # ------------------------------------------------------------ phi
    def rw(self, a):
        if not self.mine(a):
            return None
        return self.phi(a.args[0], a.args[1], a.args[2:])

    def phi(self, name, kidx, idx):
        s = self.slots[name]
        if s.body is None:
            return T.top('carried')
        if s.mode is None:
            self.classify(s)
        return s.mode(kidx, list(idx))

    def other(self, s):
        """rewrite cars of other slots in a body (acyclic part)"""
        def fn(a):
            if self.mine(a) and a.args[0] != s.name:
                return self.phi(a.args[0], a.args[1], a.args[2:])
            return None
        return fn

    def classify(self, s):
        k, n = self.k, self.n
        # dependencies
        reach = self.reach(s)
        cyc = [x for x in reach if s.name in self.reach(self.slots[x]) and x != s.name]
        if has_top(s.body):
            s.mode = lambda kk, idx: T.top('carried value')
            return
        if cyc:
            s.mode = self.mu(s)
            return
        body = rewrite(s.body, self.other(s)) if 'car' in s.body.kinds else s.body
        s.rbody = body
        old = s.body
        s.body = body
        s.pat = self.pattern(s)
        if has_top(body):
            s.mode = lambda kk, idx: T.top('carried value')
            return
        m = lambda idx: {v: i for v, i in zip(s.vs, idx) if v.args[1] is not ONEP}

        if s.pat is None or self.has(s.pat[0], s.name):
            s.mode = self.mu(s)
            return
        A, c = s.pat
        if not c.terms:
            # accumulate
            if not A.terms:
                s.mode = lambda kk, idx: s.init.at(idx)
                return

            def acc(kk, idx):
                j = fresh(kk)
                mm = m(idx)
                mm[k] = P(j)
                return s.init.at(idx) + sum_over(subst(A, mm), [j])
            s.mode = acc
            return
        ks = self.kstar(s, [P(v) for v in s.vs])
        if ks is not None and ks[0] == 'all':
            def over(kk, idx):
                mm = m(idx)
                mm[k] = kk - ONEP
                first = ONEP - mk_ge(kk - ONEP)
                new = subst(A, mm)
                cc = subst(c, m(idx))
                if cc is not ONEP:
                    new = new + (ONEP - cc) * s.init.at(idx)
                if not first.terms:
                    return new
                return first * s.init.at(idx) + (ONEP - first) * new
            s.mode = over
            return
        if ks is not None and ks[0] == 'at':
            def point(kk, idx):
                sol = self.kstar(s, idx)[1]
                mm = m(idx)
                mm[k] = sol
                g = mk_ge(sol) * mk_ge(kk - ONEP - sol)
                if not g.terms:
                    return s.init.at(idx)
                val = subst(A, mm)
                cc = subst(c, mm)
                return g * val + (ONEP - g * cc) * s.init.at(idx)
            s.mode = point
            return
        # conditional overwrite by a loop-dependent condition, or unsolvable location
        s.mode = self.mu(s)

    def reach(self, s):
        r = getattr(s, 'reach', None)
        if r is None:
            r = set()
            stack = [s]
            while stack:
                x = stack.pop()
                if x.body is None:
                    continue
                for nme in self.names(x.body):
                    if nme not in r:
                        r.add(nme)
                        stack.append(self.slots[nme])
            s.reach = r
        return r

    def mu(self, s):
        """canonical recurrence atom"""
        order = []

        def visit(nme):
            if nme in order:
                return
            order.append(nme)
            x = self.slots[nme]
            for m2 in self.ordered_names(x.body):
                visit(m2)
        visit(s.name)
        if any(self.slots[o].body is None or has_top(self.slots[o].body) for o in order):
            return lambda kk, idx: T.top('recurrence')
        # references are numbered per nesting depth: a recurrence inside the step of another one keeps its own
        lev = 1000 * max([mudepth(self.slots[o].body) for o in order] + [0])
        num = {nme: lev + i for i, nme in enumerate(order)}

        def fn(a):
            if self.mine(a) and a.args[0] in num:
                return P(T.mk_atom('cref', num[a.args[0]], a.args[1], *a.args[2:]))
            return None
        group = []
        for nme in order:
            x = self.slots[nme]
            init = x.init.clo() if x.init.shape else mk_closure([], x.init.body)
            kk = fresh(self.n)
            nv = [fresh(v.args[1]) for v in x.vs]
            mm = {v: P(w) for v, w in zip(x.vs, nv)}
            mm[self.k] = P(kk)
            # the step reads slots only at the start of the same iteration
            body = rewrite(x.body, fn)
            step = mk_closure([kk] + nv, subst(body, mm))
            group.append((init, step))
        group = tuple(group)
        my = num[s.name]

        def mode(kk, idx):
            if is_const(kk) and cval(kk) == 0:
                return s.init.at(idx)
            return P(T.mk_atom('mu', group, my, kk, *idx))
        return mode

    def ordered_names(self, p):
        seen = []

        def walk(x):
            if isinstance(x, tuple):
                for y in x:
                    walk(y)
                return
            if not isinstance(x, (Poly, Atom, Closure)) or 'car' not in x.kinds:
                return
            if isinstance(x, Poly):
                # order independent of slot numbering
                for f, s, c in x.terms:
                    for a, e in f:
                        walk(a)
            elif isinstance(x, Closure):
                walk(x.body)
            else:
                if x.kind == 'car' and x.args[0] in self.slots and x.args[0] not in seen:
                    seen.append(x.args[0])
                walk(x.args)
        walk(p)
        return seen

    # ---------------------------------------------------------- final value
    def final(self, key, st2):
        I = self.I
        s = self.bykey.get(key)
        if s is None:
            return TopV('slot')
        n = self.n
        if s.kind in ('av', 'ref'):
            if s.body is None:
                return TopV('carried')
            bav = s.before
            nv = [fresh(d) for d in bav.shape]
            body = self.phi(s.name, n, [ZERO if d is ONEP else P(v) for v, d in zip(nv, bav.shape)])
            av = AV(bav.shape, nv, body, bav.dt)
            if s.kind == 'ref':
                return newarr(av)
            return av
        last = {self.k: n - ONEP}
        if s.kind == 'oa':
            a = s.after
            if not isinstance(a, OAC) or not isinstance(a.base, OACar):
                return TopV('object array')
            w = list(s.before.writes)
            from .interp import oapat
            if a.base.used and oapat(a, None, self.kv) is not a.base.pat:
                raise Give('object array read and written by a loop')

            def conv(x):
                if x[0] == 'gate':
                    y = conv(x[2])
                    return None if y is None else ('gate', x[1], y) if self.k not in x[1].fv else None
                if x[0] == 'pt':
                    j = fresh(n)
                    q = subst(x[1], {self.k: P(j)})
                    if 'car' in q.kinds:
                        q = rewrite(q, self.rw)
                    return ('rg', j, n, q, I.inst(x[2], {self.k: P(j)}, st2, None, self.rw))
                return None
            for x in a.writes:
                y = conv(x)
                if y is None:
                    return OAC(s.before.n, [('rg', (jv := fresh(s.before.n)), s.before.n, P(jv),
                                             TopV('object array written in a nested loop'))])
                w.append(y)
            return OAC(s.before.n, w, s.before.base)
        if s.kind == 'list':
            a = s.after
            if isinstance(a, SymListC) and a.segs and a.segs[0][0] == 'car' and a.segs[0][1] == s.name:
                add = a.segs[1:]
                if len(add) == 1 and add[0][0] == 'one':
                    j = fresh(n)
                    v = I.inst(add[0][1], {self.k: P(j)}, st2, {'wm': self.wm}, self.rw)
                    I.markrepl(v, self.wm, st2)
                    return SymListC(I.segs(s.before) + (('rep', n, j, v),), s.before.kind)
                if not add:
                    return s.before
            elif isinstance(a, ListC) or isinstance(a, SymListC) and not any(g[0] == 'car' for g in a.segs):
                return I.instc(a, last, st2, {}, self.rw)
            return SymListC([('rep', fresh_len(), fresh(ONEP), TopV('list built in loop'))], s.before.kind)
        # unknown kind: value of the last iteration
        a = s.after
        if isinstance(a, CarUnk):
            return CarUnk(a.name)
        if prove_ge0(n - ONEP):
            if s.slot[2] is None and not isinstance(a, (AV, Ref, tuple, type(None), bool, str, ORef, Gated)):
                try:
                    return I.instc(a, last, st2, {}, self.rw)
                except Give:
                    return CarUnk('loop')
            return I.inst(a, last, st2, None, self.rw)
        if s.before is UNBOUND:
            v = I.inst(a, last, st2, None, self.rw)
            return Gated(mk_ge(n - ONEP), v, UNBOUND)
        if isinstance(a, (FrameC, ObjC, DictC, ListC, SymListC, OAC)):
            return CarUnk('loop')
        v = I.inst(a, last, st2, None, self.rw)
        return I.mergev(mk_ge(n - ONEP), v, s.before, st2)


def fresh_len():
    return T.top('list length')


# ------------------------------------------------------------------ while
def while_loop(I, s, st, ctx):
    t = counted(s)
    if t is not None:
        return I.exec_block(t, st, ctx)
    # constant-false guard?
    probe = st.fork()
    c = I.cond(I.eval(s.test, probe, ctx), probe)
    if c is False:
        st.become(probe)
        return None
    if getattr(I, 'whileunroll', 0):
        return unrolled(I, s, st, ctx, I.whileunroll)
    if getattr(I, 'whilerounds', None):
        return rounds(I, s, st, ctx, I.whilerounds)
    n = T.P(T.mk_atom('sym', ('while', next(I.loopno)), 1))
    # irregular: forget everything the body may change
    lid = next(I.loopno)

    def run(st2):
        cc = I.cond(I.eval(s.test, st2, ctx), st2)
        if cc is False:
            return ('b', st2)
        t = I.exec_block(s.body, st2, ctx)
        if t[0] in ('n', 'c'):
            return ('br', T.top('while test'), ('n', t[1]), ('b', t[1].fork()))
        return ('br', T.top('while test'), t, ('b', st2.fork()))
    return I.summarise(lid, n, s, st, lambda st2, k: None, run)


def unrolled(I, s, st, ctx, left):
    """follow a loop whose test and exits are decided, at most `left` rounds"""
    c = I.cond(I.eval(s.test, st, ctx), st)
    if c is False or (isinstance(c, Poly) and c is ZERO):
        return ('n', st)
    if not (c is True or c is ONEP):
        raise Give('undecided loop test')
    if left == 0:
        raise Give('loop exceeds the unrolling bound')

    def cont(t):
        if t is None:
            return unrolled(I, s, st, ctx, left - 1)
        if t[0] == 'br':
            return I.mk_br(t[1], cont(t[2]), cont(t[3]))
        if t[0] in ('n', 'c'):
            return unrolled(I, s, t[1], ctx, left - 1)
        if t[0] == 'b':
            return ('n', t[1])
        return t
    return cont(I.exec_block(s.body, st, ctx))


def rounds(I, s, st, ctx, k):
    """the paths that leave the loop by return, or by its stopping test after exactly k rounds"""
    def has(t, kind):
        return t[0] == kind or t[0] == 'br' and (has(t[2], kind) or has(t[3], kind))

    def keep(t, kinds):
        if t[0] == 'br':
            a, b = keep(t[2], kinds), keep(t[3], kinds)
            return b if a is None else a if b is None else ('br', t[1], a, b)
        return t if t[0] in kinds else None

    def go(st2, i):
        if i > k:
            return ('n', st2)
        t = I.exec_block(s.body, st2, ctx)
        if t is None:
            t = ('n', st2)
        if i == k and has(t, 'b'):
            t = keep(t, ('b', 'r', 'x'))

            def done(t):
                if t[0] == 'br':
                    return ('br', t[1], done(t[2]), done(t[3]))
                return ('n', t[1]) if t[0] == 'b' else t
            return done(t)
        t = keep(t, ('n', 'c', 'r', 'x'))
        if t is None:
            raise Give('while path')

        def cont(t):
            if t[0] == 'br':
                return I.mk_br(t[1], cont(t[2]), cont(t[3]))
            return go(t[1], i + 1) if t[0] in ('n', 'c') else t
        return cont(t)
    t = go(st, 1)
    return t


def counted(s):
    """while i < e: ...; i += 1   ->  for i in range(i, e): ...; i = max(i, e)"""
    t = s.test
    if s.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
        return None
    if isinstance(t.left, ast.Name) and isinstance(t.ops[0], ast.Lt):
        var, end = t.left.id, t.comparators[0]
    elif isinstance(t.comparators[0], ast.Name) and isinstance(t.ops[0], ast.Gt):
        var, end = t.comparators[0].id, t.left
    else:
        return None
    inc = s.body[-1]
    ok = isinstance(inc, ast.AugAssign) and isinstance(inc.target, ast.Name) and inc.target.id == var and \
        isinstance(inc.op, ast.Add) and isinstance(inc.value, ast.Constant) and inc.value.value == 1
    if not ok:
        ok = isinstance(inc, ast.Assign) and len(inc.targets) == 1 and isinstance(inc.targets[0], ast.Name) and \
            inc.targets[0].id == var and ast.unparse(inc.value) in ('%s + 1' % var, '1 + %s' % var)
    if not ok:
        return None
    names = {x.id for x in ast.walk(end) if isinstance(x, ast.Name)}
    for b in s.body[:-1]:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and (x.id == var or x.id in names):
                return None
            if isinstance(x, (ast.Continue, ast.Break)):
                return None
    if any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == 'len')
           for x in ast.walk(end)):
        return None
    src = ast.parse('for %s in range(%s, %s):\n    pass\n' % (var, var, ast.unparse(end))).body[0]
    src.body = list(s.body[:-1]) or [ast.Pass()]
    after = ast.parse('%s = max(%s, %s)' % (var, '__w_' + var, ast.unparse(end))).body[0]
    pre = ast.parse('%s = %s' % ('__w_' + var, var)).body[0]
    out = [pre, src, after]
    for o in out:
        for x in ast.walk(o):
            if not hasattr(x, 'lineno') or True:
                if isinstance(x, (ast.expr, ast.stmt)) and o is not src:
                    x.lineno = s.lineno
                    x.col_offset = 0
    for x in [src, src.iter, src.target] + list(ast.walk(src.iter)):
        x.lineno = s.lineno
        x.col_offset = 0
    return out


# ------------------------------------------------------------- object arrays
def oa_read(I, cid, c, q, st, node):
    """element q of an object array"""
    if isinstance(c, OACar):
        return car_read(I, c, q, st, node)
    pend = []      # (cond, value) newest first
    res = None
    done = False
    for w in reversed(c.writes):
        r = wmatch(I, w, q, st)
        if r is None:
            continue
        cond, val = r
        if cond is ONEP:
            res = val
            done = True
            break
        if 'top' in cond.kinds:
            return I.topv('object array index', st, node)
        pend.append((cond, val))
    if not done:
        if isinstance(c.base, OACar):
            res = car_read(I, c.base, q, st, node)
        else:
            res = None        # numpy.empty(dtype=object) holds None
    for cond, val in reversed(pend):
        res = I.mergev(cond, val() if callable(val) else val, res() if callable(res) else res, st)
    return res() if callable(res) else res


def wmatch(I, w, q, st):
    if w[0] == 'gate':
        r = wmatch(I, w[2], q, st)
        if r is None:
            return None
        c = w[1] * r[0]
        return None if not c.terms else (c, r[1])
    if w[0] == 'pt':
        c = mk_eq(q - w[1])
        return None if not c.terms else (c, w[2])
    _, v, n, idx, val = w
    lin = T._linear(idx, v)
    if lin is None or lin[0] not in (1, -1):
        if v not in idx.fv:
            c = mk_eq(q - idx) * mk_ge(n - ONEP)
            return None if not c.terms else (c, (lambda: I.inst(val, {v: n - ONEP}, st)))
        return (T.top('object array index'), val)
    sol = (q - lin[1]) if lin[0] == 1 else (lin[1] - q)
    c = mk_ge(sol) * (ONEP - mk_ge(sol - n))
    if not c.terms:
        return None
    return (c, (lambda: I.inst(val, {v: sol}, st) if sol is not P(v) else val))


def car_read(I, c, q, st, node):
    """element of an object array that the enclosing loop is filling"""
    # a location the loop has not reached holds the initial value
    if c.pat is not None and T.prove_ge0(q - c.k - c.pat):
        c.used = True
        return oa_read(I, None, c.init, q, st, node)
    return I.topv('element of an object array filled by the enclosing loop', st, node)
