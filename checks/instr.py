"""C26 operation counter."""
import ast
import os
import warnings
from pest.scene import *
from .drv import unwritten

FILE = 'pyparticleest/utils/intrument.py'
COUNT = {   # operation -> (counter, arguments whose largest length is the number of evaluations)
    'sample_process_noise_full': ('cnt_sample', ['ancestors']),
    'update_full': ('cnt_update', ['particles']),
    'measure_full': ('cnt_measure', ['particles']),
    'logp_xnext': ('cnt_pdfxn', ['particles', 'next_part']),
    'logp_xnext_full': ('cnt_pdfxn', ['part', 'find']),
    'logp_xnext_singlestep': ('cnt_pdfxn', ['part', 'find']),
    'logp_xnext_max_full': ('cnt_pdfxnmax', ['part']),
    'propose_smooth': ('cnt_propsmooth', ['anc']),
    'logp_proposal': ('cnt_pdfsmooth', ['prop_part']),
    'eval_1st_stage_weights': ('cnt_eval1st', ['particles']),
    'eval_logp_x0': ('cnt_eval_logp_x0', ['particles']),
}
CACHE = {}
SCALARS = {'N', 'cur_ind', 'it', 'k', 'ind'}


def conventions(scene):
    """how the library calls the model: name -> {(positional count, keywords)}, read from every call site"""
    if 'con' in CACHE:
        return CACHE['con']
    out = CACHE['con'] = {}
    for rel in ('filter.py', 'smoother.py', 'simulator.py', 'paramest/paramest.py', 'paramest/gradienttest.py', 'paramest/interfaces.py'):
        p = os.path.join(REPO, 'pyparticleest', rel)
        if not os.path.exists(p):
            continue
        with open(p) as fh:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(fh.read())
        for n in ast.walk(tree):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)):
                continue
            v = n.func.value
            if not ((isinstance(v, ast.Attribute) and v.attr == 'model') or (isinstance(v, ast.Name) and v.id == 'model')):
                continue
            if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                continue
            out.setdefault(n.func.attr, set()).add((len(n.args), tuple(k.arg for k in n.keywords)))
    return out


def interface(scene, only=False):
    """operations of the model interfaces (and of the models): name -> parameters (without self), number of defaults"""
    out = {}
    for m in ('interfaces', 'paramest.interfaces', 'models.nlg', 'models.rbpf', 'models.ltv', 'models.mlnlg', 'models.hierarchial'):
        if m.startswith('models') and only:
            continue
        mo = scene.mod(m)
        for nm, c in (scene.I.modframe(scene.s, mo).vars.items() if mo else ()):
            if not isinstance(c, Cls):
                continue
            for a, f in c.attrs.items():
                if not a.startswith('_') and hasattr(f, 'node') and isinstance(f.node, ast.FunctionDef):
                    ps, va, kwa = params(f)
                    out.setdefault(a, (tuple(ps[1:]), len(f.node.args.defaults)))
    return out


def val(s, name, memo):
    if name not in memo:
        if name in SCALARS:
            memo[name] = sc(mk_in('arg_' + name), 'i')
        else:
            memo[name] = s.own('arg_' + name, sym('n_' + name), sym('d_' + name))
    return memo[name]


def ident(a, b):
    if isinstance(a, ORef) and isinstance(b, ORef):
        return a.cid == b.cid
    if isinstance(a, AV) and isinstance(b, AV) and not a.shape and not b.shape:
        return a.body is b.body
    return a is b or a == b


class Ins(object):
    def __init__(self, missing=()):
        s = self.s = Scene()
        self.ifc = interface(s)
        self.got = []
        names = (set(interface(s, True)) | set(conventions(s)) | set(COUNT)) - set(missing)
        self.sig = {}
        hooks = {}
        for nm in names:
            hooks[nm] = Hook(nm, self.hook(nm))
        c = Cls('UserModel', [], hooks, s.mod('interfaces'))
        self.model = s.call(c)
        self.w = s.new('utils.intrument', 'Instrumenter', self.model)
        self.cnt0 = {}
        oc = self.oc()
        for k, v in list(s.s.get(oc.cid).attrs.items()):
            if k.startswith('cnt_'):
                self.cnt0[k] = sc(mk_in('start_' + k), 'i')
                META['start_' + k] = dict(int=True, nonneg=True)
                s.I.setattr(oc, k, self.cnt0[k], s.s)

    def oc(self):
        s = self.s
        a = s.s.get(self.w.cid).attrs
        for v in a.values():
            if isinstance(v, ORef) and v.cid != self.model.cid and isinstance(s.s.get(v.cid), ObjC) \
                    and any(k.startswith('cnt_') for k in s.s.get(v.cid).attrs):
                return v
        if any(k.startswith('cnt_') for k in a):
            return self.w
        raise Give('no counters')

    def hook(self, nm):
        def run(I, st, self_, args, kw, node):
            r = newarr(mkav((sym('n_result'),), lambda i: mk_in('res_' + nm, P(i))))
            self.got.append((nm, tuple(args), dict(kw), r))
            return r
        return run

    def counters(self):
        at = self.s.s.get(self.oc().cid).attrs
        return {k: v for k, v in at.items() if k.startswith('cnt_')}


def bind(sig, args, kw):
    """argument per parameter name; None when the call does not fit"""
    if sig is None:
        return dict(list(enumerate(args)) + list(kw.items()))
    ps = sig[0]
    if len(args) > len(ps):
        return None
    env = dict(zip(ps, args))
    for k, v in kw.items():
        if k not in ps or k in env:
            return None
        env[k] = v
    for p in ps[:len(ps) - sig[1]]:
        if p not in env:
            return None
    return env


def op_check(nm, npos, kws, none=()):
    m = Ins()
    s = m.s
    sig = m.ifc.get(nm)
    memo = {k: None for k in none}
    ps = list(sig[0]) if sig else ['a%d' % i for i in range(npos)]
    args = [val(s, p, memo) for p in ps[:npos]]
    kw = {k: val(s, k, memo) for k in kws}
    want = bind(sig, args, kw)
    if want is None:
        return Verdict(None, 'the call does not fit the interface')
    e0 = len(s.I.events)
    r = s.meth(m.w, nm, *args, **kw)
    out = [('forwarded once', Verdict(len(m.got) == 1 and m.got[0][0] == nm, 'model operations called: %s' % [g[0] for g in m.got]))]
    if len(m.got) != 1:
        return out
    got = bind(sig, m.got[0][1], m.got[0][2])
    if got is None:
        out.append(('same arguments', Verdict(False, 'the arguments forwarded do not fit the operation')))
    else:
        for p in want:
            out.append(('argument %s' % p, Verdict(p in got and ident(got[p], want[p]), 'another value forwarded')))
        for p in set(got) - set(want):
            d = sig[0].index(p) if sig else -1
            out.append(('argument %s' % p, Verdict(got[p] is None, 'an argument not given is forwarded')))
    out.append(('result', Verdict(ident(r, m.got[0][3]), 'another value returned')))
    out.append(('arguments unchanged', unwritten(s.I.events[e0:])))
    c1 = m.counters()
    cn, ls = COUNT.get(nm, (None, None))
    for k in sorted(c1):
        if cn is None and k == cn:
            continue
        w = m.cnt0.get(k)
        if w is None:
            continue
        if k == cn:
            n = None
            for a in ls:
                if want.get(a) is None and nm == 'propose_smooth':
                    a = 'find'
                x = s.I.length(want[a], s.s)
                x = x if isinstance(x, Poly) else s.av(x).body
                n = x if n is None else npmodel.mk_max2(n, x)
            w = sc(w.body + n, 'i')
        out.append(('counter ' + k, same(s, c1[k], w)))
    if cn is not None:
        out.append(('counter present', Verdict(cn in c1, cn + ' missing')))
    return out


def c26(rep, tier):
    s = Scene()
    con = conventions(s)
    ifc = interface(s)
    names = sorted(set(con) | set(interface(s, True)) | set(COUNT))

    def ob(name, where, fn):
        def go():
            n = len(SEEN)
            try:
                return fn()
            finally:
                for x in SEEN[n:]:
                    rep.absorb(x)
        rep.obligation(name, FILE + ':' + where, go)
    for nm in names:
        forms = set(con.get(nm, ()))
        if nm in ifc:
            forms.add((len(ifc[nm][0]), ()))
            forms.add((len(ifc[nm][0]) - ifc[nm][1], ()))
        for npos, kws in sorted(forms):
            tag = '%s(%s)' % (nm, ', '.join(['.'] * npos + [k + '=' for k in kws]))
            ob('forwarding of ' + tag, 'Instrumenter.' + nm, lambda nm=nm, npos=npos, kws=kws: op_check(nm, npos, kws))
        if nm in ('propose_smooth', 'logp_proposal'):
            full = len(ifc[nm][0]) if nm in ifc else 9
            for none in (('ptraj', 'anc'), ('future_trajs', 'find'), ('ptraj', 'anc', 'future_trajs', 'find')):
                if none[-1] == 'find' and len(none) == 4:
                    continue
                ob('forwarding of %s without %s' % (nm, none[0]), 'Instrumenter.' + nm,
                   lambda nm=nm, none=none, full=full: op_check(nm, full, (), none))
    for p in ('print_statistics', 'print_total_ops'):
        def pr(p=p):
            m = Ins()
            m.s.meth(m.w, p)
            bad = [k for k, v in m.counters().items() if v.body is not m.cnt0[k].body]
            return [('prints', Verdict(True)), ('no operation called', Verdict(not m.got, 'model called')),
                    ('counters unchanged', Verdict(not bad, ', '.join(bad)))]
        ob(p, 'Instrumenter.' + p, pr)

    def absent():
        m = Ins(missing=('logp_xnext_max_full_extra',))
        try:
            m.s.I.getattr(m.w, 'no_such_operation', m.s.s)
        except RaiseOut as e:
            return Verdict(e.exc.name == 'AttributeError', 'raises ' + e.exc.name)
        return Verdict(False, 'an operation the model does not have is offered')
    ob('operations the model lacks', 'Instrumenter', absent)

    def start():
        s = Scene()
        c = Cls('UserModel', [], {}, s.mod('interfaces'))
        w = s.new('utils.intrument', 'Instrumenter', s.call(c))
        at = s.s.get(w.cid).attrs
        oc = [s.s.get(v.cid).attrs for v in at.values() if isinstance(v, ORef) and isinstance(s.s.get(v.cid), ObjC)] + [at]
        cs = {k: v for a in oc for k, v in a.items() if k.startswith('cnt_')}
        return [('counter ' + k, same(s, v, sc(ZERO, 'i'))) for k, v in sorted(cs.items())]
    ob('counters start at zero', 'Instrumenter.__init__', start)

    def add():
        s = Scene()
        f = s.get('utils.intrument', 'OpCount')
        ini = f.attrs['__init__']
        ps = params(ini)[0][1:]
        a = s.call(f, **{p: sc(mk_in('a_' + p), 'i') for p in ps})
        b = s.call(f, **{p: sc(mk_in('b_' + p), 'i') for p in ps})
        r = s.meth(a, '__add__', b)
        return [('sum of ' + p, same(s, s.attr(r, p), sc(mk_in('a_' + p) + mk_in('b_' + p), 'i'))) for p in ps]
    ob('sum of counters', 'OpCount.__add__', add)


SEEN = []
_init = Ins.__init__


def _reg(self, *a, **k):
    _init(self, *a, **k)
    SEEN.append(self.s)


Ins.__init__ = _reg
