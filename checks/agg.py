"""Aggregates over every analysis context of the other checks: C27 (members), C28 (arguments unchanged), C30 (shapes)."""
import hashlib
import importlib
import os
import pickle
import re
import selectors
import sys
import time
import traceback
from pest import interp as _interp, scene as _scene
from pest.scene import *

SKIP = ('operations the model lacks', 'repeated use', 'used before')
SHARDS = {'C24': 8, 'C16': 8, 'C22': 8, 'C17': 4, 'C18': 4, 'C19': 4, 'C23': 4, 'C20': 2}
KINDS = {
    'C27': {'attrerror', 'nameerror', 'unbound', 'binderr', 'typeerror'},
    'C28': {'write-input'},
    'C30': {'shape', 'indexerror'},
}
EXC = {
    'C27': ('NameError', 'AttributeError', 'TypeError', 'ImportError', 'UnboundLocalError'),
    'C28': (),
    'C30': ('ValueError', 'IndexError', 'LinAlgError'),
}


class Agg(object):
    """runs the obligations of another check and keeps what concerns one aggregate property"""

    def __init__(self, rep, src):
        self.rep, self.src = rep, src
        self.analysed, self.files, self.events, self.extra = rep.analysed, rep.files, 0, rep.extra

    queue = None
    limit = 240.0

    def defer(self):
        if self.queue is None:
            self.queue = []

    def absorb(self, scene):
        pass

    def add(self, *a, **k):
        pass

    def verdict(self, *a, **k):
        pass

    def obligation(self, name, construct, fn):
        if any(x in name for x in SKIP):
            return
        if self.queue is None:
            self.run(name, construct, fn)
        else:
            self.queue.append((name, construct, fn))

    def run(self, name, construct, fn):
        prop = self.rep.prop

        def go():
            del _interp.WATCHED[:]
            sub = Report(prop)
            _scene.LIGHT[0] = True
            try:
                sub._obligation(name, construct, fn)
            finally:
                _scene.LIGHT[0] = False
            return self.judge(sub)
        self.rep.limit = self.limit
        self.rep.obligation('%s: %s' % (self.src, name), construct, go)

    def judge(self, sub):
        prop = self.rep.prop
        out = []
        seen = set()
        for e in _interp.WATCHED:
            if e.kind in KINDS[prop]:
                w = e.where if hasattr(e, 'where') else None
                msg = '%s %s at %s' % (e.kind, e.data.get('msg') or e.data.get('name') or '', fmt(e))
                if msg not in seen:
                    seen.add(msg)
                    out.append(('analysed paths', Verdict(False, msg[:400])))
        del _interp.WATCHED[:]
        for o in sub.obs:
            if o['status'] == 'fail':
                d = o['detail']
                if any(d.startswith('raises ' + x) for x in EXC[prop]) and not out:
                    out.append(('analysed paths', Verdict(False, d[:400])))
                if prop == 'C30' and (d.startswith('shape (') or d.startswith('rank ')):
                    out.append((o['name'], Verdict(False, d[:400])))
        und = [o for o in sub.obs if o['status'] == 'undecided']
        if not out:
            if sub.obs and len(und) == len(sub.obs):
                return Verdict(None, und[0]['detail'])
            return Verdict(True, 'no such event on the analysed paths')
        return out


def fmt(e):
    s = e.site if hasattr(e, 'site') else ''
    return ' '.join(map(str, s)) if isinstance(s, tuple) else str(s)


def heavy(p, name):
    """obligations left to the thorough tier: longer runs and single derivatives of configurations kept otherwise"""
    if p == 'C22':
        return '3 steps' in name or ('2 steps' in name and '[mixed' in name and 'no measurement matrix' not in name)
    if p == 'C24':
        return bool(re.search(r'\[mixed, .*derivatives [afq]\]', name))
    return False


def shard(p, mod, fn, prop, k, n, tier):
    """obligations k, k+n, ... of check p (all of them when the check does not queue)"""
    rep = Report(prop)
    agg = Agg(rep, p)
    getattr(importlib.import_module('checks.' + mod), fn)(agg, 'quick')
    if agg.queue is None:
        return rep
    order = sorted(range(len(agg.queue)), key=lambda i: hashlib.md5(repr(agg.queue[i][:2]).encode()).hexdigest())
    for i in order[k::n]:
        if tier == 'thorough' or not heavy(p, agg.queue[i][0]):
            agg.run(*agg.queue[i])
    return rep


def aggregate(rep, tier):
    from . import table
    only = os.environ.get('PEST_AGG')
    done, items = set(), []
    for p, v in sorted(table.CHECKS.items()):
        mod, fn = v[:2]
        if mod in ('agg', 'comb') or (mod, fn) in done or (only and p not in only.split(',')):
            continue
        done.add((mod, fn))
        n = SHARDS.get(p, 1)
        items += [(p, mod, fn, rep.prop, k, n, tier) for k in range(n)]
    items.sort(key=lambda x: -x[5])
    run = {}
    todo = list(enumerate(items))
    got = {}
    sys.stdout.flush()
    sel = selectors.DefaultSelector()
    while todo or run:
        while todo and len(run) < 8:
            i, it = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    t = time.time()
                    sub = shard(*it)
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump((sub.obs, sub.analysed, sub.files, sub.events, time.time() - t), f)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(w)
            run[r] = (pid, i, [])
            sel.register(r, selectors.EVENT_READ)
        for key, _ in sel.select():
            r = key.fd
            d = os.read(r, 1 << 20)
            if d:
                run[r][2].append(d)
                continue
            sel.unregister(r)
            os.close(r)
            pid, i, data = run.pop(r)
            os.waitpid(pid, 0)
            got[i] = pickle.loads(b''.join(data)) if data else None
    for i, it in enumerate(items):
        if got[i] is None:
            rep.add('%s part %d' % (it[0], it[4]), 'undecided', 'whole package', 'analysis worker ended')
            continue
        obs, an, fi, ev, t = got[i]
        rep.obs += obs
        rep.analysed |= an
        rep.files |= fi
        rep.events += ev
        if os.environ.get('PEST_VERBOSE'):
            print('  part %s %d/%d: %d obligations %.1fs' % (it[0], it[4], it[5], len(obs), t))


def c27(rep, tier):
    from . import names
    names.run(rep, tier)
    aggregate(rep, tier)


def c28(rep, tier):
    aggregate(rep, tier)


def c30(rep, tier):
    aggregate(rep, tier)
