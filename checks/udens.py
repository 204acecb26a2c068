"""C29 density of the sum of two uniforms."""
from fractions import Fraction
from pest.scene import *

FILE = 'pyparticleest/utils/pdf.py'
FORMS = ['array', 'list', 'tuple']


def pair(s, name, lo, hi, form):
    if form == 'array':
        return newarr(mkav((const(2),), lambda i: (ONEP - P(i)) * lo + P(i) * hi))
    if form == 'list':
        return ORef(alloc(ListC([sc(lo), sc(hi)], 'list')))
    return (sc(lo), sc(hi))


def run(rep, tier):
    pts = 24 if tier == 'quick' else 200
    a, c = mk_in('a'), mk_in('b')
    for k in ('wa', 'wb', 'q', 'r'):
        META[k] = dict(pos=True)
    wa, wb, q, r = mk_in('wa'), mk_in('wb'), mk_in('q'), mk_in('r')
    fr = q * ppow(q + r, -1)        # in (0, 1)
    cases = []
    # every region of the evaluation point, for either interval the wider one
    for wide in ('first', 'second', 'equal'):
        w1 = wa + wb if wide == 'first' else wa
        w2 = wa if wide in ('first', 'equal') else wa + wb
        lo, hi = a + c, a + c + w1 + w2
        sm, lg = (w2, w1) if wide == 'first' else (w1, w2)
        regs = [('below', lo - q), ('rising', lo + fr * sm), ('falling', lo + lg + fr * sm), ('above', hi + q),
                ('lower end', lo), ('upper end', hi)]
        if wide != 'equal':
            regs += [('flat', lo + sm + fr * (lg - sm))]
        for reg, p in regs:
            cases.append((wide, w1, w2, reg, p))
    for wide, w1, w2, reg, p in cases:
        for swa in (False, True):
            for swb in (False, True):
                for form in FORMS if not swa and not swb else FORMS[:1]:
                    box = []

                    def go():
                        s = Scene()
                        s.points = pts
                        box.append(s)
                        A = pair(s, 'a', a + w1 if swa else a, a if swa else a + w1, form)
                        B = pair(s, 'b', c + w2 if swb else c, c if swb else c + w2, form)
                        o = s.new('utils.pdf', 'unifsum', A, B)
                        v = s.call(o, sc(p))
                        x0, y0 = s.array((const(2),), lambda i: (ONEP - P(i)) * a + P(i) * (a + w1)), s.array((const(2),), lambda i: (ONEP - P(i)) * c + P(i) * (c + w2))
                        return same(s, v, s.ref('pdf', 'unifsum', x0, y0, sc(p)))
                    rep.obligation('density, %s interval wider, point %s%s%s (%s)' % (
                        wide, reg, ', first reversed' if swa else '', ', second reversed' if swb else '', form),
                        FILE + ':unifsum.__call__', go)
                    for s in box:
                        rep.absorb(s)
