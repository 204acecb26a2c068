#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property on the current source of /repo"""
import importlib
import os
import sys

VT = '/opt/veriftools/pyvenv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))
if not sys.prefix.startswith('/opt/veriftools/pyvenv') and os.environ.get('PEST_EXEC') != '1':
    os.environ['PEST_EXEC'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ.setdefault(k, '1')
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(VT, [VT, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    from pest import scene
    from checks import table
    modname, fn = table.CHECKS[prop][:2]
    mod = importlib.import_module('checks.' + modname)
    rep = scene.Report(prop)
    getattr(mod, fn)(rep, tier)
    rep.flush()
    return scene.finish(rep, tier, table.CHECKS[prop][2], table.CHECKS[prop][3])


if __name__ == '__main__':
    sys.exit(main())
