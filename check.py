#!/opt/venv/bin/python
"""Entry point of every check.

  check.py C01 [--tier quick|thorough] [--seed N]   run the check
  check.py C01 --replay FILE                         re-run one saved case
  check.py all --tier quick                          every property
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def reexec():
    """Fixed environment: the interpreter of the project, hash seed 0, UTC, no
    byte-code files, and curvepy taken from the working tree."""
    if os.environ.get('VF_ENV') == '1':
        return
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONHOME', 'PYTHONPYCACHEPREFIX')}
    repo = env.get('VF_REPO', '/repo')
    env.update(VF_ENV='1', PYTHONHASHSEED='0', TZ='UTC', LANG='C.UTF-8', LC_ALL='C.UTF-8',
               PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', PYTHONWARNINGS='ignore', PYTHONPATH=repo,
               HYPOTHESIS_NO_PLUGINS='1', HYPOTHESIS_STORAGE_DIRECTORY='/nonexistent/vf')
    # a fresh, empty byte-code cache: no stale .pyc can stand in for a source
    env['PYTHONPYCACHEPREFIX'] = '/nonexistent/vf-pycache'
    os.execve(PY, [PY, '-B', os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--facet', action='append')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--worker', type=int)
    ap.add_argument('--out')
    ap.add_argument('--max-s', type=float)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    sys.path.append(TOOLS)
    sys.setrecursionlimit(3000)
    from vf import core, report
    if a.worker is not None:
        core.worker(a.prop, a.tier, a.seed, a.worker, a.out, a.facet, a.scale, a.max_s)
        return 0
    if a.replay:
        return report.replay(a.prop, a.replay)
    if a.prop == 'setup':
        import hypothesis, curvepy
        print('ok', hypothesis.__version__, curvepy.__file__)
        return 0
    if a.prop == 'all':
        rc = 0
        for p in report.all_props():
            rc = max(rc, report.run_check(p, a))
        return rc
    return report.run_check(a.prop, a)


if __name__ == '__main__':
    reexec()
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
