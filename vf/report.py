"""Orchestration: workers, known findings, replay files, evidence."""
import glob
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

from . import core

VERIF = core.VERIF
CHECK = os.path.join(VERIF, 'check.py')
KNOWN = os.path.join(VERIF, 'known_findings.json')


def all_props():
    with open(os.path.join(VERIF, 'MANIFEST.json')) as f:
        return [c['property'] for c in json.load(f)['checks']]


def known_findings(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def _prepare():
    import warnings
    warnings.simplefilter('ignore')
    import curvepy
    assert os.path.realpath(curvepy.__file__).startswith(core.PKG_DIR), curvepy.__file__
    core.STEPS.install()


def find_facet(prop, name):
    for fc in core.load(prop).FACETS:
        if fc.name == name:
            return fc
    raise KeyError(name)


def execute(prop, rec):
    """Run one saved case. Returns None or the violation message."""
    fc = find_facet(prop, rec['facet'])
    try:
        core.run_case(fc, rec['case'])
    except core.Skip as e:
        return None
    except core.Violation as e:
        return str(e)
    return None


def replay(prop, path):
    _prepare()
    with open(path) as f:
        rec = json.load(f)
    msg = execute(prop, rec)
    if msg is None:
        print(f'replay {path}: property {prop} held')
        return 0
    print(f'{prop}/{rec["facet"]}: {msg}')
    print(f'VIOLATION property={prop} replay={path}')
    return 1


def write_replay(prop, v):
    d = os.path.join(VERIF, 'replays', prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{v["facet"]}-{core.case_key(v["facet"], v["case"])}.json')
    with open(path, 'w') as f:
        json.dump({'property': prop, 'facet': v['facet'], 'message': v['message'], 'case': v['case']}, f, indent=1)
    return path


def run_check(prop, a):
    t0 = time.monotonic()
    _prepare()
    mod = core.load(prop)
    violations = []
    regress = {'run': 0}

    # 1. seconds-long replay tier: saved minimal cases of past failures
    for path in sorted(glob.glob(os.path.join(VERIF, 'regress', prop, '*.json'))):
        with open(path) as f:
            rec = json.load(f)
        regress['run'] += 1
        msg = execute(prop, rec)
        if msg is not None:
            violations.append({'facet': rec['facet'], 'case': rec['case'], 'message': msg, 'path': path})

    # 2. known findings: announced, never silenced by anything but their case
    for k in known_findings(prop):
        msg = execute(prop, k)
        if msg is not None:
            print(f'KNOWN-FINDING: property={prop} {k["what"]}')
        else:
            print(f'note: known finding no longer fails: property={prop} {k["what"]}')

    # 3. generated search
    results = []
    if not violations:
        with tempfile.TemporaryDirectory(prefix='vf-') as tmp:
            procs = []
            for i in range(a.workers):
                out = os.path.join(tmp, f'{i}.json')
                cmd = [sys.executable, '-B', CHECK, prop, '--tier', a.tier, '--seed', str(a.seed),
                       '--worker', str(i), '--out', out, '--scale', str(a.scale)]
                max_s = a.max_s or getattr(mod, 'MAX_S', {}).get(a.tier, 420 if a.tier == 'quick' else 700)
                cmd += ['--max-s', str(max_s)]
                for f in a.facet or []:
                    cmd += ['--facet', f]
                log = open(os.path.join(tmp, f'{i}.log'), 'w+')
                procs.append((i, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT), out, log))
            err = None
            for i, p, out, log in procs:
                rc = p.wait()
                if rc != 0 or not os.path.exists(out):
                    log.seek(0)
                    err = f'worker {i} of {prop} ended with {rc}:\n{log.read()[-4000:]}'
                    continue
                with open(out) as f:
                    results.append(json.load(f))
        found = [r['violation'] for r in results if r['violation'] is not None]
        if found:
            found.sort(key=lambda v: (len(json.dumps(v['case'])), v['worker']))
            violations.append(found[0])
        elif err is not None:
            print(err)
            return 2

    # 4. evidence
    facets = {}
    labels = {}
    excluded = {}
    nontrivial = set()
    samples = []
    evaluations = 0
    cut = 0
    for r in results:
        for name, s in r['facets'].items():
            fs = facets.setdefault(name, {'evaluations': 0, 'nontrivial': set(), 'labels': {}})
            fs['evaluations'] += s['evaluations']
            fs['nontrivial'].update(s['nontrivial'])
            evaluations += s['evaluations']
            cut += s.get('cut_short', 0)
            nontrivial.update(s['nontrivial'])
            for k, v in s['labels'].items():
                fs['labels'][k] = fs['labels'].get(k, 0) + v
            for k, v in s['excluded'].items():
                excluded[k] = excluded.get(k, 0) + v
            if sum(1 for x in samples if x['facet'] == name) < 1:
                samples += s['samples'][:1]
    for fs in facets.values():
        fs['nontrivial'] = len(fs['nontrivial'])
    ev = {
        'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(nontrivial),
            'rule': mod.RULE,
            'samples': samples,
            'facets': facets,
            'excluded_known_findings': excluded,
            'regression_replays': regress['run'],
            'workers': a.workers,
            'cases_not_run_for_time': cut,
            'peak_steps_in_curvepy': max([r.get('peak_steps', 0) for r in results] or [0]),
            'exhaustive': False,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(violations),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    if violations:
        v = violations[0]
        path = v.get('path') or write_replay(prop, v)
        print(f'{prop}/{v["facet"]}: {v["message"]}')
        print(f'case: {json.dumps(v["case"])[:1500]}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print(f'{prop}: held on {evaluations} cases ({len(nontrivial)} distinct non-trivial), {ev["wall_s"]} s'
          + (f', {cut} cases not run for time' if cut else ''))
    return 0
