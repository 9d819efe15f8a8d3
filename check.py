#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]: runs the monitors of a property against /repo's working tree."""

import argparse
import collections
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
SHARDS = int(os.environ.get('VERIF_SHARDS', '4'))      # per backend
CAP = {'quick': 250, 'thorough': 600}
KILL = {'quick': 700, 'thorough': 840}


def env_for(backend, hashseed):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'FORCE_STD_XML'))}
    env.update(
        PYTHONPATH='%s:%s' % (REPO, VERIF), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(hashseed), VERIF_REPO=REPO,
        FORCE_STD_XML='true' if backend == 'std' else 'false', LC_ALL='C.UTF-8', PYTHONWARNINGS='ignore',
    )
    return env


def meta(prop):
    """Reads the constants of a property module without importing the library."""
    import ast
    tree = ast.parse(open(os.path.join(VERIF, 'props', prop.lower() + '.py'), encoding='utf-8').read())
    out = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    prop, t0 = a.prop, time.monotonic()
    info = meta(prop)
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        if a.replay:
            rep = json.load(open(a.replay))
            jobs = [(rep['backend'], rep.get('shard', 0), rep.get('nshards', SHARDS), str(rep['case']))]
            a.tier, a.seed = rep['tier'], rep['seed']
        else:
            shards = info.get('SHARDS', SHARDS)
            jobs = [(b, s, shards, None) for b in info.get('BACKENDS', ('lxml', 'std')) for s in range(shards)]
        procs = []
        for b, s, n, case in jobs:
            out = os.path.join(scratch, '%s-%d.json' % (b, s))
            cmd = [PYTHON, '-m', 'harness.worker', prop, a.tier, a.seed, b, str(s), str(n), out, '--cap', str(CAP[a.tier])]
            if case is not None:
                cmd += ['--case', case]
            log = open(out + '.log', 'wb')
            env = env_for(b, s)
            env['VERIF_SCRATCH'] = scratch
            procs.append((b, s, n, out, subprocess.Popen(cmd, cwd=scratch, env=env, stdout=log, stderr=subprocess.STDOUT)))
        results, errors = [], []
        for b, s, n, out, p in procs:
            try:
                rc = p.wait(max(1, KILL[a.tier] - (time.monotonic() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = 'killed by the watchdog'
            if rc == 0 and os.path.exists(out):
                r = json.load(open(out))
                r['nshards'] = n
                results.append(r)
            else:
                errors.append('worker %s/%d: %s\n%s' % (b, s, rc, open(out + '.log', errors='replace').read()[-3000:]))
        return conclude(a, prop, info, results, errors, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def conclude(a, prop, info, results, errors, t0):
    violations = [(r, v) for r in results for v in r['violations']]
    harness = [h for r in results for h in r['harness_errors']]
    stats = collections.Counter()
    per_backend = {}
    covered = set()
    samples = []
    lines = collections.defaultdict(set)
    for r in results:
        stats.update(r['stats'])
        per_backend.setdefault(r['backend'], collections.Counter()).update(r['stats'])
        covered.update(r['covered'])
        for f, ls in r['lines'].items():
            lines[f].update(ls)
    for k in range(3):
        for r in results:
            if k < len(r['samples']) and len(samples) < 6:
                samples.append(r['samples'][k])

    # results that have to be equal for both backends
    by_case = collections.defaultdict(dict)
    for r in results:
        for c, d in r['digests'].items():
            by_case[c][r['backend']] = (r, d)
    for c, d in sorted(by_case.items()):
        if len(d) == 2:
            stats['cross-backend comparisons'] += 1
            (r1, x), (r2, y) = d['lxml'], d['std']
            if x != y:
                diff = next(((i, p, q) for i, (p, q) in enumerate(zip(x, y)) if p != q), (len(x), len(y)))
                violations.append((r1, {'case': c, 'msg': 'the backends differ (lxml, std): %s' % (str(diff)[:3000],), 'detail': {}}))

    known = sorted({(k['id'], k['what']) for r in results for k in r['known']})
    evaluations = stats.get('evaluations', 0)
    inconclusive = []
    if errors:
        inconclusive += errors
    if harness:
        inconclusive += ['harness error in case %s:\n%s' % (h['case'], h['traceback']) for h in harness[:3]]
    if not a.replay:
        for k, n in info.get('MIN', {}).items():
            if stats.get(k, 0) < n:
                inconclusive.append('observed too little: %s = %d < %d' % (k, stats.get(k, 0), n))
        if not covered:
            inconclusive.append('nothing observed')

    if not a.replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {
            'property': prop, 'tier': a.tier, 'seed': int(a.seed), 'level': 'exploration',
            'coverage': {
                'evaluations': evaluations, 'distinct_nontrivial': len(covered), 'rule': info.get('RULE', ''),
                'samples': samples, 'observed': dict(sorted(stats.items())),
                'per_backend': {b: {k: c[k] for k in ('cases', 'evaluations') if k in c} for b, c in per_backend.items()},
                'library_lines_executed': {f: len(ls) for f, ls in sorted(lines.items())},
                'library_lines_executed_total': sum(len(x) for x in lines.values()),
            },
            'assumptions': info.get('ASSUMPTIONS', []),
            'wall_s': round(time.monotonic() - t0, 2),
            'violations': len(violations),
            'inconclusive': inconclusive[:3],
            'known_findings': [k[0] for k in known],
        }
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, 'evidence', '%s.json' % prop))

    for kid, what in known:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, kid, what))
    if violations:
        d = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        for i, (r, v) in enumerate(violations[:3]):
            path = os.path.join(d, '%s-%d.json' % (prop, i))
            with open(path, 'w') as f:
                json.dump({
                    'property': prop, 'tier': a.tier, 'seed': a.seed, 'backend': r['backend'], 'shard': r['shard'],
                    'nshards': r['nshards'], 'case': v['case'], 'msg': v['msg'], 'detail': v['detail'],
                    'how': 'python3 /verif/check.py %s --replay %s' % (prop, path),
                }, f, indent=1)
            print('-- %s case %s: %s' % (r['backend'], v['case'], v['msg'][:1500]))
            if a.replay:
                for k, t in v['detail'].items():
                    print('   %s:\n%s' % (k, t))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if inconclusive:
        print('INCONCLUSIVE property=%s' % prop)
        for x in inconclusive[:3]:
            print(x)
        return 2
    print('HELD property=%s tier=%s seed=%s: %d evaluations, %d distinct, %.1f s' % (
        prop, a.tier, a.seed, evaluations, len(covered), time.monotonic() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
