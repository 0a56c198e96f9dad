#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] | --replay FILE | --all

Runs the monitors of one property against /repo's working tree and writes evidence/<property>.json.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: inconclusive or error of the machinery.
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/venv/bin/python'
HASHSEEDS = ['0', '1', '2', '3', '42', '1234', '77777', '4294967295']


def env_for(scratch, hashseed):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('GIT_', 'PYTHON', 'XDG_'))}
    for d in ('home', 'cache', 'data', 'tmp', 'config'):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    env.update(HOME=os.path.join(scratch, 'home'), XDG_CACHE_HOME=os.path.join(scratch, 'cache'),
               XDG_DATA_HOME=os.path.join(scratch, 'data'), XDG_CONFIG_HOME=os.path.join(scratch, 'config'),
               TMPDIR=os.path.join(scratch, 'tmp'), PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1',
               PYTHONPATH=os.pathsep.join(['/repo', os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]),
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', GIT_CONFIG_NOSYSTEM='1', LC_ALL='C.UTF-8',
               TQDM_DISABLE='1')
    return env


def known_findings(prop):
    """{key: text} of the recorded findings (not of the repaired ones) of the property"""
    res = {}
    with open(os.path.join(HERE, 'known-findings.txt'), encoding='utf8') as fp:
        for line in fp:
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    return res


def info(prop):
    """the constants of the check module, without importing the library"""
    import ast
    path = os.path.join(HERE, 'checks', 'c' + prop[1:] + '.py')
    tree = ast.parse(open(path, encoding='utf8').read())
    res = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                res[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return res


def warm(scratch):
    """the parser tables are computed once, in the scratch cache of the run, and copied to the workers"""
    env = env_for(scratch, '0')
    subprocess.run([PYTHON, '-c', 'import instrument; instrument.install(); '
                    'from ieml.usl.usl import usl; usl("(a.)"); usl("[! E:A:. ()] [> \\"x\\"]")'],
                   env=env, cwd=scratch, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)


def run(prop, tier, seed, only=None, hashseed=None):
    t0 = time.time()
    meta = info(prop)
    nshards = 1 if only else meta.get('SHARDS', 8)
    budget = meta.get('BUDGET_THOROUGH', 1500) if tier == 'thorough' else meta.get('BUDGET', 240)
    deadline = t0 + budget
    scratch = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    results, errors = [], []
    try:
        if meta.get('WARM', True):
            warm(scratch)
        procs = []
        for k in range(nshards):
            d = os.path.join(scratch, 'w%d' % k)
            os.makedirs(d)
            if meta.get('WARM', True) and os.path.isdir(os.path.join(scratch, 'cache')):
                shutil.copytree(os.path.join(scratch, 'cache'), os.path.join(d, 'cache'), dirs_exist_ok=True)
            out = os.path.join(d, 'out.json')
            cmd = [PYTHON, os.path.join(HERE, 'lib', 'harness.py'), prop, tier, str(seed), str(k), str(nshards), d, out,
                   str(deadline)]
            if only:
                cmd += [only[0], str(only[1])]
            log = open(os.path.join(d, 'log'), 'w')
            hs = hashseed or HASHSEEDS[k % len(HASHSEEDS)]
            procs.append((k, out, log, subprocess.Popen(cmd, env=env_for(d, hs), cwd=d, stdout=log, stderr=log,
                                                        start_new_session=True)))
        for k, out, log, p in procs:
            try:
                rc = p.wait(timeout=max(1, deadline + meta.get('GRACE', 300) - time.time()))
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            log.close()
            if rc != 0 or not os.path.exists(out):
                errors.append('worker %d ended with %s\n%s' % (k, rc, open(log.name, errors='replace').read()[-3000:]))
            else:
                results.append(json.load(open(out)))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return meta, results, errors, time.time() - t0


def merge(meta, results):
    events, distinct, samples, violations, known, evaluations = {}, {}, [], [], {}, 0
    digests = {}
    compared = 0
    for r in results:
        evaluations += r['evaluations']
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in r['distinct'].items():
            distinct.setdefault(k, set()).update(v)
        samples += r['samples'][:2]
        violations += r['violations']
        known.update(r['known'])
        for k, v in r['digests'].items():
            if k in digests:
                compared += 1
                if digests[k] != v and len(violations) < 5:
                    violations.append({'message': 'processes with different hash seeds disagree on {}: {} / {}'.format(
                        k, digests[k], v), 'kind': 'digest', 'index': 0, 'case': k})
            else:
                digests[k] = v
    if digests:
        events['answers compared between processes with different hash seeds'] = compared
    return evaluations, events, distinct, samples, violations, known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true', help='the interpreter and the reference models can be loaded')
    a = ap.parse_args()
    if a.selftest:
        sys.exit(subprocess.run([PYTHON, '-c', 'import numpy, pandas, pygit2, ply, bidict, refscript, refusl; refscript.parse("wa.")'],
                                env=dict(os.environ, PYTHONPATH=os.path.join(HERE, 'lib'), PYTHONDONTWRITEBYTECODE='1')).returncode)
    seed = int(os.environ.get('VERIF_SEED') or 1)
    only = hashseed = None
    tier = a.tier
    if a.replay:
        rep = json.load(open(a.replay))
        a.property, tier, seed = rep['property'], rep.get('tier', 'quick'), rep.get('seed', seed)
        if rep['kind'] not in ('digest', 'import'):
            only, hashseed = (rep['kind'], rep['index']), rep.get('hashseed')
    prop = a.property
    meta, results, errors, wall = run(prop, tier, seed, only, hashseed)
    evaluations, events, distinct, samples, violations, known = merge(meta, results)
    listed = known_findings(prop)
    for key in list(known):
        if key not in listed:
            violations.append({'message': 'finding %s is not listed in known-findings.txt: %s' % (key, known[key]),
                               'kind': 'known', 'index': 0, 'case': known[key]})
    primary = meta.get('DISTINCT', 'case')
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': meta.get('LEVEL', 'exploration'),
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(distinct.get(primary, ())),
            'rule': meta['RULE'],
            'samples': samples[:12],
            'observed_events': dict(sorted(events.items())),
            'distinct_by_monitor': {k: len(v) for k, v in sorted(distinct.items())},
            'known_findings_observed': sorted(known),
            'workers': len(results),
        },
        'assumptions': meta.get('ASSUMPTIONS', []),
        'wall_s': round(wall, 1), 'violations': len(violations)}
    missing = [e for e in meta.get('REQUIRED', []) if not events.get(e)]
    if not a.replay:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fp:
            json.dump(evidence, fp, indent=1, ensure_ascii=False)
            fp.write('\n')
    for key, text in listed.items():
        if key in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if violations:
        d = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        for n, v in enumerate(violations[:5]):
            path = os.path.join(d, '%s-%d.json' % (prop, n))
            v.setdefault('property', prop)
            v.setdefault('tier', tier)
            v.setdefault('seed', seed)
            with open(path, 'w') as fp:
                json.dump(v, fp, indent=1)
            print('  %s[%s]: %s' % (v['kind'], v['index'], v['message'][:1500]))
            if v.get('case') not in (None, 'None'):
                print('    case: %s' % v['case'][:1500])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.exit(1)
    if errors:
        print('ERROR of the machinery:', *errors, sep='\n')
        sys.exit(2)
    if not a.replay and (missing or not evaluations):
        print('INCONCLUSIVE: never observed: %s' % missing)
        sys.exit(2)
    print('%s held: %d executions, %d distinct, %.1f s; %s' % (
        prop, evaluations, len(distinct.get(primary, ())), wall,
        ', '.join('%s=%d' % e for e in sorted(events.items()) if not e[0].startswith('cases'))[:600]))
    sys.exit(0)


if __name__ == '__main__':
    main()
