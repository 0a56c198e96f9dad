#!/usr/bin/env python3
"""seed.py make FILE | try ID...

make: FILE is a python file that defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(path, old, new)], DEMO (python source). Confirms that the change builds,
passes the stable tests and is shown by the demonstration, then writes seeded/<ID>/. try: runs the check of the property on the planted change."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUB = '''#!/bin/bash
# run with cwd /repo
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
export XDG_CACHE_HOME="$W/cache" XDG_DATA_HOME="$W/data" XDG_CONFIG_HOME="$W/config" HOME="$W" TMPDIR="$W" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" SCRATCH="$W" TQDM_DISABLE=1
/opt/venv/bin/python "$D/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh('git -C /repo checkout -- .')
    assert not sh('git -C /repo status --short').stdout.strip()


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    assert not sh('git -C /repo status --short').stdout.strip(), '/repo is not clean'
    d = os.path.join(HERE, 'seeded', ns['ID'])
    os.makedirs(d, exist_ok=True)
    with open(d + '/demo.py', 'w') as fp:
        fp.write(ns['DEMO'].lstrip('\n'))
    with open(d + '/demo.sh', 'w') as fp:
        fp.write(STUB)
    with open(d + '/meta.json', 'w') as fp:
        json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, fp, indent=1)
        fp.write('\n')
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    ok = r.returncode == 0
    print(ns['ID'], 'demo on the unchanged tree:', r.returncode, '' if ok else r.stdout[-600:])
    try:
        for f, old, new in ns['EDITS']:
            p = os.path.join('/repo', f)
            s = open(p).read()
            if s.count(old) != 1:
                print('   edit of', f, 'matches', s.count(old), 'times')
                return 1
            open(p, 'w').write(s.replace(old, new))
        with open(d + '/patch.diff', 'w') as fp:
            fp.write(subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE, text=True).stdout)
        b = sh('bash /opt/vp/build.sh')
        out = '/tmp/seed-test.json'
        sh('bash /opt/vp/test.sh ' + out)
        t = json.load(open(out))
        missing = sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(t.get('passed', t.get('pass', []))))
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        print('   build', b.returncode, 'missing tests', missing, 'demo', r.returncode, r.stdout[-200:].replace('\n', ' | '))
        ok = ok and b.returncode == 0 and not missing and r.returncode != 0
    finally:
        clean()
    if not ok:
        print('   REJECTED')
    return ok


def trial(ids, props=None):
    assert not sh('git -C /repo status --short').stdout.strip(), '/repo is not clean'
    for i in ids:
        d = os.path.join(HERE, 'seeded', i)
        prop = props or [json.load(open(d + '/meta.json'))['property']]
        r = sh('git -C /repo apply %s/patch.diff' % d)
        assert r.returncode == 0, (i, r.stdout)
        try:
            for p in prop:
                t = time.time()
                r = sh('python3 run.py ' + p, cwd=HERE, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
                print(i, p, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR %s' % r.returncode), '%.0fs' % (time.time() - t), r.stdout[:300].replace('\n', ' | '), flush=True)
        finally:
            clean()


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        for f in sys.argv[2:]:
            make(f)
    else:
        trial(sys.argv[2:] or sorted(os.listdir(os.path.join(HERE, 'seeded'))))
