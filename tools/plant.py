"""Plant bugs: python3 tools/plant.py SPEC.py [id ...]

SPEC.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)],
demo (Python source run with the repository on sys.path), needs, breaks.
Each is confirmed in a scratch copy (patch applies, stable tests pass, demo
passes without and fails with the change), its check is run against the copy,
and it is written to seeded/<id>/.  A development tool; no check uses it."""
import json, os, shutil, subprocess, sys, runpy
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO = '''#!/bin/bash
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg HF_HUB_OFFLINE=1 TRANSFORMERS_OFFLINE=1 CUDA_VISIBLE_DEVICES=
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, env=None, t=900):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)


def one(b):
    w = f'/tmp/plant.{b["id"]}'
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True, ignore=shutil.ignore_patterns('runs'))
    try:
        return b['id'], work(b, w)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def work(b, w):
    for f, old, new in b['edits']:
        s = open(f'{w}/{f}').read()
        if s.count(old) != 1:
            return f'edit of {f} matches {s.count(old)} times'
        open(f'{w}/{f}', 'w').write(s.replace(old, new))
    diff = sh(['git', 'diff', '--', 'lambeq'], w).stdout
    out = os.path.join(HERE, 'seeded', b['id'])
    tmp = f'{w}.demo'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        open(f'{tmp}/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(f'{tmp}/demo.sh', 'w').write(DEMO)
        os.chmod(f'{tmp}/demo.sh', 0o755)
        a = sh(['bash', f'{tmp}/demo.sh'], '/repo', t=300)
        if a.returncode:
            return 'demo fails on the unchanged tree: ' + a.stderr[-600:] + a.stdout[-300:]
        c = sh(['bash', f'{tmp}/demo.sh'], w, t=300)
        if not c.returncode:
            return 'demo passes with the change'
        env = dict(os.environ, HOME='/root', LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
                   HF_HUB_OFFLINE='1', TRANSFORMERS_OFFLINE='1', CUDA_VISIBLE_DEVICES='', OMP_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1', PYTHONPATH=w)
        sh(['/opt/venv/bin/python', '-m', 'pytest', 'lambeq', 'tests', '--doctest-modules', '-q', '-p', 'no:cacheprovider',
            '--timeout=300', '--continue-on-collection-errors', '--ignore=tests/text2diagram/test_depccg_parser.py',
            '--ignore=tests/text2diagram/test_pregroup_tree_converter.py', '--ignore=tests/test_tokeniser.py',
            '-o', 'junit_family=xunit2', f'--junitxml={tmp}/junit.xml'], w, env)
        sh(['python3', '/opt/vp/results.py', f'{tmp}/out.json', f'junit:{tmp}/junit.xml'], w)
        lost = STABLE - set(json.load(open(f'{tmp}/out.json'))['passed'])
        if lost:
            return f'{len(lost)} stable tests fail: {sorted(lost)[:3]}'
        env = dict(os.environ, LAMBEQ_REPO=w, LINT_NOEVIDENCE='1')
        r = sh(['python3', '-m', 'lint.run', b['property']], HERE, env)
        os.makedirs(out, exist_ok=True)
        open(f'{out}/patch.diff', 'w').write(diff)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(f'{tmp}/{f}', f'{out}/{f}')
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
                  open(f'{out}/meta.json', 'w'), indent=1)
        v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'violat' in l.lower()]
        return f'kept; demo: {(c.stderr or c.stdout).strip().splitlines()[-1][:120]!r}; check exit {r.returncode} {v[:1]}'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = set(sys.argv[2:])
    bugs = [b for b in bugs if not want or b['id'] in want]
    with ThreadPoolExecutor(6) as ex:
        for i, r in ex.map(one, bugs):
            print(f'{i}: {r}')
