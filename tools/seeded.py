"""
Verify the planted bugs and which of them the checks catch.

    python tools/seeded.py [ID...] [--no-check] [--seed N]

For each /verif/seeded/<id>, in a scratch copy of /repo: the patch applies, the
modules compile, the stable tests pass, the demonstration fails with the patch
and passes without it, and the check of the property is run on the copy.
"""

import argparse
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
PY = '/opt/venv/bin/python'
TESTS = ['tests/test_jaxext.py', 'tests/test_meta.py', 'tests/test_prepcovars.py']


def run(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', **env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
    return p.returncode, p.stdout + p.stderr


def prepare(bug):
    d = os.path.join(SEEDED, bug)
    work = tempfile.mkdtemp(prefix='seed_')
    repo = os.path.join(work, 'repo')
    subprocess.run(['cp', '-a', '/repo', repo], check=True)
    out = dict(bug=bug, repo=repo, work=work)
    demo = os.path.join(work, 'demo')
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    demo = os.path.join(demo, 'demo.sh')
    out['demo_clean'], out['log_clean'] = run(['bash', demo], repo, 300)
    rc, log = run(['git', 'apply', os.path.join(d, 'patch.diff')], repo)
    out['apply'] = rc
    if rc:
        print(log)
        return out
    out['tests'], out['log_tests'] = run(
        [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', *TESTS],
        repo, PYTHONPATH=os.path.join(repo, 'src'))
    out['demo_bug'], out['log_bug'] = run(['bash', demo], repo, 300)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--no-check', action='store_true')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--jobs', type=int, default=4)
    args = ap.parse_args()
    ids = args.ids or sorted(os.listdir(SEEDED))

    with concurrent.futures.ThreadPoolExecutor(args.jobs) as pool:
        results = list(pool.map(prepare, ids))

    for r in results:
        ok = r.get('apply') == 0 and r['tests'] == 0 and r['demo_clean'] == 0 and r['demo_bug'] not in (0, 124)
        line = f'{r["bug"]}: {"valid" if ok else "INVALID"} tests={r.get("tests")} clean={r["demo_clean"]} bug={r.get("demo_bug")}'
        if not ok:
            for k in ('log_clean', 'log_tests', 'log_bug'):
                print('   ', k, r.get(k, '')[-600:].replace('\n', '\n        '))
        else:
            line += ' | ' + (r['log_bug'].strip().splitlines() or [''])[-1][:110]
        print(line, flush=True)
        if ok and not args.no_check:
            prop = json.load(open(os.path.join(SEEDED, r['bug'], 'meta.json')))['property']
            t = time.time()
            rc, log = run([PY, '-B', 'check.py', prop, '--tier', 'quick', '--seed', args.seed], ROOT, VERIF_REPO=r['repo'])
            viol = [l for l in log.splitlines() if l.startswith('VIOLATION')]
            print(f'    check {prop}: rc={rc} {"CAUGHT" if rc == 1 and viol else "MISSED"} {time.time() - t:.0f}s {viol[:1]}', flush=True)
        shutil.rmtree(r['work'])


if __name__ == '__main__':
    main()
