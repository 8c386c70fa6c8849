#!/usr/bin/python3
"""Development aid: undoes each repair of known_findings.json in a scratch copy; its check must report the violation again.

  reverts.py [COMMIT ...] [-j N]
"""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/reverts'


def one(e, all_):
    d = '%s/%s' % (W, e['commit'])
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('*.so', 'build'))
    p = subprocess.run(['git', '-C', d, 'revert', '--no-commit', e['commit']], capture_output=True, text=True)
    out = 'conflict'
    if p.returncode == 0:
        env = dict(os.environ, VERIF_REPO=d, VERIF_CACHE=W + '/cache', VERIF_EVID=d + '.evid', PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run(['/opt/venv/bin/python', V + '/pbt/run.py', e['property'], '--tier', 'quick'], env=env, capture_output=True, text=True)
        out = {0: 'MISSED', 1: 'reported'}.get(p.returncode, 'error %s' % p.stdout[-300:])
    print(e['property'], e['commit'], out, '' if out == 'reported' else e['what'], flush=True)
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(d + '.evid', ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('commits', nargs='*')
    ap.add_argument('-j', type=int, default=3)
    args = ap.parse_args()
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(W + '/cache'):
        shutil.copytree(V + '/.cache', W + '/cache', ignore=shutil.ignore_patterns('trees', 'lock'))
    es = [e for e in json.load(open(V + '/known_findings.json'))['findings'] if e['status'] == 'fixed' and (not args.commits or e['commit'] in args.commits)]
    with cf.ThreadPoolExecutor(args.j) as ex:
        list(ex.map(lambda e: one(e, args), es))



main()
