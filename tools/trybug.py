#!/usr/bin/python3
"""Development aid: confirms planted bugs in scratch copies of /repo and runs checks against them.

  trybug.py ID [ID...] [--checks C04,C05 | --all | --own] [--seed N]

For each seeded/<ID>: copies /repo, runs demo.sh unchanged (must pass), applies the patch, builds, runs the stable
tests, runs demo.sh (must fail), then the checks (own: those of its property).  Nothing is written in /repo.
"""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/bugs'
LOCK = threading.Lock()


def sh(cmd, cwd, env=None, t=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def script(src, copy):
    t = open(src).read().replace('/repo', copy).replace('/opt/vp/build.sh', copy + '.build.sh').replace('/opt/vp/report', copy + '.report')
    t = t.replace('CCACHE_DIR=/opt/vp/ccache', 'CCACHE_NOHASHDIR=1 CCACHE_DIR=/tmp/bugs/ccache')
    dst = copy + '.' + os.path.basename(src)
    open(dst, 'w').write(t)
    return dst


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='+')
    ap.add_argument('--checks', default='own')
    ap.add_argument('--all', action='store_true')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--nodemo', action='store_true')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-j', type=int, default=4)
    args = ap.parse_args()
    os.makedirs(W, exist_ok=True)
    with cf.ThreadPoolExecutor(args.j) as ex:
        list(ex.map(lambda i: one(i, args), args.ids))


def one(i, args):
    if 1:
        d = os.path.join(V, 'seeded', i)
        meta = json.load(open(d + '/meta.json'))
        copy = os.path.join(W, i)
        if os.path.exists(copy):
            shutil.rmtree(copy)
        shutil.copytree('/repo', copy, symlinks=True)
        res = {}
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
        b, t = script('/opt/vp/build.sh', copy), script('/opt/vp/test.sh', copy)
        if not args.nodemo:
            res['demo0'], o0 = sh(['bash', d + '/demo.sh'], copy, env)
            if res['demo0']:
                print(o0[-1500:])
        rc, o = sh(['git', 'apply', d + '/patch.diff'], copy)
        if rc:
            print(i, 'patch does not apply', o)
            return
        rc, o = sh(['bash', b], copy)
        res['build'] = rc
        if rc:
            print(o[-3000:])
        if not args.nodemo:
            out = copy + '.tests.json'
            sh(['bash', t, out], copy)
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            got = json.load(open(out))['passed']
            res['tests'] = 'ok' if not [q for q in base if q not in got] else 'BROKEN %s' % [q for q in base if q not in got]
            res['demo1'], o1 = sh(['bash', d + '/demo.sh'], copy, env)
        checks = [meta['property']] if args.checks == 'own' else args.checks.split(',')
        if args.all:
            checks = sorted(f[:-3].upper() for f in os.listdir(V + '/pbt/checks') if f[0] == 'c' and f[1:3].isdigit())
        e = dict(os.environ, VERIF_REPO=copy, VERIF_CACHE='/tmp/bugs/vcache', VERIF_EVID=copy + '.evid', VERIF_SEED=args.seed, VERIF_TIER='quick')
        for c in checks:
            rc, o = sh(['/opt/venv/bin/python', V + '/pbt/run.py', c], V, e)
            res[c] = rc
            if rc:
                ls = o.splitlines()
                print('   ', i, c, rc, ' | '.join(x[:260] for x in ls[:6]), flush=True)
        good = args.nodemo or (res['demo0'] == 0 and res['demo1'] != 0 and res['tests'] == 'ok' and res['build'] == 0)
        print('%s property=%s valid=%s caught_by=%s %s' % (i, meta['property'], good, [c for c in checks if res[c] == 1],
                                                             {k: v for k, v in res.items() if k not in checks or v not in (0, 1)}), flush=True)
        old = os.path.join(W, 'matrix.json')
        with LOCK:
            m = json.load(open(old)) if os.path.exists(old) else {}
            m.setdefault(i, {}).update(res)
            json.dump(m, open(old, 'w'), indent=1)
        if not args.keep:
            for suffix in ('', '.cache', '.evid', '.report'):
                if os.path.exists(copy + suffix):
                    shutil.rmtree(copy + suffix)


if __name__ == '__main__':
    sys.exit(main())
