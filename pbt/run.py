"""python run.py <property> --tier quick|thorough [--replay FILE]

Builds /repo's current tree, runs the property's relations in worker processes,
writes evidence/<property>.json and exits 0 (held on everything explored),
1 (a line 'VIOLATION property=<id> replay=<path>') or 2 (the machinery failed).
"""
import argparse
import collections
import fnmatch
import gc
import json
import os
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
EVID = os.environ.get('VERIF_EVID', os.path.join(VERIF, 'evidence'))
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
CRASH = {signal.SIGSEGV, signal.SIGFPE, signal.SIGABRT, signal.SIGBUS, signal.SIGILL}


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def load(cid, tree):
    if tree:
        sys.path.insert(0, tree)
    sys.path.insert(0, HERE)
    sys.path.append(HYP)
    import importlib
    mod = importlib.import_module('checks.' + cid.lower())
    import panels
    if tree and not os.path.realpath(panels.__file__).startswith(os.path.realpath(tree)):
        raise RuntimeError('imported the wrong panels: ' + panels.__file__)
    # relations of other modules that exercise this property through other classes of the package
    from core import Relation
    for other, name, quick, thorough in getattr(mod, 'ALSO', []):
        r, = [r for r in importlib.import_module('checks.' + other).RELATIONS if r.name == name]
        mod.RELATIONS.append(Relation(other + '_' + name, r.strategy, r.check, quick, thorough, r.shards))
    return mod


def outcome(rel, case):
    """None, or the description of the violation.  Every exception the evaluation of
    a valid case raises is one, except those that the harness declares its own."""
    import warnings
    from core import Violation, HarnessError
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            r = rel.check(case)
        except Violation as e:
            return str(e), None
        except (HarnessError, MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            where = ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
            return 'raised %s: %s (%s)' % (type(e).__name__, str(e)[:300], where), None
    flag, labels = r if isinstance(r, tuple) else (bool(r), [])
    return None, (flag, labels)


class Found(Exception):
    pass


class OutOfTime(BaseException):
    pass


def linecover(tree, out):
    """Development aid: which lines of the package are reached"""
    mon, hit = sys.monitoring, set()
    mon.use_tool_id(3, 'pbt')

    def line(code, n):
        if code.co_filename.startswith(tree):
            hit.add((os.path.relpath(code.co_filename, tree), n))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    return lambda: json.dump(sorted(hit), open(os.path.join(out, '%d.json' % os.getpid()), 'w'))


def worker(args):
    """Runs one shard of one relation; reports through files in args.out"""
    dump = linecover(args.tree, os.environ['PBT_COVER']) if os.environ.get('PBT_COVER') else None
    devnull = os.open(os.devnull, os.O_WRONLY)
    keep = os.dup(1)
    os.dup2(devnull, 1)         # the code under test prints
    mod = load(args.cid, args.tree)
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
    import hypothesis
    import zlib
    gc.collect()
    gc.freeze()
    rel = [r for r in mod.RELATIONS if r.name == args.relation][0]
    st = dict(evaluations=0, nontrivial=set(), labels=collections.Counter(), samples=[], fail=None, complete=True)
    cur = os.path.join(args.out, 'current.json')
    t0 = time.time()
    limit = args.limit

    def evaluate(case):
        text = json.dumps(case, sort_keys=True)
        with open(cur, 'w') as f:
            f.write(text)
        msg, res = outcome(rel, case)
        st['evaluations'] += 1
        if st['evaluations'] in (1, 4) or st['evaluations'] % 40 == 0:
            gc.collect()
            gc.freeze()         # the code under test collects garbage in every calculation: keep that fast
        if msg is None:
            flag, labels = res
            for l in labels:
                st['labels'][l] += 1
            if flag:
                h = zlib.crc32(text.encode()) * 4294967296 + zlib.adler32(text.encode())
                if h not in st['nontrivial']:
                    st['nontrivial'].add(h)
                    if len(st['nontrivial']) in (1, 12, 50):      # the first cases of a generator are its simplest ones
                        st['samples'].append(case)
            return
        raise Found(msg)

    def record(case, msg):
        st['fail'] = dict(case=case, message=msg)

    last = {}

    def finish():
        out = dict(st, nontrivial=len(st['nontrivial']), labels=dict(st['labels']))
        tmp = os.path.join(args.out, 'result.tmp')
        with open(tmp, 'w') as f:
            json.dump(out, f)
        os.rename(tmp, os.path.join(args.out, 'result.json'))

    if args.shard == 0 and rel.enum is not None:
        for case in rel.enum():
            try:
                evaluate(case)
            except Found as e:
                record(case, str(e))
                break
            if time.time() - t0 > limit:
                st['complete'] = False
                break
    n = args.examples
    if st['fail'] is None and rel.strategy is not None and n > 0:
        @hseed(args.seed * 1000 + args.shard)
        @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                  suppress_health_check=list(HealthCheck), print_blob=False,
                  phases=[Phase.generate, Phase.target, Phase.shrink], report_multiple_bugs=False)
        @given(rel.strategy)
        def prop(case):
            if time.time() - t0 > limit:
                if 'case' in last:
                    raise OutOfTime()       # shrinking: keep the smallest so far
                st['complete'] = False
                raise OutOfTime()
            try:
                evaluate(case)
            except Found as e:
                last['case'], last['msg'] = case, str(e)
                raise
        try:
            prop()
        except (Found, OutOfTime):
            pass
        except hypothesis.errors.Flaky:
            pass
        if last:
            record(last['case'], last['msg'])
    finish()
    if dump:
        dump()
    os.dup2(keep, 1)
    os._exit(0)


def probes(args):
    keep = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    mod = load(args.cid, args.tree)
    out = []
    import warnings
    warnings.simplefilter('ignore')
    for p in getattr(mod, 'PROBES', []):
        with open(os.path.join(args.out, 'current.json'), 'w') as f:
            json.dump({'probe': p.key}, f)
        out.append((p.key, p.run()))
    with open(os.path.join(args.out, 'result.json'), 'w') as f:
        json.dump(out, f)
    os._exit(0)


def replay(args, tree):
    with open(args.replay) as f:
        d = json.load(f)
    cmd = [PY, os.path.abspath(__file__), d['property'], '--tree', tree, '--one', args.replay]
    p = subprocess.run(cmd, env=env(), cwd=VERIF)
    if p.returncode < 0 and -p.returncode in CRASH:
        print('VIOLATION property=%s replay=%s' % (d['property'], args.replay))
        print('  the process died with signal %d' % -p.returncode)
        return 1
    return p.returncode


def one(args):
    with open(args.one) as f:
        d = json.load(f)
    mod = load(args.cid, args.tree)
    keep = os.dup(1)
    os.dup2(2, 1)
    if d['relation'] == 'probe':
        msg = [p for p in mod.PROBES if p.key == d['case']][0].run()
    else:
        rel = [r for r in mod.RELATIONS if r.name == d['relation']][0]
        msg, _ = outcome(rel, d['case'])
    sys.stdout.flush()
    os.dup2(keep, 1)
    if msg is None:
        print('replay: the property holds on this case')
        return 0
    print('VIOLATION property=%s replay=%s' % (d['property'], args.one))
    print('  ' + msg)
    return 1


def env():
    e = dict(os.environ)
    e.update(MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             MKL_NUM_THREADS='1', PYTHONHASHSEED='0')
    e.pop('PYTHONPATH', None)
    return e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--only', help='run only this relation (development)')
    ap.add_argument('--scale', type=float, default=1., help='multiply the case counts (development)')
    for a in ('--tree', '--relation', '--out', '--one'):
        ap.add_argument(a)
    ap.add_argument('--shard', type=int, default=0)
    ap.add_argument('--examples', type=int, default=0)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--limit', type=float, default=1e9)
    ap.add_argument('--probes', action='store_true')
    args = ap.parse_args()
    if args.one:
        return one(args)
    if args.probes:
        return probes(args)
    if args.relation:
        return worker(args)
    sys.path.insert(0, HERE)
    import build
    t0 = time.time()
    try:
        tree = build.ensure()
    except build.BuildError as e:
        print('build of /repo failed:', e)
        return 2
    if args.replay:
        return replay(args, tree)
    return drive(args, tree, t0)


def drive(args, tree, t0):
    import shutil
    import tempfile
    cid = args.cid.upper()
    sd = seed()
    # the relation list is read in a process of its own: importing it imports the code under test
    info = subprocess.run([PY, '-c', 'import sys,json,os\nsys.argv=["x"]\nsys.path.insert(0,%r)\nimport run\n'
                           'k=os.dup(1); os.dup2(2,1)\nm=run.load(%r,%r)\nos.dup2(k,1)\n'
                           'print("@@"+json.dumps(dict(rels=[[r.name,r.quick,r.thorough,r.shards] for r in m.RELATIONS],'
                           'rule=m.RULE,probes=[p.key for p in getattr(m,"PROBES",[])],'
                           'assumptions=getattr(m,"ASSUMPTIONS",[]))))' % (HERE, cid, tree)],
                          env=env(), cwd=VERIF, capture_output=True, text=True)
    if info.returncode or '@@' not in info.stdout:
        print('cannot load the check:', info.stdout[-2000:], info.stderr[-4000:])
        return 2
    info = json.loads(info.stdout[info.stdout.index('@@') + 2:])
    work = tempfile.mkdtemp(prefix='pbt-%s-' % cid)
    jobs = []
    hard = 780. if args.tier == 'quick' else 6 * 3600.
    soft = 420. if args.tier == 'quick' else 2 * 3600.
    for k, (name, q, th, shards) in enumerate(info['rels']):
        if args.only and not fnmatch.fnmatch(name, args.only):
            continue
        total = int((q if args.tier == 'quick' else th) * args.scale)
        ns = 1 if args.tier == 'quick' else max(1, shards)
        for s in range(ns):
            jobs.append([name, s, max(1, total // ns) if total else 0, sd * 101 + k])
    if info['probes'] and not args.only:
        jobs.append([None, 0, 0, 0])
    jobs.sort(key=lambda j: (j[0] is not None, -j[2]))
    running, done, errors = {}, [], []
    ncpu = max(2, min(8, os.cpu_count() or 4))
    try:
        while jobs or running:
            while jobs and len(running) < ncpu:
                name, s, n, js = jobs.pop(0)
                out = tempfile.mkdtemp(dir=work)
                cmd = [PY, os.path.abspath(__file__), cid, '--tree', tree, '--out', out]
                cmd += ['--probes'] if name is None else ['--relation', name, '--shard', str(s), '--examples', str(n),
                                                          '--seed', str(js), '--limit', str(soft)]
                log = open(os.path.join(out, 'log'), 'w')
                p = subprocess.Popen(cmd, env=env(), cwd=out, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
                running[p] = (name, s, out, time.time())
            time.sleep(.05)
            for p in list(running):
                name, s, out, ts = running[p]
                rc = p.poll()
                if rc is None:
                    if time.time() - t0 > hard:
                        p.kill()
                        errors.append('relation %s did not end in time, on case %s' % (name, _read(out, 'current.json')))
                        p.wait()
                        del running[p]
                    continue
                del running[p]
                res = os.path.join(out, 'result.json')
                if rc == 0 and os.path.exists(res):
                    done.append((name, s, json.load(open(res))))
                elif rc < 0 and -rc in CRASH and os.path.exists(os.path.join(out, 'current.json')) and name is not None:
                    case = json.loads(_read(out, 'current.json'))
                    done.append((name, s, dict(evaluations=1, nontrivial=0, labels={}, samples=[], complete=True,
                                 fail=dict(case=case, message='the process died with signal %d' % -rc))))
                else:
                    errors.append('relation %s ended with %s: %s' % (name, rc, _read(out, 'log')[-3000:]))
    finally:
        for p in running:
            p.kill()
        if work.startswith('/tmp') or os.path.basename(work).startswith('pbt-'):
            shutil.rmtree(work, ignore_errors=True)
    return conclude(args, cid, sd, info, done, errors, t0)


def _read(d, n):
    try:
        with open(os.path.join(d, n)) as f:
            return f.read()
    except OSError:
        return '?'


def conclude(args, cid, sd, info, done, errors, t0):
    from core import known_findings
    rc = 0
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    ev, nt, samples, per, viol, lines, labels, incomplete = 0, 0, [], {}, [], [], {}, []
    listed = {e['key']: e for e in known_findings()['findings'] if e['property'] == cid and e['status'] == 'known'}
    for name, s, r in sorted(done, key=lambda t: (t[0] or '', t[1])):
        if name is None:
            for key, msg in r:
                if msg is None:
                    continue
                if key in listed:
                    lines.append('KNOWN-FINDING: property=%s %s' % (cid, listed[key]['what']))
                else:
                    path = os.path.join(EVID, 'replay', '%s_probe_%s.json' % (cid, key))
                    with open(path, 'w') as f:
                        json.dump(dict(property=cid, relation='probe', case=key, message=msg), f, indent=1)
                    viol.append((path, msg))
            continue
        ev += r['evaluations']
        nt += r['nontrivial']
        d = per.setdefault(name, dict(evaluations=0, distinct_nontrivial=0))
        d['evaluations'] += r['evaluations']
        d['distinct_nontrivial'] += r['nontrivial']
        for k, v in r['labels'].items():
            labels.setdefault(name, {})
            labels[name][k] = labels[name].get(k, 0) + v
        samples += [dict(relation=name, case=c) for c in r['samples'][-1:]]
        if not r['complete']:
            incomplete.append(name)
        if r['fail'] is not None:
            path = os.path.join(EVID, 'replay', '%s_%s_%d.json' % (cid, name, s))
            with open(path, 'w') as f:
                json.dump(dict(property=cid, relation=name, case=r['fail']['case'], message=r['fail']['message']), f, indent=1)
            viol.append((path, r['fail']['message']))
    for l in lines:
        print(l)
    for path, msg in viol:
        print('VIOLATION property=%s replay=%s' % (cid, path))
        print('  ' + msg)
        rc = 1
    if errors:
        for e in errors:
            print('ERROR:', e)
        rc = rc or 2
    out = dict(property=cid, tier=args.tier, seed=sd, level='exploration',
               coverage=dict(evaluations=ev, distinct_nontrivial=nt, rule=info['rule'], samples=samples[:16],
                             relations=per, labels=labels, incomplete=sorted(set(incomplete))),
               wall_s=round(time.time() - t0, 2), assumptions=info['assumptions'],
               violations=len(viol))
    tmp = os.path.join(EVID, cid + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(out, f, indent=1)
    os.rename(tmp, os.path.join(EVID, cid + '.json'))
    if rc == 0:
        print('%s: held on %d cases (%d distinct non-trivial) in %.1f s' % (cid, ev, nt, time.time() - t0))
    return rc


if __name__ == '__main__':
    sys.exit(main())
