#!/usr/bin/env python3
"""Verify planted bugs (/verif/seeded/<id>) and report which check catches them.

usage: seed_verify.py [--check] [--all-checks] ID...

In a scratch copy of /repo per bug: the demonstration passes on the unchanged
tree; the patch applies; the tree builds and passes the stable tests; the
demonstration fails; with --check, the property's quick check reports a
violation.  Not used by any registered check.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, 'seeded')
BASE = json.load(open('/opt/vp/BASELINE.json'))

def sh(cmd, cwd=None, env=None, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), env=env, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return p.returncode, p.stdout

def stable():
    for k in ('stable', 'passed', 'tests', 'stable_tests', 'pass'):
        if k in BASE and isinstance(BASE[k], list): return set(BASE[k])
    raise SystemExit('BASELINE.json: %s' % list(BASE))

def main(args):
    do_check = '--check' in args
    ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(SEED))
    out = {}
    for i in ids:
        d = os.path.join(SEED, i)
        meta = json.load(open(d + '/meta.json'))
        t = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
        r = t + '/repo'
        demo = t + '/demo'
        os.makedirs(demo)
        for f in os.listdir(d):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json': shutil.copy(d + '/' + f, demo)
        res = []
        try:
            subprocess.check_call(['cp', '-a', '/repo', r])
            for s in ('build.sh', 'test.sh'):
                x = open('/opt/vp/' + s).read().replace('/repo', r).replace('/opt/vp/build.sh', t + '/build.sh')
                open(t + '/' + s, 'w').write(x)
            subprocess.call(['rm', '-rf', r + '/_build'])
            rc, o = sh(['bash', demo + '/demo.sh'], cwd=r)
            res.append('demo-clean=%d' % rc)
            if rc: res.append('!!DEMO FAILS CLEAN ' + o[-1500:])
            rc, o = sh(['git', 'apply', d + '/patch.diff'], cwd=r)
            if rc: res.append('!!APPLY ' + o)
            rc, o = sh(['bash', t + '/test.sh', t + '/o.json'])
            passed = set(json.load(open(t + '/o.json'))['passed'])
            missing = stable() - passed
            res.append('tests-missing=%d' % len(missing))
            if missing: res.append('!!TESTS %s %s' % (sorted(missing)[:5], o[-800:] if len(missing) > 70 else ''))
            rc, o = sh(['bash', demo + '/demo.sh'], cwd=r)
            res.append('demo-bug=%d' % rc)
            if rc == 0: res.append('!!DEMO DOES NOT FAIL')
            if 'error:' in o: res.append('!!DEMO COMPILE ERROR ' + o[-800:])
            if do_check and not any('!!' in x for x in res):
                t0 = time.time()
                env = dict(os.environ, VERIF_REPO=r)
                rc, o = sh(['python3', V + '/check.py', meta['property']], env=env, cwd=V)
                viol = [l for l in o.splitlines() if l.startswith('VIOLATION')]
                res.append('check=%d %.0fs %s' % (rc, time.time() - t0, viol[:1]))
                if not (rc == 1 and viol): res.append('!!NOT CAUGHT ' + o[-600:])
        finally:
            subprocess.call(['rm', '-rf', t])
        print(i, meta['property'], ' '.join(res), flush=True)
main(sys.argv[1:])
