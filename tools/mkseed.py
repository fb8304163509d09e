#!/usr/bin/env python3
"""Builds and confirms planted bugs: mkseed.py [id ...]  (all of tools/seeds/*.py without arguments)
Each definition: dict(id, property, edits=[(file, old, new)], needs, breaks, demo=python source).
For each: a scratch copy of /repo gets the edits; the demo must exit 0 before and non-zero after; build and stable
tests must pass with the edits; then the property's quick check is run against the copy."""
import glob, importlib.util, json, os, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
RES = os.path.join(V, 'tools', 'seed_results.json')
DEMO_SH = '''#!/bin/bash
# run with cwd /repo: exit 0 on the unchanged tree, non-zero with the patch
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$T" OPENBLAS_NUM_THREADS=1 SCRATCH="$T"
cp "$D"/demo.py "$T"/demo.py
cd "$T" && timeout 250 /opt/venv/bin/python -W ignore "$T/demo.py"
'''


def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds', '*.py'))):
        sp = importlib.util.spec_from_file_location('s', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for s in m.SEEDS:
            out[s['id']] = s
    return out


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def work(s, tests=True):
    sid = s['id']
    d = os.path.join(V, 'seeded', sid)
    w = '/tmp/seed_%s' % sid
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', w])
    r = {'property': s['property']}
    try:
        subprocess.check_call(['git', '-C', w, 'checkout', '-q', '--', '.'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        c = run(['bash', os.path.join(d, 'demo.sh')], cwd=w)
        r['demo_clean'] = c.returncode
        if c.returncode:
            r['out'] = c.stdout[-800:]
        for f, old, new in s['edits']:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) < 1:
                r['error'] = 'edit does not apply: %s: %r' % (f, old[:80])
                return sid, r
            if t.count(old) > 1 and not s.get('all'):
                r['error'] = 'edit ambiguous (%d): %s: %r' % (t.count(old), f, old[:80])
                return sid, r
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', w, 'diff'], stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        c = run(['bash', os.path.join(d, 'demo.sh')], cwd=w)
        r['demo_patched'] = c.returncode
        r['demo_out'] = c.stdout[-200:]
        if tests:
            t = open('/opt/vp/test.sh').read().replace('/opt/vp/report', w + '/.report').replace('/repo', w)
            open(w + '/.t.sh', 'w').write(t)
            run(['bash', w + '/.t.sh', w + '/.o.json'])
            o = json.load(open(w + '/.o.json'))
            passed = set(o.get('passed', o if isinstance(o, list) else []))
            r['tests_missing'] = [x for x in STABLE if x not in passed][:5]
            b = run(['bash', '-c', 'sed "s#/repo#%s#g" /opt/vp/build.sh > %s/.b.sh; bash %s/.b.sh' % (w, w, w)])
            r['build'] = b.returncode
        if os.path.exists(os.path.join(V, 'checks', s['property'].lower() + '.py')):
            c = run(['./run.sh', s['property'], 'quick'], cwd=V, env=dict(os.environ, VERIF_REPO=w, VERIF_SEED='1', VERIF_NOEVID='1'))
            r['check_rc'] = c.returncode
            r['check'] = c.stdout[:300]
            r['caught'] = c.returncode == 1 and 'VIOLATION property=' + s['property'] in c.stdout
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return sid, r


def main():
    args = sys.argv[1:]
    tests = '--notest' not in args
    args = [a for a in args if not a.startswith('--')]
    seeds = load()
    ids = [i for i in seeds if not args or any(i == a or seeds[i]['property'] == a for a in args)]
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    with cf.ThreadPoolExecutor(2) as ex:
        for sid, r in ex.map(lambda i: work(seeds[i], tests), ids):
            good = r.get('demo_clean') == 0 and r.get('demo_patched', 0) != 0 and not r.get('tests_missing') and not r.get('build') and 'error' not in r
            r['counts'] = good
            print('%-14s %s counts=%s caught=%s %s' % (sid, r['property'], good, r.get('caught'), '' if good else {k: v for k, v in r.items() if k != 'check'}))
            if not r.get('caught'):
                print('     ' + str(r.get('check'))[:300])
            if not tests and sid in res and 'tests_missing' not in r:
                r['tests_missing'] = res[sid].get('tests_missing')
            res[sid] = r
            sys.stdout.flush()
            if not good:
                shutil.rmtree(os.path.join(V, 'seeded', sid), ignore_errors=True)
    json.dump(res, open(RES, 'w'), indent=1, sort_keys=True)


main()
