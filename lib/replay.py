"""Re-executes the script of a reported violation against the code and judges it again."""
import importlib
import json
import sys

import vf


def main(path):
    with open(path) as f:
        d = json.load(f)
    r = d['replay']
    print('property %s: %s' % (d['property'], d['summary']))
    if 'script' not in r or 'trace_module' not in r:
        print(json.dumps(r, indent=1)[:4000])
        return 0
    ck = vf.Check(d['property'], 'quick', 1)
    ck.known = []
    importlib.import_module(r['module'])
    behs = ck.execute(r['module'], [r['script']])
    for b in behs:
        for i, e in enumerate(b.get('ev', [])):
            print('%3d %s' % (i + 1, json.dumps(e)[:600]))
        if 'fatal' in b:
            print('fatal: ' + b['fatal'])
    ck.judge(r['trace_module'], behs, [r['script']], r['module'], cfg=r.get('cfg'))
    for s, _ in ck.violations:
        print('REPRODUCED: ' + s[:1000])
    if not ck.violations:
        print('not reproduced')
    import shutil
    shutil.rmtree(ck.scratch, ignore_errors=True)
    return 1 if ck.violations else 0


sys.exit(main(sys.argv[1]))
