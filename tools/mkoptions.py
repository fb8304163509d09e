"""Writes lib/options.json: the options that the components of hyperion add to a command line
and the arguments they are for. Made once from the reviewed tree; the checks only read the file."""
import argparse
import importlib
import inspect
import json
import os
import pkgutil
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
SKIP = {'hyperion.classifiers.linear_gbe1', 'hyperion.generators.adapt_sequence_batch_generator'}
NEG = {'diag_W': 'fullcov_W'}


def main():
    import hyperion
    out, seen = [], set()
    for m in pkgutil.walk_packages(hyperion.__path__, 'hyperion.', onerror=lambda n: None):
        if any(s in m.name for s in ('.bin', 'deprec', 'keras', '.tf')):
            continue
        try:
            mod = importlib.import_module(m.name)
        except BaseException:
            continue
        for n, c in sorted(inspect.getmembers(mod, inspect.isclass)):
            if not c.__module__.startswith('hyperion') or c in seen or c.__module__ in SKIP:
                continue
            seen.add(c)
            for a in sorted(x for x in dir(c) if x.startswith('add_argparse')):
                f = 'filter' + a[len('add_argparse'):]
                if not hasattr(c, f):
                    continue
                p = argparse.ArgumentParser()
                getattr(c, a)(p, None)
                opts = []
                for x in p._actions:
                    if x.dest == 'help':
                        continue
                    t = type(x).__name__
                    o = x.option_strings[0][2:]
                    if t == '_StoreTrueAction' and (x.dest.startswith('no_') or x.dest in NEG):
                        opts.append({'o': o, 'arg': NEG.get(x.dest, x.dest[3:]), 'kind': 'no', 'type': 'bool', 'def': True, 'req': False, 'vals': []})
                    elif t == '_StoreTrueAction':
                        opts.append({'o': o, 'arg': x.dest, 'kind': 'yes', 'type': 'bool', 'def': False, 'req': False, 'vals': []})
                    elif t == '_StoreFalseAction':
                        opts.append({'o': o, 'arg': x.dest, 'kind': 'no', 'type': 'bool', 'def': True, 'req': False, 'vals': []})
                    else:
                        ty = {None: 'str', int: 'int', float: 'float', str.lower: 'lower'}.get(x.type, getattr(x.type, '__name__', '?'))
                        if ty == '<lambda>':
                            ty = 'auto'
                        if x.nargs == '+':
                            ty = 'ints'
                        opts.append({'o': o, 'arg': x.dest, 'kind': 'value', 'type': ty, 'def': x.default, 'req': bool(x.required), 'vals': sorted(x.choices) if x.choices else []})
                z = vars(p.parse_args(sum([['--' + o['o'], o['vals'][0] if o['vals'] else '7'] for o in opts if o['req']], [])))
                extra = sorted(set(getattr(c, f)(None, **z)) - {o['arg'] for o in opts})
                out.append({'extra': extra, 'keeps': [], 'mod': c.__module__, 'cls': c.__name__, 'add': a, 'filter': f, 'opts': opts})
    fn = os.path.join(V, 'lib', 'options.json')
    with open(fn, 'w') as g:
        json.dump(out, g, indent=0, sort_keys=True)
    # arguments that the objects keep under their own names
    sys.path[:0] = [V, os.path.join(V, 'lib')]
    import random
    from checks import p31
    rnd = random.Random(5)
    for t, T in enumerate(p31.TABLE):
        if T['cls'] not in p31.BUILD or 'eval' in T['add']:
            continue
        good = {o['arg'] for o in T['opts']}
        seen = {}
        for _ in range(300):
            ln = p31.gen_line(rnd, [t])
            T['keeps'] = sorted(good)
            e = p31.execute({'lines': [ln]}, '/tmp')['ev'][0]
            if e['exc']:
                print(T['cls'], e['exc'], e['line'])
                continue
            got = dict(map(tuple, e['built'][0]))
            want = dict(map(tuple, e['obs'][0]))
            good = {a for a in good if a not in got or got[a] == want.get(a, '??')}
            ever = globals().setdefault('EVER', {}).setdefault(t, set())
            ever |= set(got)
        good &= EVER[t]
        out[t]['keeps'] = sorted(good)
        print(T['cls'], sorted({o['arg'] for o in T['opts']} - good))
    with open(os.path.join(V, 'lib', 'options.json'), 'w') as g:
        json.dump(out, g, indent=0, sort_keys=True)
    print(len(out), sum(len(x['opts']) for x in out), sorted({o['type'] for x in out for o in x['opts']}))


main()
