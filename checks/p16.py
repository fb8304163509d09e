"""P16: copying and merging archives; specifiers."""
import contextlib
import io
import os
import random
import runpy
import sys

import numpy as np

import vf
from vf import Interner, as_int, call
from checks.archive import KS, METHODS, U, rec


def execute(script, wd):
    import hyperion
    from hyperion.io import rw_specifiers as S
    from hyperion.io.copy_feats import CopyFeats
    from hyperion.io.h5_merger import H5Merger
    from hyperion.io import ark_data_reader as A, h5_data_reader as H
    from hyperion.io.ark_data_writer import ArkDataWriter
    from hyperion.io.h5_data_writer import H5DataWriter
    BIN = os.path.join(os.path.dirname(hyperion.__file__), 'bin')
    kn = KS[script['style'] % len(KS)]
    KI = Interner([kn(k) for k in range(60)])
    rnd = random.Random(script['style'])
    files = []      # (fmt, archive, script or None)
    evs = []

    def outrec(k, x):
        x = np.asarray(x)
        f = lambda v: as_int(round(float(v) * U)) if np.isfinite(v) else -2147480002
        if x.ndim == 1:
            return {'k': KI(str(k)), 't': 'v', 'nc': 1, 'd': [f(v) for v in x]}
        if x.ndim == 2:
            return {'k': KI(str(k)), 't': 'm', 'nc': int(x.shape[1]), 'd': [[f(v) for v in r] for r in x]}
        return {'k': KI(str(k)), 't': '%dd' % x.ndim, 'nc': -1, 'd': []}

    def look(fmt, arch, scp, sep):
        r = (A.SequentialArkFileDataReader if fmt == 'ark' else H.SequentialH5FileDataReader)(arch)
        ks, ds = r.read()
        r.close()
        keys = []
        if scp:
            keys = [KI(l.rstrip('\n').split(sep)[0]) for l in open(scp)]
            if keys:
                # what the script points to is the same
                q = (A.SequentialArkScriptDataReader if fmt == 'ark' else H.SequentialH5ScriptDataReader)(scp, scp_sep=sep)
                k2, d2 = q.read()
                q.close()
                u = sorted([(str(k), np.asarray(d)) for k, d in zip(ks, ds)], key=lambda p: p[0])
                v = sorted([(str(k), np.asarray(d)) for k, d in zip(k2, d2)], key=lambda p: p[0])
                if not (len(u) == len(v) and all(a[0] == b[0] and a[1].shape == b[1].shape and (a[1] == b[1]).all() for a, b in zip(u, v))):
                    keys = [-1]
        txt = False
        if fmt == 'ark' and len(ks):
            b = open(arch, 'rb').read()
            txt = b[len(str(ks[0]).encode()) + 1:][:2] != b'\0B'
        return {'recs': [outrec(k, d) for k, d in zip(ks, ds)], 'keys': keys, 'text': txt}

    def main(name, args):
        old = sys.argv
        sys.argv = [name] + args
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                runpy.run_path(os.path.join(BIN, name), run_name='__main__')
        finally:
            sys.argv = old

    for o in script['ops']:
        op = o['op']
        e = {'op': op, 'exc': ''}
        sep = o.get('sep', ' ')
        if op == 'make':
            e.update(fmt=o['fmt'], recs=[dict(k=KI(kn(r['k'])), t=r['t'], d=r['d'], nc=r['nc'], how='') for r in o['recs']])
            d = os.path.join(wd, 'in%d' % len(files))
            os.makedirs(d)
            arch, scp = os.path.join(d, 'x.' + o['fmt']), os.path.join(d, 'x.scp')

            def mk():
                w = H5DataWriter(arch, scp, scp_sep=sep) if o['fmt'] == 'h5' else ArkDataWriter(arch, scp, binary=not o['text'], scp_sep=sep)
                for r in o['recs']:
                    a = np.array(r['d'], dtype=float) / 8.
                    w.write([kn(r['k'])], [a if r['t'] == 'v' else a.reshape(-1, r['nc'])])
                w.close()
            _, e['exc'] = call(mk)
            files.append((o['fmt'], arch, scp))
        elif op == 'copy':
            if any(i > len(files) for i, _ in o['ins']):
                break
            how, n = o['how'], o['n']
            e.update(ins=[list(x) for x in o['ins']], fmt=o['fmt'], text=bool(o['text']), comp=o['comp'], scp=bool(o['scp']), n=n, outs=[], how=how)
            pre = None
            rspecs = []
            for i, via in o['ins']:
                fmt, arch, scp = files[i - 1]
                if via == 'scp' and o['prefix']:
                    # scripts with the paths below wd
                    pre = wd
                    s2 = scp + '.rel%d' % len(evs)
                    with open(s2, 'w') as f, open(scp) as g:
                        f.write(g.read().replace(sep + wd, sep))
                    scp = s2
                t = [fmt if via == 'file' else 'scp'] + o['rflags']
                rnd.shuffle(t)
                rspecs.append(arch if how == 'h5' or (via == 'file' and fmt == 'h5' and o['bare']) else (', ' if o['spaces'] else ',').join(t) + ':' + (arch if via == 'file' else scp))
            d = os.path.join(wd, 'out%d' % len(evs))
            os.makedirs(d)
            nf = []
            for p in range(1, n + 1):
                arch, scp = os.path.join(d, 'y%d.%s' % (p, o['fmt'])), os.path.join(d, 'y%d.scp' % p)
                t = [o['fmt']] + (['scp'] if o['scp'] else []) + list(o['wflags'])
                if o['text']:
                    t.append('t')
                rnd.shuffle(t)
                nm = [{o['fmt']: arch, 'scp': scp}[q] for q in t if q in (o['fmt'], 'scp')]
                ws = ','.join(t) + ':' + ','.join(nm)
                if how == 'h5':
                    fn = lambda: H5Merger(rspecs, arch, o['chunk'] or None).merge()
                elif how == 'h5bin':
                    a = ['--output-path', arch] + (['--chunk-size', str(o['chunk'])] if o['chunk'] else []) + ['--input-files'] + [files[i - 1][1] for i, _ in o['ins']]
                    fn = lambda: main('merge-h5-files.py', a)
                elif how == 'bin':
                    a = ['--output', ws, '--part-idx', str(p), '--num-parts', str(n), '--scp-sep', sep] + (['--compress', '--compression-method', o['comp']] if o['comp'] else []) + \
                        (['--path-prefix', pre] if pre else []) + ['-v', '0', '--input'] + rspecs
                    fn = lambda: main('copy-feats.py', a)
                else:
                    kw = dict(path_prefix=pre, compress=bool(o['comp']), scp_sep=sep, part_idx=p, num_parts=n, chunk_size=o['chunk'])
                    if o['comp']:
                        kw['compression_method'] = o['comp']
                    if o['viaargs']:
                        kw = CopyFeats.filter_args('q', **{'q_' + k: v for k, v in kw.items()})
                    fn = lambda: CopyFeats(rspecs[0] if len(rspecs) == 1 and o['single'] else rspecs, ws, **kw)
                _, e['exc'] = call(fn)
                if e['exc']:
                    break
                y, e['exc'] = call(look, o['fmt'], arch, scp if o['scp'] else None, sep)
                if e['exc']:
                    break
                e['outs'].append(y)
                nf.append((o['fmt'], arch, scp))
            if e['exc']:
                e['outs'] = []
            else:
                files += nf
        elif op == 'rspec':
            e.update(toks=o['toks'], kind=o['kind'])
            name = 'arch' if 'scp' not in o['toks'] else os.path.join(wd, 's%d.scp' % len(evs))
            if 'scp' in o['toks']:
                with open(name, 'w') as f:
                    f.write({'ark': 'k1 x/y.ark:34%s\n', 'h5': 'k1 x/y.h5%s\n'}[o['kind']] % o['rng'])
            y, e['exc'] = call(lambda: S.RSpecifier.create(('%s,%s' % (' ' if o['spaces'] else '', ' ' if o['spaces'] else '')).join(o['toks']) + ':' + name if not o['plain'] else name))
            if not e['exc']:
                e['r'] = {'name': int(y.archive == name and y.script == name), 'stype': {S.RSpecType.ARCHIVE: 'archive', S.RSpecType.SCRIPT: 'script'}.get(y.spec_type, '?'),
                          'atype': {S.ArchiveType.H5: 'h5', S.ArchiveType.ARK: 'ark'}.get(y.archive_type, '?'), 'perm': bool(y.permissive),
                          'flags': [bool(v) for v in (y.once, y.is_sorted, y.called_sorted, y.background)]}
        elif op == 'wspec':
            nt = sum(t in ('h5', 'ark', 'scp') for t in o['toks'])
            names = ['n1', 'n2', 'n3', 'n4'][:max(nt, 1)]
            e.update(toks=o['toks'])
            y, e['exc'] = call(lambda: S.WSpecifier.create(','.join(o['toks']) + ':' + ','.join(names) if not o['plain'] else 'n1'))
            if not e['exc']:
                ix = lambda v: names.index(v) + 1 if v in names else (0 if v is None else -1)
                e['r'] = {'atype': {S.ArchiveType.H5: 'h5', S.ArchiveType.ARK: 'ark', None: 'none'}.get(y.archive_type, '?'), 'arch': ix(y.archive), 'script': ix(y.script),
                          'stype': {S.WSpecType.ARCHIVE: 'archive', S.WSpecType.SCRIPT: 'script', S.WSpecType.BOTH: 'both'}.get(y.spec_type, '?'),
                          'binary': bool(y.binary), 'flush': bool(y.flush), 'perm': bool(y.permissive)}
        evs.append(e)
    return {'init': {'none': True}, 'ev': evs}


AGAINST = [('o', 'no'), ('s', 'ns'), ('cs', 'ncs'), ('p', 'np'), ('f', 'nf'), ('b', 't')]


def spec_op(rnd, kind, toks, plain=False):
    o = {'op': kind + 'spec', 'toks': toks, 'plain': plain}
    if kind == 'r':
        o.update(kind=rnd.choice(['ark', 'h5']), spaces=rnd.random() < 0.3, rng=rnd.choice(['', '', '[3:7]', '[0:5,2:4]']))
        if o['kind'] == 'h5':
            o['rng'] = ''
    return o


def rand_toks(rnd, kind):
    pool = ['o', 's', 'cs', 'p', 'bg', 'no', 'ns', 'ncs', 'np', 'b', 't'] if kind == 'r' else ['b', 't', 'f', 'nf', 'p']
    t = rnd.sample(pool, rnd.randint(0, len(pool) // 2))
    for a, b in AGAINST:
        if a in t and b in t:
            t.remove(rnd.choice([a, b]))
    t += rnd.choice([['h5'], ['ark'], ['scp']] if kind == 'r' else [['h5'], ['ark'], ['scp'], ['h5', 'scp'], ['ark', 'scp'], ['ark', 'scp']])
    rnd.shuffle(t)
    return t


def copy_op(rnd, nfiles, fmts, comps, sep, vec, empty, single=None):
    h = rnd.random()
    ks = [i + 1 for i in range(nfiles)]
    n = 1 if rnd.random() < 0.55 else rnd.randint(2, 4)
    if single is not None:
        n = single
    ins = [rnd.choice(ks)] if n > 1 or rnd.random() < 0.4 else rnd.sample(ks, rnd.randint(1, len(ks)))
    how = 'feats' if h < 0.65 else 'bin'
    o = dict(op='copy', ins=[[i, rnd.choice(['file', 'scp'])] for i in ins], how=how, n=n, chunk=rnd.choice([0, 1, 1, 2, 3, 7]), fmt=rnd.choice(['h5', 'ark']), text=False,
             comp='', scp=rnd.random() < 0.6, prefix=rnd.random() < 0.3, rflags=rnd.choice([[], [], ['p'], ['o', 's'], ['cs', 'bg', 'o'], ['b'], ['np']]), wflags=rnd.choice([[], [], ['f'], ['nf'], ['f', 'p']]),
             bare=rnd.random() < 0.3, spaces=rnd.random() < 0.2, viaargs=rnd.random() < 0.3, single=rnd.random() < 0.5, sep=sep)
    if o['fmt'] == 'ark' and rnd.random() < 0.3 and not empty:
        o['text'] = True
    elif rnd.random() < 0.3 and not empty:
        o['comp'] = rnd.choice(['auto', 'auto', 'speech-feat', '2byte-auto', '1byte-auto'])
    if all(fmts[i - 1] == 'h5' for i in ins) and rnd.random() < 0.4 and n == 1:
        o.update(how=rnd.choice(['h5', 'h5bin']), fmt='h5', text=False, comp='', scp=False, ins=[[i, 'file'] for i in ins])
    # empty scripts have no archive type, text archives no shapes
    return o


def gen_script(rnd, sizes=None, chunk=None, n=None):
    ops = []
    style = rnd.randint(0, 999)
    if sizes is None and rnd.random() < 0.25:
        for _ in range(rnd.randint(2, 6)):
            k = rnd.choice('rw')
            if rnd.random() < 0.1:
                ops.append(spec_op(rnd, k, ['h5'], True))
            else:
                ops.append(spec_op(rnd, k, rand_toks(rnd, k)))
        return {'style': style, 'ops': ops}
    sep = rnd.choice([' ', ' ', '\t', '|'])
    vec = rnd.random() < 0.3
    empty = rnd.random() < 0.1
    dup = rnd.random() < 0.1
    nfiles = rnd.randint(1, 4) if sizes is None else len(sizes)
    keys = list(range(40))
    rnd.shuffle(keys)
    fmts = []
    left = {}
    for i in range(nfiles):
        fmt = rnd.choice(['h5', 'ark'])
        m = sizes[i] if sizes is not None else rnd.choice([0, 1, 2, 3, 4, 6])
        ks = [keys.pop() for _ in range(m)]
        if dup and ks and left:
            ks[0] = rnd.choice(list(left.values()))
        recs = []
        for k in ks:
            t = 'v' if vec and rnd.random() < 0.5 else 'm'
            rows = 0 if empty and rnd.random() < 0.4 else rnd.choice([1, 2, 3, 9, 12])
            r = rec(rnd, '', k, t, rows, rnd.randint(1, 4))
            recs.append(r)
        ops.append({'op': 'make', 'fmt': fmt, 'text': fmt == 'ark' and not empty and rnd.random() < 0.3, 'recs': recs, 'sep': sep})
        fmts.append((fmt, m))
        for k in ks:
            left[k] = k
    total = nfiles
    lossy = set()
    for c in range(rnd.randint(1, 3)):
        o = copy_op(rnd, total, [f for f, _ in fmts], None, sep, vec, empty, n)
        if sizes is not None and c == 0:
            o['ins'] = [[i + 1, 'file' if sizes[i] == 0 else rnd.choice(['file', 'scp'])] for i in range(nfiles)]
            o['chunk'] = chunk
            o['how'] = 'feats'
        # an empty script tells nothing of its kind; archives of a failed copy do not exist
        for x in o['ins']:
            if x[0] <= nfiles and fmts[x[0] - 1][1] == 0:
                x[1] = 'file'
            if x[0] > nfiles:
                x[1] = 'file'
                if x[0] in lossy:
                    o['comp'] = ''
        # a divided copy of a divided copy may be empty
        ops.append(o)
        if o['how'] == 'bin':
            o['chunk'] = 1
        for p in range(o['n']):
            fmts.append((o['fmt'], -1))
            total += 1
            if o['comp']:
                lossy.add(total)
        if o['n'] > 1 or o['comp'] or dup:
            break
    return {'style': style, 'ops': ops}


def from_copy(rnd, m):
    return gen_script(rnd, m['ins'], m['chunk'], m['n'])


def from_specs(rnd, ms):
    return {'style': 0, 'ops': [spec_op(rnd, m['kind'], m['toks']) for m in ms]}


def corrupt(b):
    for e in b['ev']:
        if e['op'] == 'copy' and not e['exc'] and e['outs'] and len(e['outs'][0]['recs']) > 1:
            r = e['outs'][0]['recs']
            r[-1]['k'], r[0]['k'] = r[0]['k'], r[-1]['k']
            return b if r[0]['k'] != r[-1]['k'] else None
        if e['op'] == 'wspec' and not e['exc']:
            e['r']['flush'] = not e['r']['flush']
            return b
    return None


def run(ck):
    rnd = random.Random(ck.seed)
    scripts = []
    d = '_deep' if ck.thorough else ''
    for m in ck.model('MC_Copy', cfg='MC_Copy%s.cfg' % d, want=200):
        scripts.append(from_copy(rnd, m))
    ms = ck.model('MC_Specifiers', cfg='MC_Specifiers_r%s.cfg' % d, want=1000) + ck.model('MC_Specifiers', cfg='MC_Specifiers_w%s.cfg' % d, want=500)
    for i in range(0, len(ms), 60):
        scripts.append(from_specs(rnd, ms[i:i + 60]))
    for i in range(ck.pick(1500, 40000)):
        scripts.append(gen_script(rnd))
    behs = ck.execute('checks.p16', scripts)
    ck.judge('Trace_Copy', behs, scripts, 'checks.p16', label='copying')
    ck.negative_control('Trace_Copy', behs[-300:], corrupt, n=20)


if __name__ == '__main__':
    vf.main('P16', run)
