"""Driver shared by P01, P02 and P03: archives, script files and their readers."""
import os
import random

import numpy as np

import vf
from vf import Interner, as_int, call, time_limit
from checks.p04 import KEYSTYLES

KS = [KEYSTYLES[i] for i in (0, 2, 3, 5)] + [lambda k: 'a' * (k + 1)]
U = 8000.0
METHODS = ['auto', 'speech-feat', '2byte-auto', '2byte-signed-integer', '1byte-auto', '1byte-unsigned-integer', '1byte-0-1']


def execute(script, wd):
    from hyperion.io.data_rw_factory import DataWriterFactory as DWF
    from hyperion.io.data_rw_factory import SequentialDataReaderFactory as SF
    from hyperion.io.data_rw_factory import RandomAccessDataReaderFactory as RF
    from hyperion.io import ark_data_reader as A, h5_data_reader as H
    from hyperion.io.ark_data_writer import ArkDataWriter
    from hyperion.io.h5_data_writer import H5DataWriter
    from hyperion.utils.kaldi_matrix import KaldiMatrix
    from hyperion.utils.kaldi_io_funcs import init_kaldi_output_stream
    fmt, text, comp = script['fmt'], script['text'], script['comp']
    sty = script['style']
    narch, layout = script.get('narch', 1), script.get('layout', 'ark')
    kn = KS[sty[0] % len(KS)]
    sep = [' ', ' ', '\t', '|'][sty[1] % 4]
    factory, relative = sty[2] % 2, sty[3] % 3 == 0
    KI = Interner([kn(k) for k in range(60)])
    K = lambda k: KI(kn(k))
    evs = []
    base = 'feats' if relative else os.path.join(wd, 'a', 'b', 'feats')
    if relative:
        os.chdir(wd)
    ext = '.h5' if fmt == 'h5' else '.ark'
    if sty[6] % 4 < 2:
        arch = ['%s%s%s' % (base, '' if narch == 1 else '.%d' % i, ext) for i in range(narch)]
    else:                 # the same file name in several directories
        arch = [os.path.join(os.path.dirname(base), *(['d'] * i + [os.path.basename(base) + ext])) for i in range(narch)]
    scpf = ['%s%s.scp' % (base, '' if narch == 1 else '.%d' % i) for i in range(narch)]
    withscp = layout == 'ark' and (script.get('scp', True) or narch > 1)
    W = [None] * narch
    where = []          # archive line of each record: (key, path, offset)
    nwr = 0
    written = []        # keys, record kinds in order written
    rd = [None]
    src = {}

    def build(r):
        a = np.array(r['d'], dtype=float)
        if r['t'] == 'm':
            a = a.reshape(len(r['d']), r['nc'])
        a = a / 8.0
        if sty[4] % 3 == 1:
            a = a.astype('float32')
        if sty[5] % 4 == 1:
            a = np.asfortranarray(a)
        elif sty[5] % 4 == 2 and a.ndim == 2:
            b = np.full((a.shape[0] * 2, a.shape[1] * 2), 77.0, dtype=a.dtype)
            b[::2, ::2] = a
            a = b[::2, ::2]
        return a

    def mkwriter(i):
        s = scpf[i] if withscp else None
        if factory:
            spec = ('h5' if fmt == 'h5' else 'ark') + (',scp' if s else '') + (',t' if text else '') + (',f' if sty[6] % 2 else '') + ':' + arch[i] + ((',' + s) if s else '')
            return DWF.create(spec, compress=bool(comp), compression_method=comp or 'auto', scp_sep=sep)
        kw = dict(flush=bool(sty[6] % 2), compress=bool(comp), compression_method=comp or 'auto', scp_sep=sep)
        if fmt == 'h5':
            return H5DataWriter(arch[i], s, **kw)
        return ArkDataWriter(arch[i], s, binary=not text, **kw)

    def outrec(x):
        x = np.asarray(x)
        if x.ndim == 1:
            return {'t': 'v', 'nc': 1, 'd': [as_int(round(float(v) * U)) if np.isfinite(v) else -2147480002 for v in x]}
        if x.ndim == 2:
            return {'t': 'm', 'nc': int(x.shape[1]), 'd': [[as_int(round(float(v) * U)) if np.isfinite(v) else -2147480002 for v in r] for r in x]}
        return {'t': '%dd' % x.ndim, 'nc': -1, 'd': []}

    def lines_where():
        """position of every record, from the script files of the writers"""
        got = []
        for i in range(narch):
            with open(scpf[i]) as f:
                got.append([l.rstrip('\n').split(sep) for l in f])
        cnt = [0] * narch
        res = []
        for (k, i) in written:
            res.append(got[i][cnt[i]])
            cnt[i] += 1
        return res

    def srcfile(o):
        if o['via'] == 'file':
            return arch[0]
        if o['via'] == 'auto':
            return scpf[0]
        return src['file']

    def mkreader(o, part=1, n=1):
        via = o['via']
        f = srcfile(o)
        tr = dict(part_idx=part, num_parts=n)
        if o.get('bykey'):
            tr['split_by_key'] = True
        pp = src.get('prefix') if via == 'scp' else None
        if o['kind'] == 'seq':
            if factory and not (via == 'scp' and fmt == 'ark' and src.get('nooff')):
                return SF.create((('scp:' if via != 'file' else fmt + ':') + f), path_prefix=pp, scp_sep=sep, **tr)
            if via == 'file':
                return (A.SequentialArkFileDataReader if fmt == 'ark' else H.SequentialH5FileDataReader)(f, **tr)
            return (A.SequentialArkScriptDataReader if fmt == 'ark' else H.SequentialH5ScriptDataReader)(f, pp, scp_sep=sep, **tr)
        perm = bool(o['perm'])
        if factory:
            return RF.create(('scp' if via != 'file' else fmt) + (',p' if perm else '') + ':' + f, path_prefix=pp, scp_sep=sep)
        if via == 'file':
            return H.RandomAccessH5FileDataReader(f, permissive=perm)
        return (A.RandomAccessArkDataReader if fmt == 'ark' else H.RandomAccessH5ScriptDataReader)(f, pp, permissive=perm, scp_sep=sep)

    def arg(x):
        if len(x) == 1 and not src.get('aslist'):
            return x[0]
        return np.array(x) if sty[7] % 2 else list(x)

    for o in script['ops']:
        op = o['op']
        e = {'op': op, 'exc': '', 'res': []}
        if op == 'create':
            e.update(fmt=fmt, text=bool(text), comp=comp)
            if layout == 'ark':
                for i in range(narch):
                    W[i], x = call(mkwriter, i)
                    e['exc'] = e['exc'] or x
        elif op == 'write':
            recs = o['recs']
            e['recs'] = [dict(k=K(r['k']), t=r['t'], d=r['d'], nc=r['nc'], how='') for r in recs]
            ks = [kn(r['k']) for r in recs]
            ds = [build(r) for r in recs]
            if layout == 'bare':
                def wr():
                    for k, d in zip(ks, ds):
                        p = '%s.%d.mat' % (base, len(where))
                        if os.path.dirname(p):
                            os.makedirs(os.path.dirname(p), exist_ok=True)
                        with open(p, 'wb') as f:
                            init_kaldi_output_stream(f, True)
                            KaldiMatrix(d.astype('float32')).write(f, True)
                        where.append([k, p + ':0'])
                        written.append((k, 0))
                _, e['exc'] = call(wr)
            else:
                i = nwr % narch
                nwr += 1
                g = o.get('form', 'list')
                if g == 'array' and len({d.shape for d in ds}) == 1:
                    ds = np.array(ds)
                if g == 'kaldi' and fmt == 'ark' and not (comp and any(d.ndim == 1 for d in ds)):
                    ds = [KaldiMatrix(d) for d in ds]
                if g == 'single' and len(ks) == 1:
                    ks, ds = ks[0], ds[0]
                _, e['exc'] = call(W[i].write, ks, ds)
                if o.get('n_ok') is not None:
                    kk = [ks] if isinstance(ks, str) else list(ks)
                    written += [(k, i) for k in kk[:o['n_ok']]]
        elif op == 'close':
            if layout == 'ark':
                for w in W:
                    _, x = call(w.close)
                    e['exc'] = e['exc'] or x
        elif op == 'script':
            if not withscp or narch > 1:
                continue

            def q():
                with open(scpf[0]) as f:
                    ls = [l.rstrip('\n').split(sep) for l in f]
                for l in ls:
                    assert len(l) == 2 and l[1].startswith(arch[0])
                return [KI(l[0]) for l in ls]
            y, e['exc'] = call(q)
            e['res'] = y or []
        elif op == 'source':
            e['via'] = o['via']
            e['lines'] = [list(x) for x in o.get('lines', [])]
            if o['via'] == 'scp':
                pos, x = (where, '') if layout == 'bare' else call(lines_where)
                if x or len(pos) < max([0] + [ln[0] for ln in o['lines']]):
                    evs.append(dict(e, op='close', exc=x or 'IncompleteScript'))
                    break
                src['file'] = os.path.join(wd, 'x%d.scp' % len(evs))
                pre = o.get('prefix', 0) and all(pos[ln[0] - 1][1].startswith(base[:2]) for ln in o['lines'])
                src['prefix'] = None
                with open(src['file'], 'w') as f:
                    for (ri, a, n) in o['lines']:
                        k, p = pos[ri - 1][0], pos[ri - 1][1]
                        if pre:
                            src['prefix'] = base[:2]
                            p = p[2:]
                        rng = '' if a == 0 and n == 0 else ('[%d:]' % a if n == 0 else ('[%d:%d]' % (a, a + n)))
                        if rng and a == 0 and sty[7] % 3 == 0:
                            rng = '[:%d]' % n
                        f.write('%s%s%s%s\n' % (k, sep, p, rng))
        elif op == 'parts':
            e['bykey'] = bool(o.get('bykey'))
            e['via'] = o['via']

            def q():
                res = []
                for i in range(1, o['n'] + 1):
                    r = mkreader(dict(o, kind='seq'), i, o['n'])
                    ks, _ = r.read()
                    assert r.eof()
                    r.close()
                    res.append([KI(str(k)) for k in ks])
                return res
            y, e['exc'] = call(q)
            e['res'] = y or []
            src['parts'] = y if not e['exc'] else None
            src['n'] = o['n']
        elif op == 'open':
            part = o.get('part', 0)
            if part and not src.get('parts'):
                part = 0                # no parts to be had
            if rd[0] is not None:
                call(rd[0].close)
            e.update(kind=o['kind'], part=part, perm=bool(o.get('perm')))
            oo = dict(o)
            if part:
                rd[0], e['exc'] = call(mkreader, oo, part, src['n'])
            else:
                rd[0], e['exc'] = call(mkreader, oo)
        elif op == 'reset':
            _, e['exc'] = call(rd[0].reset)
        elif op == 'eof':
            y, e['exc'] = call(rd[0].eof)
            e['res'] = bool(y)
        elif op == 'next':
            e.update(keys=[], data=[], off=[0], num=[0], sq=False)
            y, e['exc'] = call(next, rd[0])
            if not e['exc']:
                y, e['exc'] = call(lambda: ([KI(str(y[0]))], [outrec(y[1])]))
                if y:
                    e['keys'], e['data'] = y
        elif op == 'read':
            e.update(n=o['n'], off=o.get('off', [0]), num=o.get('num', [0]), sq=bool(o.get('sq')), keys=[], data=[])
            kw = {}
            if 'off' in o:
                kw = dict(row_offset=arg(o['off']), num_rows=arg(o['num']))
            y, e['exc'] = call(lambda: rd[0].read(o['n'], squeeze=e['sq'], **kw))
            if not e['exc']:
                y, e['exc'] = call(lambda: ([KI(str(k)) for k in y[0]], [outrec(d) for d in y[1]]))
                if y:
                    e['keys'], e['data'] = y
        elif op == 'meta':
            e.update(n=o['n'], what=o['what'], same=bool(o['same']), keys=[])
            f = {'shapes': 'read_shapes', 'numrows': 'read_num_rows', 'dims': 'read_dims'}[o['what']]
            y, e['exc'] = call(lambda: getattr(rd[0], f)(o['n'], assert_same_dim=e['same']))
            if not e['exc']:
                y, e['exc'] = call(lambda: ([KI(str(k)) for k in y[0]], [[as_int(v) for v in np.atleast_1d(d)] for d in y[1]]))
                if y:
                    e['keys'], e['res'] = y
        elif op == 'rread':
            e.update(ask=[K(k) for k in o['ask']], off=o.get('off', [0]), num=o.get('num', [0]), sq=bool(o.get('sq')), data=[])
            kw = {}
            if 'off' in o:
                kw = dict(row_offset=arg(o['off']), num_rows=arg(o['num']))
            ks = [kn(k) for k in o['ask']]
            if len(ks) == 1 and o.get('single'):
                ks = ks[0]
            y, e['exc'] = call(lambda: rd[0].read(ks, squeeze=e['sq'], **kw))
            if not e['exc']:
                y, e['exc'] = call(lambda: [outrec(d) for d in y])
                e['data'] = y or []
        elif op == 'rmeta':
            e.update(ask=[K(k) for k in o['ask']], what=o['what'], same=bool(o['same']))
            ks = [kn(k) for k in o['ask']]
            f = {'shapes': 'read_shapes', 'numrows': 'read_num_rows', 'dims': 'read_dims'}[o['what']]
            y, e['exc'] = call(lambda: getattr(rd[0], f)(ks, assert_same_dim=e['same']))
            if not e['exc']:
                y, e['exc'] = call(lambda: [[as_int(v) for v in np.atleast_1d(d)] for d in y])
                e['res'] = y or []
        else:
            continue
        evs.append(e)
        if e['exc'] == 'HANG':
            break
        if e['exc'] and op in ('create', 'close', 'source', 'open', 'reset', 'eof'):
            break
        if e['exc'] and op in ('read', 'meta', 'next') and e['exc'] != 'StopIteration':
            # the position after an error is not promised: start over
            e2 = {'op': 'reset', 'exc': '', 'res': []}
            _, e2['exc'] = call(rd[0].reset)
            evs.append(e2)
            if e2['exc']:
                break
    if rd[0] is not None:
        call(rd[0].close)
    return {'init': 0, 'ev': evs}


# ------------------------------------------------------------------ scripts
def mat(rnd, comp, t, n, nc):
    lo, hi = -2000, 2000
    if comp == '1byte-unsigned-integer':
        lo, hi = 0, 2040
    elif comp == '1byte-0-1':
        lo, hi = 0, 8
    z = rnd.random()
    if z < 0.2:
        lo, hi = max(lo, 1), max(lo, 1)
    elif z < 0.4:
        hi = min(hi, 9)
        lo = max(lo, -9)
    f = lambda: rnd.randint(lo, hi)
    if t == 'v':
        return [f() for _ in range(n)]
    d = [[f() for _ in range(nc)] for _ in range(n)]
    if z > 0.9 and n:
        for r in d:
            r[0] = rnd.choice([lo, hi])
    return d


def rec(rnd, comp, k, t, n, nc):
    return {'k': k, 't': t, 'nc': 1 if t == 'v' else nc, 'd': mat(rnd, comp, t, n, nc)}


def accepted(fmt, comp, have, recs):
    """how many records of a group are stored before one is refused"""
    n = 0
    for r in recs:
        if comp and r['t'] == 'v':
            return n
        if fmt == 'h5' and r['k'] in have:
            return n
        have.add(r['k'])
        n += 1
    return n


def base(rnd, fmt, text, comp, groups, forms=None, **kw):
    s = dict(fmt=fmt, text=bool(text), comp=comp, style=[rnd.randint(0, 99) for _ in range(8)], ops=[{'op': 'create'}])
    s.update(kw)
    have, stored = set(), []
    for i, g in enumerate(groups):
        n = accepted(fmt, comp, have, g)
        stored += g[:n]
        s['ops'].append({'op': 'write', 'recs': g, 'n_ok': n, 'form': rnd.choice(['list', 'list', 'array', 'kaldi', 'single'])})
    s['ops'].append({'op': 'close'})
    s['empties'] = any(not r['d'] for r in stored)
    return s, stored
