"""Common machinery of the checks in /verif: running TLC, executing scripts of
operations against the code in /repo, having TLC judge the recorded traces,
reporting violations and writing the evidence file.

Pipeline of a check
  1. TLC explores the bounded model MC_<X>.tla exhaustively, checks the
     invariants of the specification and emits operation scripts ("@@BEH ...").
  2. A driver executes those scripts, and larger randomised ones, against the
     real code and records one event per call (arguments, result, projection
     of the state that the API exposes).
  3. TLC evaluates the specification on the recorded behaviours
     (Trace_<X>.tla) and names every event that the specification forbids
     ("@@BAD ...").
"""
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
TLA = '/opt/veriftools/tla'
NPROC = max(2, min(8, os.cpu_count() or 2))


class Broken(Exception):
    """The machinery itself failed: exit 2, never reported as a violation."""


class Hang(BaseException):
    pass


def _alarm(sig, frm):
    raise Hang()


@contextlib.contextmanager
def time_limit(seconds):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def call(fn, *a, **k):
    """Runs fn and returns (value, '') or (None, 'ExceptionName')."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(*a, **k), ''
    except Hang:
        return None, 'HANG'
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:      # SystemExit included
        return None, type(e).__name__


class Interner(object):
    """Maps the strings (or other comparable values) of a behaviour to integers
    that preserve their order; values that only show up in results get ids
    that no expected value has."""

    def __init__(self, values, base=1):
        self.ids = {v: i + base for i, v in enumerate(sorted(set(values)))}
        self.extra = {}

    def __call__(self, v):
        try:
            if v in self.ids:
                return self.ids[v]
        except TypeError:
            pass
        v = repr(v)
        if v not in self.extra:
            self.extra[v] = 900000 + len(self.extra)
        return self.extra[v]

    def seq(self, vs):
        return [self(v) for v in vs]


def as_int(x, lim=2 ** 31 - 1):
    """An int that TLC can hold; other values map to a sentinel no spec expects."""
    try:
        y = int(x)
        if y != x or abs(y) > lim:
            return -2147480000
        return y
    except Exception:
        return -2147480001


_CHILD = {}


def _exec_chunk(args):
    modname, chunk, limit, scratch = args
    import importlib
    mod = importlib.import_module(modname)
    out = []
    d = tempfile.mkdtemp(dir=scratch)
    cwd = os.getcwd()
    os.chdir(d)
    devnull = open(os.devnull, 'w')
    try:
        for script in chunk:
            wd = tempfile.mkdtemp(dir=d)
            try:
                with time_limit(limit), contextlib.redirect_stderr(devnull):
                    beh = mod.execute(script, wd)
            except Hang:
                beh = {'init': script.get('init', 0), 'ev': [], 'fatal': 'HANG'}
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, MemoryError)):
                    raise
                beh = {'init': script.get('init', 0), 'ev': [],
                       'fatal': '%s: %s | %s' % (type(e).__name__, str(e)[:200],
                                            traceback.format_exc(limit=-3)[-700:])}
            shutil.rmtree(wd, ignore_errors=True)
            out.append(beh)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    return out


class Check(object):
    def __init__(self, pid, tier, seed, level='model_checking'):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.level = level
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vf_%s_' % pid, dir=os.environ.get('VERIF_TMP', '/tmp'))
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
                    'samples': [], 'events_judged': 0, 'events_by_op': {},
                    'model_runs': [], 'negative_controls_rejected': 0}
        self.assumptions = []
        self.violations = []      # (summary, replay dict)
        self.known_hits = []
        kf = os.path.join(VERIF, 'known_findings.json')
        self.known = []
        if os.path.exists(kf):
            with open(kf) as f:
                self.known = [k for k in json.load(f)['findings'] if k.get('property') == pid]

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=None, timeout=600, extra=(), heap='6g', allow_fail=False):
        meta = tempfile.mkdtemp(prefix='tlc_', dir=self.scratch)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cfgp = cfg or (module + '.cfg')
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Dfile.encoding=UTF-8',
               '-Djava.io.tmpdir=' + meta,
               '-cp', '%s/tla2tools.jar:%s/CommunityModules-deps.jar' % (TLA, TLA), 'tlc2.TLC',
               '-workers', str(workers or NPROC), '-metadir', meta, '-noGenerateSpecTE',
               '-config', cfgp] + list(extra) + [module + '.tla']
        outp = os.path.join(meta, 'out.txt')
        with open(outp, 'w') as f:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -999
        with open(outp, errors='replace') as f:
            out = f.read()
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if not m:
            m = re.findall(r'The number of states generated: (\d+)()', out)
        gen, dist = (int(m[-1][0]), int(m[-1][1] or m[-1][0])) if m else (0, 0)
        return rc, out, gen, dist

    def model(self, module, cfg=None, timeout=600, extra=(), env=None, workers=None, heap='6g', want=None):
        """Model-checks a bounded model.  The specification alone is at stake: a
        failure is a broken check, not a violation of the code."""
        rc, out, gen, dist = self.tlc(module, cfg, env=env, timeout=timeout, extra=extra, workers=workers, heap=heap)
        if rc != 0:
            sys.stderr.write(out[-4000:])
            raise Broken('TLC failed on %s (%s), exit %d' % (module, cfg, rc))
        self.cov['states'] += dist
        self.cov['transitions'] += gen
        beh = parse_marks(out, '@@BEH')
        if want and len(beh) < want:
            raise Broken('%s emitted only %d behaviours' % (module, len(beh)))
        self.cov['model_runs'].append({'module': module, 'cfg': cfg or module + '.cfg', 'states': dist,
                                       'transitions': gen, 'behaviours_emitted': len(beh)})
        return beh

    # ------------------------------------------------------------ execution
    def execute(self, modname, scripts, limit=30, timeout=800):
        """Executes scripts with mod.execute(script, workdir) in parallel."""
        if not scripts:
            return []
        n = len(scripts)
        csz = max(1, min(200, (n + NPROC * 4 - 1) // (NPROC * 4)))
        chunks = [scripts[i:i + csz] for i in range(0, n, csz)]
        ctx = mp.get_context('fork')
        res = []
        with ctx.Pool(NPROC, maxtasksperchild=None) as pool:
            r = pool.map_async(_exec_chunk, [(modname, c, limit, self.scratch) for c in chunks], chunksize=1)
            t_end = time.time() + timeout
            while not r.ready():
                r.wait(1)
                if time.time() > t_end:
                    pool.terminate()
                    self.violation('the code under test did not finish %d scripted behaviours in %d s' % (n, timeout),
                                   {'module': modname})
                    return []
                dead = [p for p in pool._pool if p.exitcode not in (None, 0)]
                if dead:
                    pool.terminate()
                    self.violation('the code under test killed its process (exit %s)' % dead[0].exitcode,
                                   {'module': modname})
                    return []
            for c in r.get():
                res.extend(c)
        return res

    # ------------------------------------------------------------- judging
    def judge(self, module, behs, scripts, modname, cfg=None, timeout=700, label='', heap='10g', batch=None, env=None):
        """Has TLC evaluate the trace specification `module` on the behaviours."""
        ok = []
        for k, b in enumerate(behs):
            if 'fatal' in b:
                self.violation('%s: executing a behaviour failed outside the recorded calls: %s'
                               % (label or module, b['fatal']),
                               {'module': modname, 'script': scripts[k], 'why': b['fatal']})
            else:
                ok.append(k)
        if not ok:
            return
        groups = [ok]
        if batch:
            groups = [ok[i:i + batch] for i in range(0, len(ok), batch)]
        for g in groups:
            self._judge(module, behs, g, scripts, modname, cfg, timeout, label, heap, env)

    def _judge(self, module, behs, ok, scripts, modname, cfg, timeout, label, heap, env=None):
        tp = os.path.join(self.scratch, 'trace_%s.json' % module)
        with open(tp, 'w') as f:
            json.dump([behs[k] for k in ok], f)
        rc, out, gen, dist = self.tlc(module, cfg, env=dict(env or {}, TRACE=tp), timeout=timeout, heap=heap)
        bad = parse_marks(out, '@@BAD')
        nev = sum(len(behs[k]['ev']) for k in ok)
        if rc != 0:
            if rc == -999 or 'OutOfMemory' in out or 'StackOverflow' in out or 'Semantic errors' in out or 'Parsing or semantic' in out:
                sys.stderr.write(out[-3000:])
                raise Broken('TLC could not judge the traces (%s): rc %d' % (module, rc))
            # the specification could not even be evaluated on what the code returned
            msg = [l for l in out.splitlines() if 'rror' in l][:4]
            if not bad:
                # find one culprit by judging behaviours separately in halves
                k = self._bisect(module, cfg, behs, ok, timeout, heap, env)
                self.violation('%s: the recorded behaviour has a shape the specification excludes: %s'
                               % (label or module, ' '.join(msg)[:300]),
                               {'module': modname, 'script': scripts[k], 'behaviour': behs[k], 'tlc': out[-1500:]})
                return
        if rc == 0:
            done = parse_marks(out, '@@END')
            if len(done) + len({b[0] for b in bad}) != len(ok):
                sys.stderr.write(out[-3000:])
                raise Broken('%s: %d behaviours sent, %d accepted, %d rejected'
                             % (module, len(ok), len(done), len(bad)))
        self.cov['states'] += dist
        self.cov['transitions'] += gen
        self.cov['traces_validated_against_impl'] += len(ok)
        self.cov['events_judged'] += nev
        for k in ok:
            for ev in behs[k]['ev']:
                o = ev.get('op', '?')
                self.cov['events_by_op'][o] = self.cov['events_by_op'].get(o, 0) + 1
        if len(self.cov['samples']) < 4 and ok:
            s = json.dumps(behs[ok[len(ok) // 2]])
            self.cov['samples'].append(s[:1500])
        for (b, i, why) in bad:
            k = ok[b - 1]
            ev = behs[k]['ev'][i - 1]
            self.violation('%s: event %d (%s): %s' % (label or module, i, ev.get('op'), why),
                           {'module': modname, 'trace_module': module, 'cfg': cfg, 'script': scripts[k],
                            'event_index': i, 'event': ev, 'why': why})

    def _bisect(self, module, cfg, behs, ok, timeout, heap, env=None):
        cand = list(ok)
        n = 0
        while len(cand) > 1 and n < 14:
            n += 1
            half = cand[:len(cand) // 2]
            tp = os.path.join(self.scratch, 'trace_bisect.json')
            with open(tp, 'w') as f:
                json.dump([behs[k] for k in half], f)
            rc, out, _, _ = self.tlc(module, cfg, env=dict(env or {}, TRACE=tp), timeout=timeout, heap=heap)
            cand = half if rc != 0 else cand[len(cand) // 2:]
        return cand[0]

    def negative_control(self, module, beh, corrupt, cfg=None, env=None, n=None):
        """Shows the binding: corrupted copies of recorded behaviours have to be rejected."""
        bads = []
        if self.violations:
            return
        for b in beh:
            if 'fatal' in b:
                continue
            c = json.loads(json.dumps(b))
            c = corrupt(c)
            if c is not None:
                bads.append(c)
            if n and len(bads) >= n:
                break
        if not bads:
            if self.violations:
                return
            raise Broken('no behaviour to corrupt for the negative control of ' + module)
        tp = os.path.join(self.scratch, 'neg_%s.json' % module)
        with open(tp, 'w') as f:
            json.dump(bads, f)
        rc, out, _, _ = self.tlc(module, cfg, env=dict(env or {}, TRACE=tp), timeout=300)
        rej = {b[0] for b in parse_marks(out, '@@BAD')}
        if len(rej) != len(bads) and not self.violations:
            raise Broken('negative control of %s: %d of %d corrupted traces rejected' % (module, len(rej), len(bads)))
        self.cov['negative_controls_rejected'] += len(rej)

    # ------------------------------------------------------------ reporting
    def violation(self, summary, replay):
        for k in self.known:
            if k.get('status') == 'fixed':
                continue
            if known_match(k, summary, replay):
                self.known_hits.append(k['id'])
                return
        self.violations.append((summary, replay))

    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': self.cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for k in self.known:
            if k.get('status') != 'fixed':
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if self.violations:
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            seen = {}
            for s, r in self.violations:
                key = re.sub(r'\d+', '#', s).split('[')[0].split('<<')[0][:160]
                seen.setdefault(key, []).append((s, r))
            for n, (key, items) in enumerate(sorted(seen.items(), key=lambda kv: -len(kv[1]))[:8]):
                s, r = min(items, key=lambda sr: len(json.dumps(sr[1], default=str)))
                p = os.path.join(d, '%s-%d.json' % (self.pid, n))
                with open(p, 'w') as f:
                    json.dump({'property': self.pid, 'summary': s, 'count': len(items), 'replay': r}, f,
                              indent=1, default=str)
                print('  (%d) %s' % (len(items), s[:400]))
                print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        print('%s OK tier=%s: %d model states, %d behaviours (%d events) validated, %.1f s' % (
            self.pid, self.tier, self.cov['states'], self.cov['traces_validated_against_impl'],
            self.cov['events_judged'], time.time() - self.t0))
        return 0


def known_match(k, summary, replay):
    if k.get('summary_re') and not re.search(k['summary_re'], summary):
        return False
    if 'event' in k:
        ev = replay.get('event') or {}
        for kk, vv in k['event'].items():
            if ev.get(kk) != vv:
                return False
    return bool(k.get('summary_re') or k.get('event'))


def parse_marks(out, mark):
    """Collects the JSON payloads TLC printed as "<mark> <json>"."""
    res = []
    for line in out.splitlines():
        i = line.find(mark + ' ')
        if i < 0:
            continue
        s = line[i + len(mark) + 1:].rstrip()
        if line.lstrip().startswith('"'):
            # PrintT prints a string with quotes and escapes
            s = s[:-1] if s.endswith('"') else s
            s = s.replace('\\"', '"').replace('\\\\', '\\')
        try:
            res.append(json.loads(s))
        except ValueError:
            raise Broken('unparsable TLC output: ' + line[:300])
    return res


def main(pid, run):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    ck = Check(pid, a.tier, a.seed)
    try:
        try:
            run(ck)
        except Broken as e:
            if ck.violations:
                # something real was already found: report that
                sys.stderr.write('note: %s\n' % e)
            else:
                sys.stderr.write('BROKEN CHECK %s: %s\n' % (pid, e))
                shutil.rmtree(ck.scratch, ignore_errors=True)
                sys.exit(2)
        sys.exit(ck.finish())
    finally:
        shutil.rmtree(ck.scratch, ignore_errors=True)
