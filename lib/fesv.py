"""Driver library: build harnesses, run them, hand the traces to TLC.

Nothing in this file decides a property.  It (1) compiles a harness against
the sources of /repo's working tree, (2) runs scenarios through it and records
one JSON object per session, (3) runs TLC on a model and on the recorded
traces, and (4) turns TLC's verdicts into the exit code, the VIOLATION /
KNOWN-FINDING lines and the evidence file.
"""
import glob
import json
import os
import random
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FES_REPO', '/repo')
TLA = '/opt/veriftools/tla'
CXXFLAGS = ['-std=c++14', '-O1', '-DNDEBUG', '-pthread', '-w']
INCLUDES = ['-I' + REPO + '/include', '-I/usr/include/eigen3',
            '-I' + VERIF + '/harness']


class CheckError(Exception):
    """The check itself failed: neither a pass nor a violation."""


def bits(x):
    """A double as the pair of signed 32-bit halves used in the traces."""
    hi, lo = struct.unpack('>ii', struct.pack('>d', x))
    return [hi, lo]


def unbits(p):
    return struct.unpack('>d', struct.pack('>ii', p[0], p[1]))[0]


def fnum(x):
    """Write a float so that strtod reads it back exactly."""
    if isinstance(x, bool):
        return '1' if x else '0'
    if isinstance(x, int):
        return str(x)
    if x != x:
        return 'nan'
    if x in (float('inf'), float('-inf')):
        return 'inf' if x > 0 else '-inf'
    return repr(x)


def rejections(out):
    """The REJECT tuples that TLC printed, on one line or on many."""
    result = []
    for m in re.finditer(r'<<\s*"REJECT"', out):
        depth, i = 0, m.start()
        while i < len(out):
            if out.startswith('<<', i):
                depth, i = depth + 1, i + 2
            elif out.startswith('>>', i):
                depth, i = depth - 1, i + 2
                if depth == 0:
                    break
            else:
                i += 1
        text = re.sub(r'\s+', ' ', out[m.start():i])
        t = re.match(r'<<\s?"REJECT", (-?\d+), (-?\d+)(?:, (.*))?>>', text)
        if not t:
            raise CheckError('unreadable rejection: ' + text[:300])
        result.append((int(t.group(1)), int(t.group(2)),
                       (t.group(3) or '').strip()))
    return result


class Ctx:
    """One run of the check of one property."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='fesv-%s-' % prop)
        self.models = []        # per TLC model run
        self.traces = []        # per trace validation
        self.rejects = []       # (trace name, session id, event, why, data)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.assumptions = []
        self.notes = {}
        self._java = None
        self._lock = threading.Lock()

    def log(self, msg):
        print('[%s %5.1fs] %s' % (self.prop, time.time() - self.t0, msg),
              flush=True)

    # ------------------------------------------------------------- building
    def java_classes(self):
        with self._lock:
            return self._java_classes()

    def _java_classes(self):
        if self._java:
            return self._java
        out = os.path.join(self.work, 'classes')
        os.makedirs(out)
        srcs = sorted(glob.glob(VERIF + '/spec/java/*.java'))
        r = subprocess.run(['javac', '-nowarn', '-cp',
                            TLA + '/tla2tools.jar:' + TLA +
                            '/CommunityModules-deps.jar', '-d', out] + srcs,
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError('javac failed:\n' + r.stderr)
        self._java = out
        return out

    def build(self, name, sources, lib=True, flags=(), lib_filter=None):
        """Compile harness sources + the library sources; return the binary."""
        objdir = os.path.join(self.work, 'obj-' + name)
        os.makedirs(objdir)
        srcs = [os.path.join(VERIF, 'harness', s) for s in sources]
        if lib:
            libs = sorted(glob.glob(REPO + '/src/library/**/*.cpp',
                                    recursive=True))
            srcs += libs
        jobs = []
        for i, s in enumerate(srcs):
            o = os.path.join(objdir, '%02d.o' % i)
            jobs.append((s, o))

        def cc(job):
            s, o = job
            cmd = ['g++'] + CXXFLAGS + list(flags) + INCLUDES + \
                ['-c', s, '-o', o]
            r = subprocess.run(cmd, capture_output=True, text=True)
            return s, r.returncode, r.stderr
        with ThreadPoolExecutor(8) as ex:
            for s, rc, err in ex.map(cc, jobs):
                if rc:
                    raise CheckError('cannot compile %s:\n%s' %
                                     (s, err[-4000:]))
        exe = os.path.join(self.work, name)
        r = subprocess.run(['g++'] + CXXFLAGS + list(flags) +
                           [o for _, o in jobs] + ['-o', exe],
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError('cannot link %s:\n%s' % (name, r.stderr[-4000:]))
        return exe

    def parallel(self, *thunks):
        """Run thunks at the same time; return their results in order."""
        with ThreadPoolExecutor(len(thunks)) as ex:
            futures = [ex.submit(t) for t in thunks]
            return [f.result() for f in futures]

    # -------------------------------------------------------------- running
    def run(self, exe, sessions, timeout=None, env=None, procs=8):
        """Run sessions (lists of command lines) through a harness.

        Returns a list of {"id":, "ev": [...]}.  A session during which the
        harness dies or hangs ends with an event {"op": "crash"} resp.
        {"op": "hang"}.
        """
        n = len(sessions)
        timeout = timeout or (3000 if self.thorough else 150)
        procs = max(1, min(procs, n))
        parts = [list(range(i, n, procs)) for i in range(procs)]
        with ThreadPoolExecutor(procs) as ex:
            res = list(ex.map(
                lambda p: self._run_part(exe, sessions, p, timeout, env),
                parts))
        out = {}
        for r in res:
            out.update(r)
        return [out[i] for i in range(n)]

    def _run_part(self, exe, sessions, idx, timeout, env):
        out = {}
        todo = list(idx)
        e = dict(os.environ)
        e.update(env or {})
        crashes = 0
        while todo:
            text = []
            for i in todo:
                text.append('SESSION %d\n' % i)
                text.extend(c + '\n' for c in sessions[i])
                text.append('END\n')
            cmd = exe if isinstance(exe, list) else [exe]
            p = subprocess.Popen(cmd, stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, text=True,
                                 errors='replace', env=e,
                                 cwd=self.work)
            how = 'crash'
            try:
                so, se = p.communicate(''.join(text), timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                so, se = p.communicate()
                how = 'hang'
            if p.returncode == 97:
                raise CheckError('the harness failed:\n' + se[-3000:])
            events = {}
            done = set()
            last = None
            for line in so.splitlines():
                if line.startswith('S '):
                    last = int(line[2:])
                    events[last] = []
                elif line.startswith('E '):
                    try:
                        events[last].append(json.loads(line[2:]))
                    except ValueError:
                        break
                elif line.startswith('D '):
                    done.add(int(line[2:]))
            for i in done:
                out[i] = {'id': i, 'ev': events[i]}
            todo = [i for i in todo if i not in done]
            if todo:
                i = last if last in todo else todo[0]
                out[i] = {'id': i, 'ev': events.get(i, []) +
                          [{'op': how, 'rc': p.returncode or 0,
                            'why': se[-600:]}]}
                todo.remove(i)
                crashes += 1
                if crashes > 12 or how == 'hang':
                    for i in todo:
                        out[i] = {'id': i, 'ev': [{'op': 'skipped'}]}
                    break
            elif p.returncode != 0:
                # died after the last session (e.g. sanitizer at exit)
                i = idx[-1]
                out[i]['ev'].append({'op': 'crash', 'rc': p.returncode,
                                     'why': se[-600:]})
        return out

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, timeout=600, args=(), workers='8',
            heap='6g', capture_print=False):
        cls = self.java_classes()
        wd = tempfile.mkdtemp(prefix='tlc-', dir=self.work)
        cfgf = os.path.join(wd, module + '.cfg')
        with open(cfgf, 'w') as f:
            f.write(cfg)
        cp = ':'.join([cls, TLA + '/tla2tools.jar',
                       TLA + '/CommunityModules-deps.jar'])
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC',
               '-DTLA-Library=' + VERIF + '/spec', '-cp', cp, 'tlc2.TLC',
               '-workers', workers, '-deadlock', '-noGenerateSpecTE',
               '-metadir', os.path.join(wd, 'states'),
               '-config', cfgf] + list(args) + \
            [os.path.join(VERIF, 'spec', module + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, capture_output=True, text=True,
                               cwd=wd, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on ' + module)
        out = r.stdout + r.stderr
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found',
                       out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        shutil.rmtree(wd, ignore_errors=True)
        return {'rc': r.returncode, 'out': out, 'generated': gen,
                'distinct': dist}

    def model(self, module, cfg, name=None, **kw):
        """Model check a specification; its invariants must hold."""
        t = time.time()
        r = self.tlc(module, cfg, **kw)
        ok = 'Model checking completed. No error' in r['out'] or \
            ('-simulate' in kw.get('args', ()) and r['rc'] == 0)
        if not ok:
            raise CheckError('model %s does not satisfy its properties:\n%s'
                             % (module, r['out'][-5000:]))
        self.states += r['distinct']
        self.transitions += r['generated']
        self.models.append({'module': name or module,
                            'states': r['distinct'],
                            'transitions': r['generated'],
                            'wall_s': round(time.time() - t, 2)})
        self.log('model %s: %d states, %d transitions' %
                 (name or module, r['distinct'], r['generated']))
        return r

    def refuted(self, module, cfg, invariant, **kw):
        """A model of a mistaken design: TLC must find the violation."""
        r = self.tlc(module, cfg, **kw)
        if 'Invariant %s is violated' % invariant not in r['out']:
            raise CheckError('%s does not see the mistake:\n%s\n%s' %
                             (module, cfg, r['out'][-3000:]))
        self.notes.setdefault('mistakes_refuted', []).append(
            module + ': ' + ' '.join(cfg.split()))

    def behaviours(self, r):
        """JSON values printed by a model run (PrintT(ToJson(hist)))."""
        out = []
        for line in r['out'].splitlines():
            if line.startswith('"BEH '):
                s = json.loads(line)[4:]
                out.append(json.loads(s))
        return out

    def validate(self, module, sessions, name=None, cfg=None, consts='',
                 timeout=800, replay=None, env=None):
        """Validate recorded sessions against a trace specification.

        `replay(session)` (optional) returns what reproduces a session; it is
        stored in the replay file when the session is rejected.
        """
        name = name or module
        t = time.time()
        skipped = [s for s in sessions if s['ev'] and
                   s['ev'][-1].get('op') == 'skipped']
        live = [s for s in sessions if s not in skipped] if skipped else \
            sessions
        left = list(live)
        rejected = {}
        states = 0
        for attempt in range(12):
            path = os.path.join(self.work, 'trace-%s.ndjson' % name)
            with open(path, 'w') as f:
                for s in left:
                    f.write(json.dumps(s) + '\n')
            e = {'TRACE': path}
            e.update(env or {})
            r = self.tlc(module, (cfg or 'INIT Init\nNEXT Next\n') + consts,
                         env=e, timeout=timeout)
            bad = {}
            for sid, ev, why in rejections(r['out']):
                bad.setdefault(sid, []).append((ev, why))
            complete = 'Model checking completed. No error' in r['out']
            if complete:
                states += r['distinct']
                for k, v in bad.items():
                    rejected.setdefault(k, []).extend(sorted(v))
                if not bad:
                    want = sum(len(s['ev']) + 1 for s in left)
                    if r['distinct'] != want:
                        raise CheckError(
                            'trace %s: %d states, expected %d\n%s' %
                            (name, r['distinct'], want, r['out'][-3000:]))
                break
            # TLC could not evaluate the specification on some event: that
            # event does not have the shape the specification requires.
            m = re.findall(r'/\\ s = (\d+)', r['out'])
            ml = re.findall(r'/\\ l = (\d+)', r['out'])
            if not m or not ml:
                raise CheckError('TLC failed on trace %s:\n%s' %
                                 (name, r['out'][-5000:]))
            k = int(m[-1]) - 1
            sess = left[k]
            why = re.findall(r'Error: (.*)', r['out'])
            rejected.setdefault(sess['id'], []).append(
                (int(ml[-1]) + 1, 'not evaluable: ' + ' '.join(why)[:300]))
            self.notes.setdefault('unevaluable', []).append(
                r['out'][-2500:])
            del left[k]
        else:
            pass
        byid = {s['id']: s for s in sessions}
        for sid, evs in sorted(rejected.items()):
            s = byid[sid]
            for (ln, why) in evs:
                ev = s['ev'][ln - 1] if 0 < ln <= len(s['ev']) else None
                self.rejects.append({
                    'trace': name, 'session': sid, 'event': ln, 'why': why,
                    'data': ev,
                    'replay': replay(s) if replay else None})
        n_ok = len(live) - len(rejected)
        self.validated += n_ok
        self.states += states
        self.transitions += states
        nev = sum(len(s['ev']) for s in live)
        self.traces.append({'trace': name, 'spec': module,
                            'sessions': len(live), 'events': nev,
                            'rejected': len(rejected),
                            'wall_s': round(time.time() - t, 2)})
        self.log('trace %s: %d sessions, %d events, %d rejected' %
                 (name, len(live), nev, len(rejected)))
        if live and len(self.samples) < 6:
            s = live[len(live) // 2]
            if s['ev']:
                self.samples.append({'trace': name, 'session': s['id'],
                                     'event': _short(s['ev'][0])})
        return rejected

    # -------------------------------------------------------------- verdict
    def known(self):
        out = []
        p = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(p):
            with open(p) as f:
                for k in json.load(f)['findings']:
                    if isinstance(k, dict) and k['property'] == self.prop:
                        out.append(k)
        return out

    def evidence(self, violations):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.validated,
               'samples': self.samples or ['none'],
               'models': self.models, 'traces': self.traces}
        cov.update({k: v for k, v in self.notes.items()
                    if k != 'unevaluable'})
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': 'model_checking', 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': violations}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def _short(x, n=12):
    """Make an event readable: decode doubles, cut long arrays."""
    if isinstance(x, dict):
        return {k: _short(v) for k, v in x.items()}
    if isinstance(x, list):
        if len(x) == 2 and all(isinstance(i, int) and
                               not isinstance(i, bool) for i in x) and \
                (abs(x[0]) > 100000 or x == [0, 0]):
            v = unbits(x)
            return v if v == v and abs(v) != float('inf') else str(v)
        y = [_short(i) for i in x[:n]]
        return y + ['... %d more' % (len(x) - n)] if len(x) > n else y
    if isinstance(x, str) and len(x) > 400:
        return x[:400] + '...'
    return x


short = _short


def matches(known, rej):
    """Does a rejection match a known finding entry?"""
    m = known['match']
    if m.get('trace') and m['trace'] != rej['trace']:
        return False
    ev = rej['data'] or {}
    for k, v in m.get('event', {}).items():
        if ev.get(k) != v:
            return False
    if 'why' in m and m['why'] not in str(rej['why']):
        return False
    return True


def main(check, prop):
    """Run check(ctx) twice if needed; print the verdict; return exit code."""
    ctx = Ctx(prop)
    try:
        check(ctx)
        rejects = ctx.rejects
        known = ctx.known()
        hit = {}
        new = []
        for r in rejects:
            for i, k in enumerate(known):
                if matches(k, r):
                    hit[i] = k
                    break
            else:
                new.append(r)
        if new:
            # a rejection only counts if a second, independent run repeats it
            ctx.log('%d rejection(s); running again to confirm' % len(new))
            slow = time.time() - ctx.t0 > 300 and not ctx.thorough
            for _ in range(0 if slow else 1 if ctx.thorough else 4):
                ctx2 = Ctx(prop)
                try:
                    check(ctx2)
                    new2 = [r for r in ctx2.rejects
                            if not any(matches(k, r) for k in known)]
                finally:
                    ctx2.close()
                if new2 or time.time() - ctx.t0 > 600 and not ctx.thorough:
                    break
            else:
                if not slow:
                    raise CheckError('a rejection was not repeated: ' +
                                 json.dumps(_short(new[0]))[:2000])
        for k in hit.values():
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        ctx.evidence(len(new))
        if new:
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%d.json' % (prop, ctx.seed))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'seed': ctx.seed,
                           'tier': ctx.tier,
                           'how': 'VERIF_SEED=%d VERIF_TIER=%s python3 '
                                  'bin/check.py %s' %
                                  (ctx.seed, ctx.tier, prop),
                           'rejections': [dict(r, readable=_short(r['data']))
                                          for r in new[:20]],
                           'notes': ctx.notes}, f, indent=1)
            for r in new[:5]:
                print('  rejected: trace=%s session=%s event=%s %s %s' %
                      (r['trace'], r['session'], r['event'], r['why'],
                       json.dumps(_short(r['data']))[:1500]))
            print('VIOLATION property=%s replay=%s' %
                  (prop, os.path.relpath(path, VERIF)))
            return 1
        print('OK property=%s states=%d transitions=%d traces=%d wall=%.1fs'
              % (prop, ctx.states, ctx.transitions, ctx.validated,
                 time.time() - ctx.t0))
        return 0
    except CheckError as e:
        print('CHECK ERROR %s: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('CHECK ERROR %s: unexpected exception' % prop)
        return 2
    finally:
        ctx.close()
