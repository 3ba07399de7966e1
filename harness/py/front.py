"""Drives the Python package of /repo on stand-ins for what is not built.

argv: the sources of pyfes, the directory of the stand-ins.  Every command is
a JSON object, every event too.  The package is copied, with the core replaced
by the recording stand-in, into a directory of this process.
"""
import atexit
import datetime
import http.client
import importlib
import io
import json
import os
import resource
import shutil
import ssl
import struct
import sys
import tempfile
import traceback
import urllib.error
import urllib.request
import warnings

import numpy
import yaml

warnings.simplefilter('ignore')
SRC, STUBS = sys.argv[1:3]
WORK = tempfile.mkdtemp(prefix='front-', dir='.')
WORK = os.path.abspath(WORK)
atexit.register(shutil.rmtree, WORK, True)
shutil.copytree(SRC, WORK + '/pyfes',
                ignore=shutil.ignore_patterns('*.so', '__pycache__', 'core'))
shutil.copytree(STUBS + '/core', WORK + '/pyfes/core',
                ignore=shutil.ignore_patterns('__pycache__'))
shutil.copy(STUBS + '/netCDF4.py', WORK)
if not os.path.exists(WORK + '/pyfes/version.py'):
    with open(WORK + '/pyfes/version.py', 'w') as f:
        f.write('__version__ = "0"\n')
sys.path.insert(0, WORK)
TABLE = WORK + '/pyfes/data/leap-seconds.txt'
with open(TABLE, 'rb') as f:
    SHIPPED = f.read()
P = None            # the package, imported anew by every process


def restart():
    global P
    for name in [n for n in sys.modules if n.split('.')[0] == 'pyfes' and
                 n.split('.')[1:2] != ['core']]:
        del sys.modules[name]
    P = importlib.import_module('pyfes')


# ------------------------------------------------------------------ network
class Net:
    mode = 'down'
    content = b''

    @staticmethod
    def read():
        pass


class Response(io.BytesIO):
    status = code = 200
    reason = 'OK'
    headers = {}

    def read(self, *a):
        if Net.mode == 'kill':
            raise KeyboardInterrupt
        if Net.mode == 'broken':
            raise http.client.IncompleteRead(Net.content[:99], 1000)
        if Net.mode == 'slow':
            raise TimeoutError('timed out')
        Net.read()
        return super().read(*a)

    def getcode(self):
        return self.code


def answer(self, fullurl, data=None, timeout=None):
    m = Net.mode
    if m == 'down':
        raise urllib.error.URLError('no network')
    if m == 'refused':
        raise urllib.error.HTTPError('url', 404, 'Not Found', {}, None)
    if m == 'hangup':
        raise http.client.RemoteDisconnected('closed')
    r = Response(Net.content)
    if m == 'empty':
        r = Response(b'')
        r.status = r.code = 204
        r.reason = 'No Content'
    return r


urllib.request.OpenerDirector.open = answer
ssl.create_default_context = lambda *a, **k: ssl.SSLContext(
    ssl.PROTOCOL_TLS_CLIENT)       # without the certificates, slow to load


# ------------------------------------------------------------------- values
def real(x):
    return list(struct.unpack('>ii', struct.pack('>d', float(x))))


def unreal(p):
    return struct.unpack('>d', struct.pack('>ii', *p))[0]


def day(x):
    """A datetime or a datetime64 as [day, second, nanosecond]."""
    if isinstance(x, datetime.datetime):
        d = x - datetime.datetime(1970, 1, 1)
        return [d.days, d.seconds, d.microseconds * 1000]
    unit, step = numpy.datetime_data(x.dtype)
    v = int(x.astype('int64'))
    v *= step
    if unit in 'YM':
        v *= 12 if unit == 'Y' else 1
        return [(datetime.date(1970 + v // 12, v % 12 + 1, 1) -
                 datetime.date(1970, 1, 1)).days, 0, 0]
    n = {'W': 7 * 86400, 'D': 86400, 'h': 3600, 'm': 60, 's': 1}.get(unit)
    if n:
        return [v * n // 86400, v * n % 86400, 0]
    n = {'ms': 10 ** 3, 'us': 10 ** 6, 'ns': 10 ** 9}[unit]
    s, f = divmod(v, n)
    return [s // 86400, s % 86400, f * (10 ** 9 // n)]


def value(x):
    """What a call is given, or answers, as JSON."""
    if x is None or isinstance(x, (bool, str)):
        return 'none' if x is None else x
    if isinstance(x, (int, numpy.integer)):
        return int(x)
    if isinstance(x, (float, numpy.floating)):
        return real(x)
    if isinstance(x, (complex, numpy.complexfloating)):
        return [real(x.real), real(x.imag)]
    if isinstance(x, (datetime.datetime, numpy.datetime64)):
        return day(x)
    if isinstance(x, dict):
        return [[value(k), value(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [value(i) for i in x]
    if isinstance(x, numpy.ndarray):
        return [value(i) for i in x]
    if type(x).__name__ == 'Settings':
        return [value(x.astronomic_formulae), value(x.time_tolerance),
                value(x.excluded)]
    if type(x).__name__ in ('Formulae', 'Constituent', 'TideType'):
        return x.value
    if type(x).__name__ == 'Answer':
        return 'answer %d' % x.number
    if isinstance(x, Model):
        return 'model %d' % x.n
    raise TypeError('unexpected value %r' % (x, ))


class Model:
    def __init__(self, n):
        self.n = n


def dates(c):
    """The dates of a command, in the form it asks for."""
    v = c['v']
    form = c['form']
    if form == 'datetimes':
        return [dt(x) for x in v]
    if form == 'datetime':
        return dt(v[0])
    if form == 'scalar':
        return numpy.datetime64(v[0], c['unit'])
    a = numpy.array(v, dtype='int64').astype('datetime64[%s]' % c['unit'])
    if form == 'strided':
        b = numpy.zeros(2 * len(a), a.dtype)
        b[::2] = a
        return b[::2]
    if form == 'reversed':
        return a[::-1].copy()[::-1]
    if form == 'readonly':
        a.flags.writeable = False
    return a


def dt(us):
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=us)


EVENTS = []


def emit(**e):
    print('E ' + json.dumps(e))


# --------------------------------------------------------------- operations
def file_of(c):
    """A leap second file: entries are [day, second, count]."""
    if c.get('raw') is not None:
        return c['raw'].encode('latin-1')
    out = ['#	ATOMIC TIME.', '#', '#$	 %d' % 3676924800]
    expires = datetime.date.today() + datetime.timedelta(c['days'])
    line = '#%sFile expires on%s%d %s %d' % (
        c.get('sep', '\t'), c.get('colon', ' '), expires.day,
        expires.strftime('%B' if c.get('long', True) else '%b'),
        expires.year)
    out += ['#@	3928521600', line, '#']
    for d, s, n in c['table']:
        sec = (d + 25567) * 86400 + s
        when = datetime.date(1970, 1, 1) + datetime.timedelta(d)
        out.append('%d%s%d      # 1 %s' % (sec, c.get('gap', '      '), n,
                                           when.strftime('%b %Y')))
        if c.get('comments'):
            out.append('#	a comment 2272060800 99')
    out += ['#', '#h	16edd0f0 3666784f 37db6bdd e74ced87 59af48f1']
    return ('\n'.join(out) + '\n').encode()


def op_start(c):
    if c['present']:
        with open(TABLE, 'wb') as f:
            f.write(file_of(c))
    elif os.path.exists(TABLE):
        os.remove(TABLE)
    restart()
    emit(op='start', present=c['present'], expired=c['present'] and
         c['days'] < 0, table=c['table'] if c['present'] else [])


def op_shipped(c):
    with open(TABLE, 'wb') as f:
        f.write(SHIPPED)
    restart()
    emit(op='shipped', present=True, expired=c['expired'], table=c['table'])


def op_restart(c):
    restart()
    emit(op='restart')


def op_net(c):
    Net.mode = c['mode']
    Net.content = file_of(c) if 'table' in c or 'raw' in c else b'<html></html>'
    emit(op='net', mode=c['mode'], expired=c.get('days', 0) < 0,
         table=c.get('table', []))


def stored():
    if not os.path.exists(TABLE):
        return None
    with open(TABLE, 'rb') as f:
        return f.read()


def op_lookup(c):
    given = dates(c['dates'])
    many = isinstance(given, numpy.ndarray)
    kept = given.copy() if many else given
    before = stored()
    raised, result = '', []
    full = Net.mode == 'full'
    limit = resource.getrlimit(resource.RLIMIT_FSIZE)
    if full:
        resource.setrlimit(resource.RLIMIT_FSIZE, (64, limit[1]))
    try:
        if c.get('sorter') and many:
            r = P.get_leap_seconds(given, numpy.argsort(given))
        else:
            r = P.get_leap_seconds(given)
        result = [int(x) for x in numpy.asarray(r).ravel()]
    except KeyboardInterrupt:
        raised = 'killed'
    except Exception as err:
        raised = type(err).__name__
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, limit)
    after = stored()
    what = 'same' if after == before else 'net' if after == Net.content else \
        'absent' if after is None else 'other'
    emit(op='lookup', dates=c['at'], raised=raised, result=result, file=what,
         same=bool(numpy.all(given == kept)) if many else True)
    if raised == 'killed':
        restart()


def op_crash(c):
    """End the process at each call of a lookup after the answer came."""
    given = dates(c['dates'])
    before = stored()
    for n in range(1, c['most'] + 1):
        pid = os.fork()
        if pid == 0:
            left = [n]

            def calls(frame, event, arg):
                if event in ('c_call', 'c_return'):
                    left[0] -= 1
                    if not left[0]:
                        os._exit(3)

            Net.read = lambda: sys.setprofile(calls)
            try:
                P.get_leap_seconds(given)
            except BaseException:
                pass
            os._exit(0)
        status = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        after = stored()
        what = 'same' if after == before else 'net' if after == Net.content \
            else 'absent' if after is None else 'other'
        emit(op='crash', file=what)
        if after != before:
            if before is None:
                os.remove(TABLE)
            else:
                with open(TABLE, 'wb') as f:
                    f.write(before)
        if status != 3:
            break


def text_of(parts):
    return ''.join(p[1] if p[0] == 't' else '${%s}' % p[1] for p in parts)


def value_of(v):
    if v[0] == 'text':
        return text_of(v[1])
    if v[0] == 'list':
        return [text_of(x) for x in v[1]]
    if v[0] == 'map':
        return {k: text_of(x) for k, x in v[1]}
    return unreal(v[1])


def model_of(name, m):
    g = m.given
    out = dict(name=name, kind=m.kind, dtype=numpy.dtype(m.dtype).name,
               tide=m.tide_type.value, dynamic=value(m.dynamic),
               data=[[k, value(v)] for k, v in m.data.items()])
    if m.kind == 'cartesian':
        for k in ('lon', 'lat'):
            a = g[k]
            out[k] = {'points': value(numpy.ma.filled(a['points'])),
                      'epsilon': real(a['epsilon']),
                      'circular': a['circular']}
        out['lonmajor'] = g['lonmajor']
    else:
        i = g['index']
        out.update(lon=value(numpy.ma.filled(i['lon'])),
                   lat=value(numpy.ma.filled(i['lat'])),
                   triangles=value(numpy.ma.filled(i['triangles']).ravel()),
                   codes=value(numpy.ma.filled(g['codes']).ravel()),
                   distance=real(g['distance']))
    return out


def op_load(c):
    work = tempfile.mkdtemp(dir=WORK)
    here = os.getcwd()
    os.chdir(work)
    doc = {}
    for s in c['sections']:
        inner = {k: value_of(v) for k, v in s['fields']}
        doc[s['name']] = {s['kind']: inner}
        if s['extra']:
            doc[s['name']][s['beside']] = inner
    for path, variables in c['files']:
        os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
        with open(path, 'w') as f:
            json.dump({n: dict(v, data=v['data'] if v['dtype'][0] == 'i' else
                               [None if x != x else x
                                for x in map(unreal, v['data'])])
                       for n, v in variables}, f)
    with open('config.yaml', 'w', encoding='utf-8') as f:
        if c['style'] == 'json':
            json.dump(doc, f)
        elif c['sections']:
            yaml.safe_dump(doc, f, default_flow_style=c['style'] == 'flow',
                           sort_keys=False)
        else:
            f.write(c.get('raw', ''))
    env = {k: text_of(v) for k, v in c['env']}
    os.environ.update(env)
    raised, models = '', []
    try:
        for k, v in P.load_config('config.yaml').items():
            models.append(model_of(k, v))
    except Exception as err:
        raised = type(err).__name__
        models = []
    finally:
        for k in env:
            os.environ.pop(k, None)
        os.chdir(here)
        shutil.rmtree(work)
    emit(op='load', sections=c['sections'], env=c['env'], files=c['files'],
         raised=raised, models=models)


def reals(v):
    return numpy.array([unreal(x) for x in v], dtype='float64')


def complexes(v):
    return numpy.array([complex(unreal(a), unreal(b)) for a, b in v],
                       dtype='complex128')


def optional(given, **names):
    """The keyword arguments that the caller gives."""
    return {names[k]: v for k, v in given.items() if v is not None}


def formulae(n):
    return None if n is None else P.Formulae(n)


def settings(s):
    return P.Settings(**{k: v for k, v in dict(
        astronomic_formulae=formulae(s['formulae']),
        time_tolerance=None if s['tol'] is None else unreal(s['tol']),
        excluded=s['excluded']).items() if v is not None})


def calls(c, run, **given):
    """Emits the calls of the core made by `run`, and what it answers."""
    given = {k: v for k, v in given.items()}
    before = value(list(given.values()))
    del P.core.CALLS[:]
    P.core.Answer.count = 0
    raised, result, got = '', 'none', None
    try:
        got = run()
        result = value(got)
    except Exception as err:
        raised = type(err).__name__
    e = dict(c, raised=raised, result=result,
             labelled=isinstance(got, dict) and
             all(isinstance(k, str) for k in got),
             calls=[dict({k: value(v) for k, v in args.items()}, fn=fn)
                    for fn, args in P.core.CALLS],
             same=before == value(list(given.values())))
    for k in ('formulae', 'threads'):
        if k in c and c[k] is None:
            e[k] = -1
    emit(**e, given={k: value(v) for k, v in given.items()})


def op_settings(c):
    calls(dict(c, formulae=c['formulae'], tol=c['tol'] or [],
               excluded=c['excluded'] or []), lambda: settings(c))


def op_evaluate(c):
    s = c['settings']
    d = dates(c['dates'])
    lon, lat = reals(c['lon']), reals(c['lat'])
    m = Model(c['model'])
    k = {} if c['threads'] is None else {'num_threads': c['threads']}
    e = {'op': 'evaluate', 'threads': c['threads'], 'default': s is None,
         'formulae': s and s['formulae'], 'tol': s and s['tol'] or [],
         'excluded': s and s['excluded'] or []}
    if c['plain']:
        lon, lat = lon.tolist(), lat.tolist()

    def run():
        if s:
            k['settings'] = settings(s)
        return P.evaluate_tide(m, d, lon, lat, **k)
    calls(e, run, model=m, dates=d, lon=lon, lat=lat)


def op_angle(c):
    a = []

    def run():
        k = {} if c['formulae'] is None else {'formulae': formulae(
            c['formulae'])}
        a.append(P.AstronomicAngle(**k))
    calls({'op': 'angle', 'formulae': c['formulae']}, run)
    if not a:
        return
    for v in c['dates']:
        d = None if v is None else dt(v)
        now = datetime.datetime.utcnow()
        kept = a[0].date

        def run():
            if c['named'] and d is not None:
                a[0].update(date=d)
            elif d is None and c['named']:
                a[0].update()
            else:
                a[0].update(d)
        calls({'op': 'update', 'now': d is None}, run,
              date=now if d is None else d,
              end=datetime.datetime.utcnow() +
              datetime.timedelta(seconds=60))
        emit(op='date', old=[] if kept is None else value(kept),
             date=[] if a[0].date is None else value(a[0].date))


def table(c):
    t = (P.WaveDict if c['dict'] else P.WaveTable)(
        *([c['names']] if c['names'] is not None else []))
    return t


def op_mods(c):
    t = table(c)
    if c['dates']['form'] == 'mixed':
        d = [dt(v) for v in c['dates']['v']]
        d[c['at'] % len(d)] = numpy.datetime64('2000-01-01T00:00:00')
    elif c['dates']['form'] == 'aware':
        d = [dt(v) for v in c['dates']['v']]
        k = c['at'] % len(d)
        d[k] = d[k].replace(tzinfo=datetime.timezone.utc)
    else:
        d = dates(c['dates'])
    leap = numpy.array(c['leap'], dtype='uint16')
    k = [] if c['formulae'] is None else [formulae(c['formulae'])]
    bad = c['dates']['form'] in ('mixed', 'aware')
    calls({'op': 'mods', 'table': t.keys(), 'formulae': c['formulae'],
           'fine': not bad},
          lambda: t.compute_nodal_modulations(d, leap, *k), leap=leap,
          dates=[] if bad else d)


def op_series(c):
    t = table(c)
    d = dates(c['dates'])
    leap = numpy.array(c['leap'], dtype='uint16')
    k = [] if c['formulae'] is None else [formulae(c['formulae'])]
    if c['dict']:
        w = {n: complex(unreal(x), unreal(y)) for n, (x, y) in c['wave']}
    else:
        w = complexes([x for _, x in c['wave']])
    calls({'op': 'series', 'table': t.keys(), 'formulae': c['formulae'],
           'dict': c['dict'], 'named': c['wave']},
          lambda: t.tide_from_tide_series(d, leap, w, *k), leap=leap,
          dates=d, wave=w)


def op_mapping(c):
    t = table(c)
    d = dt(c['date'])
    w = complexes(c['wave']).reshape(len(t), -1)
    k = {}
    if c['formulae'] is not None:
        k['formulae'] = formulae(c['formulae'])
    if c['threads'] is not None:
        k['num_threads'] = c['threads']
    calls({'op': 'mapping', 'table': t.keys(), 'formulae': c['formulae'],
           'threads': c['threads']},
          lambda: t.tide_from_mapping(d, c['leap'], w, **k), date=d,
          leap=c['leap'], wave=w)


def op_harmonic(c):
    t = table(c)
    n = len(t)
    h = reals(c['h'])
    f = reals(c['f'])[:n * len(h)].reshape(n, len(h))
    vu = reals(c['vu'])[:n * len(h)].reshape(n, len(h))
    if not c['dict'] and c['static']:
        call = P.WaveTable.harmonic_analysis
    else:
        call = t.harmonic_analysis
    calls({'op': 'harmonic', 'table': t.keys(), 'dict': c['dict'],
           'answer': [value(complex(1, k)) for k in range(n)]},
          lambda: call(h, f, vu), h=h, f=f, vu=vu)


def op_freq(c):
    t = table(c)
    calls({'op': 'freq', 'table': t.keys(), 'dict': c['dict'],
           'truth': [value(w.freq) for w in t]}, t.freq)


def main():
    restart()
    for line in sys.stdin:
        line = line.rstrip('\n')
        if line.startswith('SESSION '):
            n = line[8:]
            print('S ' + n)
            Net.mode = 'down'
        elif line == 'END':
            print('D ' + n)
            sys.stdout.flush()
        else:
            c = json.loads(line)
            try:
                globals()['op_' + c['op']](c)
            except Exception as err:
                # the package failed where the driver needs it to work
                if not any(f.filename.startswith(WORK + '/pyfes/') and
                           not f.filename.startswith(WORK + '/pyfes/core/')
                           for f in traceback.extract_tb(err.__traceback__)):
                    raise
                emit(op='%s in %s: %s' % (type(err).__name__, c['op'], err))
            sys.stdout.flush()


try:
    main()
except Exception:       # the fault of this driver, not of the package
    traceback.print_exc()
    sys.stdout.flush()
    sys.exit(97)
