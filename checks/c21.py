"""C21: a configuration file yields exactly the models it describes."""
import struct

from c08 import WRONG as WRONG_NAMES
from fesv import bits
from front import c, harness
from tables import NAMES, recase

WRONG = [w for w in WRONG_NAMES if w.isprintable()]
NAN = float('nan')
HEADS = ['section', 'nokind', 'keyword', 'beside', 'tidal_type', 'dynamic',
         'empty', 'undefined', 'loop', 'variable']
LGP = ['type', 'pattern', 'size', 'nopath']


def f4(x):
    return struct.unpack('f', struct.pack('f', x))[0]


class Conf:
    """A configuration under construction."""

    def __init__(self, rng):
        self.rng = rng
        self.env = []
        self.files = []
        self.n = 0

    def text(self, s, deep=0):
        """Parts that expand to the string s."""
        rng = self.rng
        if deep > 7 or not s or rng.random() < (.55 if deep == 0 else .3):
            return [['t', s]] if s else []
        i, j = sorted((rng.randrange(len(s) + 1), rng.randrange(len(s) + 1)))
        self.n += 1
        name = rng.choice(['FES_%d', 'd%d', '_X%d', 'DIR%dA']) % self.n
        self.env.append([name, self.text(s[i:j], deep + 1)])
        out = [['t', s[:i]], ['v', name]]
        out += self.text(s[j:], deep + 1) if rng.random() < .3 else \
            [['t', s[j:]]]
        return [p for p in out if p[0] == 'v' or p[1]]

    def beyond(self, what):
        """A text that must not expand."""
        rng = self.rng
        self.n += 1
        if what == 'undefined':
            v = 'NOT_DEFINED_%d' % self.n
            if rng.random() < .5:
                self.env.append(['D%d' % self.n, [['v', v]]])
                v = 'D%d' % self.n
        else:
            m = rng.randrange(1, 4)
            names = ['L%d_%d' % (self.n, i) for i in range(m)]
            for i, x in enumerate(names):
                self.env.append([x, [['t', rng.choice(['', 'a', '$'])],
                                     ['v', names[(i + 1) % m]]]])
            v = names[0]
        return [p for p in [['t', rng.choice(['', 'x/'])], ['v', v],
                            ['t', rng.choice(['', '/y'])]]
                if p[0] == 'v' or p[1]]


def var(dims, shape, dtype, data, units=''):
    return {'dims': dims, 'shape': shape, 'dtype': dtype, 'units': units,
            'data': data if dtype[0] == 'i' else
            [bits(f4(x) if dtype == 'f4' else x) for x in data]}


def units(rng):
    return rng.choice(['degree', 'degrees', 'deg', 'Degrees', 'DEG',
                       'degree', 'degrees', 'radian', 'radians', 'rad',
                       'Radians'])


def pair(rng, n, dtypes, dims, shape, u):
    """Amplitude and phase variables."""
    amp = [rng.choice([0.0, 1.0, rng.uniform(0, 300), rng.uniform(0, 1)])
           for _ in range(n)]
    big = u.lower().startswith('deg')
    pha = [rng.choice([0.0, 90.0, 180.0, -90.0, rng.uniform(-360, 720)])
           if big else rng.choice([0.0, rng.uniform(-7, 7)])
           for _ in range(n)]
    if rng.random() < .4:
        for _ in range(rng.randrange(1, 3)):
            k = rng.randrange(n)
            if rng.random() < .7:
                amp[k] = NAN
            if rng.random() < .7:
                pha[k] = NAN
    return (var(dims, shape, dtypes[0], amp, rng.choice(['cm', 'm'])),
            var(dims, shape, dtypes[1], pha, u))


def sample(rng, n):
    return [recase(rng, x) if rng.random() < .3 else x
            for x in rng.sample(NAMES, n)]


def settle(conf, fields, keys=None):
    """Fields as values of the configuration, some through variables."""
    out = []
    for k, v in fields:
        if isinstance(v, str):
            out.append([k, ['text', conf.text(v)]])
        elif isinstance(v, float):
            out.append([k, ['num', bits(v)]])
        elif isinstance(v, dict):
            out.append([k, ['map', [[a, conf.text(b)]
                                    for a, b in v.items()]]])
        else:
            out.append([k, ['list', [conf.text(b) for b in v]]])
    return out


def spoil_value(conf, out, what):
    """Put a text that does not expand somewhere."""
    rng = conf.rng
    k, v = rng.choice([x for x in out if x[1][0] != 'num' and x[1][1]] or
                      [['longitude', None]])
    t = conf.beyond(what)
    if v is None:
        out.append([k, ['text', t]])
    elif v[0] == 'text':
        v[1] = t
    elif v[0] == 'list':
        v[1][rng.randrange(len(v[1]))] = t
    else:
        v[1][rng.randrange(len(v[1]))][1] = t


def common(rng, head, default):
    """The names of the coordinates and the dynamic constituents."""
    names = {'latitude': 'lat', 'longitude': 'lon'}
    fields = []
    for k in names:
        if rng.random() < .4:
            names[k] = rng.choice(['x_', 'nav_']) + k
            fields.append((k, names[k]))
    if rng.random() < .5 or head == 'dynamic':
        d = rng.sample(NAMES, rng.randrange(1, 5))
        if head == 'dynamic':
            d[rng.randrange(len(d))] = rng.choice(
                [w for w in WRONG if w not in NAMES])
        fields.append(('dynamic', d))
    return names, fields


def cartesian(conf, states, head):
    rng = conf.rng
    names, fields = common(rng, head, None)
    names.update(amplitude='amplitude', phase='phase')
    for k in ('amplitude', 'phase'):
        if rng.random() < .4:
            names[k] = rng.choice(['H', 'g_', 'a']) + k[:3]
            fields.append((k, names[k]))
    if rng.random() < .4:
        fields.append(('epsilon', rng.choice([1e-3, 1e-9, 0.5])))
    n, m = rng.choice([(4, 3), (2, 5), (3, 3), (3, 3), (5, 2), (2, 2)])
    lon = [rng.uniform(-180, 0) + 360.0 / n * i for i in range(n)]
    lat = sorted(rng.uniform(-90, 90) for _ in range(m))
    if rng.random() < .3:
        lat.reverse()
    dtypes = rng.choice(['f4', 'f8']), rng.choice(['f4', 'f8'])
    bylon = rng.random() < .5
    known = sample(rng, len(states))
    paths = {}
    lost = rng.randrange(len(states)) if head == 'variable' and states else -1
    for i, s in enumerate(states):
        x, y, dt = list(lon), list(lat), dtypes
        if s == 'other':
            k = rng.choice(['lon', 'lat', 'size', 'dtype', 'order', 'one'])
            if k == 'lon' or k == 'order' and n == m:
                x = [v + rng.choice([0.5, 360.0]) for v in x]
            elif k == 'lat':
                y = [v + 1.5 for v in y]
            elif k == 'size':
                if rng.random() < .5:
                    x.append(x[-1] + 1.25)
                else:
                    y.append(y[-1] + 1.25)
            elif k == 'dtype':
                dt = ('f8', 'f8') if dtypes == ('f4', 'f4') else ('f4', 'f4')
            elif k == 'one':
                x[rng.randrange(n)] += 3.5
        order = bylon
        if len(x) == len(y):
            order = rng.random() < .5
        if s == 'other' and k == 'order' and n != m:
            order = not bylon
        dims = ['x', 'y'] if order else ['y', 'x']
        shape = [len(x), len(y)] if order else [len(y), len(x)]
        amp, pha = pair(rng, len(x) * len(y), dt, dims, shape, units(rng))
        f = [[names['longitude'], var(['x'], [len(x)], 'f8', x)],
             [names['latitude'], var(['y'], [len(y)], 'f8', y)],
             [names['amplitude'], amp], [names['phase'], pha]]
        if i == lost:
            f.pop(rng.randrange(4))
        conf.n += 1
        p = rng.choice(['%s.nc', 'a/b/%s.nc', 'my $dir/%s_$.nc', 'é/%s']) % (
            '%s_%d' % (known[i], conf.n))
        if s != 'gone':
            conf.files.append([p, f])
        paths[rng.choice([w for w in WRONG if w]) if s == 'unknown'
              else known[i]] = p
    fields.append(('paths', paths))
    if head == 'empty':
        k = rng.choice(list(names))
        fields = [x for x in fields if x[0] != k] + [(k, '')]
    rng.shuffle(fields)
    return settle(conf, fields), {'amplitude': [], 'phase': []}


def lgp(conf, kind, states, head, everything=False):
    rng = conf.rng
    names, fields = common(rng, head, None)
    names.update(triangle='triangle', codes='codes')
    for k in ('triangle', 'codes'):
        if rng.random() < .4:
            names[k] = rng.choice(['lgp', 'my']) + k
            fields.append((k, names[k]))
    patterns = {'amplitude': [], 'phase': []}
    used = {}
    for k in patterns:
        if rng.random() < .4 or head == 'pattern':
            patterns[k] = rng.choice(
                [[['c'], ['t', '_%s' % k[:3]]], [['t', k[0] + '_'], ['c']],
                 [['t', k[0]], ['c'], ['t', 'x'], ['c']]])
        else:
            used[k] = '{constituent}_' + k
    if head == 'pattern':
        k = rng.choice(list(patterns))
        patterns[k] = rng.choice([[['x'], ['t', '_a']], [],
                                  [['c'], ['x']]])
    for k, p in patterns.items():
        if p or head == 'pattern':
            used[k] = ''.join(x[1] if x[0] == 't' else '{constituent}'
                              if x[0] == 'c' else rng.choice(
                                  ['{wave}', '{}', '{name}'])
                              for x in p)
            fields.append((k, used[k]))
    if rng.random() < .5 or kind == 'lgp2' or head == 'type':
        fields.append(('type', kind if head != 'type' else rng.choice(
            ['lgp3', 'LGP1', 'lgp', '', 'cartesian'])))
    if rng.random() < .4:
        fields.append(('max_distance', rng.choice([1.5, 100.0, 0.0])))
    nv, nt = rng.randrange(3, 8), rng.randrange(1, 5)
    tri = [rng.randrange(nv) for _ in range(3 * nt)]
    per = 3 if kind == 'lgp1' else 6
    codes = [rng.randrange(per + 4) for _ in range(per * nt)]
    size = max(codes) + 1
    dt = rng.choice(['f4', 'f8']), rng.choice(['f4', 'f8'])
    f = [[names['longitude'], var(['n'], [nv], 'f8',
                                  [rng.uniform(-180, 360)
                                   for _ in range(nv)])],
         [names['latitude'], var(['n'], [nv], 'f8',
                                 [rng.uniform(-90, 90) for _ in range(nv)])],
         [names['triangle'], var(['t', 'v'], [nt, 3], 'i4', tri)],
         [names['codes'], var(['t', 'd'], [nt, per], 'i4', codes)]]
    if head == 'variable':
        f.pop(rng.randrange(4))
    declared = []
    known = list(NAMES) if everything else sample(rng, len(states))
    odd = rng.randrange(len(known)) if head == 'size' and known else -1
    for i, name in enumerate(known):
        s = 'same' if everything else states[i]
        if s == 'unknown':
            name = rng.choice([w for w in WRONG if w])
        declared.append(name)
        if s == 'gone' and rng.random() < .3:
            continue
        n = size + (rng.choice([1, -1]) if i == odd and size > 1 else
                    1 if i == odd else 0)
        two = list(pair(rng, n, dt, ['z'], [n], units(rng)))
        two = list(zip((used['amplitude'], used['phase']), two))
        if s == 'gone':
            two.pop(rng.randrange(2))
        for p, v in two:
            f.append([p.replace('{constituent}', name), v])
    # not declared: must not be loaded
    if not everything:
        other = rng.choice(NAMES)
        if other.lower() not in [d.lower() for d in declared] and declared:
            a, g = pair(rng, size, dt, ['z'], [size], 'degree')
            f += [[used['amplitude'].replace('{constituent}', other), a],
                  [used['phase'].replace('{constituent}', other), g]]
        if declared or rng.random() < .3:
            fields.append(('constituents', declared))
    conf.n += 1
    p = rng.choice(['%d.nc', 'a/%d']) % conf.n
    if head != 'nopath':
        if rng.random() > .05 or head != 'gone':
            conf.files.append([p, f])
        fields.append(('path', p))
    else:
        fields += [('path', '')] if rng.random() < .5 else []
    if head == 'empty':
        k = rng.choice(list(names))
        fields = [x for x in fields if x[0] != k] + [(k, '')]
    rng.shuffle(fields)
    return settle(conf, fields), patterns


def load(rng, sections, everything=False):
    """A command from the sections of ConfigModel."""
    conf = Conf(rng)
    out = []
    names = ['tide', 'radial']
    rng.shuffle(names)
    for i, m in enumerate(sections):
        head = ''
        if not m['head']:
            head = rng.choice(HEADS + (LGP if m['kind'] != 'cartesian'
                                       else []))
            if head in ('variable', 'size') and not m['files']:
                head = 'keyword'
        kind = 'cartesian' if m['kind'] == 'cartesian' else 'lgp'
        if kind == 'cartesian':
            fields, patterns = cartesian(conf, m['files'], head)
        else:
            fields, patterns = lgp(conf, m['kind'], m['files'], head,
                                   everything)
        s = {'name': names[i], 'kind': kind, 'extra': 0, 'beside': '',
             'fields': fields, 'patterns': patterns}
        if head == 'section':
            s['name'] = rng.choice(['Tide', 'load', 'tides', 'radial ', 'x'])
            if any(o['name'] == s['name'] for o in out):
                s['name'] += '2'
        elif head == 'nokind':
            s['kind'] = rng.choice(['fes', 'Cartesian', 'lgp2', 'grid'])
        elif head == 'beside':
            s['extra'] = 1
            s['beside'] = rng.choice(['epsilon', 'foo', 'dynamic', 'lgp' if
                                      kind == 'cartesian' else 'cartesian'])
        elif head == 'keyword':
            fields.insert(rng.randrange(len(fields) + 1), [rng.choice(
                ['lon', 'path' if kind == 'cartesian' else 'paths',
                 'Amplitude', 'units', 'constituent', 'epsilonn']),
                ['text', [['t', 'x']]]])
        elif head == 'tidal_type':
            fields.append(['tidal_type', ['text', [['t', names[i]]]]])
        elif head in ('undefined', 'loop'):
            spoil_value(conf, fields, head)
        out.append(s)
    if rng.random() < .3:       # variables that nothing uses
        conf.env.append(['UNUSED', [['v', 'UNUSED']]])
    return c('load', sections=out, env=conf.env, files=conf.files,
             style=rng.choice(['block', 'block', 'flow', 'json']) if out
             else 'none', raw=rng.choice(['', '{}', '# nothing\n']))


def expansion(rng, b):
    """The text of ExpandModel as the path of a constituent."""
    conf = Conf(rng)
    m = {'kind': 'cartesian', 'head': True, 'files': ['same']}
    fields, patterns = cartesian(conf, m['files'], '')
    for k, v in fields:
        if k == 'paths':
            path = v[1][0][1]
            v[1][0][1] = [list(p) for p in b['text']]
    # the file stands where the text leads, if it leads anywhere
    env = dict((k, v) for k, v in b['env'])

    def walk(parts, seen=()):
        out = ''
        for t, x in parts:
            if t == 't':
                out += x
            elif x in seen or x not in env:
                return None
            else:
                y = walk(env[x], seen + (x, ))
                if y is None:
                    return None
                out += y
        return out
    w = walk(b['text'])
    conf.files = [[w or 'a', conf.files[0][1]]]
    return c('load', sections=[{'name': 'tide', 'kind': 'cartesian',
                                'extra': 0, 'beside': '', 'fields': fields,
                                'patterns': patterns}],
             env=conf.env + b['env'], files=conf.files, style='block', raw='')


def one(rng):
    """A section wrong in a single respect."""
    kind = rng.choice(['cartesian', 'cartesian', 'cartesian', 'lgp1', 'lgp2'])
    files = ['same'] * rng.randrange(2, 5)
    head = True
    if rng.random() < .3:
        head = False
    elif kind == 'cartesian' and rng.random() < .75:
        files[rng.randrange(1, len(files))] = 'other'
    else:
        files[rng.randrange(len(files))] = rng.choice(['gone', 'unknown'])
    return [{'kind': kind, 'head': head, 'files': files}]


def some(rng):
    n = rng.choice([1, 1, 2])
    return [{'kind': rng.choice(['cartesian', 'cartesian', 'lgp1', 'lgp2']),
             'head': rng.random() < .85,
             'files': ['same'] * rng.randrange(1, 5)} for _ in range(n)]


def check(ctx):
    rng = ctx.rng
    deep = ctx.thorough
    conf = ('INIT Init\nNEXT Next\nCONSTANTS Files=%d Sections=2 Variant="%s"'
            '\nINVARIANTS Right Exact')
    exp = ('INIT Init\nNEXT Next\nCONSTANTS Vars=%d Parts=%d Limit=%d '
           'Variant="%s"\nINVARIANTS Right')
    a, b, d, _ = ctx.parallel(
        lambda: ctx.behaviours(ctx.model(
            'ConfigModel', conf % (3 if deep else 2, 'ok') + ' Emit\n',
            workers='2', timeout=850)),
        lambda: ctx.behaviours(ctx.model(
            'ExpandModel', exp % (2, 2, 2, 'ok') + ' Emit\n', workers='2',
            timeout=850)),
        lambda: ctx.behaviours(ctx.model(
            'ExpandModel', exp % (3, 1, 3, 'ok') + ' Emit\n', workers='1',
            timeout=850)),
        lambda: ctx.model('ExpandModel', exp % (3, 2, 3, 'ok') + '\n',
                          workers='4', timeout=850))
    if deep:
        ctx.model('ExpandModel', exp % (4, 1, 4, 'ok') + '\n')
        for v, inv in (('drop', 'Right'), ('skip', 'Right'),
                       ('first', 'Right'), ('kind', 'Exact')):
            ctx.refuted('ConfigModel', conf % (3, v) + '\n', inv)
        for v in ('count', 'once', 'quiet'):
            ctx.refuted('ExpandModel', exp % (3, 2, 3, v) + '\n', 'Right')
    rng.shuffle(a)
    rng.shuffle(b)
    rng.shuffle(d)
    cmds = [load(rng, x) for x in (a if deep else a[:2500])]
    cmds += [expansion(rng, x) for x in (b + d if deep else b[:500] + d[:200])]
    cmds += [load(rng, some(rng)) for _ in range(20000 if deep else 1500)]
    cmds += [load(rng, one(rng)) for _ in range(8000 if deep else 800)]
    cmds += [load(rng, [{'kind': k, 'head': True, 'files': []}], True)
             for k in ['lgp1', 'lgp2'] * (20 if deep else 3)]
    sessions = [cmds[i:i + 25] for i in range(0, len(cmds), 25)]
    ctx.notes['configurations'] = len(cmds)
    ctx.validate('ConfigTrace', ctx.run(harness(ctx), sessions), name='loads',
                 replay=lambda s: sessions[s['id']])
