"""C22: the Python front end hands everything to the core and back."""
from c08 import WRONG as WRONG_NAMES
from fesv import bits
from front import c, dates, harness
from tables import NAMES, recase

UNITS = ['D', 'h', 'm', 's', 'ms', 'us', 'ns']
WRONG = [w for w in WRONG_NAMES if w.isprintable()]
TABLES = [[[730, 0, 10], [5000, 0, 20], [13000, 0, 31], [16801, 0, 36]],
          [[730, 0, 1], [1461, 0, 7], [2922, 0, 300], [9131, 0, 40000]],
          [[730, 0, 10]]]


def start(rng):
    return c('start', present=True, days=rng.randrange(1, 900),
             table=rng.choice(TABLES))


def number(rng):
    return rng.choice([0.0, -0.0, 1.0, 1e-300, 1e300, float('inf'),
                       rng.uniform(-360, 360), rng.uniform(-1, 1)])


def ats(rng, n, early=False):
    out = [[rng.choice([rng.randrange(730, 20000), 5000, 12999, 13000]),
            rng.choice([0, 86399, rng.randrange(86400)])] for _ in range(n)]
    if early and n:
        out[rng.randrange(n)] = [rng.choice([729, 0, -1, -5000]), 0]
    return out


def order(rng):
    return rng.choice([None, 0, 1, 2])


def settings(rng, wrong=False):
    ex = None
    if rng.random() < .7:
        ex = [recase(rng, x) for x in
              rng.sample(NAMES, rng.choice([0, 1, 2, 5, 70, 75]))]
        if ex and rng.random() < .2:
            ex.append(ex[0])
    if wrong:
        ex = ex or []
        ex.insert(rng.randrange(len(ex) + 1), rng.choice(WRONG))
    return {'formulae': order(rng), 'excluded': ex,
            'tol': bits(rng.choice([0.0, 3600.0, 1.5, 1e-9, number(rng)]))
            if rng.random() < .6 else None}


def evaluate(rng):
    n = rng.choice([0, 1, 1, 2, 3, 10, 50])
    d, _ = dates(rng, ats(rng, n, rng.random() < .1),
                 rng.choice(UNITS))
    return c('evaluate', model=rng.randrange(9), dates=d,
             lon=[bits(number(rng)) for _ in range(n)],
             lat=[bits(number(rng)) for _ in range(n)],
             plain=rng.random() < .2,
             settings=settings(rng) if rng.random() < .7 else None,
             threads=rng.choice([None, 0, 1, 2, 7, 64]))


def us(rng, early=False):
    d, s = ats(rng, 1, early)[0]
    return (d * 86400 + s) * 10 ** 6 + rng.choice(
        [0, 1, 999999, 500000, rng.randrange(10 ** 6)])


def angle(rng):
    return c('angle', formulae=order(rng), named=rng.random() < .5,
             dates=[None if rng.random() < .2 else
                    us(rng, rng.random() < .1)
                    for _ in range(rng.randrange(0, 6))])


def names(rng):
    if rng.random() < .1:
        return None, list(NAMES)
    n = rng.sample(NAMES, rng.choice([1, 2, 2, 3, 5, 20]))
    return [recase(rng, x) if rng.random() < .3 else x for x in n], \
        sorted(n, key=NAMES.index)


def leaps(rng, n):
    return [rng.choice([0, 10, 37, 65535, rng.randrange(100)])
            for _ in range(n)]


def mods(rng):
    n = rng.choice([1, 2, 3, 20])
    form = rng.choice(['datetimes'] * 4 + ['array', 'array', 'strided',
                                           'reversed', 'readonly', 'mixed',
                                           'aware'])
    given, _ = names(rng)
    if form in ('mixed', 'aware'):
        d = {'form': form, 'v': [us(rng) for _ in range(n)]}
    else:
        d, _ = dates(rng, ats(rng, n, rng.random() < .3),
                     rng.choice(UNITS), form)
        if form == 'datetimes':
            d['v'] = [v + rng.randrange(10 ** 6) for v in d['v']]
    return c('mods', dict=rng.random() < .5, names=given, dates=d,
             leap=leaps(rng, n), formulae=order(rng), at=rng.randrange(20))


def z(rng):
    return [bits(number(rng)), bits(number(rng))]


def series(rng, b=None):
    n = rng.choice([1, 2, 3, 20])
    d, _ = dates(rng, ats(rng, n, rng.random() < .2), rng.choice(UNITS))
    given, real = names(rng)
    as_dict = rng.random() < .7
    wave = [[x, z(rng)] for x in real]
    f = order(rng)
    if b:
        as_dict = True
        real = sorted(rng.sample(NAMES, 3), key=NAMES.index)
        given = list(real)
        rng.shuffle(given)
        f = None if b['formulae'] < 0 else b['formulae']
        other = rng.choice([x for x in NAMES if x not in real] +
                           ['', 'foo', 'M 2'])
        to = dict(zip('abcx', real + [other]))
        wave = [[to[k], z(rng)] for k, _ in b['dict']]
    elif as_dict:
        rng.shuffle(wave)
    return c('series', dict=as_dict, names=given, wave=wave, dates=d,
             leap=leaps(rng, n), formulae=f)


def mapping(rng, b=None):
    given, real = names(rng)
    m = rng.choice([1, 2, 5])
    return c('mapping', dict=rng.random() < .5, names=given,
             wave=[z(rng) for _ in range(m * len(real))],
             date=us(rng), leap=leaps(rng, 1)[0],
             formulae=order(rng) if not b else
             None if b['formulae'] < 0 else b['formulae'],
             threads=rng.choice([None, 0, 1, 2, 7, 64]) if not b else
             None if b['threads'] < 0 else b['threads'])


def harmonic(rng):
    given, real = names(rng)
    m = rng.choice([1, 2, 3, 7])
    return c('harmonic', dict=rng.random() < .6, static=rng.random() < .5,
             names=given, h=[bits(number(rng)) for _ in range(m)],
             f=[bits(number(rng)) for _ in range(m * len(real))],
             vu=[bits(number(rng)) for _ in range(m * len(real))])


def freq(rng):
    return c('freq', dict=rng.random() < .6, names=names(rng)[0])


def check(ctx):
    rng = ctx.rng
    deep = ctx.thorough
    conf = ('INIT Init\nNEXT Next\nCONSTANTS Table={%s} Foreign={"x"} '
            'Variant="%s"\nINVARIANTS Right Relay Answered')
    three, four = '"a","b","c"', '"a","b","c","d"'
    a, _ = ctx.parallel(
        lambda: ctx.behaviours(ctx.model('FrontModel', conf % (three, 'ok') +
                                         ' Emit\n', workers='2')),
        lambda: ctx.model('FrontModel', conf % (four, 'ok') + '\n',
                          workers='4', timeout=850))
    if deep:
        for v, inv in (('insertion', 'Right'), ('dropped', 'Relay'),
                       ('falsy', 'Relay'), ('extra', 'Right'),
                       ('labels', 'Answered')):
            ctx.refuted('FrontModel', conf % (three, v) + '\n', inv)
    cmds = [series(rng, b) for b in a for _ in range(5 if deep else 1)]
    cmds += [mapping(rng, b) for b in a if len(b['dict']) == 3]
    k = 20 if deep else 1
    for f, n in ((evaluate, 700), (angle, 300), (mods, 500), (series, 400),
                 (mapping, 200), (harmonic, 400), (freq, 150)):
        cmds += [f(rng) for _ in range(k * n)]
    cmds += [c('settings', **settings(rng, rng.random() < .3))
             for _ in range(k * 500)]
    rng.shuffle(cmds)
    sessions = [[start(rng)] + cmds[i:i + 30]
                for i in range(0, len(cmds), 30)]
    ctx.notes['calls'] = len(cmds)
    ctx.validate('FrontTrace', ctx.run(harness(ctx), sessions), name='calls',
                 replay=lambda s: sessions[s['id']])
