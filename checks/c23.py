"""C23: calendar dates and datetime64 arrays convert exactly to epochs."""
import datetime
import os

from fesv import VERIF
from front import PY, c

SCALE = {'D': -86400, 'h': -3600, 'm': -60, 's': 1, 'ms': 10 ** 3,
         'us': 10 ** 6, 'ns': 10 ** 9, 'ps': 10 ** 12, 'fs': 10 ** 15,
         'as': 10 ** 18}
EPOCH = datetime.datetime(1970, 1, 1)


def fields(d, **k):
    return dict(y=d.year, mo=d.month, d=d.day, h=d.hour, mi=d.minute,
                s=d.second, us=d.microsecond, **k)


def micro(rng):
    return rng.choice([0, 0, 1, 999999, 500000, rng.randrange(10 ** 6)])


def date(rng):
    k = rng.random()
    if k < .35:                                 # near the ends of months
        y = rng.choice([1902, 1904, 1969, 1970, 1971, 1972, 1999, 2000, 2001,
                        2004, 2037, rng.randrange(1902, 2038)])
        d = datetime.datetime(y, rng.choice([1, 2, 3, rng.randrange(1, 13)]),
                              1)
        d += datetime.timedelta(rng.choice([-1, 0, 27, 28, 30]),
                                rng.choice([0, 1, 86399, 43200]))
    elif k < .75:
        d = EPOCH + datetime.timedelta(
            rng.randrange(-24855, 24855), rng.randrange(86400))
    elif k < .85:                               # the last dates supported
        e = rng.choice([2 ** 31 - 1, 1 - 2 ** 31])
        d = EPOCH + datetime.timedelta(
            0, e + rng.choice([-2, -1, 0, 0, 1, 1, 2, 86400, -86400]))
    elif k < .93:
        d = EPOCH + datetime.timedelta(
            0, rng.choice([-1, 0, 1, -86400, 86399, -43200]))
    else:                                       # out of reach
        d = datetime.datetime(
            rng.choice([1, 4, 100, 400, 1600, 1800, 1899, 1900, 1901, 2038,
                        2039, 2100, 2106, 2400, 9999,
                        rng.randrange(1, 10000)]),
            rng.randrange(1, 13), rng.randrange(1, 29))
    return d.replace(microsecond=micro(rng))


def value(rng, unit, top=2 ** 63 - 1):
    """A count of a unit, as a decimal number."""
    k = rng.random()
    s = SCALE[unit]
    if k < .15:
        x = rng.choice([0, 1, -1, 2, -86400, 86399])
    elif k < .75:
        x = rng.randrange(-2 * 10 ** 9, 4 * 10 ** 9)
        x = x // -s if s < 0 else x * s + rng.randrange(s)
    elif k < .9:
        x = rng.choice([1, -1]) * rng.randrange(2 ** rng.randrange(1, 63))
    else:
        x = rng.choice([2 ** 53 + 1, 2 ** 62 + 1, 2 ** 63 - 1, 1 - 2 ** 63])
    return str(max(-top, min(top, x)))


def array(rng, unit, kind):
    n = 0 if kind == 'empty' else 1 if kind == 'none' else \
        rng.choice([1, 2, 3, 10, 40])
    u = unit if unit in SCALE else 's'
    if kind in ('object', 'str'):
        v = [str(rng.randrange(10 ** 5)) for _ in range(n)]
    else:
        v = [value(rng, u) for _ in range(n)]
        if v and rng.random() < .1:
            v[rng.randrange(n)] = 'NaT'
    return c('array', unit=unit, kind=kind, v=v)


def both(rng):
    units = list(SCALE)
    a = rng.randrange(len(units) - 1)
    b = rng.randrange(a + 1, min(len(units), a + 4))
    r = abs(SCALE[units[b]]) if SCALE[units[b]] > 0 else 1
    x = -SCALE[units[a]] if SCALE[units[a]] < 0 else 1
    y = -SCALE[units[b]] if SCALE[units[b]] < 0 else 1
    q = r // (SCALE[units[a]] if SCALE[units[a]] > 0 else 1)
    top = (2 ** 63 - 1) // (x * q // y or 1)
    return c('both', unit=units[a], finer=units[b],
             v=[value(rng, units[a], top) for _ in range(8)])


def check(ctx):
    rng = ctx.rng
    k = 40 if ctx.thorough else 1
    cfg = ('INIT Init\nNEXT Next\nCONSTANTS From=%d To=%d Variant="%s"\n'
           'INVARIANTS Counted NoLoop Named One1970 Edges\n')
    span = (1, 9999) if ctx.thorough else (1895, 2045)
    exe, _ = ctx.parallel(
        lambda: ctx.build(
            'probe.so', ['probe.cpp'], lib=False,
            flags=['-std=c++17', '-fPIC', '-shared',
                   '-I' + VERIF + '/harness/pybind',
                   '-I/usr/include/python3.12']),
        lambda: ctx.model('CalendarModel', cfg % (*span, 'ok'), workers='4',
                          timeout=850))
    if ctx.thorough:
        for v in ('march', 'julian', 'january', 'century'):
            ctx.refuted('CalendarModel', cfg % (1, 9999, v), 'NoLoop')
    cmds = [c('date', **fields(date(rng), sub=rng.random() < .1,
                               fold=rng.choice([0, 0, 1])))
            for _ in range(6000 * k)]
    # every day of some years, every day of the range in the thorough tier
    years = range(1901, 2040) if ctx.thorough else \
        [1901, 1904, 1969, 1970, 1972, 2000, 2038] + \
        rng.sample(range(1902, 2038), 6)
    for y in years:
        d = datetime.datetime(y, 1, 1)
        while d.year == y:
            at = d + datetime.timedelta(0, rng.randrange(86400), micro(rng))
            cmds.append(c('date', **fields(at)))
            d += datetime.timedelta(1)
    kinds = ['utc', 'aware', 'none', 'date', 'time', 'delta', 'str', 'int',
             'float', 'scalar', 'list', 'type']
    cmds += [c('other', kind=x, **fields(date(rng))) for x in kinds
             for _ in range(5)]
    for _ in range(200 * k):
        for u in SCALE:
            cmds.append(array(rng, u, rng.choice(
                ['plain', 'plain', 'strided', 'reversed', 'readonly',
                 'column', 'empty'])))
    for u in list(SCALE) + ['Y', 'M', 'W', '10s', '2D', '100us', '25m', '6h',
                            '10as', '1000ms', '3ns']:
        for x in ('plain', 'swapped', 'matrix', 'none', 'int', 'float',
                  'delta', 'object', 'str'):
            for _ in range(2 * k):
                cmds.append(array(rng, u, x))
    cmds += [both(rng) for _ in range(500 * k)]
    for _ in range(500 * k):
        at = []
        while len(at) < 8:
            d = date(rng) - EPOCH
            if abs(d.days) < 24855:
                at.append([d.days, d.seconds, d.microseconds])
        cmds.append(c('client', at=at))
    rng.shuffle(cmds)
    sessions = [cmds[i:i + 50] for i in range(0, len(cmds), 50)]
    ctx.notes['conversions'] = len(cmds)
    ctx.validate('DateTrace', ctx.run(
        [PY, os.path.join(VERIF, 'harness/py/dates.py'), exe], sessions),
        name='dates', replay=lambda s: sessions[s['id']])
