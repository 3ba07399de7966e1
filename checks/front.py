"""Driving the Python package on its stand-ins."""
import datetime
import json
import os
import shutil

from fesv import REPO, VERIF

PY = '/opt/veriftools/pyvenv/bin/python3'
UNITS = ['Y', 'M', 'W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns', '10s', '3h',
         '7D', '15m', '500ms', '2Y', '90D']
PER = {'W': 7 * 86400, 'D': 86400, 'h': 3600, 'm': 60, 's': 1}
SUB = {'ms': 10 ** 3, 'us': 10 ** 6, 'ns': 10 ** 9}


def harness(ctx):
    """The command that runs the package of the working tree."""
    stubs = os.path.join(VERIF, 'harness', 'py')
    src = os.path.join(ctx.work, 'pyfes')
    if not os.path.exists(src):
        shutil.copytree(os.path.join(REPO, 'src/python/pyfes'), src,
                        ignore=shutil.ignore_patterns('*.so', '__pycache__'))
    return [PY, os.path.join(stubs, 'front.py'), src, stubs]


def c(op, **k):
    return json.dumps(dict(k, op=op))


def split(unit):
    n = unit.rstrip('YMWDhmsun')
    return int(n or 1), unit[len(n):]


def instant(v, unit):
    """[day, second] of the instant v of a unit."""
    n, u = split(unit)
    v *= n
    if u in 'YM':
        m = v * (12 if u == 'Y' else 1)
        return [(datetime.date(1970 + m // 12, m % 12 + 1, 1) -
                 datetime.date(1970, 1, 1)).days, 0]
    s = v * PER[u] if u in PER else v // SUB[u] if u in SUB else \
        (0 if v >= 0 else -1)
    return [s // 86400, s % 86400]


def stamp(rng, at, unit):
    """The (or, under a second, one) value of a unit at or before `at`."""
    n, u = split(unit)
    if u in 'YM':
        d = datetime.date(1970, 1, 1) + datetime.timedelta(at[0])
        m = (d.year - 1970) * 12 + d.month - 1
        return m // 12 // n if u == 'Y' else m // n
    s = at[0] * 86400 + at[1]
    if u in PER:
        return s // (PER[u] * n)
    if u not in SUB:
        return 0
    v = s * SUB[u]
    v += rng.choice([0, 0, SUB[u] - 1, rng.randrange(SUB[u])])
    return v // n


def dates(rng, ats, unit=None, form=None):
    """A `dates` argument near the instants `ats`, and its exact instants."""
    form = form or rng.choice(['array'] * 4 + ['strided', 'reversed',
                                               'readonly'])
    if form in ('datetime', 'datetimes'):
        unit = 'us'
    unit = unit or rng.choice(UNITS)
    v = [stamp(rng, a, unit) for a in ats]
    if form in ('datetime', 'scalar'):
        v = v[:1]
    return {'form': form, 'unit': unit, 'v': v}, [instant(x, unit) for x in v]
