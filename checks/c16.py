"""C16: harmonic analysis and selection of waves."""
import math
from common import cmd, epoch, FORMULAE
from spectrum import periods
from tables import ALL, NAMES

SEPARABLE = [NAMES.index(x) for x in
             ['Mm', 'Mf', 'Q1', 'O1', 'K1', 'J1', 'OO1', '2N2', 'N2', 'M2',
              'L2', 'S2', 'MO3', 'M3', 'MK3', 'MN4', 'M4', 'MS4', 'S4',
              '2MN6', 'M6', '2MS6', '2SM6', 'M8']]


def analyse(rng, big):
    n = rng.choice([400, 700]) if big else rng.choice([200, 330])
    k = rng.randrange(1, 9 if big else 7)
    ids = rng.sample(SEPARABLE, k)
    gap = n / 200.0
    if gap < 2:         # too short for the long periods and close diurnals
        ids = [i for i in ids if i >= 4] or [30]
    step = 3600 * 60 * 24.0 / n
    e = epoch(rng)
    leap = rng.choice([0, 20, 37, 300, 65535])
    dates = [n]
    for _ in range(n):
        dates += [e + rng.uniform(-.3, .3) * step, leap]
        e += step
    rng.shuffle(ids)
    order = list(range(len(ids)))
    rng.shuffle(order)
    truth = []
    for _ in ids:
        z = rng.random() < .3      # more constituents than needed
        truth += [0.0, 0.0] if z else [rng.uniform(-60, 60),
                                       rng.uniform(-60, 60)]
    k = rng.random()
    noise = []
    if k < .25:
        noise = [rng.uniform(-10, 10) for _ in range(rng.choice([1, 7, n]))]
    elif k < .4:
        noise = [0.0] * n
        noise[rng.choice([0, n - 1, rng.randrange(n)])] = math.nan
    return [cmd('ids', 0, len(ids), *ids),
            cmd('analyse', 0, rng.choice(FORMULAE), *dates, len(order),
                *order, rng.randrange(2), *truth, len(noise), *noise)]


def check(ctx):
    rng = ctx.rng
    sessions = [analyse(rng, ctx.thorough)
                for _ in range(400 if ctx.thorough else 70)]

    def models():
        return ctx.model(
            'NamesModel', 'INIT Init\nNEXT Next\nCONSTANTS Pool={0,30} '
            'MaxHeld=1\nINVARIANT Unambiguous Monotone ShortFirst\n',
            workers='2')
    exe, _ = ctx.parallel(lambda: ctx.build('table', ['table.cpp']), models)
    sel = []
    for i in range(600 if ctx.thorough else 150):
        f = rng.choice([1.0, 2.0, 2.0, .5, 3.7])
        d = math.exp(rng.uniform(math.log(3600), math.log(3e9)))
        sel.append(cmd('select', d, f, 1))
        sel.append(cmd('select', d, 2.0, 0))
    # on both sides of the limits: periods of the table of constituents
    for p in periods():
        for e in (1 - 1e-6, 1 + 1e-6):
            f = rng.choice([1.0, 2.0, 3.0])
            sel.append(cmd('select', p * e * 3600 / f, f, 1))
    sel += [cmd('select', x, 2.0, 1) for x in (0.0, -1.0, 1.0, 1e-3, 1e15)]
    sel.append(cmd('select', math.nan, 2.0, 1))
    sessions += [sel[i:i + 20] for i in range(0, len(sel), 20)]
    ctx.validate('TableTrace', ctx.run(exe, sessions), name='analysis',
                 replay=lambda s: sessions[s['id']])
