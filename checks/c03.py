"""C03: every constituent reaches the prediction through one route."""
from common import cmd, epoch, FORMULAE
from scen import (Cart, Lgp, Mesh, MAJORS, SHORT_ADMIT, LPE, LONG_OTHER,
                  SHORT_OTHER, some_ids, batch, eighth)


def small(rng):
    if rng.random() < .7:
        return Cart(rng)
    return Lgp(rng, mesh=Mesh(rng, 2, 2), maxd=0.0)


def const(rng):
    return [eighth(rng) or 1.0, eighth(rng) or 2.0]


def evaluate(rng, m):
    n = rng.choice([1, 2])
    return cmd('eval', 1, *batch([[epoch(rng), 20, *m.inside()]
                                  for _ in range(n)]))


def from_model(rng, beh):
    m = small(rng)
    ids = {'infer': rng.choice(SHORT_ADMIT), 'major': rng.choice(MAJORS),
           'line': rng.choice(LPE), 'long': rng.choice(LONG_OTHER)}
    values = {k: [const(rng), const(rng)] for k in ids}
    # other constituents, so that inference has something to work on
    base = [(i, const(rng)) for i in MAJORS
            if i != ids['major'] and rng.random() < .8]

    def start():
        return [m.add(i, constant=v) for i, v in base]
    ses = [m.new()] + start()
    for op in beh:
        if op[0] == 'add':
            ses.append(m.add(ids[op[1]], constant=values[op[1]][op[2] - 1]))
        elif op[0] == 'dyn':
            d = [ids[k] for k in op[1]]
            rng.shuffle(d)
            ses.append(cmd('dyn', len(d), *d))
        elif op[0] == 'clear':
            ses.append('clear')
            ses += start()
        else:
            x = [ids[k] for k in op[1]]
            rng.shuffle(x)
            ses.append(cmd('cfg', rng.choice(FORMULAE), 0.0, len(x), *x))
            ses.append(evaluate(rng, m))
    return ses


def randomised(rng):
    """Long histories over all the constituents."""
    m = small(rng)
    ses = [m.new()]
    everyone = MAJORS + SHORT_ADMIT + LPE + LONG_OTHER + SHORT_OTHER
    have, dyn = set(), set()
    for _ in range(rng.randrange(3, 8)):
        k = rng.random()
        if k < .5:
            for i in some_ids(rng, 8):
                ses.append(m.add(i, constant=const(rng)))
                have.add(i)
        elif k < .65:
            d = rng.sample(everyone, rng.randrange(0, 6))
            dyn = set(d)
            if d and rng.random() < .3:
                d = d + d[:1]
            ses.append(cmd('dyn', len(d), *d))
        elif k < .72:
            ses.append('clear')
            have, dyn = set(), set()
        else:
            pool = [i for i in everyone if not (i in have and i in dyn)]
            x = rng.sample(pool, rng.choice([0, 1, 4]))
            x += [i for i in have if i not in dyn and rng.random() < .2]
            ses.append(cmd('cfg', rng.choice(FORMULAE), 0.0, len(x), *x))
            ses.append(evaluate(rng, m))
    ses.append(cmd('cfg', rng.choice(FORMULAE), 0.0, 0))
    ses.append(evaluate(rng, m))
    return ses


def check(ctx):
    rng = ctx.rng

    def models():
        r = ctx.model('RoutesModel',
                      'INIT Init\nNEXT Next\nCONSTANTS MaxOps=%d\nINVARIANT '
                      'RouteIsRealised NeverTwice FirstWins Emit\n'
                      % (3 if ctx.thorough else 2), workers='4', timeout=850)
        return sorted(ctx.behaviours(r), key=str)
    exe, behs = ctx.parallel(lambda: ctx.build('predict', ['predict.cpp']),
                             models)
    rng.shuffle(behs)
    # all the shapes of at most 1 operation, then a sample
    behs.sort(key=len)
    short = [b for b in behs if len(b) <= 2]
    long = [b for b in behs if len(b) > 2]
    n = 6000 if ctx.thorough else 350
    rng.shuffle(long)
    sessions = [from_model(rng, b) for b in short[:n] + long[:n]]
    sessions += [randomised(rng) for _ in range(n // 3)]
    ctx.validate('PredictTrace', ctx.run(exe, sessions), name='routes',
                 replay=lambda s: sessions[s["id"]])
