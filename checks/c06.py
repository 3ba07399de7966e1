"""C06: argument, nodal corrections and frequency of each constituent."""
import math
from common import cmd, epoch, FORMULAE


def elements(rng):
    """13 elements, not tied to a date."""
    def ang():
        k = rng.random()
        if k < .15:
            return rng.choice([0, .5, 1, 1.5, 2]) * math.pi
        return rng.uniform(0, 2 * math.pi)
    t, n, h, s, p1, p = (ang() for _ in range(6))
    i = rng.uniform(math.radians(18), math.radians(29))
    small = [rng.uniform(-.25, .25) for _ in range(5)]
    xi, nu, r, nup, nus = small
    x1ra = rng.uniform(.4, 1.6)
    return [t, n, h, s, p1, p, i, xi, nu, x1ra, r, nup, nus]


def check(ctx):
    rng = ctx.rng
    n = 1500 if ctx.thorough else 160
    sessions = [[cmd('static', i)] for i in range(75)]
    for k in range(n):
        ses = [cmd('new', FORMULAE[k % 3])]
        for _ in range(2):
            if rng.random() < .5:
                ses.append(cmd('upd', epoch(rng), rng.randrange(0, 40)))
            else:
                ses.append(cmd('set', *elements(rng)))
            ses.append(cmd('nodal', rng.choice(['table', 'wave'])))
        sessions.append(ses)
    sessions.append([cmd('new', 'schureman3'), cmd('upd', 0.0, 0),
                     cmd('nodal', '2MK6')])
    # the oracle against the sky, and the code against the oracle
    steps, hours = (40000, 37) if ctx.thorough else (400, 1229)

    def model():
        return ctx.model('ConstituentsModel',
                         'INIT Init\nNEXT Next\n'
                         'CONSTANTS Steps=%d StepHours=%d\n'
                         'INVARIANT Triangle FrequencyIsRate CompoundsAdd '
                         'FactorsInRange SameSky\n' % (steps, hours),
                         workers='4', timeout=850)
    exe, _ = ctx.parallel(lambda: ctx.build('waves', ['waves.cpp']), model)
    ctx.validate('WavesTrace', ctx.run(exe, sessions), name='waves',
                 replay=lambda s: sessions[s["id"]])
