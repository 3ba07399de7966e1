"""C04: admittance."""
import math
from common import cmd, epoch, FORMULAE
from scen import MAJORS, SHORT_ADMIT
from tables import ALL, value


def session(rng):
    ses = [cmd('all', 0)]
    some = rng.sample(ALL, rng.choice([0, 6, 30, 75]))
    if rng.random() < .8:
        some = list(set(some) | set(MAJORS) | {25})
    nan = rng.random() < .1
    for i in some:
        adm = i in SHORT_ADMIT
        if rng.random() < .25:
            adm = not adm
        a, b = value(rng), value(rng)
        if nan and rng.random() < .1:
            a = b = math.nan
        ses.append(cmd('set', 0, i, a, b, adm, rng.random() < .3))
    ses.append('dump 0')
    ses.append('admit 0')
    for _ in range(rng.randrange(3)):
        i = rng.choice(MAJORS + SHORT_ADMIT)
        ses.append(cmd('set', 0, i, value(rng), value(rng),
                       rng.random() < .6, rng.random() < .3))
        ses.append('admit 0')
    if rng.random() < .3:
        ses += ['copy 0 1', 'admit 1', 'dump 0', 'admit 0']
    return ses


def check(ctx):
    n = 4000 if ctx.thorough else 250
    sessions = [session(ctx.rng) for _ in range(n)]

    def models():
        return ctx.model(
            'AdmittanceModel', 'INIT Init\nNEXT Next\nCONSTANTS Samples=%d\n'
            'INVARIANT Relation Idempotent Untouched MajorsAreNotRelated '
            'DefaultsAreRelated Additive Ordered SameSpecies\n'
            % (40 if ctx.thorough else 3), workers='4', timeout=850)
    exe, _ = ctx.parallel(lambda: ctx.build('table', ['table.cpp']), models)
    ctx.validate('TableTrace', ctx.run(exe, sessions), name='admittance',
                 replay=lambda s: sessions[s['id']])
