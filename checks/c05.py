"""C05: the long-period equilibrium tide."""
from common import cmd, epoch, FORMULAE
from scen import LPE, LONG_OTHER
from tables import ALL


def lp(rng):
    lats = [rng.uniform(-90, 90) for _ in range(2)]
    lats += [rng.choice([0.0, 90.0, -90.0, 35.26, -lats[0]])]
    return cmd('lp', rng.choice(FORMULAE), epoch(rng),
               rng.choice([0, 20, 37, 300, 65535]), len(lats), *lats)


def flags(rng, slot, dyn):
    return [cmd('set', slot, i, rng.uniform(-5, 5), 1.0, rng.random() < .5,
                True) for i in dyn]


def from_model(rng, beh):
    """One table per declaration, disabled one after the other."""
    ses = []
    for k, dyn in enumerate(beh):
        # waves without a line of their own change nothing
        dyn = list(dyn) + rng.sample([i for i in ALL if i not in LPE],
                                     rng.choice([0, 2]))
        ses += [cmd('all', k)] + flags(rng, k, dyn)
        if k == 0 and rng.random() < .5:
            ses.append(cmd('lpnew', k))
        else:
            if k == 0:
                ses.append('lpnew')
                if rng.random() < .3:
                    ses.append(lp(rng))
            ses.append(cmd('lpdis', k))
        if rng.random() < .3:
            ses.append(cmd('lpdis', rng.randrange(k + 1)))
        ses.append(lp(rng))
    return ses


def check(ctx):
    rng = ctx.rng

    def models():
        return ctx.behaviours(ctx.model(
            'EquilibriumModel', 'INIT Init\nNEXT Next\nCONSTANTS MaxOps=2\n'
            'INVARIANT Exactly OnePrincipal SameGroup Dominant Distinct '
            'LongOnly Emit\n', workers='4', timeout=850))
    exe, behs = ctx.parallel(lambda: ctx.build('table', ['table.cpp']), models)
    behs.sort(key=str)
    rng.shuffle(behs)
    behs = behs[:4000 if ctx.thorough else 300]
    # each wave alone, all of them, none, long histories
    behs += [[[i]] for i in range(75)] + [[LPE]] + [[LPE, LPE]] + [[[]]]
    behs += [[rng.sample(LPE, rng.randrange(1, 4)) for _ in range(5)]
             for _ in range(20)]
    sessions = [from_model(rng, b) for b in behs]
    ctx.validate('TableTrace', ctx.run(exe, sessions), name='equilibrium',
                 replay=lambda s: sessions[s['id']])
