"""C02: the tide is the documented harmonic synthesis."""
import math
from common import cmd, epoch, FORMULAE
from scen import model, some_ids, batch


def check(ctx):
    rng = ctx.rng
    n = 900 if ctx.thorough else 90
    sessions = []
    for k in range(n):
        m = model(rng)
        ids = some_ids(rng, 24)
        ses = [m.new()]
        ses += [m.add(i, mask=rng.choice([0, 0, .1])) for i in ids]
        if rng.random() < .3:
            extra = [i for i in some_ids(rng, 4) if i not in ids]
            ses.append(cmd('dyn', len(extra), *extra))
        for _ in range(2):
            x = rng.sample(ids, min(len(ids), rng.choice([0, 0, 1, 3])))
            ses.append(cmd('cfg', rng.choice(FORMULAE), 0.0, len(x), *x))
            reqs = []
            for _ in range(4):
                e = epoch(rng)
                if rng.random() < .03:
                    e = math.nan
                reqs.append([e, rng.choice([0, 10, 37, 40000]), *m.point()])
            ses.append(cmd('eval', rng.choice([1, 1, 2]), *batch(reqs)))
        if any(x.startswith('dyn') for x in ses):
            # excluded + provided + declared has no documented route
            ses = [x for x in ses]
        sessions.append(ses)
    exe = ctx.build('predict', ['predict.cpp'])
    ctx.validate('PredictTrace', ctx.run(exe, sessions), name='synthesis',
                 replay=lambda s: sessions[s["id"]])
