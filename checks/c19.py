"""C19: the time tolerance."""
import math
from common import cmd, epoch, FORMULAE
from scen import model, Cart, some_ids, batch


def check(ctx):
    rng = ctx.rng

    def models():
        r = ctx.model('ToleranceModel',
                      'INIT Init\nNEXT Next\nCONSTANTS Span=%d MaxLen=%d '
                      'Taus={0,1,2,3} Anchored=TRUE\nINVARIANT Bounded '
                      'IsADateOfTheBatch ExactAtZero Emit\n'
                      % ((5, 5) if ctx.thorough else (4, 4)), workers='4',
                      timeout=850)
        if ctx.thorough:
            ctx.refuted('ToleranceModel',
                        'INIT Init\nNEXT Next\nCONSTANTS Span=5 MaxLen=4 '
                        'Taus={1,2} Anchored=FALSE\nINVARIANT Bounded\n',
                        'Bounded')
        return sorted(ctx.behaviours(r), key=str)
    exe, behs = ctx.parallel(lambda: ctx.build('predict', ['predict.cpp']),
                             models)
    rng.shuffle(behs)
    n = 8000 if ctx.thorough else 1200
    sessions = []
    for b in behs[:n]:
        unit = rng.choice([1.0, 900.0, 3600.0])
        t0 = epoch(rng)
        m = Cart(rng)
        ses = [m.new()]
        leaps = [20] if rng.random() < .7 else [20, 21]
        seq = [(math.nan if d == 0 else t0 + d * unit) for d in b['d']]
        a = []
        for d in seq:
            a += [d, rng.choice(leaps)]
        ses.append(cmd('angles', rng.choice(FORMULAE), b['tau'] * unit,
                       len(seq), *a))
        sessions.append(ses)
    batches = []
    for _ in range(600 if ctx.thorough else 60):
        m = model(rng)
        unit = rng.choice([900.0, 3600.0, 1800.0])
        tau = rng.choice([0, 1, 2, 3]) * unit
        t0 = epoch(rng)
        k = rng.randrange(3, 10)
        reqs = []
        for _ in range(k):
            e = t0 + rng.randrange(0, 6) * unit
            if rng.random() < .15:
                e = math.nan
            p = m.inside() if rng.random() < .8 else m.outside()
            reqs.append([e, rng.choice([20, 20, 21]), *p])
        ses = [m.new()] + [m.add(i) for i in [30, 36, 17, 8] +
                           some_ids(rng, 4)]
        ses.append(cmd('cfg', rng.choice(FORMULAE), float(tau), 0))
        ses.append(cmd('reqs', *batch(reqs)))
        idx = [rng.randrange(k) for _ in range(rng.randrange(2, 12))]
        ses.append(cmd('cross', len(idx), *idx))
        for t in (1, rng.choice([2, 3, 0])):
            ses.append(cmd('batch', t, len(idx), *idx))
        batches.append(ses)
    ctx.parallel(
        lambda: ctx.validate('PredictTrace', ctx.run(exe, sessions),
                             name='angles',
                             replay=lambda s: sessions[s["id"]]),
        lambda: ctx.validate('PredictTrace', ctx.run(exe, batches),
                             name='tolerance',
                             replay=lambda s: batches[s["id"]]))
