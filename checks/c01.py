"""C01: a batch prediction is a pure function of each request."""
import math
from common import cmd, epoch, FORMULAE
from scen import model, some_ids, batch, Cart, Lgp, Mesh


def cfg(rng):
    return cmd('cfg', rng.choice(FORMULAE), 0.0, 0)


def build(rng, m, mask=None):
    ses = [m.new()]
    ids = some_ids(rng)
    if mask is None:
        mask = rng.choice([0, 0, .01, .05, .15])
    ses += [m.add(i, mask=mask) for i in ids]
    if rng.random() < .2:
        extra = [i for i in some_ids(rng, 3) if i not in ids]
        ses.append(cmd('dyn', len(extra), *extra))
    return ses + [cfg(rng)]


def request(rng, m, dates, pts):
    e = rng.choice(dates)
    if rng.random() < .04:
        e = math.nan
    return [e, rng.choice([0, 20, 37, 300, 65535]), *rng.choice(pts)]


def from_model(ctx, rng, behs, per):
    """Batches of BatchModel, on concrete models."""
    out = []
    for k in range(0, len(behs), per):
        m = model(rng)
        if isinstance(m, Lgp):
            t = rng.sample(range(len(m.mesh.tri)), 2)
            p = {'P': m.mesh.in_triangle(t[0]), 'Q': m.mesh.in_triangle(t[1])}
        else:
            p = {'P': m.inside(), 'Q': m.inside()}
        p['U'] = m.outside()
        e = epoch(rng)
        date = {(1, 1): (e, 10), (1, 2): (e, 37),
                (2, 1): (e + rng.choice([1e-3, 1.0, 3600.0, -86400.0]), 10)}
        keys = [(d, q) for d in sorted(date) for q in 'PQU']
        ses = build(rng, m, mask=0.05)
        ses.append(cmd('reqs', *batch([[*date[d], *p[q]] for d, q in keys])))
        for b in behs[k:k + per]:
            idx = [keys.index((tuple(r[0]), r[1])) for r in b['b']]
            ses.append(cmd('batch', b['t'], len(idx), *idx))
        out.append(ses)
    return out


def randomised(rng, n, size, nb, models=model, together=True):
    out = []
    for _ in range(n):
        m = models(rng)
        ses = build(rng, m)
        dates = [epoch(rng) for _ in range(4)]
        dates += [d + rng.choice([1e-6, .5, 60.0]) for d in dates[:2]]
        pts = [m.point() for _ in range(6)] + [m.outside()]
        if rng.random() < .5:
            pts = pts[:3] + m.special()
        if rng.random() < .1:
            pts.append((math.nan, pts[0][1]))
        reqs = [request(rng, m, dates, pts) for _ in range(size)]
        ses.append(cmd('reqs', *batch(reqs)))

        def one():
            k = rng.choice([0, 1, 2, size, 3 * size])
            return [rng.choice([0, 1, 1, 2, 3, 5, 8, 16]), k] + \
                [rng.randrange(size) for _ in range(k)]
        for _ in range(nb):
            ses.append(cmd('batch', *one()))
        if together:
            k = rng.randrange(2, 4)
            ses.append(cmd('together', k, *[v for _ in range(k)
                                            for v in one()]))
            ses.append(cmd('batch', *one()))
        out.append(ses)
    return out


def check(ctx):
    rng = ctx.rng

    def models():
        n, t = (4, 3) if ctx.thorough else (3, 3)
        r = ctx.model('BatchModel',
                      'INIT Init\nNEXT Next\nCONSTANTS MaxN=%d MaxThreads=%d '
                      'Variant="ok"\nINVARIANT IsPure\nCONSTRAINT Emit\n'
                      % (n, t), workers='4', timeout=850)
        if ctx.thorough:
            for v in ('leap', 'triangle', 'stale'):
                ctx.refuted('BatchModel',
                            'INIT Init\nNEXT Next\nCONSTANTS MaxN=3 '
                            'MaxThreads=2 Variant="%s"\nINVARIANT IsPure\n'
                            % v, 'IsPure')
        return ctx.behaviours(r)
    exe, tsan, behs = ctx.parallel(
        lambda: ctx.build('predict', ['predict.cpp']),
        lambda: ctx.build('predict-tsan', ['predict.cpp'],
                          flags=['-fsanitize=thread', '-g1']),
        models)
    rng.shuffle(behs)
    behs = behs[:12000] if ctx.thorough else behs[:1500]
    k = 10 if ctx.thorough else 1
    a = from_model(ctx, rng, behs, 40)
    b = randomised(rng, 60 * k, 24, 6)
    c = randomised(rng, 10 * k, 12, 2)
    env = {'TSAN_OPTIONS': 'exitcode=66 halt_on_error=1'}
    ra, rb, rc = ctx.parallel(lambda: ctx.run(exe, a), lambda: ctx.run(exe, b),
                              lambda: ctx.run(tsan, c, env=env))
    ctx.parallel(
        lambda: ctx.validate('PredictTrace', ra, name='model-batches',
                             replay=lambda s: a[s['id']]),
        lambda: ctx.validate('PredictTrace', rb, name='random-batches',
                             replay=lambda s: b[s['id']]),
        lambda: ctx.validate('PredictTrace', rc, name='concurrent',
                             replay=lambda s: c[s['id']]))
