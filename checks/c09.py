"""C09: an axis finds the grid cell of every coordinate."""
import math
from common import cmd

UNIT = {12: 30.0, 8: 45.0, 24: 15.0}


def wrapped(v):
    return (v + 180.0) % 360.0 - 180.0


def build(slot, pts, circ, eps=1e-6):
    return cmd('axis', slot, len(pts), *pts, circ, eps)


def lookups(rng, pts, circ, k):
    """Coordinates on, between, around and out of the points."""
    step = (pts[-1] - pts[0]) / (len(pts) - 1)
    out = []
    for _ in range(k):
        i = rng.randrange(len(pts))
        x = pts[0] + i * step + step * rng.choice(
            [0, 0, .5, 1e-12, -1e-12, 1e-7, -1e-7, .25, .499999, .500001,
             rng.uniform(-1, 1), rng.uniform(-1, 1)])
        r = rng.random()
        if r < .4:
            x += 360.0 * rng.choice([-10, -2, -1, 1, 1, 2, 10])
        elif r < .45:
            x = wrapped(x)
        elif r < .5:
            x = x % 360.0
        elif r < .6:
            x = pts[0] + rng.uniform(-3, 3) * step
        elif r < .7:
            x = pts[-1] + rng.uniform(-3, 3) * step
        elif r < .73:
            x = rng.choice([math.nan, math.inf, -math.inf, 1e5, -1e5])
        out.append(x)
    return cmd('find', 0, len(out), *out)


def at(rng, n):
    idx = [0, n - 1, n, -1, n + 1, 2**40, -2**40 - 1, 2**31 - 1] + \
        [rng.randrange(n) for _ in range(3)]
    return cmd('at', 0, len(idx), *[max(-2**31 + 1, min(i, 2**31 - 1))
                                    for i in idx])


def from_model(rng, b, turns, rg):
    unit = 360.0 / turns
    pts = [(b['s'] + i * b['h']) * unit for i in range(b['n'])]
    if b['w'] == 'west':
        pts = [wrapped(v) for v in pts]
    elif b['w'] == 'east':
        pts = [v % 360.0 for v in pts]
    xs = [k * unit / 2 for k in range(-2 * rg, 2 * rg + 1)]
    return [build(0, pts, b['c']), cmd('find', 0, len(xs), *xs),
            at(rng, b['n'])]


def a_step(rng):
    return rng.choice([1 / 30, .1, .125, .25, .3, .5, 1.0, 1.5, 2.5, 7.0,
                       rng.uniform(.01, 20)])


def good(rng):
    """A circular axis, or a regional one."""
    circ = rng.random() < .6
    k = rng.random()
    if circ and k < .8:
        n = rng.choice([2, 3, 4, 5, 7, 8, 12, 36, 72, 120, 360, 720])
        step = 360.0 / n
        start = rng.choice([0.0, -180.0, step / 2, -180 + step / 2, 20.0,
                            rng.uniform(-360, 360)])
    else:
        n = rng.choice([2, 3, 4, 5, 10, 50, 181])
        step = a_step(rng)
        if circ and n * step > 340:
            step = 340.0 / n * rng.random() + .01
        start = rng.choice([0.0, -90.0, rng.uniform(-200, 200)])
    if rng.random() < .4:
        start, step = start + (n - 1) * step, -step
    pts = [start + i * step for i in range(n)]
    if rng.random() < .3:   # computed by accumulation, as files are
        pts = [pts[0]]
        for _ in range(n - 1):
            pts.append(pts[-1] + step)
    if circ and abs(step) < 179 and rng.random() < .5:
        pts = [wrapped(v) for v in pts] if rng.random() < .5 else \
            [v % 360.0 for v in pts]
    return pts, circ


def closing(rng):
    """A circle that closes up to a tolerance, or not: rounded values."""
    n = rng.choice([3, 4, 7, 12, 36, 120, 360, 720])
    eps = rng.choice([1e-6, 1e-5, 1e-4, 1e-3])
    gap = eps * rng.choice([0, .5, .9, -.5, -.9, 50, 200, 600, -600, 3000])
    if rng.random() < .3:       # written with few digits
        k = rng.choice([2, 3, 4])
        step, gap = round(360.0 / n, k), 0
    else:
        step = 360.0 / n + gap / n
    step *= rng.choice([1, 1, -1])
    start = rng.choice([0.0, -180.0, 20.0, rng.uniform(-180, 180)])
    return [start + i * step for i in range(n)], eps


def unwrapped(pts):
    out = [pts[0]]
    for v in pts[1:]:
        d = wrapped(v - out[-1])
        out.append(out[-1] + d)
    return out


def spoiled(rng):
    """Points that make no axis, or make another one."""
    pts, circ = good(rng)
    step = abs(pts[1] - pts[0])
    k = rng.randrange(8)
    if k == 0:
        return pts[:rng.randrange(2)], circ
    if k == 1:
        return [pts[0]] * len(pts), circ
    if k == 2:
        i = rng.randrange(len(pts))
        pts = pts + [pts[-1] + step * 1.5]
        return pts, False
    if k == 3 and len(pts) > 3:
        i = rng.randrange(1, len(pts) - 1)
        pts[i] += step * rng.choice([.01, -.01, .3, 1.0])
        return pts, circ
    if k == 4 and len(pts) > 3:
        i = rng.randrange(1, len(pts) - 1)
        del pts[i]
        return pts, circ
    if k == 5:
        i = rng.randrange(len(pts))
        pts[i] = rng.choice([math.nan, math.inf, -math.inf])
        return pts, circ
    if k == 6 and len(pts) > 3:
        rng.shuffle(pts)
        return pts, False
    if k == 7 and len(pts) > 2:
        i = rng.randrange(len(pts) - 1)
        pts[i] = pts[i + 1]
        return pts, circ
    return pts[::-1], circ


def check(ctx):
    rng = ctx.rng
    shapes = [(12, 4, 7)] if not ctx.thorough else \
        [(12, 6, 13), (8, 8, 10), (24, 4, 14)]

    def model(turns, n, rg, variant='ok'):
        return ('INIT Init\nNEXT Next\nCONSTANTS Turns=%d MaxN=%d Range=%d '
                'Variant="%s"\nINVARIANT SameAxis Lookups Emit\n'
                % (turns, n, rg, variant))

    def models():
        out = []
        for t, n, rg in shapes:
            r = ctx.model('AxisModel', model(t, n, rg), workers='4',
                          timeout=850)
            out += [(b, t, rg) for b in
                    sorted(ctx.behaviours(r), key=str)]
        if ctx.thorough:
            for v in ('truncate', 'no modulo', 'closing cell'):
                ctx.refuted('AxisModel', model(12, 4, 7, v), 'Lookups')
        return out
    exe, behs = ctx.parallel(lambda: ctx.build('geom', ['geom.cpp']), models)
    rng.shuffle(behs)
    k = 30 if ctx.thorough else 1
    sessions = [from_model(rng, *b) for b in behs[:600 * k]]
    for _ in range(350 * k):
        pts, circ = good(rng)
        u = unwrapped(pts) if circ else pts
        sessions.append([build(0, pts, circ), lookups(rng, u, circ, 25),
                         at(rng, len(pts))])
    for _ in range(150 * k):
        pts, eps = closing(rng)
        sessions.append([build(0, pts, True, eps),
                         lookups(rng, pts, True, 15)])
    for _ in range(200 * k):
        sessions.append([build(0, *spoiled(rng))])
    ctx.validate('GeomTrace', ctx.run(exe, sessions), name='axes',
                 replay=lambda s: sessions[s['id']])
