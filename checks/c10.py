"""C10: bilinear interpolation of the Cartesian models."""
import math
from common import cmd
from scen import Cart, eighth


def slot(text):
    return 'slot 0 ' + text


def add(text):
    head, rest = text.split(' ', 1)
    return '%s 0 %s' % (head, rest)


def look(rng, pts):
    return cmd('look', 0, rng.random() < .5, len(pts),
               *[v for p in pts for v in p])


def from_model(rng, b):
    """The 3 x 2 grid of GridModel somewhere, at all its positions."""
    m = Cart(rng)
    m.major = b['major']
    h, k = rng.choice([.25, 1.0, 5.0, 120.0]), rng.choice([.5, 1.0, 10.0])
    m.circular = h == 120.0
    x0 = rng.choice([0.0, -180.0, -2 * h, 358.0, rng.uniform(-180, 180)])
    y0 = rng.choice([0.0, -k, 80.0 - k, rng.uniform(-80, 79 - k)])
    lon = [x0 + i * h for i in range(3)]
    lat = [y0, y0 + k]
    m.lon = lon[::-1] if b['rx'] else lon
    m.lat = lat[::-1] if b['ry'] else lat
    m.size = 6
    ses = [slot(m.new())]
    ids = rng.sample(range(75), rng.choice([1, 1, 2, 3]))
    for n, ident in enumerate(ids):
        # another constituent has no mask, or another one
        mask = set(b['m']) if n == 0 or rng.random() < .3 else \
            {rng.randrange(6)}
        data = []
        for i in range(6):
            p = (i // 2, i % 2) if m.major else (i % 3, i // 3)
            q = (2 - p[0] if b['rx'] else p[0], 1 - p[1] if b['ry'] else p[1])
            if 2 * q[0] + q[1] in mask:
                data += rng.choice([[math.nan, math.nan], [math.nan, 1.0],
                                    [1.0, math.nan], [math.inf, 0.0]])
            else:
                data += [eighth(rng), eighth(rng)]
        ses.append(cmd('add', 0, ident, 6, *data))
    turn = rng.choice([0, 0, 360, -360]) if m.circular else 0
    pts = [(x0 + h * i / 4 + turn, y0 + k * j / 4)
           for i in range(13 if m.circular else 9) for j in range(5)]
    rng.shuffle(pts)
    return ses + [look(rng, pts[:30])]


def randomised(rng):
    m = Cart(rng)
    ses = [slot(m.new())]
    mask = rng.choice([0, .1, .4])
    for ident in rng.sample(range(75), rng.choice([1, 2, 4, 8])):
        ses.append(add(m.add(ident, mask=rng.choice([0, mask]))))
    pts = [m.inside() for _ in range(20)] + [m.outside() for _ in range(4)]
    for _ in range(4):      # on nodes
        pts.append((rng.choice(m.lon) +
                    (rng.choice([0, 360, -360]) if m.circular else 0),
                    rng.choice(m.lat)))
    for _ in range(2):      # next to nodes and to the ends
        pts.append((rng.choice(m.lon) + rng.choice([1e-7, -1e-7, 1e-13]),
                    rng.choice(m.lat) + rng.choice([1e-7, -1e-7, 1e-13])))
    if rng.random() < .2:
        pts.append((math.nan, m.lat[0]))
        pts.append((m.lon[0], math.nan))
    rng.shuffle(pts)
    return ses + [look(rng, pts)]


def check(ctx):
    rng = ctx.rng
    exe, behs = ctx.parallel(
        lambda: ctx.build('geom', ['geom.cpp']),
        lambda: ctx.behaviours(ctx.model(
            'GridModel', 'INIT Init\nNEXT Next\nCONSTANTS Variant="ok"\n'
            'INVARIANT Owed Emit\n', workers='6', timeout=850)))
    if ctx.thorough:
        for v in ('order', 'swapped', 'no renormalisation'):
            ctx.refuted('GridModel', 'INIT Init\nNEXT Next\nCONSTANTS '
                        'Variant="%s"\nINVARIANT Owed\n' % v, 'Owed')
    behs.sort(key=str)
    k = 25 if ctx.thorough else 1
    sessions = [from_model(rng, b) for _ in range(k if ctx.thorough else 1)
                for b in (behs if ctx.thorough else rng.sample(behs, 250))]
    sessions += [randomised(rng) for _ in range(250 * k)]
    ctx.validate('GeomTrace', ctx.run(exe, sessions), name='grids',
                 replay=lambda s: sessions[s['id']])
