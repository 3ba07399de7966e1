"""C12: finite element models reproduce their polynomials."""
import math
from c10 import add, look, slot
from c11 import chord
from common import cmd
from scen import Lgp, Mesh


def from_model(rng, b):
    """The two triangles of ElementModel, at positions of the lattice."""
    m = Mesh(rng, 2, 2, jitter=0)
    place = {'A': (0, 0), 'B': (1, 0), 'C': (0, 1), 'D': (1.1, 1.05)}
    names = 'ABCD'
    m.lon = [m.lon0 + m.dx * place[v][0] for v in names]
    m.lat = [m.lat0 + m.dy * place[v][1] for v in names]
    if rng.random() < .4:
        m.lon = [(v + 180) % 360 - 180 for v in m.lon]
    m.tri = [[names.index(v) for v in b['o1']],
             [names.index(v) for v in b['o2']]]
    g = Lgp(rng, n=b['n'], mesh=m)
    ses = [slot(g.new())]
    for ident in rng.sample(range(75), rng.choice([1, 2])):
        ses.append(add(g.add(ident)))
    k = 6
    lat = [(i, j) for i in range(k + 1) for j in range(k + 1 - i)]
    pts = []
    for t in (0, 1):
        c = [(m.corner(v, m.lon[m.tri[0][0]]), m.lat[v]) for v in m.tri[t]]
        for i, j in lat:
            a = (i, j, k - i - j)
            pts.append(tuple(sum(a[q] * c[q][z] for q in range(3)) / k
                             for z in (0, 1)))
    rng.shuffle(pts)
    return ses + [look(rng, pts)]


def randomised(rng):
    m = Mesh(rng, jitter=rng.choice([0, .1, .2]), fine=rng.random() < .5)
    g = Lgp(rng, mesh=m)
    far = rng.choice([0.0, 0.0, 3e5, 1e7])
    g.maxd = far
    out = [g.outside() for _ in range(6)]
    if rng.random() < .4:       # on both sides of the distance
        g.maxd = chord(m, out[0]) * rng.choice([1 + 1e-7, 1 - 1e-7])
    ses = [slot(g.new())]
    mask = rng.choice([0, 0, .02, .2])
    for ident in rng.sample(range(75), rng.choice([1, 2, 4, 8])):
        ses.append(add(g.add(ident, mask=rng.choice([0, mask]))))
    t = rng.randrange(len(m.tri))
    pts = [m.in_triangle() for _ in range(10)] + \
        [m.in_triangle(t) for _ in range(4)] + \
        [m.on_edge() for _ in range(4)] + \
        [m.on_vertex() for _ in range(3)] + out
    if rng.random() < .1:
        pts += [(math.nan, m.lat[0]), (m.lon[0], math.nan)]
    rng.shuffle(pts)
    ses.append(look(rng, pts))
    if rng.random() < .5:       # further data, then the same positions
        ses.append(add(g.add(rng.randrange(75))))
        ses.append(look(rng, pts[:12]))
    return ses


def check(ctx):
    rng = ctx.rng
    conf = ('INIT Init\nNEXT Next\nCONSTANTS M=6 Variant="%s"\nINVARIANT %s\n')
    exe, behs = ctx.parallel(
        lambda: ctx.build('geom', ['geom.cpp']),
        lambda: ctx.behaviours(ctx.model(
            'ElementModel', conf % ('ok', 'Nodal Unity SameForAll Continuous '
                                    'Emit'), workers='4', timeout=850)))
    if ctx.thorough:
        ctx.refuted('ElementModel', conf % ('fixed', 'Continuous'),
                    'Continuous')
        ctx.refuted('ElementModel', conf % ('fixed', 'Nodal'), 'Nodal')
    behs.sort(key=str)
    k = 25 if ctx.thorough else 1
    sessions = [from_model(rng, b) for _ in range(8 if k > 1 else 1)
                for b in behs]
    sessions += [randomised(rng) for _ in range(200 * k)]
    ctx.validate('GeomTrace', ctx.run(exe, sessions), name='elements',
                 replay=lambda s: sessions[s['id']])
