"""C11: the mesh search returns the triangle that contains the position."""
import math
from common import cmd
from scen import Mesh


def put(rng, m, slot=0):
    flat = [i for t in m.tri for i in t]
    return cmd('mesh', slot, len(m.lon), *m.lon, len(m.lat), *m.lat,
               len(flat), *flat)


def search(maxd, pts, slot=0):
    return cmd('search', slot, maxd, len(pts), *[v for p in pts for v in p])


def chord(m, p):
    """Distance of the closest vertex."""
    def ecef(lon, lat):
        a, e2 = 6378137.0, 0.08181919092890632683 ** 2
        x, y = math.radians(lon), math.radians(lat)
        chi = a / math.sqrt(1 - e2 * math.sin(y) ** 2)
        return (chi * math.cos(y) * math.cos(x),
                chi * math.cos(y) * math.sin(x),
                chi * (1 - e2) * math.sin(y))
    q = ecef(*p)
    return min(math.dist(q, ecef(m.lon[v], m.lat[v]))
               for v in range(len(m.lon)))


def around(rng, m):
    """Batches of positions, with the distances that are decisive."""
    ins = [m.in_triangle() for _ in range(10)] + \
        [m.on_edge() for _ in range(5)] + [m.on_vertex() for _ in range(3)]
    ses = [search(rng.choice([0.0, 0.0, 1e5]), ins)]
    out = [m.away() for _ in range(6)]
    ses.append(search(0.0, out[:3]))
    ses.append(search(1e7, out))
    for p in out[:3]:
        d = chord(m, p)
        ses += [search(d * (1 + 1e-7), [p]), search(d * (1 - 1e-7), [p])]
    return ses


def from_model(rng, b, s=4):
    """The 3 x 2 squares of MeshModel and all its positions."""
    m = Mesh(rng, 3, 2, jitter=0, diag=[b[0:3], b[3:6]])
    pts = [(m.lon0 + m.dx * i / s, m.lat0 + m.dy * j / s)
           for i in range(1, 3 * s) for j in range(1, 2 * s)]
    rng.shuffle(pts)
    return [put(rng, m), search(0.0, pts[:40])]


def randomised(rng):
    m = Mesh(rng, jitter=rng.choice([0, .1, .2, .3]), fine=rng.random() < .5)
    return [put(rng, m)] + around(rng, m)


def check(ctx):
    rng = ctx.rng
    conf = ('INIT Init\nNEXT Next\nCONSTANTS S=%d K=11 Ties=%s Jitter=%d\n'
            'INVARIANT %s\n')
    exe, behs = ctx.parallel(
        lambda: ctx.build('geom', ['geom.cpp']),
        lambda: ctx.behaviours(ctx.model(
            'MeshModel', conf % (4, 'TRUE', 0, 'Located Emit'),
            workers='4', timeout=850)))
    if ctx.thorough:
        ctx.model('MeshModel', conf % (4, 'TRUE', 2, 'Located'), workers='8',
                  timeout=850)
        ctx.refuted('MeshModel', conf % (5, 'FALSE', 1, 'Located'), 'Located')
    behs.sort(key=str)
    k = 20 if ctx.thorough else 1
    sessions = [from_model(rng, b) for b in behs for _ in range(2 * k)]
    sessions += [randomised(rng) for _ in range(200 * k)]
    ctx.validate('GeomTrace', ctx.run(exe, sessions), name='meshes',
                 replay=lambda s: sessions[s['id']])
