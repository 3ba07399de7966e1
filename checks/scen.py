"""Tidal models and positions used by the scenarios."""
import math
from common import cmd

SHORT_ADMIT = [4, 5, 7, 10, 11, 13, 14, 19, 20, 21, 22, 24, 25, 26, 29, 32,
               33, 35, 40]
MAJORS = [6, 8, 17, 28, 30, 38]
LPE = [0, 1, 2, 3, 65, 67, 68, 69, 70, 71, 73, 74]
LONG_OTHER = [64, 66, 72]
AVOID = [59]            # 2MK6: known finding of C06
SHORT_OTHER = [i for i in range(75) if i not in
               SHORT_ADMIT + MAJORS + LPE + LONG_OTHER + AVOID]


def eighth(rng, a=60):
    """A value every precision holds exactly."""
    return rng.randrange(-8 * a, 8 * a + 1) / 8.0


class Cart:
    """A Cartesian model: axes, storage order, and positions in it."""

    def __init__(self, rng, prec=None, type_=None, circular=None):
        self.rng = rng
        self.prec = prec or rng.choice('df')
        self.type = type_ or ('tide' if rng.random() < .8 else 'radial')
        self.circular = rng.random() < .5 if circular is None else circular
        self.major = rng.random() < .5
        if self.circular:
            n = rng.choice([4, 5, 6, 8, 9, 12])
            step = 360.0 / n
            start = rng.choice([0.0, -180.0, rng.uniform(-180, 180),
                                step / 2])
        else:
            n = rng.randrange(2, 7)
            step = rng.choice([0.25, 1.0, 2.5, 7.0])
            start = rng.uniform(-170, 170 - n * step)
        if rng.random() < .3:
            start, step = start + (n - 1) * step, -step
        self.lon = [start + i * step for i in range(n)]
        n = rng.randrange(2, 7)
        step = rng.choice([0.5, 1.0, 3.0])
        start = rng.uniform(-80, 80 - n * step)
        if rng.random() < .3:
            start, step = start + (n - 1) * step, -step
        self.lat = [start + i * step for i in range(n)]
        self.size = len(self.lon) * len(self.lat)

    def new(self):
        return cmd('cart', self.prec, self.type, self.major, len(self.lon),
                   *self.lon, self.circular, len(self.lat), *self.lat)

    def values(self, constant=None, mask=0.0):
        rng = self.rng
        out = []
        for _ in range(self.size):
            if constant is not None:
                out += constant
            elif rng.random() < mask:
                out += [math.nan, math.nan]
            else:
                out += [eighth(rng), eighth(rng)]
        return out

    def add(self, ident, constant=None, mask=0.0):
        return cmd('add', ident, self.size, *self.values(constant, mask))

    def inside(self):
        rng = self.rng
        lo, hi = sorted((self.lat[0], self.lat[-1]))
        lat = rng.uniform(lo, hi)
        if rng.random() < .15:
            lat = rng.choice(self.lat)
        a, b = sorted((self.lon[0], self.lon[-1]))
        lon = rng.uniform(a, a + 360 if self.circular else b)
        if rng.random() < .15:
            lon = rng.choice(self.lon)
        if self.circular and rng.random() < .4:
            lon += rng.choice([-720, -360, 360])
        return lon, lat

    def outside(self):
        rng = self.rng
        lo, hi = sorted((self.lat[0], self.lat[-1]))
        lon, lat = self.inside()
        if self.circular or rng.random() < .5:
            lat = rng.choice([lo - .2 - rng.random(), hi + .2 + rng.random()])
        else:
            a, b = sorted((self.lon[0], self.lon[-1]))
            lon = rng.choice([a - .2 - rng.random(), b + .2 + rng.random()])
        return lon, lat

    def point(self):
        return self.inside() if self.rng.random() < .8 else self.outside()

    def special(self):
        """Positions at and next to a corner of the grid."""
        rng = self.rng
        i, j = rng.choice([0, -1]), rng.choice([0, -1])
        x, y = self.lon[i], self.lat[j]
        sx = 1 if (self.lon[0] < self.lon[-1]) == (i == -1) else -1
        sy = 1 if (self.lat[0] < self.lat[-1]) == (j == -1) else -1
        out = [(x, y)]
        for d in rng.sample([1e-9, 1e-7, 1e-5, 1e-3, .1], 3):
            out.append((x + sx * d, y + sy * d))
            out.append((x - sx * d, y - sy * d))
        return out


class Mesh:
    """A regular triangulation of a box, jittered."""

    def __init__(self, rng, nx=None, ny=None, jitter=.1, diag=None,
                 fine=False):
        self.rng = rng
        nx = nx or rng.randrange(2, 6)
        ny = ny or rng.randrange(2, 6)
        step = rng.choice([0.5, 1.0, 1.5])
        if fine:            # elements down to some tens of meters
            step = rng.choice([.03, .002, 4e-4])
        lat0 = rng.choice([rng.uniform(-60, 55), -1.0, rng.uniform(40, 60)])
        self.squeeze = 1 / max(.3, math.cos(math.radians(
            lat0 + ny * step / 2)))
        self.dx, self.dy = step * self.squeeze, step
        lon0 = rng.choice([rng.uniform(-180, 180), 180 - nx * self.dx / 2,
                           -nx * self.dx / 2, 359.0 - self.dx])
        # not within centimeters of a vertex
        self.end = .02 if fine else 0
        self.nx, self.ny, self.lon0, self.lat0 = nx, ny, lon0, lat0
        self.lon, self.lat = [], []
        j = jitter
        for y in range(ny + 1):
            for x in range(nx + 1):
                self.lon.append(lon0 + self.dx * (x + rng.uniform(-j, j)))
                self.lat.append(lat0 + self.dy * (y + rng.uniform(-j, j)))
        wrap = rng.random()
        if wrap < .3:
            self.lon = [(v + 180) % 360 - 180 for v in self.lon]
        elif wrap < .5:
            self.lon = [v % 360 for v in self.lon]
        self.tri = []
        for y in range(ny):
            for x in range(nx):
                a = y * (nx + 1) + x
                b, c, d = a + 1, a + nx + 2, a + nx + 1
                if diag[y][x] if diag else rng.random() < .5:
                    t = [[a, b, c], [a, c, d]]
                else:
                    t = [[a, b, d], [b, c, d]]
                for k in t:
                    r = rng.randrange(3)
                    k = k[r:] + k[:r]
                    if rng.random() < .5:
                        k = k[::-1]
                    self.tri.append(k)
        rng.shuffle(self.tri)

    def corner(self, k, ref):
        """Longitude of vertex k unwrapped next to ref."""
        v = self.lon[k]
        return v + 360 * round((ref - v) / 360)

    def in_triangle(self, t=None, margin=.04):
        rng = self.rng
        t = rng.randrange(len(self.tri)) if t is None else t
        while True:
            a, b = rng.random(), rng.random()
            if a + b > 1:
                a, b = 1 - a, 1 - b
            if min(a, b, 1 - a - b) > margin:
                break
        i, j, k = self.tri[t]
        x = self.lon[i]
        y, z = self.corner(j, x), self.corner(k, x)
        lon = (1 - a - b) * x + a * y + b * z
        lat = (1 - a - b) * self.lat[i] + a * self.lat[j] + b * self.lat[k]
        if rng.random() < .3:
            lon += rng.choice([-360, 360])
        return lon, lat

    def on_edge(self):
        """On an edge that two triangles share."""
        rng = self.rng
        while True:
            t, u = rng.sample(self.tri, 2)
            both = [v for v in t if v in u]
            if len(both) == 2:
                break
        i, j = both
        a = rng.choice([.5, rng.uniform(self.end, 1 - self.end)])
        x = self.lon[i]
        y = self.corner(j, x)
        return (x + a * (y - x) + rng.choice([0, 0, -360, 360]),
                self.lat[i] + a * (self.lat[j] - self.lat[i]))

    def on_vertex(self):
        i = self.rng.randrange(len(self.lon))
        return (self.lon[i] + self.rng.choice([0, 0, -360, 360]),
                self.lat[i])

    def away(self):
        """Outside of the mesh, by more than the jitter."""
        rng = self.rng
        w, h = self.nx * self.dx, self.ny * self.dy
        d = rng.uniform(.3, 2)
        x = rng.uniform(0, w)
        y = rng.uniform(0, h)
        k = rng.randrange(4)
        if k == 0:
            x = -d * self.dx
        elif k == 1:
            x = w + d * self.dx
        elif k == 2:
            y = -d * self.dy
        else:
            y = h + d * self.dy
        return self.lon0 + x, self.lat0 + y


    def corner_of_box(self):
        """A vertex of the border, positions next to it, outside and in."""
        rng = self.rng
        nx, ny = self.nx, self.ny
        v, sx, sy = rng.choice([(0, -1, -1), (nx, 1, -1),
                                (ny * (nx + 1), -1, 1),
                                (ny * (nx + 1) + nx, 1, 1)])
        x, y = self.lon[v], self.lat[v]
        out = [(x, y)]
        for d in rng.sample([1e-7, 2e-6, 1e-5, 1e-4, 1e-3, .01, .1, .3], 3):
            out.append((x + sx * d * self.dx, y + sy * d * self.dy))
        ts = [i for i, t in enumerate(self.tri) if v in t]
        out.append(self.in_triangle(rng.choice(ts)))
        t = self.tri[rng.choice(ts)]
        w = rng.choice(t)
        out.append((self.lon[w], self.lat[w]))
        return out


class Lgp:
    """A finite element model."""

    def __init__(self, rng, n=None, prec=None, type_=None, maxd=None,
                 mesh=None):
        self.rng = rng
        self.n = n or rng.choice([1, 2])
        self.prec = prec or rng.choice('df')
        self.type = type_ or ('tide' if rng.random() < .8 else 'radial')
        self.maxd = rng.choice([0.0, 0.0, 1.0, 3e5, 3e5]) if maxd is None else maxd
        m = self.mesh = mesh or Mesh(rng)
        perm = list(range(len(m.lon)))
        rng.shuffle(perm)
        self.codes = []
        edges = {}
        nv = len(perm)
        for t in m.tri:
            row = []
            for k in range(3):
                row.append(perm[t[k]])
                if self.n == 2:
                    e = tuple(sorted((t[k], t[(k + 1) % 3])))
                    row.append(edges.setdefault(e, nv + len(edges)))
            self.codes += row
        self.perm = perm
        self.edges = edges
        self.size = nv + len(edges)

    def new(self):
        m = self.mesh
        flat = [i for t in m.tri for i in t]
        return cmd('lgp', self.n, self.prec, self.type, self.maxd,
                   len(m.lon), *m.lon, len(m.lat), *m.lat, len(flat), *flat,
                   len(self.codes), *self.codes)

    values = Cart.values
    add = Cart.add

    def inside(self):
        return self.mesh.in_triangle()

    def outside(self):
        return self.mesh.away()

    def point(self):
        return self.inside() if self.rng.random() < .75 else self.outside()

    def special(self):
        return self.mesh.corner_of_box()


def model(rng, **kw):
    return Cart(rng, **kw) if rng.random() < .55 else Lgp(rng, **kw)


def subset(rng, ids, p):
    return [i for i in ids if rng.random() < p]


def some_ids(rng, most=14):
    """Constituents of a model, the interesting ones over-represented."""
    ids = subset(rng, MAJORS, rng.choice([.3, .8, 1])) + \
        subset(rng, SHORT_ADMIT, rng.choice([0, .1, .3])) + \
        subset(rng, LPE, rng.choice([0, .2, .5])) + \
        subset(rng, LONG_OTHER, .2) + subset(rng, SHORT_OTHER, .06)
    rng.shuffle(ids)
    return ids[:most]


def batch(reqs):
    return [len(reqs)] + [v for r in reqs for v in r]
