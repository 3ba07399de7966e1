"""C13: a restored object behaves like the saved one."""
import hashlib
import json
import math
from c09 import build, good, lookups
from c10 import add, look, slot
from c11 import put, search
from common import cmd
from scen import Mesh, batch, eighth, model, some_ids


def digest(x):
    return hashlib.sha1(x.encode()).hexdigest()[:16]


SLOT = {'axis': 1, 'find': 1, 'mesh': 1, 'search': 1, 'slot': 1, 'add': 1,
        'addname': 1, 'dyn': 1, 'clear': 1, 'look': 1, 'eval': 1}
SHOWN = {'find': ('un', 'bo', 'fr'), 'search': ('r',), 'look': ('r',),
         'eval': ('r',)}


def annotate(recorded, sessions):
    """What each event does and shows, without the slot."""
    for s in recorded:
        s['memo'] = True
        conf = ''
        for e, c in zip(s['ev'], sessions[s['id']]):
            w = c.split(' ')
            if w[0] == 'cfg':
                conf = c
            if w[0] in SLOT:
                del w[1]
            if w[0] == 'eval':
                w[1] = conf     # instead of the threads
            e['key'] = digest(' '.join(w))
            if e['op'] in SHOWN:
                e['sum'] = digest(json.dumps([e[k] for k in SHOWN[e['op']]]))
    return recorded


class Scene:
    """A model with what is added to it and asked of it."""

    def __init__(self, rng):
        self.rng = rng
        self.m = m = model(rng)
        ids = some_ids(rng, 8)
        rng.shuffle(ids)
        self.first = ids[:rng.choice([0, 0, 2, 5])]
        while len(ids) < len(self.first) + 2:
            i = rng.randrange(75)
            if i not in ids:
                ids.append(i)
        left = ids[len(self.first):]
        self.ids = {'m': left[0], 'r': left[1]}
        mask = rng.choice([0, 0, .1])
        self.adds = {k: add(m.add(i, mask=mask))
                     for k, i in self.ids.items()}
        self.pts = [m.inside() for _ in range(4)] + [m.outside()]
        self.pts += rng.sample(m.special(), 4)
        self.dyn = [rng.choice(some_ids(rng, 3) or [26])
                    for _ in range(rng.choice([1, 1, 3]))]
        e0 = rng.uniform(-1e9, 1.5e9)
        self.reqs = [(e0 + rng.uniform(0, 1e7), rng.choice([0, 27, 37]), *p)
                     for p in self.pts]

    def new(self, k):
        """In slot k, with the initial constituents."""
        ses = ['slot %d %s' % (k, self.m.new())]
        rng = self.rng
        state = rng.getstate()
        rng.seed(7)
        ses += [self.at(k, add(self.m.add(i))) for i in self.first]
        rng.setstate(state)
        return ses

    @staticmethod
    def at(k, text):
        w = text.split(' ')
        w[1] = str(k)
        return ' '.join(w)

    def ask(self, k):
        out = [self.at(k, cmd('look', 0, 1, len(self.pts),
                              *[v for p in self.pts for v in p]))]
        out.append(cmd('eval', k, self.rng.choice([1, 2]),
                       *batch(self.reqs)))
        return out

    def do(self, op):
        k = op[1]
        if op[0] == 'add':
            return [self.at(k, self.adds[op[2]])]
        if op[0] == 'dyn':
            return [cmd('dyn', k, len(self.dyn), *self.dyn)]
        if op[0] == 'clear':
            return [cmd('clear', k)]
        if op[0] == 'save':
            return [cmd('save', 'model', k, 5)]
        return [cmd('load', 5, k, k)]


def conf(rng):
    return cmd('cfg', rng.choice(['schureman1', 'schureman2', 'schureman3',
                                  'meeus', 'iers']),
               rng.choice([0.0, 0.0, 3600.0]), 0)


def from_model(rng, hist):
    sc = Scene(rng)
    ses = [conf(rng)] + sc.new(1) + sc.new(2)
    for op in hist:
        ses += sc.do(op)
        for k in (1, 2):
            if op[0] != 'save':
                ses += sc.ask(k)
    return ses


def geometric(rng):
    """Axes and meshes, restored several times."""
    if rng.random() < .5:
        if rng.random() < .5:
            pts, circ = good(rng)
        else:       # across zero: the last value does not tell the step
            n, circ = rng.randrange(3, 400), False
            a, b = rng.uniform(-180, -1), rng.uniform(1, 180)
            pts = [a + i * (b - a) / (n - 1) for i in range(n)]
            pts = pts[::rng.choice([1, -1])]
        kind, make = 'axis', build(0, pts, circ)
        ask = lookups(rng, pts, circ, 8)
    else:
        m = Mesh(rng)
        kind, make = 'mesh', put(rng, m)
        pts = [m.in_triangle() for _ in range(5)] + \
            [m.on_vertex() for _ in range(2)] + [m.away() for _ in range(3)]
        ask = search(rng.choice([0.0, 1e5, 1e7]), pts)
    ses = [make, ask]
    for k in range(rng.choice([1, 2, 4])):
        ses += [cmd('save', kind, k, k), cmd('load', k, k, k + 1),
                Scene.at(k + 1, ask)]
    return ses


def kept(rng):
    """Many axes, restored once."""
    v = []
    for _ in range(100):
        a, b, n = rng.choice([
            (rng.uniform(0, 1), rng.uniform(1, 3), rng.randrange(3, 8)),
            (rng.uniform(-90, 0), rng.uniform(0, 90), rng.randrange(2, 1000)),
            (rng.uniform(0, 90), rng.uniform(-90, 0), rng.randrange(2, 1000)),
            (round(rng.uniform(-180, 0), 1), round(rng.uniform(1, 360), 1),
             rng.randrange(2, 4000))])
        v += [a, b, n]
    return [cmd('kept', len(v), *v)]


def check(ctx):
    rng = ctx.rng
    conf_ = ('INIT Init\nNEXT Next\nCONSTANTS Depth=%d Variant="%s"\n'
             'INVARIANT %s\n')
    exe, behs = ctx.parallel(
        lambda: ctx.build('geom', ['geom.cpp']),
        lambda: ctx.behaviours(ctx.model(
            'SerialModel', conf_ % (5 if ctx.thorough else 4, 'ok',
                                    'Same Emit'), workers='4', timeout=850)))
    if ctx.thorough:
        for v in ('alias', 'no dynamic'):
            ctx.refuted('SerialModel', conf_ % (5, v, 'Same'), 'Same')
    behs.sort(key=str)
    n = 3000 if ctx.thorough else 150
    sessions = [from_model(rng, b) for b in rng.sample(behs,
                                                       min(n, len(behs)))]
    sessions += [geometric(rng) for _ in range(4000 if ctx.thorough else 240)]
    sessions += [kept(rng) for _ in range(200 if ctx.thorough else 15)]
    ctx.validate('GeomTrace', annotate(ctx.run(exe, sessions), sessions),
                 name='restored', replay=lambda s: sessions[s['id']])
