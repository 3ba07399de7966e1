"""C24: the Python bindings.

The scenarios of the checks of the library, carried out through pyfes.core,
and judged by the same trace specifications.
"""
import glob
import math
import os

import c04
import c05
import c09
import c10
import c12
import c13
import c16
import tables
from common import cmd, epoch, FORMULAE
from fesv import REPO, VERIF
from front import PY, harness
from scen import Cart, MAJORS, batch, model, some_ids
from tables import ALL, NAMES, held, recase


def build(ctx):
    """The package of the working tree with its bindings."""
    so = ctx.build(
        'core.so', sorted(glob.glob(REPO + '/src/python/core/**/*.cpp',
                                    recursive=True)),
        flags=['-std=c++17', '-fPIC', '-shared',
               '-I' + VERIF + '/harness/pybind',
               '-I/usr/include/python3.12'])
    src = harness(ctx)[2]
    dest = os.path.join(src, 'core.so')
    if not os.path.exists(dest):
        os.link(so, dest)
    with open(os.path.join(src, 'version.py'), 'w') as f:
        f.write('__version__ = "0"\n')
    stubs = os.path.join(VERIF, 'harness', 'py')
    return lambda family: [PY, os.path.join(stubs, 'bind.py'), src, stubs,
                           family]


def clamp(e):
    """A date that a datetime holds and bindings accept."""
    return max(-2.1e9, min(2.1e9, e)) if e == e else e


def soon(rng):
    return clamp(epoch(rng))


# waves ----------------------------------------------------------------------

def waves(rng, k):
    out = [[cmd('static', i) for i in range(75)]]
    for i in range(40 * k):
        ses = [cmd('new', FORMULAE[i % 3])]
        for _ in range(rng.randrange(1, 4)):
            ses.append(cmd('upd', soon(rng), rng.choice([0, 10, 37, 255, 300, 65535])))
        for r in ('table', 'single'):
            ses.append(cmd('nodal', r))
        out.append(ses)
    return out


# tables ---------------------------------------------------------------------

def named(rng, slot, ids):
    if ids is None:
        return cmd('all', slot)
    ids = list(ids)
    rng.shuffle(ids)
    return cmd('names', slot, len(ids), *[recase(rng, NAMES[i]) for i in ids])


def dated(text):
    """The dates of a command within the range of a datetime."""
    w = text.split(' ')
    at = {'nodal': 3, 'lp': 2}.get(w[0])
    if w[0] == 'job' and w[1] == 'map':
        at = 4
    if at:
        w[at] = cmd(clamp(float(w[at])))
    return ' '.join(w)


def possible(ses):
    """The commands that the bindings have."""
    out = []
    for line in ses:
        w = line.split(' ')
        if w[0] in ('copy', 'assign', 'move', 'together', 'make'):
            continue
        if w[0] == 'admit' and w[1] != '0':
            continue
        if w[0] == 'ids':
            n = int(w[2])
            line = cmd('names', w[1], n, *[NAMES[int(i)] for i in w[3:]])
        if w[0] == 'lpnew' and len(w) > 1:
            out.append('lpnew')
            line = 'lpdis ' + w[1]
        out.append(dated(line))
    return out


def of_tables(rng, k):
    out = [['known']]
    text = ['m22', 'M2_', 'X', 'kM2', '2mk', 'mu', 'M2M2', '\x7f']
    for i in range(75):
        out.append([cmd('parse', ''.join('%02x' % ord(c) for c in x) or '-')
                    for x in (NAMES[i], recase(rng, NAMES[i]),
                              NAMES[i][:-1], NAMES[i] + rng.choice('12a'))])
    for _ in range(30 * k):
        ids = held(rng)
        ses = [named(rng, 0, ids)]
        ses += [cmd('find', 0, recase(rng, rng.choice(NAMES))),
                cmd('find', 0, rng.choice(text)), 'views 0']
        bad = [recase(rng, NAMES[i]) for i in ids or []] + [rng.choice(text)]
        ses.append(cmd('names', 1, len(bad), *bad))
        for i in rng.sample(ids or ALL, min(len(ids or ALL), 3)):
            ses.append(cmd('set', 0, i, tables.value(rng), tables.value(rng),
                           rng.random() < .5, rng.random() < .5))
        ses += ['dump 0', cmd('nodal', 0, rng.choice(FORMULAE), soon(rng),
                              rng.choice([0, 20, 37, 300]))]
        out.append(ses)
    for _ in range(60 * k):
        ids = held(rng)
        ses = [named(rng, 0, ids), 'dump 0']
        ses += [dated(tables.job(rng, 0, ids)) for _ in range(3)] + ['dump 0']
        out.append(ses)
    out += [possible(c04.session(rng)) for _ in range(25 * k)]
    out += [possible(c16.analyse(rng, False)) for _ in range(12 * k)]
    lpe = [[rng.sample(ALL, rng.randrange(0, 5)) for _ in range(2)]
           for _ in range(25 * k)]
    out += [possible(c05.from_model(rng, b)) for b in lpe]
    sel = []
    for _ in range(60 * k):
        d = math.exp(rng.uniform(math.log(3600), math.log(3e9)))
        sel.append(cmd('select', d, rng.choice([1.0, 2.0, 3.7]), 1))
        sel.append(cmd('select', d, 2.0, 0))
    out += [sel[i:i + 20] for i in range(0, len(sel), 20)]
    return out


# axes, meshes, models -------------------------------------------------------

def of_axes(rng, k):
    out = []
    for _ in range(60 * k):
        pts, circ = c09.good(rng)
        u = c09.unwrapped(pts) if circ else pts
        out.append([c09.build(0, pts, circ),
                    c09.lookups(rng, u, circ, 15), c09.at(rng, len(pts))])
    out += [[c09.build(0, *c09.spoiled(rng))] for _ in range(40 * k)]
    return out



def of_models(rng, k):
    out = [c10.randomised(rng) for _ in range(60 * k)]
    out += [c12.randomised(rng) for _ in range(60 * k)]
    for _ in range(40 * k):
        sc = c13.Scene(rng)
        ses = [c13.conf(rng)] + sc.new(1)
        ops = [('add', 1, 'm'), ('dyn', 1), ('save', 1), ('load', 1),
               ('add', 1, 'r'), ('clear', 1)]
        for op in [rng.choice(ops[:3])] + rng.sample(ops, 4):
            if op[0] == 'load' and not any(x.startswith('save') for x in ses):
                ses += sc.do(('save', 1))
            ses += sc.do(op)
            if op[0] != 'save':
                ses += sc.ask(1)
        if any(x.startswith('save') for x in ses) and rng.random() < .3:
            ses.append('cuts 5 0')
        out.append(ses)
    for _ in range(15 * k):     # by name; the wrong number of values
        m = model(rng)
        ses = ['slot 0 ' + m.new()]
        for i in rng.sample(ALL, 2):
            w = m.add(i).split(' ')
            ses.append(' '.join(['addname', '0', recase(rng, NAMES[i])] +
                                w[2:]))
            j = rng.choice(ALL)
            w = m.add(j).split(' ')
            n = int(w[2]) - rng.choice([1, -1])
            v = (w[3:] + ['1', '2'])[:2 * n]
            ses.append(' '.join(['add', '0', str(j), str(n)] + v))
        w = m.add(3).split(' ')
        ses.append(' '.join(['addname', '0', 'M22'] + w[2:]))
        out.append(ses)
    return out


# predictions ----------------------------------------------------------------

def predictions(rng, k):
    out = []
    for _ in range(50 * k):
        m = model(rng)
        ids = some_ids(rng, 16)
        ses = [m.new()]
        ses += [m.add(i, mask=rng.choice([0, 0, .1])) for i in ids]
        if rng.random() < .3:
            extra = [i for i in some_ids(rng, 4) if i not in ids]
            ses.append(cmd('dyn', len(extra), *extra))
        for _ in range(2):
            x = rng.sample(ids, min(len(ids), rng.choice([0, 0, 1, 3])))
            if rng.random() < .7:
                ses.append(cmd('cfg', rng.choice(FORMULAE), 0.0, len(x), *x))
            reqs = [[epoch(rng) if rng.random() > .05 else math.nan,
                     rng.choice([0, 10, 37, 300]), *m.point()] for _ in range(4)]
            ses.append(cmd('eval', rng.choice([0, 1, 2]), *batch(reqs)))
        out.append(ses)
    for _ in range(25 * k):
        m = Cart(rng)
        unit = rng.choice([900.0, 3600.0])
        t0 = soon(rng)
        n = rng.randrange(3, 7)
        reqs = [[t0 + rng.randrange(0, 6) * unit, rng.choice([20, 20, 21]),
                 *m.point()] for _ in range(n)]
        ses = [m.new()] + [m.add(i) for i in MAJORS]
        ses.append(cmd('cfg', rng.choice(FORMULAE),
                       rng.choice([0, 1, 2]) * unit, 0))
        ses.append(cmd('reqs', *batch(reqs)))
        idx = [rng.randrange(n) for _ in range(rng.randrange(2, 8))]
        ses.append(cmd('cross', len(idx), *idx))
        for t in (1, rng.choice([0, 2])):
            ses.append(cmd('batch', t, len(idx), *idx))
        out.append(ses)
    return out


# the bindings themselves ----------------------------------------------------

def itself(rng, k):
    cmds = ['enums']
    for f in FORMULAE + ['-']:
        for t in ('-', '0', '3600', '0.5'):
            cmds.append('settings %s %s' % (f, t))
            x = rng.sample(ALL, rng.choice([0, 1, 4]))
            cmds.append(cmd('settings', f, t, len(x), *x))
    arity = {'evaluate': 4, 'interpolate': 2, 'mods': 2, 'series': 3,
             'mapping': 2, 'analysis': 5, 'add': 1}
    for call, n in arity.items():
        for _ in range(10 * k):
            base = rng.randrange(0, 6)
            a = [base] * n
            if call == 'series':
                a[2] = 3
            if call == 'mapping':
                a[0] = 3
            if call == 'analysis':
                base = rng.randrange(2, 5)
                a = [20, base, 20, base, 20]
            if call == 'add':
                a = [12]
            for b in [a] + [a[:i] + [a[i] + d] + a[i + 1:]
                            for i in range(n) for d in (1, -1, 3)
                            if a[i] + d >= 0]:
                cmds.append(cmd('sizes', call, n, *b))
    for x in (0, 1, 37, 255, 32767, 32768, 65535, -1, 65536, 2 ** 31):
        cmds.append(cmd('leap', x))
    for call in ('evaluate', 'series', 'mods'):
        for u in ('as fs ps ns us ms s m h D W M Y >s int float').split():
            cmds.append(cmd('units', call, u))
    for _ in range(10 * k):
        a = rng.sample(ALL, rng.randrange(1, 5))
        b = a + rng.sample(ALL, 3)
        if rng.random() < .5:
            b.remove(rng.choice(a))
        b = list(dict.fromkeys(b))
        cmds.append(cmd('partial', len(a), *a, len(b), *b))
    cmds = list(dict.fromkeys(cmds))
    given = [[cmd('defaults', w, g) for g in (0, 1)]
             for w in ['Axis'] + [a + b for a in ('Cartesian', 'LGP1', 'LGP2')
                                  for b in ('Complex128', 'Complex64')]]
    return given + [cmds[i:i + 20] for i in range(0, len(cmds), 20)]


def check(ctx):
    rng = ctx.rng
    exe = build(ctx)
    k = 12 if ctx.thorough else 1
    parts = [('BindTrace', 'bind', itself(rng, k)),
             ('WavesTrace', 'waves', waves(rng, k)),
             ('TableTrace', 'table', of_tables(rng, k)),
             ('GeomTrace', 'geom', of_axes(rng, k) + of_models(rng, k)),
             ('PredictTrace', 'predict', predictions(rng, k))]

    def one(spec, family, ses):
        return lambda: ctx.validate(
            spec, ctx.run(exe(family), ses), name=family,
            replay=lambda s: ['# ' + family] + ses[s['id']])
    ctx.parallel(*[one(*p) for p in parts])
