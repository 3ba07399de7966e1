"""Drives the Python bindings (argv: the package, the stand-ins, what).

The commands and the events are those of the C++ drivers (waves.cpp,
table.cpp, geom.cpp, predict.cpp), carried out through pyfes.core: the trace
specifications of the library judge the bindings.
"""
import copy
import datetime
import json
import os
import pickle
import random
import struct
import sys
import traceback
import types

sys.path[:0] = [os.path.dirname(os.path.abspath(sys.argv[1])), sys.argv[2]]
if os.path.basename(sys.argv[1]) != 'pyfes':
    raise SystemExit('not the package')
import numpy as np      # noqa: E402
from pyfes import core  # noqa: E402

real_ = struct.Struct('>d')
two = struct.Struct('>ii')


def num(x):
    return list(two.unpack(real_.pack(x)))


def nums(x):
    return [num(v) for v in x]


def cnum(z):
    return [num(z.real), num(z.imag)]


def cnums(x):
    return [cnum(complex(v)) for v in x]


def emit(op, **e):
    out = {'op': op}
    out.update(e)
    print('E ' + json.dumps(out))


KIND = {ValueError: 'invalid_argument', IndexError: 'out_of_range',
        RuntimeError: 'runtime_error', MemoryError: 'bad_alloc'}


def kind(err):
    return KIND.get(type(err), type(err).__name__)


def attempt(f):
    try:
        f()
    except Exception as err:
        return kind(err)
    return ''


class Cmd:
    def __init__(self, line):
        self.t = line.split(' ')
        self.op = self.t[0]
        self.p = 1

    def str(self):
        self.p += 1
        return self.t[self.p - 1]

    def more(self):
        return self.p < len(self.t)

    def i(self):
        return int(self.str())

    def d(self):
        return float(self.str())

    def ds(self):
        return [self.d() for _ in range(self.i())]

    def ints(self):
        return [self.i() for _ in range(self.i())]

    def ss(self):
        return [self.str() for _ in range(self.i())]

    def cs(self, n=None):
        return [complex(self.d(), self.d())
                for _ in range(self.i() if n is None else n)]


FORMULAE = {'schureman1': core.Formulae.kSchuremanOrder1,
            'schureman3': core.Formulae.kSchuremanOrder3}
CONSTITUENTS = [core.constituents.parse(n) for n in (
    'Mm,Mf,Mtm,Msqm,2Q1,Sigma1,Q1,Rho1,O1,MP1,M11,M12,M13,Chi1,Pi1,P1,S1,K1,'
    'Psi1,Phi1,Theta1,J1,OO1,MNS2,Eps2,2N2,Mu2,2MS2,N2,Nu2,M2,MKS2,Lambda2,'
    'L2,2MN2,T2,S2,R2,K2,MSN2,Eta2,2SM2,MO3,2MK3,M3,MK3,N4,MN4,M4,SN4,MS4,'
    'MK4,S4,SK4,R4,2MN6,M6,MSN6,2MS6,2MK6,2SM6,MSK6,S6,M8,MSf,Ssa,Sa,Sa1,Sta,'
    'Mm1,Mf1,A5,M0,Mm2,Mf2').split(',')]


def formulae(s):
    return FORMULAE.get(s, core.Formulae.kMeeus)


def ident(c):
    return int(c)


def ids(cs):
    return [int(c) for c in cs]


RNG = random.Random(0)


def default(name, value, usual, kw):
    """An argument equal to its documented default may be left out."""
    if value != usual or RNG.random() < .5:
        kw[name] = value
    return kw


# Dates -----------------------------------------------------------------------

EPOCH = datetime.datetime(1970, 1, 1)


def micro(e):
    """The instant used for the epoch e, and the date 64."""
    if e != e:
        return e, np.datetime64('NaT', 'us')
    us = round(e * 1e6)
    return us / 1e6, np.datetime64(us, 'us')


def one_date(e):
    us = round(max(-6.2e10, min(e, 2.5e11)) * 1e6)
    return us / 1e6, EPOCH + datetime.timedelta(microseconds=us)


def many_dates(es):
    p = [micro(e) for e in es]
    a = np.array([x[1] for x in p], dtype='datetime64[us]')
    if RNG.random() < .3 and all(x[0] == int(x[0]) for x in p if x[0] == x[0]):
        a = a.astype('datetime64[s]')
    return [x[0] for x in p], arr(a)


def arr(a):
    """The same values, laid out in one way or another."""
    k = RNG.random()
    if k < .7 or a.size == 0:
        return a
    if a.ndim == 1:
        if k < .85:
            b = np.zeros(2 * len(a), a.dtype)
            b[::2] = a
            return b[::2]
        return a[::-1].copy()[::-1]
    return np.asfortranarray(a) if k < .85 else np.ascontiguousarray(a)


def vec(x, dtype='float64'):
    return arr(np.array(x, dtype=dtype))


def leaps(x):
    return arr(np.array(x, dtype='uint16'))


class State:
    pass


S = State()


def reset():
    S.a = S.f = None
    S.tables = {}
    S.lpe = None
    S.axes, S.meshes, S.objs, S.saved, S.specs = {}, {}, {}, {}, {}
    S.cfg = ('schureman1', 0.0, [])
    S.current = None
    S.reqs = []


# waves.cpp -------------------------------------------------------------------

NAMES13 = [('t', 't'), ('n', 'n'), ('h', 'h'), ('s', 's'), ('p1', 'p1'),
           ('p', 'p'), ('i', 'i'), ('xi', 'xi'), ('nu', 'nu'),
           ('x1ra', 'x1ra'), ('r', 'r'), ('nup', 'nuprim'), ('nus', 'nusec')]


def rec(a):
    return {k: num(getattr(a, g)) for k, g in NAMES13}


def angle(f, e=None, l=0):
    a = core.AstronomicAngle() if f == 'schureman1' and RNG.random() < .5 \
        else core.AstronomicAngle(formulae(f))
    if e is not None:
        a.update(e, l)
    return a


def nodal(op, route, waves):
    # vu() is v + u at once
    emit(op, route=route, a=rec(S.a), v=nums(w.v() for w in waves),
         u=nums(w.u for w in waves), f=nums(w.f for w in waves),
         vu=nums(w.vu() for w in waves))


def waves_new(c):
    S.f = c.str()
    S.a = angle(S.f)
    emit('new', formulae=S.f, ok=True)


def waves_upd(c):
    e, d = one_date(c.d())
    leap = c.i()
    S.a.update(d, leap)
    emit('upd', epoch=num(e), leap=leap, a=rec(S.a),
         b=rec(angle(S.f, d, leap)))


def waves_nodal(c):
    route = c.str()
    t = core.WaveTable()
    waves = [t[x] for x in CONSTITUENTS]
    if route == 'table':
        t.compute_nodal_corrections(S.a)
    else:
        for w in waves:
            w.nodal_g(S.a)
            w.nodal_a(S.a)
    nodal('nodal', route, waves)


def waves_static(c):
    i = c.i()
    w = core.WaveTable()[CONSTITUENTS[i]]
    emit('static', id=i, ident=ident(w.ident), name=w.name(),
         long=w.type == core.Wave.TidalType.kLongPeriod,
         admit=w.admittance, dynamic=w.dynamic, freq=num(w.freq),
         period=num(w.period()), doodson=w.doodson_number())


# table.cpp -------------------------------------------------------------------

def id_of(w):
    return -1 if w is None else ident(w.ident)


def safe(f):
    try:
        return f()
    except Exception as err:
        return -1 if isinstance(err, IndexError) else -4


def views(op, slot, **more):
    t = S.tables[slot]
    values = t.values()
    it = list(iter(t))
    emit(op, slot=slot, size=len(t), names=list(t.keys()),
         index=[id_of(w) for w in values], iter=[id_of(w) for w in it],
         miter=[id_of(w) for w in iter(t)],
         iternames=[w.name() for w in it],
         byid=[safe(lambda: id_of(t[x])) for x in CONSTITUENTS],
         found=[id_of(t.find(core.constituents.name(x)))
                for x in CONSTITUENTS],
         beyond='out_of_range', **more)


def dump(slot):
    w = S.tables[slot].values()
    emit('dump', slot=slot, ids=[ident(x.ident) for x in w],
         adm=[int(x.admittance) for x in w], dyn=[int(x.dynamic) for x in w],
         tide=cnums(x.tide for x in w), f=nums(x.f for x in w),
         v=nums(x.v() for x in w), u=nums(x.u for x in w))


def table_known(c):
    k = list(core.constituents.known())
    p = [core.constituents.parse(n) for n in k]
    emit('known', names=k, ids=ids(p),
         back=[core.constituents.name(x) for x in p])


def table_parse(c):
    h = c.str()
    s = '' if h == '-' else bytes.fromhex(h).decode('ascii')
    i, r = -1, ''
    try:
        i = ident(core.constituents.parse(s))
    except Exception as err:
        r = kind(err)
    emit('parse', text=s, id=i, raised=r)


def table_names(c):
    slot = c.i()
    n = c.ss()

    def build():
        S.tables[slot] = core.WaveTable(n) if n or RNG.random() < .5 \
            else core.WaveTable()
    r = attempt(build)
    if r:
        emit('refused', asked=n, raised=r)
    else:
        views('table', slot, asked=n)


def table_all(c):
    slot = c.i()
    S.tables[slot] = core.WaveTable()
    views('table', slot, askedids=[])


def table_views(c):
    views('views', c.i())


def table_find(c):
    slot, n = c.i(), c.str()
    i, r = -2, ''
    try:
        i = id_of(S.tables[slot].find(n))
    except Exception as err:
        r = kind(err)
    emit('find', slot=slot, text=n, id=i, raised=r)


def table_set(c):
    slot, i = c.i(), c.i()
    t = S.tables[slot]
    w = t[CONSTITUENTS[i]]
    if RNG.random() < .5:
        w = t.find(core.constituents.name(CONSTITUENTS[i]))
    v = c.cs(1)[0]
    adm, dyn = bool(c.i()), bool(c.i())
    w.tide = v
    w.admittance = adm
    w.dynamic = dyn
    emit('set', slot=slot, id=i, v=cnum(v), adm=adm, dyn=dyn)


def table_admit(c):
    slot = c.i()
    S.tables[slot].admittance()
    emit('admit', slot=slot)
    dump(slot)


def table_nodal(c):
    slot, f = c.i(), c.str()
    e, d = one_date(c.d())
    l = c.i()
    S.tables[slot].compute_nodal_corrections(angle(f, d, l))
    emit('nodal', slot=slot, f=f, e=num(e), l=l)
    dump(slot)


def table_dump(c):
    dump(c.i())


def read_dates(c):
    n = c.i()
    e, l = [], []
    for _ in range(n):
        e.append(c.d())
        l.append(c.i())
    e, a = many_dates(e)
    return a, leaps(l), [{'e': num(x), 'l': y} for x, y in zip(e, l)]


def matrix(m):
    return [nums(r) for r in m]


def by_default(f):
    kw = {}
    if f != 'schureman3' or RNG.random() < .5:
        kw['formulae'] = formulae(f)
    return kw


def table_job(c):
    what, slot, f = c.str(), c.i(), c.str()
    t = S.tables[slot]
    kw = by_default(f)
    if what == 'series':
        d, l, told = read_dates(c)
        w = c.cs()
        h = t.tide_from_tide_series(d, l, vec(w, 'complex128'), **kw)
        emit('series', slot=slot, f=f, dates=told, wave=cnums(w), h=nums(h))
    elif what == 'map':
        e, d = one_date(c.d())
        l, threads, layout = c.i(), c.i(), c.i()
        nrow, ncol = c.i(), c.i()
        w = c.cs(nrow * ncol)
        x = np.array(w, dtype='complex128').reshape((ncol, nrow)).T
        if layout == 0:
            x = np.ascontiguousarray(x)
        elif layout == 2:
            y = np.full((2 * nrow + 1, ncol + 2), 7e7 - 7e7j)
            y[:2 * nrow:2, 1:-1] = x
            x = y[:2 * nrow:2, 1:-1]
        default('num_threads', threads, 0, kw)
        r = t.tide_from_mapping(d, l, x, **kw)
        emit('map', slot=slot, f=f, e=num(e), l=l, threads=threads, cols=ncol,
             wave=cnums(w), m=matrix(r), nr=r.shape[0], nc=r.shape[1])
    else:
        d, l, told = read_dates(c)
        nf, nvu = t.compute_nodal_modulations(d, l, **kw)
        emit('mods', slot=slot, f=f, dates=told, nf=matrix(nf),
             nvu=matrix(nvu))


def table_analyse(c):
    slot, f = c.i(), c.str()
    d, l, _ = read_dates(c)
    order = c.ints()
    layout = c.i()
    t = S.tables[slot]
    nf, nvu = t.compute_nodal_modulations(d, l, formulae(f))
    nf, nvu = nf[order, :], nvu[order, :]
    waves = t.values()
    truth = np.array(c.cs(len(order)))
    noise = c.ds()
    h = (nf * (truth.real[:, None] * np.cos(nvu) +
               truth.imag[:, None] * np.sin(nvu))).sum(axis=0)
    if noise:
        h = h + np.resize(np.array(noise), h.shape)
    order_ = 'F' if layout else 'C'
    w = core.WaveTable.harmonic_analysis(
        arr(h), np.array(nf, order=order_), np.array(nvu, order=order_))
    emit('analyse', ids=[ident(waves[i].ident) for i in order],
         truth=cnums(truth), exact=not noise, h=nums(h), f=matrix(nf),
         vu=matrix(nvu), w=cnums(w))


def table_select(c):
    d, f, given = c.d(), c.d(), c.i()
    a = core.WaveTable.select_waves_for_analysis(d, f) if given else \
        core.WaveTable.select_waves_for_analysis(d)
    emit('select', d=num(d), f=num(f if given else 2.0), names=list(a))


def table_lpnew(c):
    S.lpe = core.LongPeriodEquilibrium()
    emit('lpnew', slot=-1)


def table_lpdis(c):
    slot = c.i()
    S.lpe.disable_dynamic_wave(S.tables[slot])
    emit('lpdis', slot=slot)


def table_lp(c):
    f = c.str()
    e, d = one_date(c.d())
    l = c.i()
    lats = c.ds()
    a = angle(f, d, l)
    emit('lp', f=f, e=num(e), l=l, lat=nums(lats),
         r=nums(S.lpe.lpe_minus_n_waves(a, x) for x in lats))


# geom.cpp --------------------------------------------------------------------

def build_axis(p, circ, eps=1e-6):
    kw = {}
    default('epsilon', eps, 1e-6, kw)
    default('is_circular', bool(circ), False, kw)
    return core.Axis(vec(p), **kw)


def axis_json(a):
    n = len(a)
    return {'op': 'axis', 'n': n, 'start': num(a.start if n else 0),
            'step': num(a.step), 'end': num(a.end() if n else 0),
            'min': num(a.min_value() if n else 0),
            'max': num(a.max_value() if n else 0), 'asc': a.is_ascending,
            'circ': a.is_circular}


def index_json(m):
    t = m.triangles()
    return {'op': 'index', 'np': len(m.lon()), 'nt': len(t),
            'lon': nums(m.lon()), 'lat': nums(m.lat()),
            'tri': [[int(v) for v in r] for r in t]}


def geom_axis(c):
    k = c.i()
    p = c.ds()
    circ = bool(c.i())
    eps = c.d()

    def build():
        S.axes[k] = build_axis(p, circ, eps)
    r = attempt(build)
    e = dict(slot=k, pts=nums(p), circ=circ, eps=num(eps), raised=r)
    if not r:
        e['is'] = axis_json(S.axes[k])
        if not (S.axes[k] == build_axis(p, circ, eps)):
            e['is']['n'] = -7
    emit('axis', **e)


def geom_find(c):
    k = c.i()
    x = c.ds()
    a = S.axes[k]
    un, bo, fr = [], [], []
    for v in x:
        un.append(a.find_index(v, False))
        bo.append(a.find_index(v) if RNG.random() < .5
                  else a.find_index(v, bounded=True))
        f = a.find_indices(v)
        fr.append([] if f is None else [int(i) for i in f])
    emit('find', slot=k, x=nums(x), un=un, bo=bo, fr=fr)


def geom_at(c):
    k = c.i()
    v, raised = [], []
    i = c.ints()
    for j in i:
        y = 0.0
        r = ''
        try:
            y = S.axes[k][j]
        except Exception as err:
            r = kind(err)
        v.append(num(y))
        raised.append(r)
    emit('at', slot=k, i=i, v=v, raised=raised)


def build_mesh(lon, lat, tri):
    return core.mesh.Index(vec(lon), vec(lat),
                           arr(np.array(tri, dtype='int32').reshape((-1, 3))))


def geom_mesh(c):
    k = c.i()
    lon, lat, tri = c.ds(), c.ds(), c.ints()

    def build():
        S.meshes[k] = build_mesh(lon, lat, tri)
    r = attempt(build)
    e = dict(slot=k, lon=nums(lon), lat=nums(lat), tri=tri, raised=r)
    if not r:
        e['is'] = index_json(S.meshes[k])
    emit('mesh', **e)


TYPES = {'tide': core.TideType.kTide, 'radial': core.TideType.kRadial}


class Spec:
    def __init__(self, c):
        self.op = c.op
        if c.op == 'cart':
            self.p, self.type = c.str(), c.str()
            self.major = bool(c.i())
            self.lon = c.ds()
            self.circ = bool(c.i())
            self.lat = c.ds()
        else:
            self.n = c.i()
            self.p, self.type = c.str(), c.str()
            self.maxd = c.d()
            self.lon, self.lat = c.ds(), c.ds()
            self.tri, self.codes = c.ints(), c.ints()

    def build(self):
        suffix = 'Complex128' if self.p == 'd' else 'Complex64'
        kw = {}
        if self.type != 'tide' or RNG.random() < .5:
            kw['tide_type'] = TYPES[self.type]
        m = core.tidal_model
        if self.op == 'cart':
            default('longitude_major', self.major, True, kw)
            return getattr(m, 'Cartesian' + suffix)(
                build_axis(self.lon, self.circ), build_axis(self.lat, False),
                **kw)
        default('max_distance', self.maxd, 0, kw)
        codes = np.array(self.codes, dtype='int32').reshape(
            (-1, 3 * self.n))
        return getattr(m, 'LGP%d%s' % (self.n, suffix))(
            build_mesh(self.lon, self.lat, self.tri), arr(codes), **kw)

    def event(self):
        e = dict(p=self.p, type=self.type, lon=nums(self.lon),
                 lat=nums(self.lat))
        if self.op == 'cart':
            e.update(major=self.major, circ=self.circ)
        else:
            e.update(n=self.n, maxd=num(self.maxd), tri=self.tri,
                     codes=self.codes)
        return e


def data(m, v):
    return vec(v, 'complex64' if type(m).__name__.endswith('64')
               else 'complex128')


def type_name(m):
    return {core.TideType.kTide: 'tide',
            core.TideType.kRadial: 'radial'}.get(m.tide_type, '?')


def state_of(k):
    m = S.objs[k]
    cart = type(m).__name__.startswith('Cart')
    return {'op': 'is', 'type': type_name(m), 'ids': ids(m.identifiers()),
            'dyn': ids(m.dynamic), 'empty': not bool(m), 'size': len(m),
            'desc': {'lon': axis_json(m.lon()), 'lat': axis_json(m.lat())}
            if cart else index_json(m.index())}


def geom_slot(c):
    k = c.i()
    s = Spec(Cmd(' '.join(c.t[2:])))

    def build():
        S.objs[k] = s.build()
        S.specs[k] = s
    r = attempt(build)
    e = dict(s.event(), slot=k, raised=r)
    if not r:
        e['is'] = state_of(k)
    emit(s.op, **e)


def geom_add(c):
    k = c.i()
    who = c.str()
    v = c.cs()
    i = int(who)
    m = S.objs[k]
    name = core.constituents.name(CONSTITUENTS[i]) if 0 <= i < 75 else 'none'
    r = attempt(lambda: m.add_constituent(name, data(m, v)))
    emit('add', slot=k, v=cnums(v), raised=r, id=i, **{'is': state_of(k)})


def geom_addname(c):
    k = c.i()
    who = c.str()
    v = c.cs()
    m = S.objs[k]
    r = attempt(lambda: m.add_constituent(who, data(m, v)))
    emit('addname', slot=k, v=cnums(v), raised=r, name=who,
         **{'is': state_of(k)})


def geom_dyn(c):
    k = c.i()
    i = c.ints()
    S.objs[k].dynamic = [CONSTITUENTS[x] for x in i]
    emit('dyn', slot=k, ids=i, **{'is': state_of(k)})


def geom_clear(c):
    k = c.i()
    S.objs[k].clear()
    emit('clear', slot=k, **{'is': state_of(k)})


def seen(m, xs, ys, threads):
    """What a model holds at positions."""
    kw = default('num_threads', threads, 0, {})
    values, q = m.interpolate(vec(xs), vec(ys), **kw)
    keys = sorted(values, key=ident)
    return [dict(x=num(x), y=num(y), q=int(q[i]), ids=ids(keys),
                 v=[cnum(complex(values[z][i])) for z in keys])
            for i, (x, y) in enumerate(zip(xs, ys))]


def filled(m, x, y):
    """What a table holds after the interpolation at a position."""
    t = core.WaveTable()
    mark = complex(-3e33, 3e33)
    for w in t.values():
        w.tide = mark
    q = m.interpolate(x, y, t)
    return dict(q=ident(q), tide=cnums(w.tide for w in t.values()),
                mark=cnum(mark))


def geom_look(c):
    k = c.i()
    one = bool(c.i())
    pts = [(c.d(), c.d()) for _ in range(c.i())]
    m = S.objs[k]
    r = seen(m, [p[0] for p in pts], [p[1] for p in pts], 1 if one else 0)
    for s, p in zip(r, pts):
        s['table'] = filled(m, *p)
    emit('look', slot=k, one=one, batch=True, r=r)


def geom_cfg(c):
    S.cfg = (c.str(), c.d(), c.ints())
    f, tol, x = S.cfg
    emit('cfg', f=f, tol=num(tol), excluded=x)


def settings(cfg, kw):
    f, tol, x = cfg
    if (f, tol, x) == ('schureman1', 0.0, []) and RNG.random() < .4:
        if RNG.random() < .5:
            kw['settings'] = None
        return kw
    a = {}
    if f != 'schureman1' or RNG.random() < .5:
        a['astronomic_formulae'] = formulae(f)
    default('time_tolerance', tol, 0.0, a)
    if x or RNG.random() < .5:
        a['excluded'] = [CONSTITUENTS[i] for i in x]
        if not x and RNG.random() < .5:
            a['excluded'] = None
    kw['settings'] = core.Settings(**a)
    return kw


def evaluate(m, reqs, cfg, threads):
    kw = settings(cfg, {})
    default('num_threads', threads, 0, kw)
    _, d = many_dates([r[0] for r in reqs])
    h, lp, q = core.evaluate_tide(m, d, leaps([r[1] for r in reqs]),
                                  vec([r[2] for r in reqs]),
                                  vec([r[3] for r in reqs]), **kw)
    return dict(h=nums(h), lp=nums(lp), q=[int(x) for x in q])


def read_batch(c):
    out = []
    for _ in range(c.i()):
        e = c.d()
        out.append((micro(e)[0], c.i(), c.d(), c.d()))
    return out


def told(reqs):
    return [dict(e=num(r[0]), l=r[1], x=num(r[2]), y=num(r[3])) for r in reqs]


def geom_eval(c):
    k, threads = c.i(), c.i()
    reqs = read_batch(c)
    emit('eval', slot=k, reqs=told(reqs),
         r=evaluate(S.objs[k], reqs, S.cfg, threads))


def geom_save(c):
    kind_, k, to = c.str(), c.i(), c.i()
    S.saved[to] = (kind_, S.objs[k])
    S.saved[to] = (kind_, pickle.dumps(S.objs[k], RNG.choice([2, 3, 4, 5])),
                   S.objs[k].__getstate__(), type(S.objs[k]))
    emit('save', kind=kind_, slot=k, to=to)


def geom_load(c):
    """By pickle, or from the state; of another object, of this one."""
    frm, like, k = c.i(), c.i(), c.i()
    kind_, text, state, cls = S.saved[frm]
    if RNG.random() < .5:
        S.objs[k] = pickle.loads(text)
    else:
        o = cls.__new__(cls)
        o.__setstate__(state)
        S.objs[k] = o
    emit('load', kind=kind_, slot=k, **{'from': frm, 'is': state_of(k)})


def geom_cuts(c):
    frm, _ = c.i(), c.i()
    kind_, text, state, cls = S.saved[frm]
    ok, kinds = [], set()
    for n in range(len(state)):
        o = cls.__new__(cls)
        r = attempt(lambda: o.__setstate__(state[:n]))
        if r:
            kinds.add(r)
        else:
            ok.append(n)
    emit('cuts', kind=kind_, size=len(state), ok=ok, kinds=sorted(kinds),
         **{'from': frm})


# predict.cpp -----------------------------------------------------------------

def predict_cart(c):
    S.spec = Spec(c)
    S.current = S.spec.build()
    S.added = []
    emit('new', kind=c.op, type=type_name(S.current))


predict_lgp = predict_cart
predict_cfg = geom_cfg


def predict_add(c):
    i = c.i()
    v = c.cs()
    S.current.add_constituent(core.constituents.name(CONSTITUENTS[i]),
                              data(S.current, v))
    emit('add', id=i, const=all(x == v[0] for x in v), v0=cnum(v[0]))


def predict_dyn(c):
    i = c.ints()
    S.current.dynamic = [CONSTITUENTS[x] for x in i]
    emit('dyn', ids=i)


def predict_clear(c):
    S.current.clear()
    emit('clear')


def predict_eval(c):
    threads = c.i()
    reqs = read_batch(c)
    r = evaluate(S.current, reqs, S.cfg, threads)
    s = seen(S.current, [q[2] for q in reqs], [q[3] for q in reqs], 1)
    emit('eval', reqs=told(reqs), seen=s, r=r)


def predict_reqs(c):
    S.reqs = read_batch(c)
    r = dict(h=[], lp=[], q=[])
    for q in S.reqs:
        m = pickle.loads(pickle.dumps(S.current))
        for k, v in evaluate(m, [q], S.cfg, 1).items():
            r[k] += v
    emit('reqs', reqs=told(S.reqs), r=r)


def predict_batch(c):
    threads = c.i()
    idx = c.ints()
    emit('batch', threads=threads, idx=idx,
         r=evaluate(S.current, [S.reqs[i] for i in idx], S.cfg, threads))


def predict_cross(c):
    idx = c.ints()
    h, lp = [], []
    cfg = (S.cfg[0], 0.0, S.cfg[2])
    for k in idx:
        r = [evaluate(S.current, [(S.reqs[j][0], S.reqs[j][1]) +
                                  S.reqs[k][2:]], cfg, 1) for j in idx]
        h.append([x['h'][0] for x in r])
        lp.append([x['lp'][0] for x in r])
    emit('cross', idx=idx, h=h, lp=lp)


# What the bindings alone have ------------------------------------------------

def bind_enums(c):
    def members(e):
        return {k: int(v) for k, v in e.__members__.items()}
    out = {'Constituent': core.Constituent, 'Quality': core.Quality,
           'TideType': core.TideType, 'Formulae': core.Formulae,
           'TidalType': core.Wave.TidalType}
    exported = {}
    for e in ('Constituent', 'Quality', 'TideType', 'Formulae'):
        exported[e] = all(getattr(core, k, None) == v
                          for k, v in out[e].__members__.items())
    emit('enums', exported=exported,
         **{k: members(v) for k, v in out.items()})


def bind_settings(c):
    """settings <formulae|-> <tol|-> <excluded|->"""
    f, tol = c.str(), c.str()
    kw = {}
    if f != '-':
        kw['astronomic_formulae'] = formulae(f)
    if tol != '-':
        kw['time_tolerance'] = float(tol)
    x = None
    if c.more():
        x = c.ints()
        kw['excluded'] = [CONSTITUENTS[i] for i in x]
    s = core.Settings(**kw)
    emit('settings', f=f, tol=num(float(tol) if tol != '-' else 0),
         excluded=x or [],
         gf={v: k for k, v in
             [('schureman1', core.Formulae.kSchuremanOrder1),
              ('schureman3', core.Formulae.kSchuremanOrder3),
              ('meeus', core.Formulae.kMeeus)]}[s.astronomic_formulae],
         gtol=num(s.time_tolerance), gx=ids(s.excluded))


def bind_sizes(c):
    """sizes <call> <sizes>: arguments of these sizes"""
    call = c.str()
    n = c.ints()
    t = core.WaveTable(['M2', 'S2', 'K1'])
    m = core.tidal_model.CartesianComplex128(
        core.Axis(np.arange(4) * 1.0), core.Axis(np.arange(3) * 1.0))
    m.add_constituent('M2', np.ones(12, dtype='complex128'))

    def date(k):
        return (np.datetime64('2000-01-01', 'us') + np.arange(k))

    got = []

    def run():
        if call == 'evaluate':
            r = core.evaluate_tide(m, date(n[0]), leaps([22] * n[1]),
                                   vec([1.5] * n[2]), vec([1.] * n[3]))
            got.extend(len(x) for x in r)
        elif call == 'interpolate':
            v, q = m.interpolate(vec([1.5] * n[0]), vec([1.] * n[1]))
            got.extend([len(q)] + [len(x) for x in v.values()])
        elif call == 'series':
            r = t.tide_from_tide_series(date(n[0]), leaps([22] * n[1]),
                                        vec([1 + 1j] * n[2], 'complex128'))
            got.append(len(r))
        elif call == 'mods':
            for r in t.compute_nodal_modulations(date(n[0]),
                                                 leaps([22] * n[1])):
                got.extend(r.shape)
        elif call == 'mapping':
            r = t.tide_from_mapping(datetime.datetime(2000, 1, 1), 22,
                                    np.ones((n[0], n[1]), 'complex128'))
            got.append(r.size)
        elif call == 'analysis':
            w = core.WaveTable.harmonic_analysis(
                vec([1.] * n[0]), np.ones((n[1], n[2])),
                np.ones((n[3], n[4])))
            got.append(len(w))
        elif call == 'add':
            m.clear()
            m.add_constituent('M2', np.ones(n[0], dtype='complex128'))
            got.append(len(m))
    r = attempt(run)
    emit('sizes', call=call, n=n, raised=r, got=got)


def bind_units(c):
    """units <call> <unit>: a date, by this unit and by microseconds"""
    call, unit = c.str(), c.str()
    t = core.WaveTable(['M2', 'S2', 'K1'])
    m = core.tidal_model.CartesianComplex128(
        core.Axis(np.arange(4) * 1.0), core.Axis(np.arange(3) * 1.0))
    m.add_constituent('M2', np.ones(12, dtype='complex128'))

    def run(u, fine):
        n = 5 if fine else 10956 * 86400
        d = np.array([n], 'datetime64[s]')
        d = np.array([n * 10 ** 18]).view('datetime64[as]') if u == 'as' \
            else d.astype('datetime64[%s]' % u)
        if unit == '>s':
            d = d if u == 'us' else d.astype('>M8[s]')
        elif unit == 'int':
            d = d if u == 'us' else d.astype('int64')
        elif unit == 'float':
            d = d if u == 'us' else d.astype('int64').astype('float64')
        if call == 'evaluate':
            r = core.evaluate_tide(m, d, leaps([22]), vec([1.5]), vec([1.]))
        elif call == 'series':
            r = [t.tide_from_tide_series(d, leaps([22]),
                                         vec([1 + 1j] * 3, 'complex128'))]
        else:
            r = t.compute_nodal_modulations(d, leaps([22]))
        return [x.tobytes() for x in r]
    got = []
    u = {'>s': 's', 'int': 's', 'float': 's'}.get(unit, unit)
    fine = unit in ('as', 'fs', 'ps')
    r = attempt(lambda: got.append(run(u, fine)))
    emit('units', call=call, unit=unit, raised=r,
         same=not r and got[0] == run('us', fine))


def bind_partial(c):
    """partial <ids of a model> <ids of a table>"""
    a, b = c.ints(), c.ints()
    m = core.tidal_model.CartesianComplex64(
        core.Axis(np.arange(4) * 1.0), core.Axis(np.arange(3) * 1.0))
    for i in a:
        m.add_constituent(core.constituents.name(CONSTITUENTS[i]),
                          np.ones(12, dtype='complex64'))
    t = core.WaveTable([core.constituents.name(CONSTITUENTS[i]) for i in b])
    r = attempt(lambda: m.interpolate(1.5, 1.5, t))
    emit('partial', model=a, table=b, raised=r)


def bind_leap(c):
    """leap <n>: accepted as a count of leap seconds of an angle"""
    n = c.i()
    a = core.AstronomicAngle()
    r = attempt(lambda: a.update(EPOCH, n))
    emit('leap', n=n, raised=r)


def bind_defaults(c):
    """defaults <class> <given>: an object built with its optional arguments
    or without them"""
    what, given = c.str(), c.i()
    lon = core.Axis(np.arange(4) * 1.0)
    lat = core.Axis(np.arange(3) * 1.0)
    mesh = build_mesh([0, 1, 1, 0], [0, 0, 1, 1], [0, 1, 2, 0, 2, 3])
    codes = np.arange(12, dtype='int32').reshape((2, 6)) \
        if 'LGP2' in what else np.arange(6, dtype='int32').reshape((2, 3))
    cls = getattr(core, what, None) or getattr(core.tidal_model, what)
    kind = core.TideType.kTide
    if what == 'Axis':
        x = cls(np.arange(4) * 90.0, epsilon=1e-6, is_circular=False) \
            if given else cls(np.arange(4) * 90.0)
        # a circle for an epsilon of 1e-6, neither 1e-5 nor 1e-7
        y = [cls(np.arange(4) * h, is_circular=True,
                 **({'epsilon': 1e-6} if given else {})).is_circular
             for h in (90.0005, 90.00005, 90.00002)]
        return emit('defaults', what=what, state=repr((y, x.is_circular)))
    elif 'LGP' in what:
        x = cls(mesh, codes, tide_type=kind, max_distance=0.0) if given else \
            cls(mesh, codes)
    else:
        x = cls(lon, lat, tide_type=kind, longitude_major=True) if given else \
            cls(lon, lat)
    s = x.__getstate__()
    emit('defaults', what=what,
         state=s.hex() if isinstance(s, bytes) else repr(s))


FAMILY = sys.argv[3]
OPS = {k[len(FAMILY) + 1:]: v for k, v in globals().items()
       if k.startswith(FAMILY + '_')}


def main():
    try:
        for line in sys.stdin:
            line = line.rstrip('\n')
            if line.startswith('SESSION '):
                n = line[8:]
                RNG.seed(int(n))
                reset()
                print('S ' + n)
            elif line == 'END':
                print('D ' + n)
                sys.stdout.flush()
            else:
                c = Cmd(line)
                op = OPS[c.op]
                try:
                    op(c)
                except Exception as err:
                    emit('raised', kind=kind(err), what=repr(err)[:200])
                else:
                    assert c.op == 'slot' or not c.more(), line[:99]
                sys.stdout.flush()
    except Exception:       # the fault of the driver
        traceback.print_exc()
        sys.stdout.flush()
        sys.exit(97)


main()
