"""C14: damaged serialised states are rejected, never misread."""
from c10 import add, slot
from common import cmd
from scen import Cart, Lgp, Mesh, some_ids

WORDS = ['=0', '=1', '=2', '=3', '=-1', '+1', '-1', '+2', '=2147483647',
         '=4611686018427387904', '=-9223372036854775808']
BYTES = ['=0', '=1', '=2', '=75', '=255', '+1', '-1']


def small(rng, like=None):
    """A small model, of the kind and precision of another one."""
    if like is None:
        kind, n, prec = rng.choice('cl'), None, None
    else:
        kind = 'c' if isinstance(like, Cart) else 'l'
        n, prec = getattr(like, 'n', None), like.prec
    if kind == 'c':
        m = Cart(rng, prec=prec)
        while m.size > 16:
            m = Cart(rng, prec=prec)
        return m
    return Lgp(rng, n=n, prec=prec, mesh=Mesh(rng, rng.choice([1, 1, 2]), 1))


def ids_of(rng):
    return some_ids(rng, rng.choice([0, 1, 1, 2])) or \
        ([rng.randrange(75)] if rng.random() < .8 else [])


def make(rng, m, k, ids):
    ses = ['slot %d %s' % (k, m.new())]
    for i in ids:
        w = add(m.add(i)).split(' ')
        w[1] = str(k)
        ses.append(' '.join(w))
    dyn = some_ids(rng, 2) if rng.random() < .6 else []
    if dyn:
        ses.append(cmd('dyn', k, len(dyn), *dyn))
    return ses + [cmd('save', 'model', k, k)], len(dyn)


def layout(m, nids, ndyn):
    """Fields (position, width, kind) of the state, as it is today.

    Only to aim: an edit anywhere is judged by what comes out of it.
    """
    out, pos = [], 0

    def put(width, kind, n=1):
        nonlocal pos
        for _ in range(n):
            out.append((pos, width, kind))
            pos += width
    if isinstance(m, Cart):
        put(1, 'flag')
        for _ in range(2):
            put(8, 'len')
            put(1, 'flag')
            put(1, 'flag')
            put(8, 'f')
            put(8, 'n')
            put(8, 'f')
        put(1, 'type')
    else:
        nv, nt = len(m.mesh.lon), len(m.mesh.tri)
        put(1, 'type')
        put(8, 'len')
        for _ in range(2):
            put(8, 'n')
            put(8, 'n')
            put(8, 'f', nv)
        put(8, 'n')
        put(8, 'n')
        put(4, 'i', 3 * nt)
        put(8, 'f')
        put(8, 'n')
        put(8, 'n')
        put(4, 'i', 3 * m.n * nt)
    put(8, 'n')
    parts = [pos]
    for _ in range(nids):
        put(1, 'id')
        put(8, 'n')
        put(8, 'n')
        put(8 if m.prec == 'd' else 4, 'f', 2 * m.size)
        parts.append(pos)
    put(8, 'n')
    put(1, 'id', ndyn)
    return out, parts


def boundaries(m, fields, parts):
    """Where the parts of a state begin."""
    if isinstance(m, Cart):
        cuts = [1, 9 + 26, 43 + 26, 44 + 26]
    else:
        nt = len(m.mesh.tri)
        mesh = 9 + 48 + 16 * len(m.mesh.lon) + 12 * nt
        cuts = [1, mesh, mesh + 8, mesh + 8 + 16 + 12 * m.n * nt]
    return cuts + parts[:1] + parts[-1:]


def some_edits(rng, fields, n):
    ints = [f for f in fields if f[2] != 'f']
    sizes = [f for f in fields if f[2] in ('n', 'len')]
    out = []
    for _ in range(n):
        k = rng.choice([2, 2, 2, 3])
        e = []
        for _ in range(k):
            p, w, kind = rng.choice(ints if rng.random() < .5 else sizes)
            e += [p, w, rng.choice(['+1', '-1', '+1', '-1', '=0', '=1', '=2',
                                    '=-1', '=3'])]
        out.append(cmd(k, *e))
    return cmd(n) + ' ' + ' '.join(out)


def damaged(rng, big):
    a = small(rng)
    b = small(rng, a)
    ia, ib = ids_of(rng), ids_of(rng)
    sa, da = make(rng, a, 1, ia)
    sb, db = make(rng, b, 2, ib)
    ses = sa + sb + [cmd('cuts', 1, 1)]
    fa, pa = layout(a, len(ia), da)
    fb, pb = layout(b, len(ib), db)
    ses.append(cmd('sweep', 1, 1, rng.randrange(4), 4, 8, len(WORDS), *WORDS))
    ses.append(cmd('sweep', 1, 1, 0, 1, 1, len(BYTES), *BYTES))
    # every field that is not a value, to the bit
    single = [cmd(1, p, w, v) for p, w, k in fa if k != 'f'
              for v in WORDS[:9]]
    if len(single) > 400 and not big:
        single = rng.sample(single, 400)
    ses.append(cmd('edits', 1, 1, len(single)) + ' ' + ' '.join(single))
    ses.append('edits 1 1 ' + some_edits(rng, fa, 300 if big else 60))
    ca, cb = boundaries(a, fa, pa), boundaries(b, fb, pb)
    for i in range(len(ca)):
        ses.append(cmd('splice', 1, ca[i], 2, cb[i], 1))
    for _ in range(4):
        ses.append(cmd('splice', 1, rng.choice(ca), 2, rng.choice(cb), 1))
        ses.append(cmd('splice', 1, rng.randrange(400), 2, rng.randrange(400),
                       1))
    # other classes
    c = small(rng)
    sc, _ = make(rng, c, 3, ids_of(rng))
    ses += sc + [cmd('wrong', 1, 'model', 3), cmd('wrong', 3, 'model', 1),
                 cmd('wrong', 1, 'mesh', 0), cmd('wrong', 1, 'axis', 0)]
    return ses


def small_parts(rng):
    """Axes and meshes."""
    ses = []
    for k in (1, 2):
        n = rng.choice([2, 3, 8, 360])
        circ = n > 2 and rng.random() < .6
        step = (360.0 / n if circ else .5) * rng.choice([1, -1])
        ses.append(cmd('axis', k, n, *[step * i for i in range(n)], circ, 1e-6))
        ses += [cmd('save', 'axis', k, k), cmd('cuts', k, 0),
                cmd('sweep', k, 0, 0, 1, 8, len(WORDS), *WORDS),
                cmd('sweep', k, 0, 0, 1, 1, len(BYTES), *BYTES)]
    for k in (3, 4):
        m = Mesh(rng, rng.choice([1, 2]), 1)
        flat = [i for t in m.tri for i in t]
        ses.append(cmd('mesh', k, len(m.lon), *m.lon, len(m.lat), *m.lat,
                       len(flat), *flat))
        ses += [cmd('save', 'mesh', k, k), cmd('cuts', k, 0),
                cmd('sweep', k, 0, 0, 4, 8, len(WORDS), *WORDS),
                cmd('sweep', k, 0, 0, 1, 1, len(BYTES), *BYTES)]
    for _ in range(6):
        ses.append(cmd('splice', 3, 8 * rng.randrange(20), 4,
                       8 * rng.randrange(20), 0))
        ses.append(cmd('splice', 1, rng.randrange(27), 2, rng.randrange(27),
                       0))
    ses += [cmd('wrong', 1, 'mesh', 0), cmd('wrong', 3, 'axis', 0)]
    return ses


def check(ctx):
    rng = ctx.rng
    conf = ('INIT Init\nNEXT Next\nCONSTANTS Kind="%s" Edits=%d Variant="%s"\n'
            'INVARIANTS Within Refused Bounded Restored Sound\n')
    k = 2 if ctx.thorough else 1
    exe, _, _ = ctx.parallel(
        lambda: ctx.build('geom', ['geom.cpp'],
                          flags=['-DBOUNDED_NEW', '-g1',
                                 '-fsanitize=address,undefined',
                                 '-fno-sanitize-recover=undefined']),
        lambda: ctx.model('FormatModel', conf % ('cart', k, 'ok'),
                          name='FormatModel cart', workers='2', timeout=850),
        lambda: ctx.model('FormatModel', conf % ('lgp', k, 'ok'),
                          name='FormatModel lgp', workers='2', timeout=850))
    if ctx.thorough:
        for kind, v, inv in (
                ('cart', 'reads on', 'Within'),
                ('cart', 'long view', 'Within'),
                ('lgp', 'trusts sizes', 'Bounded'),
                ('cart', 'any boolean', 'Sound'),
                ('cart', 'any axis', 'Sound'), ('cart', 'any type', 'Sound'),
                ('lgp', 'any identifier', 'Sound'),
                ('cart', 'any size', 'Sound'),
                ('lgp', 'any connectivity', 'Sound'),
                ('lgp', 'any codes', 'Sound')):
            ctx.refuted('FormatModel', conf % (kind, 1, v), inv)
    n = 400 if ctx.thorough else 18
    sessions = [damaged(rng, ctx.thorough) for _ in range(n)]
    sessions += [small_parts(rng) for _ in range(n // 3)]
    env = {'ASAN_OPTIONS': 'allocator_may_return_null=1:detect_leaks=0:'
                           'abort_on_error=0:exitcode=66',
           'UBSAN_OPTIONS': 'print_stacktrace=0:exitcode=66'}
    ctx.validate('GeomTrace',
                 ctx.run(exe, sessions, env=env),
                 name='damaged', replay=lambda s: sessions[s['id']])
