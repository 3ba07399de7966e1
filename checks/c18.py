"""C18: inconsistent inputs are refused and change nothing."""
from c08 import WRONG
from common import cmd, FORMULAE
from tables import NAMES, recase

KINDS = ('evaluate', 'series', 'mods', 'map', 'harmonic', 'cart', 'lgp',
         'mesh', 'codes', 'names')
ALLK = '{%s}' % ', '.join('"%s"' % k for k in KINDS)
CONF = ('INIT Init\nNEXT Next\nCONSTANTS Max=%d Variant="%s" Kinds=%s\n'
        'INVARIANTS Right Untouched')


def hexa(x):
    return ''.join('%02x' % ord(c) for c in x if ord(c) < 256) or '-'


def who(rng):
    return recase(rng, rng.choice(NAMES)) if rng.random() < .5 else \
        '#%d' % rng.randrange(75)


def request(rng, r):
    """A request of the model as a command."""
    k = r['k']
    n = r.get('n', [])
    if k == 'evaluate':
        return cmd(k, rng.choice(['cart', 'lgp']), rng.choice('df'),
                   rng.choice([0, 1, 2, 5]), 4, *n)
    if k in ('cart', 'lgp'):
        return cmd(k, rng.choice('df'), who(rng), len(n), *n)
    if k == 'mesh':
        return cmd(k, 2, *n, len(r['tri']), *r['tri'])
    if k == 'codes':
        return cmd(k, rng.choice([1, 2]), 2, *n, len(r['code']), *r['code'])
    if k == 'names':
        names = [recase(rng, rng.choice(NAMES)) if ok else rng.choice(WRONG)
                 for ok in r['known']]
        return cmd(k, rng.choice(['table', 'parse', 'find', 'cart', 'lgp']),
                   len(names), *[hexa(x) for x in names])
    return cmd(k, rng.choice(FORMULAE), rng.choice([0, 1, 2, 5]),
               r.get('held', 1), len(n), *n)


def some(rng):
    """Larger sizes, nearly consistent."""
    k = rng.choice(KINDS)
    m = rng.choice([0, 1, 2, 5, 17, 40])

    def near(x):
        return max(0, x + rng.choice([0, 0, 0, 0, 0, 1, -1, x]))
    if k == 'evaluate':
        return {'k': k, 'n': [near(m) for _ in range(4)]}
    if k in ('series', 'map'):
        h = rng.randrange(1, 9)
        return {'k': k, 'held': h, 'n': [near(m), near(m), near(h)]
                if k == 'series' else [near(h), m]}
    if k == 'mods':
        return {'k': k, 'held': rng.randrange(1, 9), 'n': [near(m), near(m)]}
    if k == 'harmonic':
        r = rng.randrange(1, 4)
        return {'k': k, 'n': [near(m), r, near(m), max(1, near(r)), near(m)]}
    if k == 'cart':
        a, b = rng.randrange(2, 12), rng.randrange(2, 12)
        return {'k': k, 'n': [a, b, rng.choice([near(a * b), a * b + a, a, b,
                                                (a + 1) * (b - 1)])]}
    if k == 'lgp':
        d = rng.randrange(1, 50)
        return {'k': k, 'n': [d, near(d)]}
    if k == 'mesh':
        v = rng.randrange(3, 30)
        tri = [rng.randrange(v) for _ in range(3 * rng.randrange(1, 12))]
        if rng.random() < .6:
            tri[rng.randrange(len(tri))] = rng.choice(
                [v, v + 1, -1, -v, 2 ** 31 - 1, -2 ** 31, v - 1])
        return {'k': k, 'n': [v, near(v)], 'tri': tri}
    if k == 'codes':
        t = rng.randrange(1, 10)
        return {'k': k, 'n': [t, near(t)], 'code': rng.choice(
            [[], [rng.randrange(6 * t), rng.choice([-1, -2 ** 31, 0, 9])]])}
    n = rng.randrange(1, 12)
    bad = rng.randrange(2 * n)
    return {'k': k, 'known': [i != bad for i in range(n)]}


def check(ctx):
    rng = ctx.rng

    def models():
        r = ctx.model('InputsModel', CONF % (4 if ctx.thorough else 3, 'ok',
                                             ALLK) + ' Emit\n', workers='4',
                      timeout=850)
        if ctx.thorough:
            for v, inv, ks in (('half', 'Right', ALLK),
                               ('late', 'Untouched', ALLK),
                               ('bound', 'Right', '{"mesh"}'),
                               ('bound', 'Right', '{"lgp"}'),
                               ('product', 'Right', '{"cart"}')):
                ctx.refuted('InputsModel', CONF % (3, v, ks) + '\n', inv)
        return sorted(ctx.behaviours(r), key=str)
    exe, reqs = ctx.parallel(
        lambda: ctx.build('inputs', ['inputs.cpp'],
                          flags=['-g1', '-fsanitize=address,undefined',
                                 '-fno-sanitize-recover=undefined']),
        models)
    rng.shuffle(reqs)
    reqs += [some(rng) for _ in range(100000 if ctx.thorough else 6000)]
    cmds = [request(rng, r) for r in reqs]
    sessions = [cmds[i:i + 100] for i in range(0, len(cmds), 100)]
    env = {'ASAN_OPTIONS': 'detect_leaks=0:exitcode=66',
           'UBSAN_OPTIONS': 'exitcode=66'}
    ctx.notes['requests'] = len(cmds)
    ctx.validate('InputTrace', ctx.run(exe, sessions, env=env),
                 name='requests', replay=lambda s: sessions[s['id']])
