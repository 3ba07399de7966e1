"""C08: names, identifiers, tables."""
from common import cmd
from tables import ALL, NAMES, make, held, recase

WRONG = ['M', 'M22', 'M2 ', ' M2', 'M-2', '', 'Z0', 'M2\0', '\0', 'S_2',
         'Mf3', 'X1', '2M', 'Lambda', 'mu', 'M2M2', '\xe9', 'K\u0131'[:1],
         'O\xb9', 'm02', '2N2a', 'MSqm2', 'SA2', 'Ssaa', 'unknown', '30',
         '0', 'kM2', 'NaN', 'M0S', 'N2,', 'm\x122', 'O\x11', 's\x12']


def check(ctx):
    rng = ctx.rng

    def models():
        return ctx.behaviours(ctx.model(
            'NamesModel', 'INIT Init\nNEXT Next\nCONSTANTS Pool={0,5,12,24,'
            '30,41,59,64,72,74} MaxHeld=%d\nINVARIANT Unambiguous RoundTrip '
            'HoldsAsked Ascending Monotone ShortFirst Emit\n'
            % (5 if ctx.thorough else 3), workers='4', timeout=850))
    exe, behs = ctx.parallel(lambda: ctx.build('table', ['table.cpp']), models)
    sessions = [['known']]

    def parse(x):
        h = ''.join('%02x' % ord(c) for c in x if ord(c) < 256)
        return cmd('parse', h or '-')
    for i in range(75):
        x = NAMES[i]
        sessions.append([cmd('make', i)] + [parse(y) for y in
                        (x, x.lower(), x.upper(), recase(rng, x))] +
                        [cmd('make', rng.choice([-1, 75, 100, 127]))])
        # neighbours of the name: one character removed, doubled, changed
        k = rng.randrange(len(x))
        near = [x[:k] + x[k + 1:], x[:k] + x[k] + x[k:], x + '_',
                x[:k] + chr(ord(x[k]) ^ rng.choice([1, 2, 4, 64, 128])) +
                x[k + 1:], x[::-1]]
        sessions.append([parse(y) for y in near])
    sessions.append([parse(x) for x in WRONG])
    sessions.append([cmd('make', i) for i in range(-3, 130)])
    # no blank nor empty token can be given on a line
    tokens = [w for w in WRONG if w.isascii() and w.isprintable() and
              w.strip() == w and w]
    n = 3000 if ctx.thorough else 150
    for b in behs + [held(rng) for _ in range(n)]:
        b = b or None
        ses = [make(rng, 0, b)]
        for _ in range(3):
            ses.append(cmd('find', 0, recase(rng, rng.choice(NAMES))))
        ses.append(cmd('find', 0, rng.choice(tokens)))
        if b:
            ses.append(cmd('find', 0, recase(rng, NAMES[rng.choice(b)])))
            bad = [recase(rng, NAMES[i]) for i in b]
            bad.insert(rng.randrange(len(bad) + 1), rng.choice(tokens))
            ses.append(cmd('names', 1, len(bad), *bad))
        k = rng.random()
        if k < .3:
            ses += ['copy 0 2', 'views 2', 'views 0']
        elif k < .5:
            ses += [make(rng, 2, held(rng)), 'assign 0 2', 'views 2']
        elif k < .7:
            ses += ['move 0 2', 'views 2']
        sessions.append(ses)
    ctx.validate('TableTrace', ctx.run(exe, sessions), name='names',
                 replay=lambda s: sessions[s['id']])
