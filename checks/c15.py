"""C15: parallel work is shared out, every item exactly once."""
from common import cmd

CONF = ('SPECIFICATION Spec\nCONSTANTS MaxItems=%d MaxThreads=%d '
        'Variant="%s"\n')


def case(rng, via, size, threads, cpus=-1, slow=None, refuse=(), fails=()):
    if slow is None:
        slow = rng.choice([0, 0, 1, 3])
    return cmd(via, size, threads, cpus, slow, len(refuse), *refuse,
               len(fails), *fails)


def from_model(rng, b):
    return [case(rng, rng.choice(['for', 'for', 'tide']), b['size'],
                 str(b['asked']), b['cpus'] if b['asked'] == 0 else -1, 0,
                 b['refuse'], b['fails'])]


def randomised(rng):
    ses = []
    for _ in range(3):
        size = rng.choice([0, 1, 2, 3, 5, 7, 8, 16, 17, 63, 64, 100, 101,
                           rng.randrange(200)])
        threads = rng.choice(['0', '1', '2', '3', '4', '7', '8', '16', '33',
                              str(size), str(size + 1), str(max(1, size - 1)),
                              '100000', 'max', str(2 ** 63)])
        cpus = rng.choice([-1, 0, 1, 2, 3, 5]) if threads == '0' else -1
        refuse = [] if rng.random() < .6 else \
            sorted(rng.sample(range(40), rng.randrange(1, 30)))
        fails = []
        if size and rng.random() < .5:
            fails = rng.sample(range(size),
                               rng.randrange(1, min(size, 12) + 1))
        ses.append(case(rng, rng.choice(['for', 'for', 'tide']), size, threads,
                        cpus, None, refuse, fails))
    size = rng.randrange(1, 120)
    ses.append(case(rng, 'map', size, rng.choice(['0', '1', '2', '5', '17',
                                                  str(size), '1000'])))
    size = rng.randrange(20000)
    ses.append(case(rng, 'many', size, rng.choice(
        ['0', '1', '2', '3', '7', '11', '64', str(max(1, size // 2 + 1))
         if size < 400 else '13']), rng.choice([-1, -1, 3])))
    return ses


def check(ctx):
    rng = ctx.rng
    k = (4, 5) if ctx.thorough else (3, 4)

    def models():
        r = ctx.model('ParallelModel', CONF % (*k, 'ok') +
                      'INVARIANTS Safe Divides Cases\n'
                      'PROPERTIES Refines Ends\n', workers='4', timeout=850)
        if ctx.thorough:
            for v, inv in (('remainder', 'Safe'), ('unjoined', 'Safe'),
                           ('swallowed', 'Safe'), ('last', 'Safe'),
                           ('refused', 'Safe'), ('empty', 'Divides')):
                ctx.refuted('ParallelModel', CONF % (3, 4, v) +
                            'INVARIANT %s\n' % inv, inv)
        return sorted(ctx.behaviours(r), key=str)
    exe, tsan, behs = ctx.parallel(
        lambda: ctx.build('parallel', ['parallel.cpp'],
                          flags=['-DINTERPOSE']),
        lambda: ctx.build('parallel-tsan', ['parallel.cpp'],
                          flags=['-fsanitize=thread', '-g1']),
        models)
    n = len(behs) if ctx.thorough else 250
    sessions = [from_model(rng, b) for b in rng.sample(behs, min(n, len(behs)))]
    m = 4000 if ctx.thorough else 200
    sessions += [randomised(rng) for _ in range(m)]
    conc = [randomised(rng) for _ in range(m // 5)]
    env = {'TSAN_OPTIONS': 'exitcode=66 halt_on_error=1'}
    ra, rc = ctx.parallel(lambda: ctx.run(exe, sessions),
                          lambda: ctx.run(tsan, conc, env=env, procs=4))
    ctx.parallel(
        lambda: ctx.validate('ParallelTrace', ra, name='calls',
                             replay=lambda s: sessions[s['id']]),
        lambda: ctx.validate('ParallelTrace', rc, name='concurrent',
                             replay=lambda s: conc[s['id']]))
