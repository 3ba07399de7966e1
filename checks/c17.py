"""C17: predictions from a table."""
from common import cmd, epoch, FORMULAE
from tables import ALL, held, make, job, value


def from_model(rng, beh):
    n = rng.choice([2, 3, 8])
    ids = rng.sample([i for i in ALL if i != 59], n)
    ses = [make(rng, 1, ids)]
    live = {1}

    def dumps():
        return [cmd('dump', x) for x in sorted(live)]
    ses += dumps()
    for op in beh:
        if op[0] in ('copy', 'assign', 'move'):
            ses.append(cmd(op[0], op[1], op[2]))
            live.add(op[2])
            if op[0] == 'move':
                live.discard(op[1])
        elif op[0] == 'set':
            ses.append(cmd('set', op[1], ids[op[2] - 1], value(rng),
                           value(rng), rng.random() < .5, rng.random() < .5))
        elif op[0] == 'nodal':
            ses.append(cmd('nodal', op[1], rng.choice(FORMULAE), epoch(rng),
                           20))
        else:
            ses.append(job(rng, op[1], ids, op[0]))
    return ses + dumps()


def randomised(rng):
    ids = held(rng)
    ses = [make(rng, 0, ids), 'dump 0']
    for _ in range(3):
        ses.append(job(rng, 0, ids))
    if rng.random() < .5:
        n = rng.randrange(2, 5)
        ses.append('\n'.join([cmd('together', n)] +
                             [job(rng, 0, ids) for _ in range(n)]))
    ses.append('dump 0')
    return ses


def check(ctx):
    rng = ctx.rng

    def models():
        r = ctx.model('TablesModel',
                      'INIT Init\nNEXT Next\nCONSTANTS MaxOps=%d '
                      'Variant="ok"\nINVARIANT Holds NoAlias Emit\n'
                      % (4 if ctx.thorough else 3), workers='4', timeout=850)
        if ctx.thorough:
            for v in ('shared', 'inplace'):
                ctx.refuted('TablesModel',
                            'INIT Init\nNEXT Next\nCONSTANTS MaxOps=3 '
                            'Variant="%s"\nINVARIANT Holds\n' % v, 'Holds')
        return sorted(ctx.behaviours(r), key=str)
    exe, tsan, behs = ctx.parallel(
        lambda: ctx.build('table', ['table.cpp']),
        lambda: ctx.build('table-tsan', ['table.cpp'],
                          flags=['-fsanitize=thread', '-g1']),
        models)
    rng.shuffle(behs)
    n = 5000 if ctx.thorough else 250
    sessions = [from_model(rng, b) for b in behs[:n]]
    sessions += [randomised(rng) for _ in range(n)]
    conc = [randomised(rng) for _ in range(200 if ctx.thorough else 20)]
    env = {'TSAN_OPTIONS': 'exitcode=66 halt_on_error=1'}
    ra, rc = ctx.parallel(lambda: ctx.run(exe, sessions),
                          lambda: ctx.run(tsan, conc, env=env))
    ctx.parallel(
        lambda: ctx.validate('TableTrace', ra, name='tables',
                             replay=lambda s: sessions[s['id']]),
        lambda: ctx.validate('TableTrace', rc, name='concurrent',
                             replay=lambda s: conc[s['id']]))
