"""C07: astronomical elements."""
from common import cmd, epoch, FORMULAE


def check(ctx):
    rng = ctx.rng
    n = 6000 if ctx.thorough else 600
    sessions = []
    for k in range(n):
        ses = [cmd('new', FORMULAE[k % 3])]
        for _ in range(rng.randrange(1, 6)):
            ses.append(cmd('upd', epoch(rng, far=True),
                           rng.choice([0, 10, 27, 37, 65535])))
        sessions.append(ses)
    # N near 0 and pi, where the branch of xi changes
    tn = 18.6129 * 365.25 * 86400
    for k in range(400 if ctx.thorough else 80):
        f = FORMULAE[k % 3]
        # N(2000-01-01T12) = 125.04 deg, decreasing
        t = 946728000.0 + tn * ((125.0445 - 180.0 * (k // 3 % 7 - 3)) / 360)
        sessions.append([cmd('new', f)] +
                        [cmd('upd', t + d, 32) for d in
                         (-3e5, -2e4, 0.0, 2e4, 3e5)])
    sessions += [[cmd('new', x)] for x in ('3', '-1', '77')]
    steps, hours = (20000, 97) if ctx.thorough else (200, 2459)

    def model():
        return ctx.model('ConstituentsModel',
                         'INIT Init\nNEXT Next\n'
                         'CONSTANTS Steps=%d StepHours=%d\n'
                         'INVARIANT Triangle SameSky\n' % (steps, hours),
                         workers='4', timeout=850)
    exe, _ = ctx.parallel(lambda: ctx.build('waves', ['waves.cpp']), model)
    ctx.validate('WavesTrace', ctx.run(exe, sessions), name='elements',
                 replay=lambda s: sessions[s["id"]])
