"""C20: leap second lookup returns the count in force at each date."""
import datetime
import re

from fesv import REPO
from front import c, dates, harness

SHIPPED = '/src/python/pyfes/data/leap-seconds.txt'
MODES = {'down': ['down', 'refused', 'hangup', 'empty', 'slow', 'broken']}


def shipped():
    """The distributed table and whether it has expired."""
    table, expired = [], True
    with open(REPO + SHIPPED) as f:
        for line in f:
            m = re.match(r'^(\d+)\s+(\d+)\s+#\s1\s\w{3}\s\d{4}$', line)
            if m:
                s = int(m[1]) - 25567 * 86400
                table.append([s // 86400, s % 86400, int(m[2])])
            m = re.match(r'^#.*File expires on[:\s]+(\d+) (\w{3})\w* (\d+)',
                         line)
            if m:
                d = datetime.datetime.strptime(' '.join(m.groups()),
                                               '%d %b %Y')
                expired = d.date() < datetime.date.today()
    return table, expired


def some_table(rng, n=None):
    """A table in force on 1972-01-01."""
    n = n or rng.randrange(1, 30)
    at = [[rng.choice([730, 730, 365, 0]), 0]]
    while len(at) < n:
        d, s = at[-1]
        k = rng.random()
        if k < .1:
            s += rng.choice([1, 2, 59])
        elif k < .6:
            d, s = d + rng.randrange(1, 900), 0
        else:
            d, s = d + rng.randrange(1, 400), rng.randrange(86400)
        if s >= 86400:
            break
        at.append([d, s])
    k = rng.choice([0, 10, 60000])
    out = []
    for d, s in at:
        out.append([d, s, k])
        k = max(0, min(65535, k + rng.choice([1, 1, 1, -1, 5, 300])))
    return out


def content(rng, table, days):
    return dict(table=table, days=days, long=rng.random() < .7,
                sep=rng.choice(['\t', ' ', '\t\t']),
                colon=rng.choice([' ', ': ', ':  ']),
                gap=rng.choice(['      ', '\t', ' ']),
                comments=rng.random() < .3)


def old(rng):
    return -rng.choice([2, 10, 31, 59, 90, 151, 200, 335, 3000])


def fresh(rng):
    return rng.choice([2, 30, 61, 92, 120, 150, 181, 212, 250, 300, 330, 9000])


def near(rng, table):
    """An instant at, just before or just after an entry, or anywhere."""
    k = rng.random()
    if k < .7:
        d, s, _ = rng.choice(table)
        x = d * 86400 + s + rng.choice([-1, -1, 0, 0, 0, 1, 86400, -86400])
    elif k < .95:
        x = rng.randrange(730 * 86400, (table[-1][0] + 4000) * 86400)
    else:
        x = rng.choice([730 * 86400, 2932896 * 86400 + 86399, 95000 * 86400])
    x = max(x, 730 * 86400)
    return [x // 86400, x % 86400]


def early(rng):
    x = 730 * 86400 - rng.choice([1, 1, 2, 86400, 730 * 86400,
                                  730 * 86400 + 1, 10 ** 9, 3 * 10 ** 9])
    return [x // 86400, x % 86400]


def lookup(rng, ats, unit=None, form=None):
    if unit is None and any(a[0] > 90000 or a[0] < -90000 for a in ats):
        unit = rng.choice(['s', 'ms', 'us', 'D', 'h', 'M'])
    if form is None and len(ats) == 1 and rng.random() < .4:
        form = rng.choice(['scalar', 'datetime'])
    d, at = dates(rng, ats, unit, form)
    return c('lookup', dates=d, at=at, sorter=rng.random() < .2)


def lookups(rng, table, n):
    out = []
    for _ in range(n):
        m = rng.choice([1, 1, 2, 3, 8, 40])
        ats = [near(rng, table) for _ in range(m)]
        if rng.random() < .08:
            ats[rng.randrange(m)] = early(rng)
        elif rng.random() < .3:
            ats.sort()
        out.append(lookup(rng, ats))
    if rng.random() < .1:
        u = rng.choice(['ps', 'fs', 'as'])
        v = rng.choice([0, 1, -1, 2 ** 62])
        out.append(c('lookup', dates={'form': 'array', 'unit': u, 'v': [v]},
                     at=[[0, 0] if v >= 0 else [-1, 86399]]))
    return out


def histories(rng, behs):
    """The histories of LeapModel on real tables."""
    out = []
    for h in behs:
        a, b = some_table(rng), some_table(rng)
        if a == b:
            continue
        f = h[0]['file']
        s = [c('start', present=f['present'], **content(
            rng, a, old(rng) if f['expired'] else fresh(rng)))]
        for step in h[1:]:
            m = step['mode']
            if step['again']:
                s.append(c('restart'))
            if m == 'junk':
                raw = rng.choice([
                    '<html><body>File expires on Monday</body></html>', '',
                    '\xff\xfe\x00\x80' * 50, '# File expires on soon\n',
                    '#\tATOMIC TIME.\n#\n2272060800      10      # 1 Jan 1972'
                    '\n', '# File expires on 28 Brumaire 2990\n'])
                s.append(c('net', mode='new', raw=raw)
                         .replace('"mode": "new"', '"mode": "junk"'))
            else:
                m = rng.choice(MODES.get(m, [m]))
                s.append(c('net', mode=m, **content(
                    rng, b, old(rng) if step['expired'] else fresh(rng))))
            x = rng.choice([a, b])
            s.append(lookup(rng, [near(rng, x)
                                  for _ in range(rng.choice([1, 5]))]))
        out.append(s)
    return out


def searches(rng, behs):
    """The searches of LeapSearch at real instants."""
    out, by = [], {}
    for b in behs:
        by.setdefault(tuple(b['table']), []).append(b['dates'])
    for t, many in sorted(by.items()):
        rng.shuffle(many)
        for i in range(0, len(many), 40):
            at, x = {}, 730 * 86400
            for k in range(max(max(d) for d in many) + 2):
                at[k] = x
                x += rng.choice([1, 1, 2, 86400, 10 ** 6, 10 ** 8])
            table = [[at[k] // 86400, at[k] % 86400, rng.randrange(100)]
                     for k in t]
            s = [c('start', present=True, **content(rng, table, 300))]
            for d in many[i:i + 40]:
                s.append(lookup(rng, [[at[k] // 86400, at[k] % 86400]
                                      for k in d],
                                rng.choice(['s', 'ms', 'us', 'ns'])))
            out.append(s)
    return out


def check(ctx):
    rng = ctx.rng
    deep = ctx.thorough
    renew = ('INIT Init\nNEXT Next\nCONSTANTS Lookups=%d Variant="%s"\n'
             'INVARIANTS Sound Kept Allowed Served')
    find = ('INIT Init\nNEXT Next\nCONSTANTS Slots=%d Entries=3 Dates=%d '
            'Variant="%s"\nINVARIANTS Right')
    n = 4 if deep else 3
    a, b = ctx.parallel(
        lambda: ctx.behaviours(ctx.model(
            'LeapModel', renew % (n, 'ok') + ' Emit\n', workers='4',
            timeout=850)),
        lambda: ctx.behaviours(ctx.model(
            'LeapSearch', find % (7 if deep else 6, 4 if deep else 3, 'ok') +
            ' Emit\n', workers='4', timeout=850)))
    if deep:
        for v, inv in (('inplace', 'Sound'), ('unseen', 'Sound'),
                       ('helpless', 'Served')):
            ctx.refuted('LeapModel', renew % (2, v) + '\n', inv)
        for v in ('left', 'first', 'sorted'):
            ctx.refuted('LeapSearch', find % (6, 3, v) + '\n', 'Right')
    # a history is a path of the environment, emitted once per interleaving
    a = [x for _, x in sorted({str(x): x for x in a}.items())]
    rng.shuffle(a)
    sessions = histories(rng, a if deep else a[:1500])
    rng.shuffle(b)
    sessions += searches(rng, b if deep else b[:4000])
    table, expired = shipped()
    for k in range(40 if deep else 8):
        s = [c('shipped', table=table, expired=expired)]
        for d, sec, _ in table:
            x = d * 86400 + sec
            for y in (x - 1, x, x + 1):
                if y >= 730 * 86400:
                    s.append(lookup(rng, [[y // 86400, y % 86400]],
                                    rng.choice(['s', 'ms', 'us', 'ns']),
                                    rng.choice(['scalar', 'datetime',
                                                'array'])))
        sessions.append(s + lookups(rng, table, 60))
    for k in range(200 if deep else 24):
        x, y = some_table(rng), some_table(rng)
        d, at = dates(rng, [near(rng, x)], 's', 'array')
        sessions.append(
            [c('start', present=k % 3 > 0, **content(rng, x, old(rng))),
             c('net', mode='new', **content(rng, y, fresh(rng))),
             c('crash', dates=d, most=2000 if deep else 300),
             lookup(rng, [near(rng, y)])])
    for k in range(3000 if deep else 300):
        t = some_table(rng)
        sessions.append([c('start', present=True,
                           **content(rng, t, rng.choice([old, fresh])(rng)))]
                        + lookups(rng, t, 30))
    ctx.notes['sessions'] = len(sessions)
    ctx.notes['lookups'] = sum('"lookup"' in x for s in sessions for x in s)
    ctx.validate('LeapTrace', ctx.run(harness(ctx), sessions), name='lookups',
                 replay=lambda s: sessions[s['id']])
