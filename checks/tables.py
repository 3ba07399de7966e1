"""Scenarios on tables (C04, C05, C08, C16, C17)."""
import math
from common import cmd, epoch, FORMULAE
from scen import MAJORS, SHORT_ADMIT, LPE, LONG_OTHER, AVOID

NAMES = ("Mm,Mf,Mtm,Msqm,2Q1,Sigma1,Q1,Rho1,O1,MP1,M11,M12,M13,Chi1,Pi1,P1,"
         "S1,K1,Psi1,Phi1,Theta1,J1,OO1,MNS2,Eps2,2N2,Mu2,2MS2,N2,Nu2,M2,"
         "MKS2,Lambda2,L2,2MN2,T2,S2,R2,K2,MSN2,Eta2,2SM2,MO3,2MK3,M3,MK3,N4,"
         "MN4,M4,SN4,MS4,MK4,S4,SK4,R4,2MN6,M6,MSN6,2MS6,2MK6,2SM6,MSK6,S6,"
         "M8,MSf,Ssa,Sa,Sa1,Sta,Mm1,Mf1,A5,M0,Mm2,Mf2").split(',')
ALL = list(range(75))


def recase(rng, s):
    k = rng.random()
    if k < .3:
        return s
    if k < .5:
        return s.lower()
    if k < .7:
        return s.upper()
    return ''.join(rng.choice([c.lower(), c.upper()]) for c in s)


def value(rng):
    k = rng.random()
    if k < .05:
        return 0.0
    if k < .1:
        return rng.uniform(-1, 1) * 1e-6
    if k < .15:
        return rng.uniform(-1, 1) * 1e4
    return rng.uniform(-60, 60)


def dates(rng, n, step=None):
    e = epoch(rng)
    out = [n]
    for _ in range(n):
        out += [e, rng.choice([0, 20, 37, 300, 65535])]
        k = rng.random()
        e = e + step if step else e if k < .25 else \
            e + rng.choice([-1, 1]) * rng.choice([1e-3, 1800.0, 86400.0]) \
            if k < .4 else epoch(rng)
    return out


def held(rng):
    """Constituents of a table; None for all of them."""
    k = rng.random()
    if k < .15:
        return None
    if k < .3:
        return [rng.choice(ALL)]
    return rng.sample(ALL, rng.randrange(2, 30))


def make(rng, slot, ids):
    if ids is None:
        return rng.choice([cmd('all', slot), cmd('names', slot, 0),
                           cmd('ids', slot, 75, *rng.sample(ALL, 75))])
    ids = list(ids)
    rng.shuffle(ids)
    if rng.random() < .2:
        ids += ids[:2]
    if rng.random() < .5:
        return cmd('ids', slot, len(ids), *ids)
    return cmd('names', slot, len(ids),
               *[recase(rng, NAMES[i]) for i in ids])


def constants(rng, ids, n=1):
    """n columns of complex constants in the order of the table."""
    out = []
    for _ in range(n):
        for i in sorted(ids):
            out += [0.0, 0.0] if i in AVOID else [value(rng), value(rng)]
    return out


def job(rng, slot, ids, what=None):
    """A computation from the table of a slot holding ids."""
    ids = ALL if ids is None else ids
    what = what or rng.choice(['series', 'map', 'mods'])
    f = rng.choice(FORMULAE)
    if what == 'series':
        return cmd('job', 'series', slot, f,
                   *dates(rng, rng.choice([0, 1, 2, 5])), len(ids),
                   *constants(rng, ids))
    if what == 'map':
        n = rng.choice([0, 1, 2, 3, 7, 20]) if len(ids) < 40 else \
            rng.choice([1, 3])
        w = constants(rng, ids, n)
        if n and rng.random() < .2:
            k = rng.randrange(n * len(ids))
            w[2 * k] = w[2 * k + 1] = math.nan
        return cmd('job', 'map', slot, f, epoch(rng),
                   rng.choice([0, 20, 37, 300, 65535]), rng.choice([0, 1, 2, 3, 8]),
                   rng.randrange(3), len(ids), n, *w)
    return cmd('job', 'mods', slot, f, *dates(rng, rng.choice([0, 1, 3])))
