"""Scenario helpers shared by the checks."""
from fesv import fnum

FORMULAE = ['schureman1', 'schureman3', 'meeus']


def epoch(rng, far=False):
    """A date, with the awkward ones over-represented."""
    k = rng.random()
    if k < 0.15:    # midnight or noon exactly
        return float(rng.randrange(-30000, 40000)) * 86400.0 + \
            rng.choice([0, 43200])
    if k < 0.3:     # next to midnight
        return float(rng.randrange(-30000, 40000)) * 86400.0 + \
            rng.choice([-1e-3, 1e-3, -1.0, 1.0])
    if k < 0.35:
        return rng.choice([0.0, -1.0, -86400.0, 946728000.0, 915148800.0])
    if far and k < 0.5:
        return rng.uniform(-1.2e10, 1.2e10)
    return rng.uniform(-2.2e9, 4.0e9)


def cmd(*a):
    return ' '.join(x if isinstance(x, str) else fnum(x) for x in a)
