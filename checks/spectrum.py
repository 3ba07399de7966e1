"""Periods of the constituents, to aim at the limits of a selection."""
import os
import re

SPEEDS = (15.0, 481267.892, 36000.769, 4069.032, 1.719)


def periods():
    here = os.path.dirname(os.path.abspath(__file__))
    text = open(os.path.join(here, '..', 'spec', 'Constituents.tla')).read()
    out = []
    for m in re.finditer(r'T \|-> (-?\d+), s \|-> (-?\d+), h \|-> (-?\d+), '
                         r'p \|-> (-?\d+), p1 \|-> (-?\d+)', text):
        k = [int(x) for x in m.groups()]
        deg = k[0] * 15.0 + (k[1] * SPEEDS[1] + k[2] * SPEEDS[2] +
                             k[3] * SPEEDS[3] + k[4] * SPEEDS[4]) / 876600.0
        if deg:
            out.append(360.0 / abs(deg))
    return out
