"""Stand-in for the compiled core of pyfes (C20, C21, C22).

It keeps what it is given and records every call; it computes nothing.
"""
import datetime
import enum

import numpy

CALLS = []


def record(fn, **args):
    CALLS.append((fn, args))


def _enum(name, items):
    e = enum.Enum(name, items, module=__name__)
    globals().update({k: v for k, v in e.__members__.items()})
    return e


Formulae = _enum('Formulae', [('kMeeus', 0), ('kSchuremanOrder1', 1),
                              ('kSchuremanOrder3', 2)])
TideType = _enum('TideType', [('kTide', 0), ('kRadial', 1)])
Quality = _enum('Quality', [('kUndefined', 0), ('kExtrapolated1', 1),
                            ('kExtrapolated2', 2), ('kExtrapolated3', 3),
                            ('kInterpolated', 4)])
NAMES = ("Mm,Mf,Mtm,Msqm,2Q1,Sigma1,Q1,Rho1,O1,MP1,M11,M12,M13,Chi1,Pi1,P1,"
         "S1,K1,Psi1,Phi1,Theta1,J1,OO1,MNS2,Eps2,2N2,Mu2,2MS2,N2,Nu2,M2,"
         "MKS2,Lambda2,L2,2MN2,T2,S2,R2,K2,MSN2,Eta2,2SM2,MO3,2MK3,M3,MK3,N4,"
         "MN4,M4,SN4,MS4,MK4,S4,SK4,R4,2MN6,M6,MSN6,2MS6,2MK6,2SM6,MSK6,S6,"
         "M8,MSf,Ssa,Sa,Sa1,Sta,Mm1,Mf1,A5,M0,Mm2,Mf2").split(',')
Constituent = _enum('Constituent', [('k' + n, i)
                                    for i, n in enumerate(NAMES)])
IDS = {n.lower(): i for i, n in enumerate(NAMES)}

from . import constituents, datemanip, mesh, tidal_model  # noqa: E402
from .tidal_model import (  # noqa: E402
    AbstractTidalModelComplex64,
    AbstractTidalModelComplex128,
    Axis,
)


class Answer:
    """What the core answers: a value of its own every time."""
    count = 0

    def __init__(self):
        Answer.count += 1
        self.number = Answer.count


def _dates(x):
    if not isinstance(x, numpy.ndarray) or x.dtype.kind != 'M':
        raise TypeError('the dates must be a datetime64 array')
    return x


class Settings:
    def __init__(self, astronomic_formulae=Formulae.kSchuremanOrder1,
                 time_tolerance=0.0, excluded=None):
        if not isinstance(astronomic_formulae, Formulae):
            raise TypeError('astronomic_formulae')
        excluded = list(excluded or [])
        if not all(isinstance(x, Constituent) for x in excluded):
            raise TypeError('excluded')
        self._state = (astronomic_formulae, float(time_tolerance), excluded)

    astronomic_formulae = property(lambda self: self._state[0])
    time_tolerance = property(lambda self: self._state[1])
    excluded = property(lambda self: list(self._state[2]))


class AstronomicAngle:
    def __init__(self, formulae=Formulae.kSchuremanOrder1):
        record('angle', formulae=formulae)

    def update(self, date, leap_seconds):
        if not isinstance(date, datetime.datetime):
            raise TypeError('date')
        record('update', date=date, leap=leap_seconds)


class Wave:
    def __init__(self, i):
        self._i = i
        self.tide = 0j

    def name(self):
        return NAMES[self._i]

    ident = property(lambda self: Constituent(self._i))
    freq = property(lambda self: (self._i + 1) / 1024.)


class WaveTable:
    def __init__(self, waves=()):
        if any(w.lower() not in IDS for w in waves):
            raise ValueError('unknown constituent')
        ids = sorted({IDS[w.lower()] for w in waves}) or range(75)
        self._waves = [Wave(i) for i in ids]

    def __len__(self):
        return len(self._waves)

    def __iter__(self):
        return iter(self._waves)

    def __getitem__(self, ident):
        for w in self._waves:
            if w.ident is ident:
                return w
        raise IndexError(ident)

    def find(self, ident):
        for w in self._waves:
            if w.name().lower() == ident.lower():
                return w
        return None

    def keys(self):
        return [w.name() for w in self._waves]

    def values(self):
        return list(self._waves)

    def compute_nodal_modulations(self, dates, leap_seconds,
                                  formulae=Formulae.kSchuremanOrder3):
        a = Answer()
        record('mods', table=self.keys(), dates=_dates(dates),
               leap=leap_seconds, formulae=formulae)
        return a

    def tide_from_tide_series(self, dates, leap_seconds, wave,
                              formulae=Formulae.kSchuremanOrder3):
        a = Answer()
        record('series', table=self.keys(), dates=_dates(dates),
               leap=leap_seconds, wave=wave, formulae=formulae)
        return a

    def tide_from_mapping(self, date, leap_seconds, mapping,
                          formulae=Formulae.kSchuremanOrder3, num_threads=0):
        a = Answer()
        record('mapping', table=self.keys(), date=date, leap=leap_seconds,
               wave=mapping, formulae=formulae, threads=int(num_threads))
        return a

    @staticmethod
    def harmonic_analysis(h, f, vu):
        a = Answer()
        record('harmonic', h=h, f=f, vu=vu)
        n = len(f)
        return numpy.array([complex(a.number, k) for k in range(n)])


def evaluate_tide(tidal_model, date, leap_seconds, longitude, latitude,
                  settings=None, num_threads=0):
    if settings is not None and not isinstance(settings, Settings):
        raise TypeError('settings')
    a = Answer()
    record('evaluate', model=tidal_model, dates=_dates(date),
           leap=leap_seconds, lon=longitude, lat=latitude,
           settings=settings or Settings(), threads=int(num_threads))
    return a
