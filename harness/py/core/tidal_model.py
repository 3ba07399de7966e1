import numpy

from . import IDS, Constituent, TideType, kTide
from .mesh import Index


class Axis:
    def __init__(self, points, epsilon=1e-6, is_circular=False):
        self.given = {'points': points, 'epsilon': float(epsilon),
                      'circular': bool(is_circular)}

    def __len__(self):
        return len(self.given['points'])


class _Model:
    def __init__(self, tide_type, **given):
        if not isinstance(tide_type, TideType):
            raise TypeError('tide_type')
        self.tide_type = tide_type
        self.given = given
        self.data = {}
        self._dynamic = []

    def add_constituent(self, name, wave):
        if name.lower() not in IDS:
            raise ValueError('unknown constituent: ' + name)
        wave = numpy.asarray(wave)
        if wave.ndim != 1:
            raise TypeError('wave')
        wave = wave.astype(self.dtype)     # as the core does
        if len(wave) != self._size():
            raise ValueError('wave has not the size of the model')
        self.data.setdefault(IDS[name.lower()], wave.copy())

    @property
    def dynamic(self):
        return list(self._dynamic)

    @dynamic.setter
    def dynamic(self, value):
        if not all(isinstance(x, Constituent) for x in value):
            raise TypeError('dynamic')
        self._dynamic = list(value)

    def __len__(self):
        return len(self.data)


class AbstractTidalModelComplex64(_Model):
    dtype = numpy.complex64


class AbstractTidalModelComplex128(_Model):
    dtype = numpy.complex128


class _Cartesian:
    def __init__(self, lon, lat, tide_type=kTide, longitude_major=True):
        if not isinstance(lon, Axis) or not isinstance(lat, Axis):
            raise TypeError('axis')
        super().__init__(tide_type, lon=lon.given, lat=lat.given,
                         lonmajor=bool(longitude_major))

    def _size(self):
        return len(self.given['lon']['points']) * \
            len(self.given['lat']['points'])


class _LGP:
    def __init__(self, index, codes, tide_type=kTide, max_distance=0.0):
        if not isinstance(index, Index):
            raise TypeError('index')
        if not isinstance(max_distance, (int, float)):
            raise TypeError('max_distance')
        super().__init__(tide_type, index=index.given, codes=codes,
                         distance=float(max_distance))

    def _size(self):
        return int(numpy.max(self.given['codes'])) + 1


class CartesianComplex64(_Cartesian, AbstractTidalModelComplex64):
    kind = 'cartesian'


class CartesianComplex128(_Cartesian, AbstractTidalModelComplex128):
    kind = 'cartesian'


class LGP1Complex64(_LGP, AbstractTidalModelComplex64):
    kind = 'lgp1'


class LGP1Complex128(_LGP, AbstractTidalModelComplex128):
    kind = 'lgp1'


class LGP2Complex64(_LGP, AbstractTidalModelComplex64):
    kind = 'lgp2'


class LGP2Complex128(_LGP, AbstractTidalModelComplex128):
    kind = 'lgp2'
