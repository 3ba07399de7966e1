"""Stand-in for netCDF4: a data set is a JSON file (C21)."""
import json

import numpy


class Variable:
    def __init__(self, name, v):
        self.name = name
        data = numpy.array([float('nan') if x is None else x
                            for x in v['data']], dtype=v['dtype'])
        self._data = numpy.ma.masked_array(
            data, mask=[x is None for x in v['data']]).reshape(v['shape'])
        if not any(x is None for x in v['data']) and v.get('nomask'):
            self._data.mask = numpy.ma.nomask
        self.dimensions = tuple(v['dims'])
        if 'units' in v:
            self.units = v['units']

    def __getitem__(self, key):
        return self._data[key].copy()

    def __len__(self):
        return len(self._data)

    shape = property(lambda self: self._data.shape)
    dtype = property(lambda self: self._data.dtype)
    ndim = property(lambda self: self._data.ndim)
    size = property(lambda self: self._data.size)

    def ncattrs(self):
        return ['units'] if hasattr(self, 'units') else []

    def getncattr(self, name):
        return getattr(self, name)


class Dataset:
    def __init__(self, filename, mode='r', **_):
        if mode not in ('r', 'rb'):
            raise OSError('read only')
        with open(filename, encoding='utf-8') as stream:
            contents = json.load(stream)
        self.variables = {k: Variable(k, v) for k, v in contents.items()}

    def __getitem__(self, name):
        return self.variables[name]

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False

    def close(self):
        pass
