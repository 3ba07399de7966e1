"""Drives the conversions of dates of the bindings (argv: probe.so)."""
import datetime
import importlib.machinery
import importlib.util
import sys

import numpy

from proto import emit, real, serve

spec = importlib.util.spec_from_file_location(
    'pyfes.probe', sys.argv[1],
    loader=importlib.machinery.ExtensionFileLoader('pyfes.probe', sys.argv[1]))
P = importlib.util.module_from_spec(spec)
spec.loader.exec_module(P)


class Sub(datetime.datetime):
    """A kind of datetime."""


def instant(us):
    """[day, second, microsecond] of a count of microseconds."""
    if not isinstance(us, int) or isinstance(us, bool):
        return repr(us)
    s, us = divmod(us, 10 ** 6)
    d, s = divmod(s, 86400)
    return [d, s, us] if abs(d) < 2 ** 31 else repr(d)


def attempt(f, *a):
    try:
        return f(*a), ''
    except Exception as err:
        return None, type(err).__name__


def both(x):
    i, raised = attempt(P.as_int64, x)
    f, fraised = attempt(P.as_float64, x)
    if raised or fraised:
        return {'raised': raised or fraised, 'fraised': fraised or '-'}
    return {'raised': '', 'int': instant(i), 'float': real(f)}


def op_date(c):
    f = [c[k] for k in ('y', 'mo', 'd', 'h', 'mi', 's', 'us')]
    d = (Sub if c.get('sub') else datetime.datetime)(*f, fold=c.get('fold', 0))
    emit(**c, **both(d))


OTHER = {
    'utc': lambda d: d.replace(tzinfo=datetime.timezone.utc),
    'aware': lambda d: d.replace(
        tzinfo=datetime.timezone(datetime.timedelta(hours=2))),
    'none': lambda d: None,
    'date': lambda d: d.date(),
    'time': lambda d: d.time(),
    'delta': lambda d: d - datetime.datetime(1970, 1, 1),
    'str': lambda d: d.isoformat(),
    'int': lambda d: int((d - datetime.datetime(1970, 1, 1)).total_seconds()),
    'float': lambda d: (d - datetime.datetime(1970, 1, 1)).total_seconds(),
    'scalar': lambda d: numpy.datetime64(d, 'us'),
    'list': lambda d: [d],
    'type': lambda d: datetime.datetime,
}


def op_other(c):
    f = [c[k] for k in ('y', 'mo', 'd', 'h', 'mi', 's', 'us')]
    emit(**c, **both(OTHER[c['kind']](datetime.datetime(*f))))


def array(c):
    v = [-2 ** 63 if x == 'NaT' else int(x) for x in c['v']]
    a = numpy.array(v, dtype='int64').view('datetime64[%s]' % c['unit'])
    k = c['kind']
    if k == 'strided':
        b = numpy.full(3 * len(a) + 1, 7, dtype='int64').view(a.dtype)
        b[1::3] = a
        a = b[1::3]
    elif k == 'reversed':
        a = a[::-1].copy()[::-1]
    elif k == 'readonly':
        a.setflags(write=False)
    elif k == 'column':
        b = numpy.zeros((len(a), 3), dtype=a.dtype)
        b[:, 1] = a
        a = b[:, 1]
    elif k == 'swapped':
        a = a.astype(a.dtype.newbyteorder('>'))
    elif k == 'matrix':
        a = a.reshape(1, -1)
    elif k == 'none':
        a = a.reshape(())
    elif k == 'int':
        a = a.view('int64')
    elif k == 'float':
        a = a.view('int64').astype('float64')
    elif k == 'delta':
        a = a.view('timedelta64[%s]' % c['unit'])
    elif k == 'object':
        a = a.astype('object')
    elif k == 'str':
        a = a.astype('str')
    return a


def op_array(c):
    a = array(c)
    old = a.copy()
    r, raised = attempt(P.to_epoch, a)
    same = a.tobytes() == old.tobytes()
    emit(**c, raised=raised, same=same,
         result=[] if raised else [real(x) for x in r])


def op_both(c):
    """Instants of a unit, also given in a finer one."""
    a = array(dict(c, kind='plain'))
    b = a.astype('datetime64[%s]' % c['finer'])
    x, e = attempt(P.to_epoch, a)
    y, f = attempt(P.to_epoch, b)
    if e or f:
        return emit(op='refused', a=e, b=f)
    emit(op='both', a=[real(v) for v in x], b=[real(v) for v in y])


def op_client(c):
    """Datetimes, also given in an array of microseconds."""
    d = [datetime.datetime(1970, 1, 1) + datetime.timedelta(x[0], x[1], x[2])
         for x in c['at']]
    x = [attempt(P.as_float64, v) for v in d]
    y, f = attempt(P.to_epoch, numpy.array(d, dtype='datetime64[us]'))
    z = [attempt(P.as_int64, v) for v in d]
    if f or any(e for _, e in x + z):
        return emit(op='refused')
    w, f = attempt(P.to_epoch, numpy.array([v for v, _ in z], dtype='int64')
                   .view('datetime64[us]'))
    if f:
        return emit(op='refused')
    emit(op='client', a=[real(v) for v, _ in x], b=[real(v) for v in y])
    emit(op='client', a=[real(v) for v in w], b=[real(v) for v in y])


serve(globals())
