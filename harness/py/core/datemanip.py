import datetime


def as_int64(date):
    if not isinstance(date, datetime.datetime):
        raise TypeError('a datetime is expected')
    if date.tzinfo is not None:
        raise ValueError('only naive datetimes')
    d = date - datetime.datetime(1970, 1, 1)
    return (d.days * 86400 + d.seconds) * 1000000 + d.microseconds


def as_float64(date):
    return as_int64(date) * 1e-6
