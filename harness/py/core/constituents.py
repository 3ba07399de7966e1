from . import Constituent, IDS, NAMES


def known():
    return list(NAMES)


def parse(name):
    try:
        return Constituent(IDS[name.lower()])
    except KeyError:
        raise ValueError('unknown constituent: ' + name) from None


def name(ident):
    return NAMES[ident.value]
