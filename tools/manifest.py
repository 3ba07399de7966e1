#!/usr/bin/env python3
"""Rewrite MANIFEST.json from the table below and properties.jsonl."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ('TLC explores the TLA+ model within the stated bounds; the code is '
          'bound to it by recorded executions of the current sources, which '
          'TLC accepts or rejects. Trusted: TLC, the IEEE primitives of '
          'Reals64, the harness that records. ')
T = 'TLA+ specification, TLC model checking + trace validation of the code'
CHECKS = {
    'C06': 'Oracle (table of 75 constituents, node factors) cross-checked by '
           'TLC against the spherical triangle, the rate of V and compound '
           'relations on sampled dates; code compared for random dates and '
           'arbitrary elements at 1e-9.',
    'C07': 'Random dates over +-380 years, every formulae, update sequences; '
           'longitudes at 2e-9 rad.',
}
CHECKS.update({
    'C01': 'All batches of at most 3 (4) requests over 3 dates x 3 positions '
           'shared by up to 3 workers, in every interleaving; sampled ones '
           'and random batches replayed on Cartesian/LGP models with up to '
           '16 threads, also concurrently and under ThreadSanitizer.',
    'C02': 'Random models, data, formulae, exclusions, positions and dates; '
           'tide and long-period tide recomputed by the specification at '
           '1e-7 relative.',
    'C03': 'All histories of at most 2 (3) additions/declarations/removals '
           'over one constituent of each kind; sampled ones replayed with '
           'random constituents of that kind, plus random long histories.',
    'C19': 'All date sequences of length 4 (5) over 5 (6) ticks for tau 0..3; '
           'sampled ones replayed on the angle cache, and random batches on '
           'the evaluation with up to 3 threads.',
})
CHECKS.update({
    'C04': 'The relations are explored over every subset of 6 inferable '
           'constituents (linearity, idempotence, order, species); random '
           'values, flags and repeated inference replayed at 1e-11.',
    'C05': 'Every history of 2 declarations of 1-2 waves; principal lines '
           'compared with the arguments of the constituents; sampled '
           'histories and each constituent alone replayed at random dates '
           'and latitudes.',
    'C08': 'All 75 names in several cases and their neighbours, all '
           'identifiers, every table of at most 3 (5) of 10 constituents and '
           'random ones, in every view, copied, assigned, moved.',
    'C16': 'Least squares conditions and recovery evaluated by the '
           'specification on random series (up to 700 dates, 8 '
           'constituents); selection on both sides of the period of every '
           'constituent.',
    'C17': 'Every history of 3 (4) copies, moves, changes and computations '
           'on 3 tables; sampled ones and random computations replayed, also '
           'concurrently and under ThreadSanitizer.',
})
CHECKS.update({
    'C09': 'Every axis of at most 4 (5) points on a small lattice and every '
           'position of it, replayed scaled and shifted; random regular axes '
           '(ascending, descending, circular, wrapped) and irregular ones.',
    'C10': 'Every mask of a 2-cell grid in every orientation and layout at '
           'quarter-cell positions, 250 (all) replayed; random global and '
           'regional grids with several constituents.',
})
CHECKS.update({
    'C11': 'The mistaken and the exact search are explored over every small '
           'mesh of a lattice and every position of it; random global and '
           'regional meshes (crossing the antimeridian, with poles) are '
           'searched at interior, edge, vertex and outside positions.',
    'C12': 'Element polynomials, node order and masks are explored for one '
           'and two triangles; random LGP1/LGP2 models evaluated at vertices, '
           'edges and interior positions against the polynomial.',
    'C13': 'Every history of save, restore, mutation and query over two slots '
           'is explored; sampled ones replayed with axes, meshes, Cartesian '
           'and LGP models; restored objects are described, queried and '
           'compared with the saved one bit for bit.',
})
CHECKS.update({
    'C14': 'Every single (double) edit and cut of an abstract state is '
           'explored; real states of axes, meshes and models are cut at every '
           'byte, edited in every field and spliced, under sanitizers; '
           'whatever is restored must be sound.',
    'C15': 'The sharing algorithm (3 (4) items, 4 (5) threads, every set of '
           'failing items and refused threads) refines the contract and ends; '
           'real calls, with interposed thread creation and failing items, '
           'are checked event by event, also under ThreadSanitizer.',
    'C18': 'Every tuple of sizes up to 3 (4) at every entry point is decided '
           'by the specification and replayed on the real code under '
           'sanitizers, with larger nearly consistent requests; state before '
           'and after is compared byte for byte.',
})
CHECKS.update({
    'C20': 'Every history of 3 (4) lookups over network failures, full disks '
           'and ended processes, and every search of 3 (4) dates in a table '
           'of 3 entries, are explored and replayed on the Python package '
           'with its compiled core replaced by a stand-in; the official '
           'table, random tables, all units and date types.',
})
CHECKS.update({
    'C21': 'The expansion of every environment of 3 variables of 2 parts '
           'and the loading of every configuration of 2 sections of 2 (3) '
           'files, right or wrong in one way, are explored; sampled ones '
           'become real configuration files loaded by the Python package on '
           'stand-ins of netCDF4 and of the compiled core.',
    'C22': 'Every dictionary over 3 names and a foreign one, with every '
           'formulae and number of threads given or left out, is explored '
           'and replayed; these and sampled calls of every wrapper go '
           'through the Python package on a recording stand-in of the core, '
           'and TLC says what each call must hand over and give back.',
})
CHECKS.update({
 'C23': 'Calendar.tla defines the day number of a date and the instants of '
        'each unit; CalendarModel counts the days one by one through the '
        'years (1895-2045, 1-9999 in the thorough tier) against it and '
        'against the loop-free arithmetic. The conversions of '
        'include/fes/python are compiled on a small stand-in for pybind11 '
        '(harness/pybind) and called from Python on dates (every day of '
        'some years, month ends, both ends of the range), arrays of every '
        'unit, stride and order, and what must be refused; DateTrace judges '
        'each result. Bounds: sampled dates and values.',
})
CHECKS.update({
 'C24': 'src/python/core is compiled on a small stand-in for pybind11 '
        '(harness/pybind) and pyfes.core is driven from Python through the '
        'same sampled histories as C01-C07, C10-C14 and C17-C18; the same '
        'TLA+ trace specifications (WavesTrace, TableTrace, GeomTrace, '
        'PredictTrace), and BindTrace for what exists only in the bindings '
        '(enumerations, settings, sizes, leap seconds, the shapes of '
        'arrays), judge every result. Bounds: sampled histories; the '
        'stand-in replaces the real pybind11.',
})
NA = {}


def main():
    props = [json.loads(x) for x in open(ROOT + '/properties.jsonl')]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in CHECKS and os.path.exists('%s/checks/%s.py' %
                                          (ROOT, i.lower())):
            c = 'python3 bin/check.py ' + i
            checks.append({'property': i,
                           'quick_cmd': 'VERIF_TIER=quick ' + c,
                           'thorough_cmd': 'VERIF_TIER=thorough ' + c,
                           'evidence_file': 'evidence/%s.json' % i,
                           'technique': T, 'level': 'model_checking',
                           'level_note': COMMON + CHECKS[i]})
        else:
            na.append({'property': i,
                       'reason': NA.get(i, 'check not built yet')})
    m = {'version': 1,
         'setup_cmd': 'python3 bin/setup.py',
         'checks': checks, 'not_applicable': na,
         'notes': 'No hook is needed in /repo: the harnesses use the public '
                  'interface. Known and fixed findings: known_findings.json.'}
    with open(ROOT + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
