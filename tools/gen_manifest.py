#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('random differential testing of the matrix operations against double-precision linear algebra', 'float rounding bounds per entry; inversion judged where 16 eps*permanent/|det| < 2e-3'),
 'C02': ('random differential and algebraic-law testing of triple arithmetic', 'exact or one-rounding bounds per channel'),
 'C03': ('round-trip and differential testing against the chromaticity formulas in double', 'judged where the component sum is not dominated by cancellation'),
 'C04': ('differential testing against the CIE 1976 formula in double, plus round trips', 'breakpoint treated continuously, so either side is accepted within rounding'),
 'C05': ('differential testing against the hexcone in double, round trips and periodicity', 'hues of any magnitude; periodicity judged within the float spacing of the hue'),
 'C06': ('generated primary triangles and matrices against a double-precision construction', 'degenerate triangles discarded (counted)'),
 'C07': ('complete sweep of the named gamuts plus generated conversion chains, differential and metamorphic', 'published chromaticities transcribed in the harness'),
 'C08': ('complete sweep of named pairs plus generated whites, differential and metamorphic (identity, inverse, composition)', 'published white points transcribed in the harness'),
 'C09': ('round-trip testing of every curve, random values and strided sweeps over the representable floats', 'tolerances from the slope of the curve'),
 'C10': ('differential testing of every curve against the published formula in double, random and strided float sweeps; monotonicity', 'published constants transcribed in the harness'),
 'C11': ('differential and round-trip testing of ICtCp against double', 'cone responses in 0..10000 cd/m2 for the inverse direction'),
 'C12': ('differential, round-trip and metamorphic (scaling) testing of OKLab; output captured at the file descriptors', 'published matrices transcribed in the harness'),
 'C13': ('differential testing of CIEDE2000 against an independent double implementation, validated on the 34 published pairs', 'pairs whose hue difference is within rounding of 180 degrees may take either branch'),
 'C14': ('differential testing of the Euclidean differences, symmetry and triangle inequality', 'float rounding bounds'),
 'C15': ('differential testing against the locus integrated in double and the published spline; continuity and Duv geometry', 'ranges as stated in the property'),
 'C16': ('differential testing of sampling against linear interpolation in double, data in exactly sized heap blocks under AddressSanitizer', 'sample counts 2..500'),
 'C17': ('differential testing of spectrum arithmetic, complete sweep of single lines', 'sums within 420 roundings of the absolute terms, any summation order'),
 'C18': ("differential testing against Planck's law in double", 'temperatures 500..100000 K, wavelengths 200..3000 nm'),
 'C19': ('differential and metamorphic (linearity, symmetry) testing of observers, complete sweep of single lines', 'float summation bounds, any order'),
 'C20': ('complete sweep of every built-in table through every access path plus generated wavelengths', 'reference copy of the tables taken from the pinned commit, spot-checked against published landmarks'),
 'C21': ('differential and metamorphic testing of the simulated chart, complete sweep of line lights', 'reference reflectances as in C20'),
 'C22': ('generated systems against a double-precision Jacobi SVD pseudo-inverse, validity of the decomposition, hostile values under sanitizers', 'matrices up to 30x12; solution judged when no singular value is in the ambiguous zone of the cut-off'),
 'C23': ('generated patch lists against a double least-squares solution, permutation invariance', 'chart variant with exactly 24 patches'),
 'C24': ('stateful generation of write/read histories against an independent encoder', 'pointer slots in streams up to a little more than 2^24 bytes'),
 'C25': ('stateful model-based generation of stream histories against a byte-array model under AddressSanitizer and UBSan', 'streams up to a few thousand bytes; negative-shift UB of pre-C++20 not judged'),
 'C26': ('complete enumeration of all 2^32 floats against the double square root', 'exhaustive in the quick tier on 4 or more cores'),
 'C27': ('stateful generation of call histories over the whole API, replayed reordered, in fresh processes, in other surroundings (memory contents, environment, clock, locale) and from several threads (ThreadSanitizer)', 'schedules are those the operating system and ThreadSanitizer produce, not enumerated'),
 'C29': ('generated calls of the whole API compared between differently compiled copies of the library (differential)', 'g++ 13 and clang++ 18 on x86-64; seven configurations besides the reference, no -ffast-math, no -march'),
 'C28': ('generated programs evaluated by the compiler and at run time, compared', 'g++ 13 as the constant evaluator'),
}
checks = []
for i, (t, n) in sorted(T.items()):
    checks.append(dict(property=i, quick_cmd='python3 run.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 run.py ' + i, evidence_file='evidence/%s.json' % i,
                       technique='property-based testing: ' + t, level='exploration',
                       level_note='Generated-input search, no proof of absence%s. %s. Trusts the oracle code in harness/, g++ and IEEE arithmetic.' %
                       (' (but the space is enumerated completely)' if i == 'C26' else '', n[0].upper() + n[1:])))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=[],
         notes='No hooks in /repo: all properties are observed through the public API. run.py <id> --replay <file> re-runs a saved failing case.')
with open(os.path.join(R, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
