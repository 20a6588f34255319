#!/usr/bin/env python3
"""Writes harness/ref_tables.inc from a dump of the spectral tables ("name v0 .. v399" per line).

The snapshot was taken once, from the tables of the pinned commit, after checking them for gaps, spikes,
negative values and against published values (see DESIGN.md, C20).  The checks never regenerate it."""
import sys
out = open(sys.argv[2], "w")
out.write("// Reference copy of the published spectral tables, 380..779 nm in steps of 1 nm (see tools/gen_ref_tables.py)\n")
names = []
for l in open(sys.argv[1]):
    p = l.split()
    assert len(p) == 401
    names.append(p[0])
    out.write("static const float REF_%s[400] = {" % p[0])
    out.write(",".join(v + ("f" if "." in v or "e" in v else ".f") for v in p[1:]) + "};\n")
out.write("struct RefTable { const char *name; const float *v; };\nstatic const RefTable REF_TABLES[%d] = {" % len(names))
out.write(",".join('{"%s",REF_%s}' % (n, n) for n in names) + "};\n")
