#!/usr/bin/env python3
"""replay.py <property> <entry> <file.vals>: rebuild the harness entry natively from /repo and run it on a recorded counterexample."""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from specs import SPECS
pid, entry, vals = sys.argv[1:4]; sp = SPECS[pid]
for g in check.groups_of(sp):
    if any(e['name'] == entry for e in g['entries']):
        g = dict(g); wd = tempfile.mkdtemp()
        for k in ('shadow', 'flags', 'libs', 'rt'):
            if k in sp and k not in g: g[k] = sp[k]
        check.make_overlay(g, wd); fin, appi = check.build_bc(g, wd)
        rc, so, se = check.exec_native(check.native_bin(g, wd, entry, appi), vals); print(so, se, 'rc', rc); shutil.rmtree(wd); sys.exit(0 if rc == 0 else 1)
sys.exit(2)
