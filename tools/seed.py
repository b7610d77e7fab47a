#!/usr/bin/env python3
"""seed.py FILE.py [id ...]: write and validate the planted bugs defined in FILE.py (a list SEEDS) under /verif/seeded.

Each is applied to a scratch copy of /repo; the demonstration has to pass without and fail with the change, the stable
tests have to pass with it, and the property's check is run on the copy to see whether it notices."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import sys
import os
sys.path.insert(0, "src")
import warnings
warnings.filterwarnings("ignore")
import numpy as np
import astropy.units as u
import astropy.constants as c
from astropy.coordinates import SkyCoord
import legwork
from legwork import utils, strain, psd, evol, snr, source, visualisation


def fake(self):
    """the tables of harmonics are not part of the repository: any increasing function will do"""
    self.harmonics_required = lambda e: np.ceil(2 + 30 * np.asarray(e)).astype(int)
    self.max_strain_harmonic = lambda e: np.round(2 + 20 * np.asarray(e)).astype(int)


source.Source.create_harmonics_functions = fake
'''
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", **(env or {}))
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    for sid, prop, edits, needs, breaks, demo in ns["SEEDS"]:
        if want and sid not in want:
            continue
        d = os.path.join(VERIF, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="seed", dir="/tmp")
        try:
            sh("git clone -q /repo r", tmp)
            r = os.path.join(tmp, "r")
            with open(os.path.join(d, "demo.py"), "w") as fh:
                fh.write(PRE + demo.strip("\n") + "\n")
            with open(os.path.join(d, "demo.sh"), "w") as fh:
                fh.write(SH)
            with open(os.path.join(d, "meta.json"), "w") as fh:
                json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, fh, indent=1)
            a = sh("bash %s/demo.sh" % d, r)
            for f, old, new in edits:
                p = os.path.join(r, "src/legwork", f + ".py")
                s = open(p).read()
                if s.count(old) != 1:
                    print(sid, "edit matches", s.count(old), "times:", old[:60])
                    break
                open(p, "w").write(s.replace(old, new))
            else:
                open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", r).stdout)
                b = sh("bash %s/demo.sh" % d, r)
                tst = sh("PYTHONPATH=%s/src /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:cov -n 4 "
                         "-p no:randomly src/legwork/tests" % r, r)
                m = re.findall(r"FAILED (\S+)", tst.stdout)
                stable = [x for x in m if re.sub(r"^src/legwork/tests/(\w+)\.py::Test::", r"src.legwork.tests.\1.Test::", x)
                          in set(json.load(open("/opt/vp/BASELINE.json"))["stable"])]
                ck = sh("LEGWORK_SRC=%s/src timeout 900 python3 check.py %s" % (r, prop), VERIF, timeout=1000)
                where = re.findall(r"at: (.*)", ck.stdout)
                print("%-28s %s demo %d->%d  failing tests %d%s  check %s %s" % (
                    sid, prop, a.returncode, b.returncode, len(m), " " + str(stable[:3]) if stable else "",
                    "CAUGHT" if ck.returncode == 1 and "VIOLATION property=" + prop in ck.stdout
                    else "missed(%d)" % ck.returncode, (where[0] if where else ck.stdout[-90:].strip())[:90]))
                if a.returncode or not b.returncode:
                    print("   ", (a.stderr if a.returncode else b.stdout)[-300:])
        finally:
            shutil.rmtree(tmp)
        sys.stdout.flush()


main()
