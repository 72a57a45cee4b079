#!/usr/bin/env python3
"""Compare the Java overrides of the specification with its TLA+ definitions.

Copies of the overridden modules under other names are evaluated by TLC as
written and compared with the overridden operators on random arguments.
"""
import os
import re
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lpxlib as L


def run(n=150, seed=5):
    tmp = tempfile.mkdtemp(prefix="lpxself.")
    try:
        for f in os.listdir(L.SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(L.SPEC, f), tmp)
        for m in ("Rat", "LinProg", "Lang"):
            with open(os.path.join(L.SPEC, m + ".tla")) as f:
                s = f.read()
            s = re.sub(r"MODULE %s\b" % m, "MODULE %sDef" % m, s)
            with open(os.path.join(tmp, m + "Def.tla"), "w") as f:
                f.write(s)
        with open(os.path.join(tmp, "SelfTest.cfg"), "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANT N = %d\nINVARIANTS RatAgree LinAgree Kinds DecOnce\nCHECK_DEADLOCK FALSE\n" % n)
        rc, out, gen, dis = L.tlc("SelfTest", spec_dir=tmp, seed=seed)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    kinds = sorted(set(re.findall(r'<<"KIND", "(\w+)", (\w+)>>', out)))
    return rc, dis, kinds, out


if __name__ == "__main__":
    rc, dis, kinds, out = run(*[int(x) for x in sys.argv[1:]])
    print("overrides agree with their definitions on %d random systems (%s)" % (dis, kinds) if rc == 0 else out)
    sys.exit(0 if rc == 0 else 3)
