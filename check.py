#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property from /repo's current source."""
import importlib, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from qa import core


def ensure_numpy():
    """the numeric analysis (C11) needs numpy, which comes with the tool environment"""
    try:
        import numpy
    except ImportError:
        vt = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
        if os.environ.get("QD_VT"):
            raise
        os.environ["QD_VT"] = "1"
        os.execv(vt, [vt] + sys.argv)


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    tier = "quick"
    for x in sys.argv[1:]:
        if x.startswith("--tier="):
            tier = x[7:]
    rc = 0
    if a == ["all"]:
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "qa", "rules")
        a = sorted(f[:-3] for f in os.listdir(d) if f.endswith(".py") and not f.startswith("_"))
    if "C11" in a:
        ensure_numpy()
    from qa import prog as pm
    prog = None
    if len(a) > 1:
        prog = pm.load()
    for p in a:
        m = importlib.import_module("qa.rules." + p.replace("-", "_"))
        r = core.run(m.ID, m.check, m.DESC, tier, prog)
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        print("ANALYSIS-BROKEN %s" % e, file=sys.stderr)
        sys.exit(4)
