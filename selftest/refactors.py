#!/usr/bin/env python3
"""Behaviour-preserving edits on which every check has to stay quiet (developer test; no registered check uses it).
usage: refactors.py [name-substring ...] [--props=C04,C05] [--force=C11]; works on a scratch clone of /repo."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []


def r(name, props, *edits):
    R.append((name, props.split(), edits))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "refactor_list.py")).read())


def main():
    names = [a for a in sys.argv[1:] if not a.startswith("--")]
    only = [a[8:].split(",") for a in sys.argv[1:] if a.startswith("--props=")]
    force = [x for a in sys.argv[1:] if a.startswith("--force=") for x in a[8:].split(",")]
    d = tempfile.mkdtemp(prefix="qdref.")
    bad = 0
    try:
        subprocess.run(["git", "clone", "-q", os.environ.get("REF_REPO", "/repo"), d + "/r"], check=True)
        os.makedirs(d + "/r/_build/src", exist_ok=True)
        shutil.copy("/repo/_build/src/config.h", d + "/r/_build/src/")
        for name, props, edits in R:
            if names and not any(n in name for n in names):
                continue
            if force:
                props = force
            elif only:
                props = [p for p in props if p in only[0]]
                if not props:
                    continue
            for f, old, new in edits:
                p = os.path.join(d, "r/src", f)
                s = open(p).read()
                assert s.count(old) == 1, (name, f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            env = dict(os.environ, QD_REPO=d + "/r", **({"QD_TUCACHE": os.environ["QD_TUCACHE"]} if "QD_TUCACHE" in os.environ else {}))
            x = subprocess.run([sys.executable, V + "/check.py"] + props, env=env, capture_output=True, text=True)
            out = [l for l in (x.stdout + x.stderr).splitlines() if "obligations" not in l]
            print("%-40s %s rc=%d %s" % (name, ",".join(props), x.returncode, "ok" if x.returncode == 0 else "*** FALSE ALARM"))
            if x.returncode:
                bad += 1
                print("   " + "\n   ".join(o[:300] for o in out[:6]))
            subprocess.run(["git", "-C", d + "/r", "checkout", "-q", "--", "."], check=True)
    finally:
        shutil.rmtree(d)
    print("%d false alarms" % bad)
    return bad


sys.exit(main())
