"""Result collection, known findings, evidence, runner."""
import json, os, sys, time
from . import extract
from .extract import AnalysisBroken

VERIF = extract.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.obl = []          # (rule, site, ok, message, key)
        self.notes = []
        self.counts = {}
        self.assumptions = []

    def ok(self, rule, site, msg=""):
        self.obl.append((rule, site, True, msg, None))

    def bad(self, rule, fn, what, where, msg):
        """fn: function (short name), what: construct descriptor without line numbers"""
        key = "%s|%s|%s" % (rule, fn, what)
        if any(o[4] == key for o in self.obl):
            return
        self.obl.append((rule, where, False, msg, key))

    def note(self, s):
        self.notes.append(s)

    def count(self, name, n):
        self.counts[name] = n

    def floor(self, name, n, minimum):
        """instance count confirmed by hand; fewer means the analysis lost its anchors"""
        self.counts[name] = n
        if n < minimum:
            raise AnalysisBroken("%s: only %d instances of '%s' found, expected at least %d" % (self.prop, n, name, minimum))


def known():
    if not os.path.exists(KNOWN):
        return []
    return json.load(open(KNOWN))


def run(prop, rule_fn, desc, tier="quick", prog=None, quiet=False):
    """returns exit code"""
    t0 = time.time()
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    rep = os.path.join(ev_dir, prop + ".report.txt")
    res = Result(prop)
    try:
        from . import prog as progmod
        if prog is None:
            prog = progmod.load()
        rule_fn(prog, res, tier)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e), file=sys.stderr)
        return 3
    kf = [k for k in known() if k.get("property") == prop and k.get("status") == "known"]
    kkeys = {k["key"]: k for k in kf}
    bad = [o for o in res.obl if not o[2]]
    new = [o for o in bad if o[4] not in kkeys]
    old = [o for o in bad if o[4] in kkeys]
    rules = {}
    for o in res.obl:
        r = rules.setdefault(o[0], {"obligations": 0, "discharged": 0})
        r["obligations"] += 1
        r["discharged"] += 1 if o[2] else 0
    samples = []
    seen = {}
    for o in res.obl:
        if seen.get(o[0], 0) < 4:
            seen[o[0]] = seen.get(o[0], 0) + 1
            samples.append({"rule": o[0], "site": o[1], "holds": o[2], "detail": o[3]})
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": desc,
            "translation_units": len(prog.facts["tus"]),
            "functions_analysed": len(prog.fns),
            "obligations": len(res.obl),
            "discharged": sum(1 for o in res.obl if o[2]),
            "rules": rules,
            "counts": res.counts,
            "samples": samples[:40],
            "notes": res.notes[:60],
        },
        "assumptions": res.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    with open(rep, "w") as f:
        for o in res.obl:
            f.write("%s [%s] %s %s%s\n" % ("ok  " if o[2] else ("KNOWN" if o[4] in kkeys else "VIOLATION"), o[0], o[1], o[3], "" if o[2] else "   key=" + o[4]))
    for o in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, o[1], o[3]))
    for o in new:
        print("%s: [%s] %s   (key %s)" % (o[1], o[0], o[3], o[4]))
    if not quiet:
        print("%s: %d obligations, %d discharged, %d known, %d violations; %s" % (
            prop, len(res.obl), sum(1 for o in res.obl if o[2]), len(old), len(new), json.dumps(res.counts)))
    if new:
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    return 0
