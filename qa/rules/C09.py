"""C09: no scalar, flag or pointer is used before it was given a value."""
from ..uninit import Uninit
from ..prog import short

ID = "C09"
DESC = ("Definite-assignment dataflow (qa/uninit.py) over the CFG of every function. Locals: each scalar, enum or pointer local declared without "
        "an initialiser must be assigned on every path before it is read; passing it by reference or address counts as assignment only "
        "when the callee assigns it on every normal return (bottom-up summaries; a sscanf whose result is ignored assigns nothing). Findings "
        "are re-examined with correlated conditions (repeated tests, boolean flags). Fields: each scalar or pointer field a used constructor "
        "may leave unset must not be readable before it is set: no method entered from outside reads it before writing it, transitively "
        "through calls on this. Obligation: one per tracked local, one per out-parameter of a function and one per scalar field and constructor.")


def uninit(prog):
    if not hasattr(prog, "_uninit"):
        prog._uninit = Uninit(prog)
        prog._uninit.exposures()
    return prog._uninit


def lib(f):
    return f.file.startswith("src/") and not f.file.endswith(".pb.cc")


def check(prog, res, tier):
    U = uninit(prog)
    nl = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if not lib(f) or not f.blocks:
            continue
        tr, bad = U.locals(f)
        nl += len(tr)
        seen = set()
        for v, x, g in sorted(bad, key=lambda b: (b[0], b[1])):
            if v in seen:
                continue
            seen.add(v)
            name = v.split(".")[-1]
            res.bad("C09.local", f.short, name, f.where(x), "local '%s' may be read here before it was assigned%s" % (
                name, " (by %s)" % g.short if g else ""))
        for v in tr:
            if v not in seen:
                res.ok("C09.local", f.where(), "%s: '%s' assigned before every read" % (f.short, v.split(".")[-1]))
    res.floor("locals_without_initialiser", nl, 300)
    for (fid, j), (pid, kind) in sorted(U._cand.items()):
        f = prog.fns[fid]
        if lib(f):
            res.ok("C09.out-parameter", f.where(), "%s: '%s' %s" % (f.short, pid.split(".")[-1],
                   "assigned on every normal return" if U.must[(fid, j)] else "may be left as it was: callers must have set it"))
    # fields
    used = U.used_ctors()
    outside = U.outside_reads()
    nf = 0
    for cls in sorted(prog.recs):
        if cls in U.lazy:
            continue
        cs = [f for f in U.ctors(cls) if not f.impl and lib(f)]
        names = [x["n"] for x in prog.recs[cls]["fields"] if U.scalar(x["t"]) and "n_elem" not in x]
        family = {cls} | set(prog.all_subs(cls))
        for c in cs:
            nf += len(names)
            miss = U.ctor_unset(c)
            for m in names:
                if m not in miss:
                    res.ok("C09.field", c.where(), "%s sets %s" % (short(c.id), m))
                    continue
                if c.id not in used:
                    res.ok("C09.field", c.where(), "%s: constructor is never used" % short(c.id))
                    continue
                hits = exposed(prog, U, family, cls, m, outside)
                if not hits:
                    res.ok("C09.field", c.where(), "%s leaves %s unset, every method sets it before reading it" % (short(c.id), m))
                    continue
                g, x = hits[0]
                res.bad("C09.field", short(c.id), m, c.where(),
                        "constructor may leave field '%s' unset, %s can read it (%s)" % (m, g.short, g.where(x)))
    res.floor("fields_times_constructors", nf, 100)
    res.assumptions += ["array elements and heap storage are not tracked, only scalar, enum, pointer and complex variables and fields",
                        "methods of an object that was never initialised (Init not called) are within the property"]


def exposed(prog, U, family, cls, m, outside):
    out = []
    for fid, ex in U.expo.items():
        f = prog.fns[fid]
        if m in ex and f.cls in family and entry(prog, U, f, family):
            out.append((f, ex[m]))
    for f, x in outside.get((cls, m), ()):
        out.append((f, x))
    return sorted(out, key=lambda h: (h[0].id, h[1]))


def entry(prog, U, f, family):
    """f may be the first operation on an object after its construction"""
    if f.raw.get("ctor"):
        return False
    if "~" in f.name or f.raw.get("virt") or not f.raw.get("priv"):
        return True
    for g, x in prog.callers[f.id]:
        n = g.nodes[x]
        if not (n.get("c") and g.nodes[n["c"][0]]["k"] == "This"):
            return True
    return False
