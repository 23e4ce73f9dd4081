"""C06: what may be missing or of another type is tested before it is used."""
from ..nulls import Nulls
from ..prog import short

ID = "C06"
DESC = ("Flow-sensitive null/type-state analysis (qa/nulls.py) of every function: a pointer obtained by a checked down-cast or from a function "
        "that can return NULL (computed bottom-up over the call graph) must be tested on every path before it is dereferenced, used as a call "
        "receiver or passed to a parameter which the callee dereferences untested (computed bottom-up). Obligation: one per site that yields "
        "such a pointer; violation: the dereferencing expression.")


def nulls(prog):
    if not hasattr(prog, "_nulls"):
        prog._nulls = Nulls(prog)
    return prog._nulls


def check(prog, res, tier):
    N = nulls(prog)
    res.count("functions_that_may_return_null", len(N.maynull))
    sites, bad, nf = {}, {}, 0
    for f in prog.fns.values():
        if not f.blocks or f.file.startswith("gen/") and short(f.id).startswith("yy") and short(f.id) != "yyparse":
            continue
        nf += 1
        for i, m in enumerate(f.nodes):
            if m and m["k"] in ("Cast", "Call"):
                why = N.sources(f, i)
                if why:
                    sites[(f.where(i), f.txt(i))] = (f, i, why)

        def rep(e, pa, site, how, f=f):
            bad.setdefault((f.where(site), f.txt(site)), {}).setdefault((f.where(e), how), (f, e, site))
        N.flow(f, frozenset(), rep)
    res.count("functions_analysed", nf)
    for k, (f, i, why) in sorted(sites.items(), key=lambda x: x[0]):
        vs = bad.get(k)
        rule = "C06.cast" if f.nodes[i]["k"] == "Cast" else "C06.lookup"
        if not vs:
            res.ok(rule, f.where(i), "%s (%s)" % (f.txt(i)[:80], why))
            continue
        for (at, how), (g, e, site) in sorted(vs.items()):
            res.bad(rule, g.short, "%s used by %s" % (g.txt(site)[:60], how), at,
                    "`%s` (%s, %s) is used here (%s) without a test on some path" % (g.txt(site)[:70], why, g.where(site), how))
    res.floor("sites_yielding_a_pointer_that_may_be_null", len(sites), 80)
    res.assumptions += ["references (dynamic_cast<T&>) throw on failure by the language",
                        "a test remains valid for a repeated call of the same accessor with the same arguments until one of them is assigned"]
