"""Sources stay untouched: typestate of every source object over every return path."""
from ..preserve import Preserve, contract_table, ids_named, WF
from ..prog import short

ID = "C01"
DESC = ("For every implementation of the source-taking slots (operator application, matrix element, expectation value, "
        "inner product, norm, assignment, accumulation, elementwise product, reduction, serialization, operator copy) a forward "
        "typestate analysis over the function's control-flow graph tracks the source object through the states "
        "X (as at entry) / K (switched to k-space, x-space data kept in the other buffer) / D (written); calls are resolved "
        "through the class hierarchy and replaced by the callee's own typestate effect, calls to a slot by the slot's contract, "
        "which is itself one of the obligations. Obligation: every normal exit is in state X.")

OP = "QDLIB::Operator"


def slots(p):
    con = contract_table(p)
    for n in ("Copy", "operator="):
        for i in ids_named(p, OP, n, 1, "Operator"):
            con.setdefault(i, set()).add("p0")
    for i in ids_named(p, "QDLIB::Serializiable", "Serialize", 1):
        con.setdefault(i, set()).add("this")
    return con


# trusted, not verified here: paging in the wave function buffer keeps its logical content (C-buffer property);
# FFT planning keeps the data (verified by its own rule)
TRUSTED = [("QDLIB::WFBuffer", "Get", "this"), ("QDLIB::WFBuffer", "operator[]", "this"),
           ("QDLIB::WFGridSystem", "CheckFFT", "this")]

# further functions whose argument is a source (no virtual slot, verified directly)
EXTRA = [("QDLIB::Reporter", "Analyze", "p0"), ("QDLIB::Reporter", "PsiInitial", "p0"), ("QDLIB::WFBuffer", "Set", "p1"),
         ("QDLIB::WFBuffer", "Add", "p0"), ("QDLIB::WFBuffer", "Init", "p0")]
FREE = [("QDLIB::DirectProduct", "p1"), ("QDLIB::DirectProductConjugate", "p1"), ("QDLIB::MatVecMult", "p1"),
        ("QDLIB::MatVecMult", "p2"), ("QDLIB::VecMax", "p0"), ("QDLIB::VecMin", "p0"), ("QDLIB::MultElements", "p1"),
        ("QDLIB::AddElements", "p1"), ("QDLIB::MultElementsAdd", "p1"), ("QDLIB::MultElementsCopy", "p1"),
        ("QDLIB::MultElementsConj", "p1"), ("QDLIB::MultElementsComplex", "p1"), ("QDLIB::ExpElements", "p1")]


def analyse(p):
    con = slots(p)
    ver = {k: set(v) for k, v in con.items()}
    for c, n, r in TRUSTED:
        for i in ids_named(p, c, n):
            con.setdefault(i, set()).add(r)
    for f in p.fns.values():    # counting one more user of an object leaves the object as it is
        if f.name == "Register" and (f.cls or "").startswith("QDLIB::Collector<"):
            con.setdefault(f.id, set()).add("p0")
    P = Preserve(p, con)
    obl = []
    for i in sorted(ver):
        if i in p.fns:
            for r in sorted(ver[i]):
                obl.append((p.fns[i], r))
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        for c, n, r in EXTRA:
            if f.cls == c and f.name == n:
                obl.append((f, r))
        for q, r in FREE:
            if f.q == q and int(r[1:]) < len(f.params):
                t = f.locals[f.params[int(r[1:])]]["t"]
                if t.strip().endswith(("*", "&")):
                    obl.append((f, r))
    return P, obl


def check(p, res, tier):
    P, obl = analyse(p)
    n = 0
    for f, r in obl:
        n += 1
        who = "receiver" if r == "this" else "argument '%s'" % f.params[int(r[1:])].split(".", 1)[-1]
        s = P.exits(f, r, "X")
        if s <= {"X"}:
            res.ok("source-preserved", f.where(), "%s: %s is given back unchanged" % (f.id.replace("QDLIB::", ""), who))
            continue
        for st in sorted(s - {"X"}):
            w, t = P.explain(f, r, "X", st)
            what = "may be left in k-space representation" if st == "K" else "may be modified"
            res.bad("source-preserved", f.short + "/" + r, st, w, "%s: %s %s by '%s'" % (f.id.replace("QDLIB::", ""), who, what, t))
    res.floor("obligations", n, 90)
    res.floor("transform_forward_impls", len(P.fwd), 3)
    res.assumptions += ["wave function source and destination of a call are distinct objects",
                        "external functions write only through non-const pointer/reference parameters",
                        "cached protobuf headers and parameter containers are bookkeeping, not wave function data"]
