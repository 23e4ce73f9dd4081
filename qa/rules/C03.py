"""Every raised error reaches the user: throw operands, discarded errors, top-level handlers, swallowing handlers."""
from ..prog import short, forward
from ..extract import AnalysisBroken

ID = "C03"
EXC = "QDLIB::Exception"
DESC = ("Exception-flow analysis over all functions: (a) the static type of every throw operand derives from the library's exception "
        "class; (b) a re-raise stands inside a handler; (c) an exception object that is built is thrown (or handed on), not discarded; "
        "(d) in every program's main each call that can reach a throw (resolved call graph) is enclosed by a handler for the library's "
        "exception class, and constant propagation over the CFG from that handler shows a non-zero exit status on every path; "
        "(e) every handler below main raises again, reports the caught error or ends the program on every path, except the tabled "
        "end-of-series / format probes; (f) inside OpenMP regions no error leaves the region.")

# handlers that legitimately turn an error into control flow; value: why
SILENT = {
    "WFBuffer::ReadFromFiles": "the end of a file series is found by failing to open the next file",
    "DeCompress": "end of the file series (explicit maximum is checked)",
    "Compress": "end of the file series",
}
# handlers that may report and go on: the server, which answers the client
REPORT_CLASS = "QDLIB::CmdHandler"
SILENT_PREFIX = {"FileSingle::DetectFormat": "format probing: the other format is tried"}


def silent_ok(f):
    s = f.short
    import re
    s2 = re.sub(r"<[^<>]*(<[^<>]*>)?[^<>]*>", "", s)
    return s2 in SILENT or s2 in SILENT_PREFIX


def report_only_ok(p, f, depth=0):
    if f.cls == REPORT_CLASS:
        return True
    cs = p.callers[f.id]
    return depth < 3 and bool(cs) and all(report_only_ok(p, c, depth + 1) for c, _ in cs)


def is_stream(t):
    return "ostream" in t or "ofstream" in t or t.startswith("QDLIB::Logger")


def enclosing(f, i, kinds):
    return [a for a in f.ancestors(i) if f.nodes[a]["k"] in kinds]


def thrown(f, i):
    """the constructed exception i is raised, stored or handed on"""
    pa = f.parent.get(i)
    cur = i
    while pa is not None:
        n = f.nodes[pa]
        k = n["k"]
        if k in ("Throw", "Var", "Call", "New", "Return", "Assign", "InitList", "Decl"):
            if k == "Call" and n.get("m") and n["c"][0] == cur and not n.get("op"):
                # member call on a temporary: only what the call returns matters
                cur, pa = pa, f.parent.get(pa)
                continue
            return True
        if k == "Construct":
            return True
        if k in ("Cast", "Cond"):
            cur, pa = pa, f.parent.get(pa)
            continue
        if k == "Bin" and n["op"] == "," and n["c"][1] == cur:
            cur, pa = pa, f.parent.get(pa)
            continue
        return False
    return True   # constructor initialiser


def handler_paths(p, f, h, report_ok):
    """must-analysis over the handler's statements: does every path raise, (report) or exit?"""
    hn = f.nodes[h]
    var = None
    body = hn["c"][-1]
    if len(hn["c"]) > 1:
        var = f.nodes[hn["c"][0]]["d"]

    def uses(i):
        return var is not None and any(f.nodes[x]["k"] == "Ref" and f.nodes[x]["d"] == var for x in f.walk(i))

    def acts(i):
        """an expression that raises, exits or reports"""
        for x in f.walk(i):
            n = f.nodes[x]
            if n["k"] == "Throw":
                return True
            if n["k"] == "Call":
                if n.get("q", "").split("::")[-1] in ("exit", "abort", "_exit", "terminate", "rethrow_exception"):
                    return True
                if report_ok:
                    if n.get("op") == "<<" and n["c"] and ("stream" in f.ty(n["c"][0]) or "Logger" in f.ty(n["c"][0])):
                        return True
                    if any(uses(a) for a in f.args(x)) and p.callees(f, x) and not n.get("op"):
                        return True
                # helper that always raises / reports
                gs = p.callees(f, x)
                if gs and all(always_acts(g) for g in gs):
                    return True
            if report_ok and n["k"] == "Return" and n["c"] and uses(n["c"][0]):
                return True
            if report_ok and n["k"] == "Assign" and uses(n["c"][1]):
                return True
        return False

    def always_acts(g, seen=()):
        if not g.blocks:
            return False
        # must: no path from entry to exit without an acting node
        return not path_without(g, lambda e: act_node(g, e))

    def act_node(g, e):
        n = g.nodes[e]
        if n["k"] == "Throw":
            return True
        if n["k"] == "Call":
            if n.get("q", "").split("::")[-1] in ("exit", "abort", "_exit", "terminate"):
                return True
            if report_ok and n.get("op") == "<<" and n["c"] and ("stream" in g.ty(n["c"][0]) or "Logger" in g.ty(n["c"][0])):
                return True
        return False

    def must(i):
        if i < 0:
            return False
        n = f.nodes[i]
        k = n["k"]
        if k == "Compound":
            return any(must(c) for c in n["c"])
        if k == "If":
            if acts(n["cond"]):
                return True
            return must(n["then"]) and n["else"] >= 0 and must(n["else"])
        if k in ("For", "While"):
            return n["cond"] >= 0 and acts(n["cond"])
        if k == "Do":
            return must(n["body"]) or acts(n["cond"])
        if k == "Switch":
            return acts(n["cond"])
        if k == "Try":
            return must(n["c"][0])
        return acts(i)
    return must(body)


def path_without(g, act):
    st, seen = [g.entry], {g.entry}
    while st:
        b = g.blocks[st.pop()]
        if any(act(e) for e in b["e"]):
            continue
        if b["i"] == g.exit:
            return True
        for s in b["s"]:
            if s >= 0 and s not in seen:
                seen.add(s)
                st.append(s)
    return False


# ---- exit status of a handler in main: constant propagation of integer locals
def exit_states(p, f, h):
    body = f.nodes[h]["c"][-1]
    inside = set(f.walk(body))
    # first block executed: the one whose elements start the handler
    first = None
    tops = [b for b in f.blocks.values() if b["e"] and b["e"][0] in inside or b.get("label") == h]
    # prefer the block with no predecessor inside the handler
    cand = [b for b in tops if not any(set(f.blocks[q]["e"]) & inside for q, _ in f.preds[b["i"]])]
    if b_label := [b for b in f.blocks.values() if b.get("label") == h]:
        cand = b_label
    if not cand:
        raise AnalysisBroken("no CFG block for the handler at %s" % f.where(h))
    # values an integer local may have when an exception arrives: join over all its assignments in the function
    allv = {}
    for x in f.walk():
        n = f.nodes[x]
        if n["k"] == "Var" and n["d"].startswith("%"):
            allv.setdefault(n["d"], set()).add(const_of(f, n["c"][0], {}) if n["c"] else "?")
        elif n["k"] == "Assign" and f.nodes[n["c"][0]]["k"] == "Ref":
            if x in inside:
                continue
            allv.setdefault(f.nodes[n["c"][0]]["d"], set()).add(const_of(f, n["c"][1], {}) if n["op"] == "=" else "?")
    res = []
    for b0 in cand:
        start = b0["i"]
        seen = {}
        work = [(start, tuple(sorted((v, frozenset(s)) for v, s in allv.items())))]
        while work:
            bi, stt = work.pop()
            if (bi, stt) in seen:
                continue
            seen[(bi, stt)] = 1
            if len(seen) > 4000:
                raise AnalysisBroken("exit status analysis does not converge")
            b = f.blocks[bi]
            env = {v: set(s) for v, s in stt}
            done = False
            for e in b["e"]:
                n = f.nodes[e]
                if n["k"] == "Var" and n["d"].startswith("%"):
                    env[n["d"]] = {const_of(f, n["c"][0], env)} if n["c"] else {"?"}
                elif n["k"] == "Assign" and f.nodes[n["c"][0]]["k"] == "Ref":
                    env[f.nodes[n["c"][0]]["d"]] = vals_of(f, n["c"][1], env) if n["op"] == "=" else {"?"}
                elif n["k"] == "Call" and n.get("q", "").split("::")[-1] in ("exit", "_exit"):
                    res.append((e, vals_of(f, f.args(e)[0], env)))
                    done = True
                    break
                elif n["k"] == "Call" and n.get("q", "").split("::")[-1] in ("abort", "terminate"):
                    res.append((e, {1}))
                    done = True
                    break
                elif n["k"] == "Return":
                    res.append((e, vals_of(f, n["c"][0], env) if n["c"] else {0}))
                    done = True
                    break
                elif n["k"] == "Throw":
                    done = True
                    break
                elif n["k"] == "Call":
                    for g in p.callees(f, e):
                        v = helper_exit(p, f, e, g, env)
                        if v is not None:
                            res.append((e, v))
                            done = True
                    if done:
                        break
            if done or b.get("nr"):
                continue
            if bi == f.exit:
                res.append((None, {0}))
                continue
            if b["s"] and all(s == f.exit for s in b["s"] if s >= 0) or not b["s"]:
                res.append((None, {0}))
                continue
            nst = tuple(sorted((v, frozenset(s)) for v, s in env.items()))
            for s in b["s"]:
                if s >= 0:
                    work.append((s, nst))
    return res


def helper_exit(p, f, e, g, env):
    """a helper that ends the program: the exit values, None if it returns"""
    if not g.blocks or path_without(g, lambda x: g.nodes[x]["k"] == "Call" and g.nodes[x].get("q", "").split("::")[-1] in ("exit", "_exit", "abort")):
        return None
    out = set()
    for x, n in g.calls():
        if n.get("q", "").split("::")[-1] in ("exit", "_exit"):
            a = g.args(x)[0]
            an = g.nodes[a]
            if an["k"] == "Ref" and an["d"] in g.params:
                out |= vals_of(f, f.args(e)[g.params.index(an["d"])], env)
            else:
                out |= vals_of(g, a, {})
    return out or {1}


def const_of(f, i, env):
    v = vals_of(f, i, env)
    return next(iter(v)) if len(v) == 1 else "?"


def vals_of(f, i, env):
    n = f.nodes[i]
    if n["k"] == "Int" or n["k"] == "Bool":
        return {int(n["v"])}
    if "cv" in n:
        return {n["cv"]}
    if n["k"] == "Ref" and n["d"] in env:
        return set(env[n["d"]])
    if n["k"] == "Cond":
        return vals_of(f, n["c"][1], env) | vals_of(f, n["c"][2], env)
    if n["k"] == "Cast":
        return vals_of(f, n["c"][0], env)
    if n["k"] == "Un" and n["op"] == "-":
        return {(-v if v != "?" else v) for v in vals_of(f, n["c"][0], env)}
    if n["k"] == "Call" and n.get("cls") and any(True for _ in f.args(i)) is False and "Exception" in (n.get("cls") or ""):
        return {"code"}
    return {"?"}


def catches(p, ty):
    t = ty.replace("const ", "").replace("&", "").strip()
    return t == EXC or t == "..."


def guarded_by(p, f, x):
    """library-exception handlers around node x (innermost Try whose *block* contains x)"""
    out = []
    cur = x
    for a in f.ancestors(x):
        if f.nodes[a]["k"] == "Try" and f.nodes[a]["c"][0] == cur:
            hs = [h for h in f.nodes[a]["c"][1:] if catches(p, f.nodes[h]["ty"])]
            if hs:
                return hs
        cur = a
    return out


def writers(p):
    """functions that may write a file: reach of basic_ostream::write / protobuf serialisation"""
    if not hasattr(p, "_writers"):
        w = set()
        st = []
        for f in p.fns.values():
            for x, n in enumerate(f.nodes):
                if n is not None and n["k"] == "Call" and (n.get("q", "").endswith("SerializeToOstream") or
                        (n.get("q", "").startswith("std::basic_ostream") and n.get("fn") == "write"
                         and "stringstream" not in f.ty(f.recv(x)))):
                    w.add(f.id)
                    st.append(f)
                    break
        while st:
            f = st.pop()
            for g, _ in p.callers[f.id]:
                if g.id not in w:
                    w.add(g.id)
                    st.append(g)
        p._writers = w
    return p._writers


def writes_in_try(p, f, h):
    """first call in the try block guarded by handler h that may write a file"""
    t = next((a for a in f.ancestors(h) if f.nodes[a]["k"] == "Try"), None)
    if t is None:
        return None
    w = writers(p)
    for x in f.walk(f.nodes[t]["c"][0]):
        if f.nodes[x]["k"] == "Call" and any(g.id in w for g in p.callees(f, x)):
            return x
    return None


def escapes(p):
    """functions out of which a library exception may propagate (fixpoint, guarded calls excluded)"""
    esc = set()
    work = list(p.fns.values())
    callers = p.callers

    def may(f):
        for x, n in enumerate(f.nodes):
            if n is None:
                continue
            if n["k"] == "Throw":
                if not guarded_by(p, f, x):
                    return True
            elif n["k"] == "Call":
                if any(g.id in esc for g in p.callees(f, x)) and not guarded_by(p, f, x):
                    return True
            elif n["k"] == "Construct" and n["f"] in esc and not guarded_by(p, f, x):
                return True
        return False
    while work:
        nxt = {}
        for f in work:
            if f.id not in esc and may(f):
                esc.add(f.id)
                for g, _ in callers[f.id]:
                    nxt[g.id] = g
        work = [g for g in nxt.values() if g.id not in esc]
    return esc


def check(p, res, tier):
    fns = sorted(p.fns.values(), key=lambda f: f.id)
    nthrow = nh = 0
    for f in fns:
        for x in f.walk():
            n = f.nodes[x]
            if n["k"] == "Throw":
                nthrow += 1
                if not n["c"]:
                    if enclosing(f, x, ("Catch",)):
                        res.ok("rethrow-in-handler", f.where(x))
                    else:
                        res.bad("rethrow-in-handler", f.short, "throw;", f.where(x), "re-raises outside of a handler: the program is terminated")
                elif n["ty"].replace("const ", "") == EXC or EXC in n.get("bases", []):
                    res.ok("throw-type", f.where(x), n["ty"])
                else:
                    res.bad("throw-type", f.short, n["ty"], f.where(x), "throws a value of type '%s', which no error handler of the programs catches" % n["ty"])
            elif n["k"] == "Construct" and p.derives(n["cls"], EXC):
                if n.get("copy") and (f.parent.get(x) is None or f.nodes[f.parent[x]]["k"] in ("Var", "Throw", "Construct")):
                    continue
                if f.impl or f.raw.get("ctor") and f.parent.get(x) is None:
                    continue
                if thrown(f, x):
                    res.ok("error-not-discarded", f.where(x))
                else:
                    res.bad("error-not-discarded", f.short, short(n["cls"]), f.where(x), "an error object is built but never raised: '%s'" % f.txt(x)[:100])
    esc = escapes(p)
    mains = [f for f in fns if f.name == "main"]
    for f in mains:
        for x in f.walk():
            n = f.nodes[x]
            if n["k"] == "Call":
                g = [c for c in p.callees(f, x) if c.id in esc]
            elif n["k"] == "Construct":
                g = [p.fns[n["f"]]] if n["f"] in esc else []
            elif n["k"] == "Throw":
                g = [f]
            else:
                continue
            if not g or n["k"] == "Throw" and enclosing(f, x, ("Catch",)):
                if g:
                    res.bad("main-guard", f.file.split("/")[-1] + "::main", "throw", f.where(x), "main raises out of a handler")
                continue
            hs = guarded_by(p, f, x)
            what = n.get("fn") or short(n.get("cls", "throw"))
            prog_name = f.file.split("src/")[-1]
            if hs:
                res.ok("main-guard", f.where(x), "%s: %s" % (prog_name, what))
            else:
                res.bad("main-guard", prog_name, what, f.where(x), "can raise an error outside of main's error handlers")
    for f in fns:
        for x in f.walk():
            n = f.nodes[x]
            if n["k"] != "Catch":
                continue
            nh += 1
            if f.name == "main":
                vals = exit_states(p, f, x)
                prog_name = f.file.split("src/")[-1]
                badv = [(e, v) for e, v in vals if "?" in v or 0 in v]
                if not vals or badv:
                    e = badv[0][0] if badv else None
                    res.bad("main-exit-status", prog_name, n["ty"], f.where(e if e is not None else x),
                            "after an error the program can end with exit status %s" % (sorted(map(str, badv[0][1])) if badv else "?"))
                else:
                    res.ok("main-exit-status", f.where(x), "%s: every path exits with %s" % (prog_name, sorted({str(v) for _, s in vals for v in s})))
                if not handler_reports(p, f, x):
                    res.bad("main-reports", prog_name, n["ty"], f.where(x), "the handler ends the program without printing the error")
                else:
                    res.ok("main-reports", f.where(x))
                continue
            if handler_paths(p, f, x, False):
                res.ok("no-swallow", f.where(x), "%s: raises again or exits on every path" % f.short)
            elif report_only_ok(p, f) and handler_paths(p, f, x, True):
                res.ok("no-swallow", f.where(x), "%s: raises again, reports or exits on every path" % f.short)
            elif silent_ok(f) or (lambda cs: cs and all(silent_ok(c) for c, _ in cs))(p.callers[f.id]):
                w = writes_in_try(p, f, x)
                if w is not None:
                    res.bad("no-swallow", f.short, "write:" + f.nodes[w].get("fn", "?"), f.where(w),
                            "an error of '%s', which writes data, is taken for the end of a file series" % f.txt(w))
                else:
                    res.ok("no-swallow", f.where(x), "%s: tabled probe, guards reads only" % f.short)
            else:
                res.bad("no-swallow", f.short, n["ty"], f.where(x), "an error is caught and dropped on some path")
    # errors must not leave an OpenMP region
    for f in fns:
        for x in f.walk():
            n = f.nodes[x]
            if n["k"] != "OMP" or "parallel" not in n["omp"]:
                continue
            badc = None
            for y in f.walk(x):
                m = f.nodes[y]
                if y == x:
                    continue
                inreg = guarded_in(p, f, y, x)
                if inreg:
                    continue
                if m["k"] == "Throw":
                    badc = y
                elif m["k"] == "Call" and any(g.id in esc for g in p.callees(f, y)):
                    badc = y
                elif m["k"] == "Construct" and m["f"] in esc:
                    badc = y
                if badc is not None:
                    break
            if badc is None:
                res.ok("omp-no-escape", f.where(x), f.short)
            else:
                res.bad("omp-no-escape", f.short, f.txt(badc)[:60], f.where(badc), "an error raised here leaves the parallel region and terminates the program: '%s'" % f.txt(badc)[:80])
    res.floor("throw_sites", nthrow, 150)
    res.floor("handlers", nh, 8)
    res.floor("programs", len(mains), 3)
    res.count("functions_that_may_raise", len(esc))


def guarded_in(p, f, y, region):
    cur = y
    for a in f.ancestors(y):
        if a == region:
            return False
        if f.nodes[a]["k"] == "Try" and f.nodes[a]["c"][0] == cur and any(catches(p, f.nodes[h]["ty"]) for h in f.nodes[a]["c"][1:]):
            return True
        cur = a
    return False


def handler_reports(p, f, h):
    for x in f.walk(h):
        n = f.nodes[x]
        if n["k"] == "Call" and n.get("op") == "<<" and n["c"] and ("stream" in f.ty(n["c"][0]) or "Logger" in f.ty(n["c"][0])):
            return True
        if n["k"] == "Call" and (n.get("fn") in ("printf", "fprintf", "puts", "fputs", "perror")):
            return True
        if n["k"] == "Call" and p.callees(f, x) and not n.get("op") and n.get("fn") != "exit" and f.args(x):
            if any("Exception" in f.ty(a) for a in f.args(x)):
                return True
    return False
