"""OpenMP regions: no unsynchronised shared writes, complete reductions, no lost or uninitialised private copies."""
import re
from ..effects import Effects, is_ptr, is_ref
from ..prog import short

ID = "C02"
DESC = ("For every OpenMP parallel construct of the compiled program the data-sharing attributes are derived (clauses, "
        "worksharing loop variables, declarations inside) and every write in the region -- direct, through pointers and "
        "references, or inside callees by interprocedural effect summaries -- must hit private memory, an element selected by the "
        "worksharing index, a reduction variable updated with its own operator, or be inside critical/atomic/single/master. "
        "Private copies must be assigned before use in every iteration and their values must not be read after the region; data "
        "written by one iteration must not be read at another index.")

SYNC = ("critical", "atomic", "single", "master", "masked", "ordered")
RED_OPS = {"operator+": {"+=", "-=", "++", "--"}, "operator-": {"+=", "-="}, "operator*": {"*="}, "operator&&": {"&="}, "operator||": {"|="},
           "operator&": {"&="}, "operator|": {"|="}, "max": set(), "min": set()}


class Region:
    def __init__(self, f, node, eff, env, pidx):
        self.f, self.node, self.eff, self.env, self.pidx = f, node, eff, env, pidx
        self.n = f.nodes[node]
        self.body = [c for c in self.n.get("c", ()) if c >= 0]
        self.nodes = [x for c in self.body for x in f.walk(c)]
        self.nodeset = set(self.nodes)
        self.clauses = list(self.n.get("clauses", ()))
        self.inner = [x for x in self.nodes if f.nodes[x]["k"] == "OMP"]
        # a nested parallel construct is a region of its own
        self.nested = set()
        for x in self.inner:
            if "parallel" in f.nodes[x]["omp"]:
                self.nested |= set(f.walk(x)) - {x}
        self.priv, self.first, self.red, self.loopv = set(), set(), {}, set()
        for o in [node] + [x for x in self.inner if x not in self.nested]:
            for c in f.nodes[o].get("clauses", ()):
                if c["k"] in ("private", "lastprivate", "linear"):
                    self.priv |= set(c["vars"])
                elif c["k"] == "firstprivate":
                    self.first |= set(c["vars"])
                elif c["k"] == "reduction":
                    for v in c["vars"]:
                        self.red[v] = c.get("op", "?")
            if o != node or "for" in self.n["omp"]:
                if "for" in f.nodes[o]["omp"] and not ("parallel" in f.nodes[o]["omp"] and o != node):
                    self.loopv |= self.loop_vars(o)
        self.local = {f.nodes[x]["d"] for x in self.nodes if f.nodes[x]["k"] == "Var" and not f.locals[f.nodes[x]["d"]].get("s")}
        self.last = {v for o in [node] + self.inner for c in f.nodes[o].get("clauses", ()) if c["k"] == "lastprivate" for v in c["vars"]}
        self.taint = self.solve_taint()

    def loop_vars(self, o):
        f = self.f
        out = set()
        for x in f.walk(o):
            if f.nodes[x]["k"] == "For":
                init = f.nodes[x].get("init", -1)
                if init is not None and init >= 0:
                    for y in f.walk(init):
                        m = f.nodes[y]
                        if m["k"] == "Var":
                            out.add(m["d"])
                        elif m["k"] == "Assign" and f.nodes[m["c"][0]]["k"] == "Ref":
                            out.add(f.nodes[m["c"][0]]["d"])
                return out
        return out

    def private(self, d):
        return d in self.priv or d in self.first or d in self.loopv or d in self.local or d in self.red

    def solve_taint(self):
        """private variables whose value differs between iterations of the worksharing loop (or threads)"""
        f = self.f
        t = set(self.loopv)
        for _ in range(8):
            before = len(t)
            for x in self.nodes:
                n = f.nodes[x]
                if n["k"] == "Var" and n.get("c") and n["d"] in self.local and self.tainted(n["c"][0], t):
                    t.add(n["d"])
                elif n["k"] == "Assign" and f.nodes[n["c"][0]]["k"] == "Ref":
                    d = f.nodes[n["c"][0]]["d"]
                    if self.private(d) and self.tainted(n["c"][1], t):
                        t.add(d)
            if len(t) == before:
                break
        # a plain '=' from something index independent destroys distinctness
        for x in self.nodes:
            n = f.nodes[x]
            if n["k"] == "Assign" and n["op"] == "=" and f.nodes[n["c"][0]]["k"] == "Ref":
                d = f.nodes[n["c"][0]]["d"]
                if d in t and d not in self.loopv and not self.tainted(n["c"][1], t):
                    t.discard(d)
        return t

    def tainted(self, x, t=None):
        """value certainly distinguishes the worksharing iterations: built from the index by +, -, * and addressing"""
        f = self.f
        t = self.taint if t is None else t
        if x < 0:
            return False
        n = f.nodes[x]
        k = n["k"]
        c = n.get("c", ())
        if k == "Ref":
            return n["d"] in t
        if k == "Bin":
            if n["op"] in ("+", "-"):
                return any(self.tainted(y, t) for y in c)
            if n["op"] == "*":
                return any(self.tainted(y, t) for y in c) and not any(f.nodes[y].get("cv") == 0 for y in c)
            if n["op"] == "<<":
                return self.tainted(c[0], t)
            return False
        if k == "Un":
            return n["op"] in ("&", "*", "-", "+", "++", "--") and self.tainted(c[0], t)
        if k == "Index":
            return any(self.tainted(y, t) for y in c)
        if k == "Member":
            return bool(c) and self.tainted(c[0], t)
        if k == "Cast":
            return bool(c) and self.tainted(c[0], t)
        if k == "Call":
            if n.get("fn", "").startswith("omp_get_thread_num"):
                return True
            return any(self.tainted(y, t) for y in c if y >= 0)
        if k in ("Assign",):
            return self.tainted(c[1], t)
        return False

    def base(self, x):
        """root of an lvalue / address: ('var', id) | ('this',) | ('other', node)"""
        f = self.f
        while True:
            n = f.nodes[x]
            k = n["k"]
            c = n.get("c", ())
            if k == "Ref":
                return ("var", n["d"])
            if k == "This":
                return ("this",)
            if k in ("Member", "Un", "Index", "Cast") and c:
                x = c[0]
                continue
            if k == "Bin" and n["op"] in ("+", "-") and c:
                x = c[0] if is_ptr(f.ty(c[0])) or not is_ptr(f.ty(c[1])) else c[1]
                continue
            if k == "Call" and (n.get("m") or n.get("op")) and c:
                x = c[0]
                continue
            return ("other", x)

    def sync(self, x):
        """innermost synchronising construct around x inside the region"""
        for a in self.f.ancestors(x):
            if a == self.node:
                return None
            n = self.f.nodes[a]
            if n["k"] == "OMP" and n["omp"] in SYNC:
                return (n["omp"], n.get("name") or "", a)
        return None

    def is_loop_control(self, x):
        for a in [x] + list(self.f.ancestors(x)):
            n = self.f.nodes[a]
            if n["k"] == "For":
                return False
        return False


def norm_txt(f, x):
    return re.sub(r"\s+", "", f.txt(x))


def check_region(p, res, f, node, eff, env, pidx):
    R = Region(f, node, eff, env, pidx)
    nbad = 0
    name = f.short

    def bad(kind, x, what, msg):
        nonlocal nbad
        nbad += 1
        res.bad(kind, name, what, f.where(x), "in the parallel region at line %d of %s: %s" % (f.nodes[node]["l"], f.short, msg))

    writes = []        # (node, lhs/address expr, kind) shared element writes
    critical_vars = {}
    for x in R.nodes:
        if x in R.nested:
            continue
        n = f.nodes[x]
        k = n["k"]
        if k == "Assign" or (k == "Un" and n["op"] in ("++", "--")):
            check_write(R, x, n["c"][0], n, bad, writes, critical_vars)
        elif k in ("Call", "Construct", "Delete", "New"):
            check_call(p, R, x, n, eff, bad, writes)
        elif k == "Throw":
            if not any(f.nodes[a]["k"] == "Try" for a in f.ancestors(x) if a in R.nodeset):
                bad("no-throw-out", x, "throw", "an exception leaves the region")
    # nested parallel constructs: what they write through shared addresses is written by this region's threads, too
    ipriv = {}
    for x in R.nodes:
        if x not in R.nested:
            continue
        n = f.nodes[x]
        inner = [a for a in f.ancestors(x) if f.nodes[a]["k"] == "OMP" and "parallel" in f.nodes[a]["omp"]]
        if inner[0] not in ipriv:
            ipriv[inner[0]] = Region(f, inner[0], eff, env, pidx)
        ip = ipriv[inner[0]]
        if n["k"] == "Assign" or (n["k"] == "Un" and n["op"] in ("++", "--")):
            b = R.base(n["c"][0])
            if b[0] == "var" and ip.private(b[1]) and b[1] not in ip.red and not is_ptr(f.locals[b[1]]["t"]):
                continue
            check_write(R, x, n["c"][0], n, bad, writes, critical_vars)
        elif n["k"] == "Call":
            if n.get("c") and n.get("op") not in ("[]",):
                b = R.base(n["c"][0])
                if b[0] == "var" and b[1].startswith("%") and ip.private(b[1]) and not is_ptr(f.locals[b[1]]["t"]):
                    continue
            check_call(p, R, x, n, eff, bad, writes)
    # reads of elements another iteration writes
    wroots = {}
    for (x, e) in writes:
        if f.nodes[e]["k"] not in ("Index", "Call", "Un", "Member"):
            continue
        a = access(f, e)
        if a:
            wroots.setdefault(a[0], []).append((x, a[1], e))
    for x in R.nodes:
        n = f.nodes[x]
        if n["k"] in ("Index",) or (n["k"] == "Call" and n.get("op") == "[]"):
            a = access(f, x)
            if not a or a[0] not in wroots:
                continue
            idxs = {w[1] for w in wroots[a[0]]}
            if a[1] not in idxs and not any(x in f.walk(w[2]) for w in wroots[a[0]]):
                # same element set up to locals: compare with the local definitions substituted
                if subst(R, a[1]) in {subst(R, i) for i in idxs}:
                    continue
                bad("iteration-independent", x, "read:" + norm_txt(f, x),
                    "element '%s' is read while other iterations write '%s[%s]'" % (f.txt(x), a[0].split(".")[-1], "|".join(sorted(idxs))))
    # protected scalars must be protected everywhere
    for v, (nm, at) in critical_vars.items():
        for x in R.nodes:
            if f.nodes[x]["k"] == "Ref" and f.nodes[x]["d"] == v:
                s = R.sync(x)
                if s is None or (s[0] == "critical" and s[1] != nm):
                    bad("protected-everywhere", x, "unprotected:" + v.split(".")[-1], "'%s' is accessed outside the critical section that protects it" % v.split(".")[-1])
    # private copies: assigned before use, value not needed afterwards
    for v in sorted(R.priv - R.loopv - R.first - set(R.red)):
        if not v.startswith("%"):
            continue
        if pod(f.locals[v]["t"]):
            r = use_before_def(R, v)
            if r is not None:
                bad("private-initialised", r, "uninit:" + v.split(".")[-1], "private copy of '%s' is read before it is assigned" % v.split(".")[-1])
    for v in sorted((R.priv | R.first | R.loopv) - R.last - R.local - set(R.red)):
        if v.startswith("%") and written_in(R, v):
            r = read_after(R, v)
            if r is not None:
                bad("no-lost-result", r, "lost:" + v.split(".")[-1], "'%s' is private in the region but its value is read after it" % v.split(".")[-1])
    # loop-carried values in first-private copies of a worksharing loop are partial sums: they must be combined
    for v in sorted(R.first):
        if v.startswith("%") and written_in(R, v):
            used = [x for x in R.nodes if f.nodes[x]["k"] == "Ref" and f.nodes[x]["d"] == v and R.sync(x) and R.sync(x)[0] in ("critical", "atomic")]
            if not used:
                bad("partial-combined", node, "partial:" + v.split(".")[-1], "the per-thread value of '%s' is never combined" % v.split(".")[-1])
    # nowait worksharing: nothing after it in the region may touch what the loop writes
    for o in R.inner:
        if o in R.nested:
            continue
        if any(c["k"] == "nowait" for c in f.nodes[o].get("clauses", ())):
            inside = set(f.walk(o))
            wr = {access(f, e)[0] for (x, e) in writes if x in inside and access(f, e)}
            end = max(inside)
            for x in R.nodes:
                if x > end and f.nodes[x]["k"] in ("Index", "Call") and access(f, x) and access(f, x)[0] in wr:
                    bad("nowait", x, "nowait", "'%s' is used after a nowait loop that writes it" % f.txt(x))
                    break
    if nbad == 0:
        res.ok("region-race-free", f.where(node), "%s: '%s', %d nodes, %d shared element writes, private {%s}, reductions {%s}" % (
            f.short, f.nodes[node]["omp"], len(R.nodes), len(writes),
            ", ".join(sorted(v.split(".")[-1] for v in R.priv | R.first | R.loopv)), ", ".join(sorted(v.split(".")[-1] for v in R.red))))
    return len(writes)


def pod(t):
    return t.strip().endswith("*") or t.strip() in ("int", "unsigned int", "long", "unsigned long", "double", "float", "bool", "char", "lint")


def access(f, x):
    """(array path, index text) of a subscript expression (fields of elements ignored)"""
    n = f.nodes[x]
    while n["k"] == "Member" or (n["k"] == "Call" and n.get("m") and not n.get("op") and n.get("c")) or (n["k"] == "Cast" and n.get("c")):
        if n["k"] == "Call" and n.get("cls") not in ("QDLIB::dcomplex",):
            return None
        if n["k"] == "Member" and not n.get("c"):
            return None
        x = n["c"][0]
        n = f.nodes[x]
        if n["k"] == "This":
            return None
    if n["k"] == "Index" or (n["k"] == "Call" and n.get("op") in ("[]", "()")):
        b = f.path(n["c"][0])
        if b is None:
            return None
        return (b, ",".join(norm_txt(f, y) for y in n["c"][1:]))
    if n["k"] == "Un" and n["op"] == "*":
        m = f.nodes[n["c"][0]]
        if m["k"] == "Bin" and m["op"] == "+":
            b = f.path(m["c"][0])
            if b:
                return (b, norm_txt(f, m["c"][1]))
    return None


def subst(R, idx):
    """index text with once-assigned region locals replaced by their initialiser"""
    f = R.f
    for _ in range(4):
        for x in R.nodes:
            n = f.nodes[x]
            if n["k"] == "Var" and n.get("c") and n["d"] in R.local:
                nm = n["d"].split(".", 1)[-1]
                writes = sum(1 for y in R.nodes if f.nodes[y]["k"] in ("Assign", "Un") and f.nodes[y].get("op") not in ("*", "&", "-", "!", "~", "+")
                             and f.nodes[f.nodes[y]["c"][0]]["k"] == "Ref" and f.nodes[f.nodes[y]["c"][0]]["d"] == n["d"])
                if writes == 0:
                    idx = re.sub(r"\b%s\b" % re.escape(nm), norm_txt(f, n["c"][0]), idx)
    return idx


def written_in(R, v):
    f = R.f
    for x in R.nodes:
        n = f.nodes[x]
        if (n["k"] == "Assign" or (n["k"] == "Un" and n["op"] in ("++", "--"))) and f.nodes[n["c"][0]]["k"] == "Ref" and f.nodes[n["c"][0]]["d"] == v:
            return True
        if n["k"] == "Call" and n.get("op") in ("=", "+=", "-=", "*=", "/=") and n.get("c") and f.nodes[n["c"][0]]["k"] == "Ref" and f.nodes[n["c"][0]]["d"] == v:
            return True
    return False


def check_write(R, x, lhs, n, bad, writes, critical_vars):
    f = R.f
    ln = f.nodes[lhs]
    while ln["k"] in ("Cast",) and ln.get("c"):
        lhs = ln["c"][0]
        ln = f.nodes[lhs]
    if ln["k"] == "Ref":
        d = ln["d"]
        s = R.sync(x)
        if d.startswith("%") and is_ref(f.locals[d]["t"]) and d in R.local:
            # reference bound inside the region: judge what it is bound to
            for y in R.nodes:
                m = f.nodes[y]
                if m["k"] == "Var" and m["d"] == d and m.get("c"):
                    return check_write(R, x, m["c"][0], n, bad, writes, critical_vars)
        if d in R.red:
            op = n.get("op")
            good = RED_OPS.get(R.red[d], set())
            if n["k"] == "Assign" and op == "=":
                r = f.nodes[n["c"][1]]
                want = R.red[d].replace("operator", "")
                if r["k"] == "Bin" and r["op"] == want and any(f.nodes[y]["k"] == "Ref" and f.nodes[y]["d"] == d for y in r["c"]):
                    return
                bad("reduction-operator", x, "reduction:" + d.split(".")[-1], "reduction variable '%s' is overwritten by '%s'" % (d.split(".")[-1], f.txt(x)))
            elif op not in good:
                bad("reduction-operator", x, "reduction:" + d.split(".")[-1], "reduction(%s) variable updated by '%s'" % (R.red[d], f.txt(x)))
            return
        if R.private(d) and not (d.startswith("%") and is_ref(f.locals[d]["t"]) and d not in R.local):
            return
        if s:
            if s[0] in ("critical", "atomic"):
                critical_vars[d] = (s[1], x)
            return
        bad("shared-write", x, "write:" + d.split(".")[-1], "shared variable '%s' is written without synchronisation ('%s')" % (d.split(".")[-1], f.txt(x)))
        return
    judge_address(R, x, lhs, bad, writes, f.txt(x))


def judge_address(R, x, e, bad, writes, text):
    """memory designated by lvalue/pointer expression e is written at x"""
    f = R.f
    if R.sync(x):
        return True
    b = R.base(e)
    if b[0] == "var" and R.private(b[1]):
        t = f.locals[b[1]]["t"] if b[1].startswith("%") else ""
        if not is_ptr(t) or t.strip().endswith("]"):
            return True          # private object
        if R.tainted(e):
            writes.append((x, e))
            return True
        # pointer to an object created inside the region
        for y in R.nodes:
            m = f.nodes[y]
            if m["k"] == "Var" and m["d"] == b[1] and m.get("c") and f.nodes[m["c"][0]]["k"] == "New":
                return True
        bad("shared-write", x, "through:" + b[1].split(".")[-1], "'%s' writes through '%s', which does not depend on the worksharing index" % (text, b[1].split(".")[-1]))
        return False
    if R.tainted(e):
        writes.append((x, e))
        return True
    bad("shared-write", x, "element:" + norm_txt(f, e), "'%s' writes shared memory at an address that does not depend on the worksharing index" % text)
    return False


def check_call(p, R, x, n, eff, bad, writes):
    f = R.f
    if n["k"] in ("New", "Delete"):
        return
    if n["k"] == "Construct":
        gs = [p.fns[n["f"]]] if n["f"] in p.fns else []
        pos = [("p%d" % k, a) for k, a in enumerate(n.get("c", ()))]
    else:
        gs = p.callees(f, x)
        pos = []
        if n.get("m"):
            pos.append(("this", n["c"][0]))
        pos += [("p%d" % k, a) for k, a in enumerate(f.args(x))]
    roots = set()
    if gs:
        for g in gs:
            roots |= eff.sum[g.id].writes
    elif n["k"] == "Call":
        # external: overloaded assignment operators and non-const methods write their receiver
        if n.get("op") in ("=", "+=", "-=", "*=", "/=", "++", "--", "<<", ">>"):
            roots.add("this" if n.get("m") else "p0")
        elif n.get("m"):
            if not (n.get("f") or "").split("@")[0].endswith(" const") and not n.get("op") and n.get("fn") not in ("begin", "end", "size", "c_str"):
                if n.get("cls", "").startswith("std::"):
                    roots.add("this")
    for r in sorted(roots):
        if r.startswith("g:"):
            if not R.sync(x):
                bad("shared-write", x, "global:" + short(n.get("fn") or "?") + ":" + r[2:].split(".")[-1], "'%s' writes the global/static '%s'" % (f.txt(x), r[2:]))
            continue
        for q, a in pos:
            if q != r or a < 0:
                continue
            an = f.nodes[a]
            if an["k"] == "Ref" and an["d"] in R.red:
                if n.get("op") in RED_OPS.get(R.red[an["d"]], set()):
                    continue
                bad("reduction-operator", x, "reduction:" + an["d"].split(".")[-1], "reduction variable updated by '%s'" % f.txt(x))
                continue
            if an["k"] == "Ref" and R.sync(x):
                continue
            if an["k"] in ("Construct", "New") or (an["k"] == "Call" and not is_ptr(an.get("t", "")) and f.path(a) is None and R.base(a)[0] == "other"):
                continue     # temporary
            if an["k"] == "Call" and not an.get("op") == "[]" and not is_ptr(p_ret(p, f, a)):
                continue     # value returned by a call: temporary
            judge_address(R, x, a, bad, writes, f.txt(x))


def p_ret(p, f, a):
    n = f.nodes[a]
    g = p.fns.get(n.get("f"))
    if g is not None:
        return g.raw["ret"]
    # external: references come back as lvalues; assume a reference for operators
    return "&" if n.get("op") else n.get("t", "")


def use_before_def(R, v):
    """first read of v not preceded by an assignment on every structured path of one iteration; None if fine"""
    f = R.f
    found = []

    def expr(x, d):
        """evaluate expression x with v assigned iff d; returns d afterwards"""
        if x is None or x < 0:
            return d
        n = f.nodes[x]
        k = n["k"]
        c = n.get("c", ())
        if k == "Ref":
            if n["d"] == v and not d:
                found.append(x)
            return d
        if k == "Assign" and f.nodes[c[0]]["k"] == "Ref" and f.nodes[c[0]]["d"] == v:
            d2 = expr(c[1], d)
            if n["op"] != "=" and not d2:
                found.append(x)
            return True
        if k == "Un" and n["op"] == "&" and c and f.nodes[c[0]]["k"] == "Ref" and f.nodes[c[0]]["d"] == v:
            return True       # address taken: assume it is filled in
        if k == "Bin" and n["op"] in ("&&", "||"):
            d1 = expr(c[0], d)
            expr(c[1], d1)
            return d1
        if k == "Cond":
            d1 = expr(c[0], d)
            return expr(c[1], d1) & expr(c[2], d1)
        return stmt(x, d)

    def stmt(x, d):
        if x is None or x < 0:
            return d
        n = f.nodes[x]
        k = n["k"]
        c = n.get("c", ())
        if k == "If":
            d1 = expr(n.get("cond", -1), d)
            a = stmt(n.get("then", -1), d1)
            b = stmt(n.get("else", -1), d1) if n.get("else", -1) is not None and n.get("else", -1) >= 0 else d1
            return a and b
        if k == "For":
            d1 = stmt(n.get("init", -1), d)
            d2 = expr(n.get("cond", -1), d1)
            d3 = stmt(n.get("body", -1), d2)
            expr(n.get("inc", -1), d3)
            return d1
        if k == "While":
            d1 = expr(n.get("cond", c[0] if c else -1), d)
            stmt(n.get("body", c[-1] if c else -1), d1)
            return d1
        if k == "Do":
            d1 = d
            for y in c:
                d1 = stmt(y, d1)
            return d1
        if k in ("Ref", "Assign", "Un", "Bin", "Cond") and not (k in ("Assign", "Un", "Bin", "Cond") and x in busy):
            busy.add(x)
            r = expr(x, d)
            busy.discard(x)
            return r
        for y in c:
            d = expr(y, d) if f.nodes[y]["k"] in ("Ref", "Assign", "Un", "Bin", "Cond") and y not in busy else stmt(y, d)
        return d
    busy = set()
    d = False
    for c in R.body:
        d = stmt(c, d)
    return found[0] if found else None


def read_after(R, v):
    """a read of v after the region, not preceded by an assignment (source order of the enclosing function)"""
    f = R.f
    end = max(R.nodes) if R.nodes else R.node
    after = [x for x in range(end + 1, len(f.nodes)) if f.nodes[x] is not None]
    order = [x for x in f.walk() if x not in R.nodeset and x != R.node]
    # nodes that come after the region in pre-order
    full = list(f.walk())
    pos = {x: i for i, x in enumerate(full)}
    at = pos[R.node]
    size = len(R.nodes)
    for x in full[at + 1 + size:]:
        n = f.nodes[x]
        if n["k"] == "Assign" and n["op"] == "=" and f.nodes[n["c"][0]]["k"] == "Ref" and f.nodes[n["c"][0]]["d"] == v:
            if not any(f.nodes[y]["k"] == "Ref" and f.nodes[y]["d"] == v for y in f.walk(n["c"][1])):
                return None
        if n["k"] == "OMP":
            for c in n.get("clauses", ()):
                if c["k"] in ("private",) and v in c["vars"]:
                    return None
        if n["k"] == "Ref" and n["d"] == v:
            return x
    return None


def nesting(p, res, f, r, orphans):
    """team-wide constructs must not be reached from inside a worksharing loop or critical section"""
    for x in f.walk(r):
        n = f.nodes[x]
        if n["k"] == "OMP" and n["omp"] in ("for", "sections", "single", "barrier"):
            for a in f.ancestors(x):
                m = f.nodes[a]
                if m["k"] == "OMP" and (m["omp"] in ("critical", "single", "master", "for") or m["omp"] == "parallel for"):
                    res.bad("team-construct-nesting", f.short, n["omp"], f.where(x), "'%s' is nested inside '%s'" % (n["omp"], m["omp"]))
                    break
                if m["k"] == "OMP" and "parallel" in m["omp"]:
                    break
        if n["k"] == "Call":
            inws = False
            for a in f.ancestors(x):
                m = f.nodes[a]
                if m["k"] == "OMP" and m["omp"] in ("for", "parallel for", "critical", "single", "master"):
                    inws = True
                    break
                if a == r:
                    break
            if not inws:
                continue
            for g in p.callees(f, x):
                for h in sorted(p.reach([g]) & set(orphans)):
                    res.bad("team-construct-nesting", f.short, "call:" + short(g.id) + "->" + short(h), f.where(x),
                            "'%s' may reach the team-wide '%s' in %s from inside a worksharing construct" % (f.txt(x), orphans[h], short(h)))


def check(p, res, tier):
    eff = Effects(p)
    orphans = {}
    for f in p.fns.values():
        for i in f.walk():
            m = f.nodes[i]
            if m["k"] == "OMP" and m["omp"] in ("for", "sections", "single", "barrier") and \
                    not any(f.nodes[a]["k"] == "OMP" and "parallel" in f.nodes[a]["omp"] for a in f.ancestors(i)):
                orphans[f.id] = m["omp"]
    res.count("orphaned_team_constructs", len(orphans))
    n = nw = 0
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line, f.id)):
        regs = [i for i in f.walk() if f.nodes[i]["k"] == "OMP" and "parallel" in f.nodes[i]["omp"]]
        if not regs:
            continue
        env = eff.env(f)
        pidx = {v: k for k, v in enumerate(f.params)}
        for r in regs:
            n += 1
            nw += check_region(p, res, f, r, eff, env, pidx)
            nesting(p, res, f, r, orphans)
    res.floor("parallel_regions", n, 30)
    res.count("shared_element_writes", nw)
    res.assumptions += ["distinct pointers designate distinct arrays inside a region", "subscripts of the form a*i+b with a non-zero stride are distinct for distinct worksharing indices"]
