"""Definite assignment: locals, out-parameters and constructor fields (maybe-unset forward dataflow, interprocedural out-param summaries)."""
import re
from .prog import forward, cond_atoms
from .effects import split_params, const_target
from .extract import AnalysisBroken

SCAL = {"int", "double", "bool", "float", "unsigned int", "long", "unsigned long", "char", "short", "unsigned short", "long long",
        "unsigned long long", "unsigned char", "signed char", "size_t"}
# external functions that may leave the targets of their pointer arguments unset (the result tells)
PARTIAL = {"sscanf", "fscanf", "scanf"}


def strip_const(t):
    return re.sub(r"\bconst\b", "", t).strip()


def strip(f, x):
    while f.nodes[x]["k"] == "Cast":
        x = f.nodes[x]["c"][0]
    return x


class Uninit:
    def __init__(self, p):
        self.p = p
        self.lazy = self._lazy_types()
        self.must = {}       # (fn id, param index) -> True when written on every normal return, before being read
        self.readfirst = {}  # (fn id, param index) -> node that reads it unset
        self.expo = {}       # fn id -> fields of this read before they are written
        self.fmust = {}      # fn id -> fields of this assigned on every normal return
        self.partial = {}    # (fn id, node) -> sscanf-like call whose result is ignored
        self.reads = {}      # (fn id, var) -> first read node
        self.nlocals = 0
        self._cand = {}
        self._summaries()
        self._fields()

    # ---- types
    def scalar(self, t):
        t = strip_const(t)
        return t.endswith("*") or t in SCAL or t in self.p.enums or t in self.lazy

    def _lazy_types(self):
        """classes whose default constructor leaves every field unset (complex numbers): treated like scalars"""
        p = self.p
        self.lazy = set()
        out = set()
        for r in p.recs.values():
            fl = r["fields"]
            if not fl or len(fl) > 2 or not all(strip_const(x["t"]) in ("double", "float") for x in fl):
                continue
            cs = [f for f in self.ctors(r["id"]) if not f.params and not f.impl]
            if cs and all(not any(io.get("field") for io in f.raw["inits"]) and not any(
                    f.nodes[x]["k"] in ("Assign", "Call") for x in f.walk()) for f in cs):
                out.add(r["id"])
        return out

    def ctors(self, cls):
        b = re.sub(r"<.*", "", cls).split("::")[-1]
        if not hasattr(self, "_ctors"):
            self._ctors = {}
            for f in self.p.fns.values():
                if f.cls:
                    self._ctors.setdefault(f.cls, []).append(f)
        b = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", cls))).split("::")[-1]
        return [f for f in self._ctors.get(cls, []) if f.name.split("<")[0] == b]

    # ---- one function
    def ctx(self, f, x):
        """how the variable reference x is used: read, write, rw, addr, ref, none"""
        pa = f.parent
        cur = x
        while cur in pa:
            q = pa[cur]
            n = f.nodes[q]
            k = n["k"]
            c = n.get("c", ())
            if k == "Cast":
                cur = q
                continue
            if k == "Assign":
                if c[0] == cur:
                    return ("write" if n["op"] == "=" else "rw"), q
                return "read", q
            if k == "Un":
                if n["op"] == "&":
                    return "addr", q
                if n["op"] in ("++", "--"):
                    return "rw", q
                return "read", q
            if k == "Sizeof":
                return "none", q
            if k == "Bin" and n["op"] == "," and c[1] == cur:
                cur = q
                continue
            if k in ("Call", "Construct"):
                t = f.ty(x)
                if k == "Call" and n.get("m") and c[0] == cur:
                    if n.get("op") == "=":
                        return "write", q
                    if n.get("op") in ("+=", "-=", "*=", "/="):
                        return "rw", q
                    if strip_const(t).endswith("*"):
                        return "read", q
                    return "recv", q
                args = f.args(q) if k == "Call" else list(c)
                if cur in args:
                    j = args.index(cur)
                    ps = split_params(n["f"]) if n.get("f") else []
                    if n.get("m") and k == "Call" and n.get("op") == "=" and j == 0:
                        return "read", q
                    if j < len(ps):
                        if ps[j].endswith("&") and not const_target(ps[j]):
                            return ("ref", j), q
                        return "read", q
                    if not ps and n.get("op") == ">>":
                        return ("ref", j), q
                return "read", q
            if k == "Var":
                return ("alias" if n.get("t", "").endswith("&") else "read"), q
            if k == "Member" and c and c[0] == cur:
                if n.get("arrow"):
                    return "read", q
                return "recv", q
            if k == "Index" and c and c[0] == cur:
                return "read", q
            if k in ("Return", "Throw"):
                return ("alias" if k == "Return" and "&" in f.id.split(")")[-1] else "read"), q
            if k in ("OMP", "Decl", "Compound", "For", "While", "If", "Do", "Switch", "Case"):
                return ("read" if k in ("If", "While", "For", "Do", "Switch") else "none"), q
            return "read", q
        return "none", None

    def addr_use(self, f, q):
        """the & expression at q: ("param", call, j) when it is an argument"""
        pa = f.parent
        cur = q
        while cur in pa:
            r = pa[cur]
            n = f.nodes[r]
            if n["k"] == "Cast":
                cur = r
                continue
            if n["k"] in ("Call", "Construct"):
                args = f.args(r) if n["k"] == "Call" else list(n.get("c", ()))
                if cur in args:
                    return r, args.index(cur)
            return None
        return None

    def accesses(self, f, tracked):
        """node where it takes effect -> list of (var, kind, ref node)"""
        acc = {}

        def add(at, v, kind, x):
            acc.setdefault(at, []).append((v, kind, x))
        for x, n in enumerate(f.nodes):
            if n is None:
                continue
            v = None
            if n["k"] == "Ref" and n["d"] in tracked:
                v = n["d"]
                deref = tracked[v] == "ptr"
                if deref:
                    # pointer parameter: only its target counts
                    pa = f.parent.get(x)
                    m = f.nodes[pa] if pa is not None else None
                    while m is not None and m["k"] == "Cast":
                        pa = f.parent.get(pa)
                        m = f.nodes[pa] if pa is not None else None
                    if m is None:
                        continue
                    if m["k"] == "Un" and m["op"] == "*" or m["k"] == "Index" and m["c"][0] >= 0 and x in set(f.walk(m["c"][0])):
                        kind, at = self.ctx(f, pa)
                        if m["k"] == "Index" and kind in ("read", "rw"):
                            kind = "none"
                    else:
                        u = self.addr_use(f, x)
                        if u:
                            add(u[0], v, ("argp", u[1]), x)
                        continue
                else:
                    kind, at = self.ctx(f, x)
            elif n["k"] == "Member" and n.get("c") and f.nodes[n["c"][0]]["k"] == "This" and "this." + n["n"] in tracked:
                v = "this." + n["n"]
                kind, at = self.ctx(f, x)
            else:
                continue
            if kind == "addr":
                u = self.addr_use(f, at)
                if u:
                    add(u[0], v, ("argp", u[1]), x)
                else:
                    add(at, v, "write", x)      # address escapes: give up on it
            elif isinstance(kind, tuple):
                add(at, v, ("argr", kind[1]), x)
            elif kind == "recv":
                # member access on a complex-like local
                m = f.nodes[at]
                if m["k"] == "Call":
                    dc = self.p.method_decl.get(m.get("f"))
                    add(at, v, "read" if m.get("f", "").endswith("const") and not m.get("op") else "recv", x)
                else:
                    kd, a2 = self.ctx(f, at)
                    add(a2 if a2 is not None else at, v, "write" if kd in ("write", "addr") or isinstance(kd, tuple) else "readm", x)
            elif kind == "alias":
                add(x, v, "write", x)
            elif kind in ("write", "rw"):
                if kind == "rw":
                    add(x, v, "read", x)
                add(at, v, "write", x)
            elif kind == "read":
                add(x, v, "read", x)
        return acc

    def call_effect(self, f, at, j):
        """effect of call `at` on the target of its argument j: 'set', 'keep', or ('reads', fn)"""
        n = f.nodes[at]
        gs = self.p.callees(f, at) if n["k"] == "Call" else ([self.p.fns[n["f"]]] if n.get("f") in self.p.fns else [])
        if not gs:
            if n.get("fn") in PARTIAL:
                if self.result_used(f, at):
                    return "set"
                self.partial[(f.id, at)] = n.get("fn")
                return "keep"
            return "set"
        r = "set"
        for g in gs:
            if (g.id, j) in self.readfirst:
                return ("reads", g)
            if (g.id, j) in self._cand and not self.must.get((g.id, j), True):
                r = "keep"
        return r

    def result_used(self, f, at):
        pa = f.parent.get(at)
        while pa is not None and f.nodes[pa]["k"] == "Cast":
            pa = f.parent.get(pa)
        return pa is not None and f.nodes[pa]["k"] not in ("Compound", "For", "Case", "Default", "LabelStmt") and not (
            f.nodes[pa]["k"] in ("If", "While", "Do") and f.nodes[pa].get("cond") != at)

    def flow(self, f, tracked, init, on_read, ps=False):
        acc = self.accesses(f, tracked)
        decls = {n["d"]: i for i, n in enumerate(f.nodes) if n is not None and n["k"] == "Var" and n["d"] in tracked and not n.get("c")}
        full = {n["d"] for i, n in enumerate(f.nodes) if n is not None and n["k"] == "Var" and n["d"] in tracked and n.get("c")}

        def transfer(f_, e, st):
            n = f.nodes[e]
            if n["k"] == "Var" and n["d"] in tracked:
                if n["d"] in decls and not self.default_ctor(f, e):
                    return st | {n["d"]}
                return st - {n["d"]}
            if e in acc:
                for v, kind, x in acc[e]:
                    if kind in ("read", "readm"):
                        if v in st:
                            on_read(v, x, None)
                            st = st - {v}
                for v, kind, x in acc[e]:
                    if kind == "write" or kind == "recv":
                        st = st - {v}
                    elif isinstance(kind, tuple) and v in st:
                        r = self.call_effect(f, e, kind[1])
                        if r == "set":
                            st = st - {v}
                        elif isinstance(r, tuple):
                            on_read(v, x, r[1])
                            st = st - {v}
            if n["k"] == "Call" and n.get("m") and n.get("c") and f.nodes[n["c"][0]]["k"] == "This":
                gs = self.p.callees(f, e)
                for g in gs:
                    for v in sorted(st):
                        if v.startswith("this.") and v[5:] in self.expo.get(g.id, ()):
                            on_read(v, e, g)
                            st = st - {v}
                if gs and any(v.startswith("this.") for v in st):
                    w = None
                    for g in gs:
                        s = self.fmust.get(g.id, frozenset())
                        w = s if w is None else w & s
                    st = st - {"this." + y for y in w}
            return st

        def edge(f_, b, k, st):
            return st
        if not ps:
            return forward(f, frozenset(init), transfer, lambda a, b: a | b, edge, max_iter=20000)
        self.ps_flow(f, init, transfer)

    # ---- correlated conditions: the same test repeated, boolean locals
    def ps_flow(self, f, init, transfer):
        """disjunctive: a set of (facts, unset variables); facts are truth values of call-free conditions over locals"""
        keyc, esc = {}, set()
        for n in f.nodes:
            if n is not None and n["k"] == "Un" and n["op"] == "&" and f.nodes[n["c"][0]]["k"] == "Ref":
                esc.add(f.nodes[n["c"][0]]["d"])

        def key(x):
            if x not in keyc:
                vs = set()
                for y in f.walk(x):
                    n = f.nodes[y]
                    if n["k"] == "Ref":
                        vs.add(n["d"])
                    elif n["k"] not in ("Bin", "Int", "Float", "Bool", "Lit", "Cast", "Un", "Str", "Null", "Char", "EnumConst"):
                        vs = None
                        break
                ok = vs is not None and vs and all(v.startswith("%") and v not in esc for v in vs) or vs is not None and not vs
                keyc[x] = (f.txt(x), frozenset(vs)) if ok and vs else None
            return keyc[x]

        def kill(facts, v):
            return frozenset(q for q in facts if v not in q[1])

        def tr(f_, e, S):
            n = f.nodes[e]
            out = set()
            for facts, un in S:
                un = transfer(f_, e, un)
                v = None
                if n["k"] == "Var":
                    v = n["d"]
                elif n["k"] == "Assign" or n["k"] == "Un" and n["op"] in ("++", "--"):
                    l = strip(f, n["c"][0])
                    if f.nodes[l]["k"] == "Ref":
                        v = f.nodes[l]["d"]
                elif n["k"] == "Call":
                    for a in f.args(e):
                        a = strip(f, a)
                        if f.nodes[a]["k"] == "Ref":
                            facts = kill(facts, f.nodes[a]["d"])
                if v:
                    facts = kill(facts, v)
                    rhs = n["c"][-1] if n.get("c") and (n["k"] == "Var" or n.get("op") == "=") else None
                    if rhs is not None and f.nodes[strip(f, rhs)].get("v") in (True, False) and f.nodes[strip(f, rhs)]["k"] == "Bool":
                        facts = facts | {(self.vtext(f, v), frozenset([v]), f.nodes[strip(f, rhs)]["v"])}
                out.add((facts, un))
            if len(out) > 64:
                un = frozenset().union(*[u for _, u in out])
                out = {(frozenset(), un)}
            return frozenset(out)

        def ed(f_, b, k, S):
            cond = b.get("tc", -1)
            if cond is None or cond < 0 or len(b["s"]) != 2 or f.nodes[b["t"]]["k"] == "Switch":
                return S
            at = [(key(x), v) for x, v in cond_atoms(f, cond, k == 0)]
            at = [(q, v) for q, v in at if q]
            if not at:
                return S
            out = set()
            for facts, un in S:
                ok = True
                for q, v in at:
                    if (q[0], q[1], not v) in facts:
                        ok = False
                        break
                    facts = facts | {(q[0], q[1], v)}
                if ok:
                    out.add((facts, un))
            return frozenset(out) or None
        forward(f, frozenset([(frozenset(), frozenset(init))]), tr, lambda a, b: a | b, ed, max_iter=20000)

    def default_ctor(self, f, e):
        """a local without initialiser expression whose class constructor sets it"""
        return False

    def exit_state(self, f, outb):
        s = None
        for b in f.blocks.values():
            if f.exit in b["s"] and not f.is_abrupt(b) and b["i"] in outb:
                s = outb[b["i"]] if s is None else s | outb[b["i"]]
        return s

    def vtext(self, f, v):
        for i, n in enumerate(f.nodes):
            if n is not None and n["k"] == "Ref" and n["d"] == v:
                return f.txt(i)
        return v

    # ---- summaries of out-parameters
    def _summaries(self):
        p = self.p
        for f in p.fns.values():
            if not f.blocks:
                continue
            for j, pid in enumerate(f.params):
                t = f.locals[pid]["t"] if pid in f.locals else ""
                if t.endswith("&") and not const_target(t) and self.scalar(t[:-1].strip()):
                    self._cand[(f.id, j)] = (pid, "ref")
                elif t.endswith("*") and not const_target(t) and strip_const(t[:-1]) in SCAL - {"char"}:
                    self._cand[(f.id, j)] = (pid, "ptr")
        byfn = {}
        for (fid, j), (pid, kind) in self._cand.items():
            byfn.setdefault(fid, []).append((j, pid, kind))
            self.must[(fid, j)] = True
        # greatest fixpoint for "written on every return", least for "reads unset"
        work = set(byfn)
        n = 0
        while work:
            n += 1
            if n > 40:
                raise AnalysisBroken("out-parameter summaries do not converge")
            nxt = set()
            for fid in sorted(work):
                f = p.fns[fid]
                tr = {pid: kind for _, pid, kind in byfn[fid]}
                hit = {}
                inb, outb = self.flow(f, tr, tr, lambda v, x, g: hit.setdefault(v, x))
                ex = self.exit_state(f, outb)
                for j, pid, kind in byfn[fid]:
                    ch = False
                    if pid in hit and (fid, j) not in self.readfirst and kind == "ref":
                        self.readfirst[(fid, j)] = hit[pid]
                        ch = True
                    if ex is not None and pid in ex and pid not in hit and self.must[(fid, j)]:
                        self.must[(fid, j)] = False
                        ch = True
                    if ch:
                        nxt |= {g.id for g, _ in p.callers[fid] if g.id in byfn}
            work = nxt

    # ---- fields assigned by methods on this
    def _fields(self):
        p = self.p
        self.fmust = {}
        meth = {}
        for f in p.fns.values():
            if f.cls and f.cls in p.recs and f.blocks and not f.raw.get("static"):
                meth[f.id] = [x["n"] for x in p.fields(f.cls) if self.scalar(x["t"]) and "n_elem" not in x]
        called = {g.id for f in p.fns.values() if f.id in meth for x, n in enumerate(f.nodes)
                  if n is not None and n["k"] == "Call" and n.get("m") and n.get("c") and f.nodes[n["c"][0]]["k"] == "This"
                  for g in p.callees(f, x)}
        self.meth = meth
        for _ in range(4):
            ch = False
            for fid in called & set(meth):
                f = p.fns[fid]
                if not meth[fid]:
                    continue
                tr = {"this." + m: "field" for m in meth[fid]}
                inb, outb = self.flow(f, tr, tr, lambda *a: None)
                ex = self.exit_state(f, outb)
                s = frozenset(m for m in meth[fid] if ex is not None and "this." + m not in ex) - self.read_fields(f, tr)
                if s != self.fmust.get(fid, frozenset()):
                    self.fmust[fid] = s
                    ch = True
            if not ch:
                break

    def read_fields(self, f, tr):
        hit = set()
        self.flow(f, tr, tr, lambda v, x, g: hit.add(v[5:]))
        return frozenset(hit)

    def exposures(self):
        """least fixpoint: fields of this a method reads before it (or a method it calls on this) has set them"""
        p = self.p
        work = set(self.meth)
        n = 0
        while work:
            n += 1
            if n > 60:
                raise AnalysisBroken("field exposure does not converge")
            nxt = set()
            for fid in sorted(work):
                f = p.fns[fid]
                if not self.meth[fid]:
                    continue
                tr = {"this." + m: "field" for m in self.meth[fid]}
                hit = {}
                self.flow(f, tr, tr, lambda v, x, g: None if self.is_copy(f, x, v[5:]) else hit.setdefault(v[5:], x))
                if set(hit) - set(self.expo.get(fid, {})):
                    self.expo[fid] = dict(hit, **self.expo.get(fid, {}))
                    nxt |= {g.id for g, _ in p.callers[fid] if g.id in self.meth}
            work = nxt

    def is_copy(self, f, x, m):
        """the read only carries the field over to the same field of another object"""
        pa = f.parent.get(x)
        while pa is not None and f.nodes[pa]["k"] == "Cast":
            pa = f.parent.get(pa)
        if pa is None or f.nodes[pa]["k"] != "Assign" or f.nodes[pa]["op"] != "=":
            return False
        l = f.nodes[strip(f, f.nodes[pa]["c"][0])]
        return l["k"] == "Member" and l["n"] == m and strip(f, f.nodes[pa]["c"][0]) != x

    def used_ctors(self):
        """constructors some construction in the program refers to"""
        used = set()
        for f in self.p.fns.values():
            for n in f.nodes:
                if n is not None and n["k"] == "Construct" and n.get("f"):
                    used.add(n["f"])
        return used

    def outside_reads(self):
        """(class, field) -> [(fn, node)] reads through an object other than this"""
        out = {}
        for f in self.p.fns.values():
            if f.impl:
                continue        # memberwise copies
            init = {y for io in f.raw["inits"] if io.get("e", -1) >= 0 for y in f.walk(io["e"])}
            for x, n in enumerate(f.nodes):
                if n is not None and x not in init and n["k"] == "Member" and n.get("c") and f.nodes[n["c"][0]]["k"] != "This" and "::" in n.get("d", ""):
                    kd, _ = self.ctx(f, x)
                    if kd in ("write",) or self.is_copy(f, x, n["n"]):
                        continue
                    out.setdefault(tuple(n["d"].rsplit("::", 1)), []).append((f, x))
        return out

    # ---- results
    def locals(self, f):
        """[(var, node, callee)] reads of locals that may be unset"""
        tr = {}
        for n in f.nodes:
            if n is not None and n["k"] == "Var" and n["d"].startswith("%") and not n.get("c") and not n.get("static"):
                t = n.get("t", "")
                if self.scalar(t) and "[" not in t:
                    tr[n["d"]] = "val"
        self.nlocals += len(tr)
        if not tr or not f.blocks:
            return tr, []
        hit = {}
        self.flow(f, tr, (), lambda v, x, g: hit.setdefault((v, x), g))
        if hit:
            hit = {}
            self.flow(f, tr, (), lambda v, x, g: hit.setdefault((v, x), g), ps=True)
        return tr, [(v, x, g) for (v, x), g in hit.items()]

    def ctor_unset(self, f):
        """fields a constructor may leave unset"""
        p = self.p
        r = p.recs[f.cls]
        names = [x["n"] for x in r["fields"] if self.scalar(x["t"]) and "n_elem" not in x and not x.get("init")]
        done = set()
        for io in f.raw["inits"]:
            if io.get("field"):
                done.add(io["field"].split("::")[-1])
            if io.get("delegate"):
                return []
        tr = {"this." + m: "field" for m in names}
        if not tr or not f.blocks:
            return [m for m in names if m not in done]
        inb, outb = self.flow(f, tr, {v for v in tr if v[5:] not in done}, lambda *a: None)
        ex = self.exit_state(f, outb)
        return [m for m in names if ex is not None and "this." + m in ex]
