"""C07: a copy of an operator, laser field or wave function has the configuration of its source."""
from ..fields import Fields, on_this, unwrap
from ..prog import short

ID = "C07"
DESC = ("Effect analysis over the fields of every concrete operator (and Laser): the configuration of a class is what its operations read "
        "(closed over calls on the object, virtual calls resolved for the class) and what is set outside the operations (setters, Init with "
        "parameters, Add, Clock). Obligation: (class, copy function, configuration field): the copy gives the field a value computed from the "
        "same field of the source, directly, through a base class copy or a helper, and does not use its own old value before; a copy that "
        "takes over the mark which makes Init(WaveFunction) skip its work also provides everything that work provides.")

OPS = {"Apply", "ApplyAdd", "ApplyParent", "Expec", "MatrixElement", "Emax", "Emin", "UpdateTime", "InitDspace", "InitExponential", "Valid",
       "Transformation", "Clock", "isTimeDep", "Hermitian", "Dspace"}
LOPS = {"Get", "GetVectorPot", "PowerSpectrum", "Spectrum", "ToTimeDomain", "PulseEnergy", "Serialize"}
SCALAR = ("int", "unsigned", "long", "short", "char", "bool", "double", "float", "QDLIB::dcomplex", "dcomplex", "_Complex", "std::")
VALUE = ("QDLIB::Vector<", "QDLIB::Matrix<", "std::")


class Copies:
    def __init__(self, p):
        self.p = p
        self.F = Fields(p)
        self._memo = {}

    # --- which locals are the source object
    def aliases(self, f, src):
        out = set(src)
        ch = True
        while ch:
            ch = False
            for i, n in enumerate(f.nodes):
                if not n:
                    continue
                if n["k"] == "Var" and n.get("c") and n["d"] not in out and self.is_src(f, n["c"][0], out):
                    out.add(n["d"])
                    ch = True
                elif n["k"] == "Assign" and n["op"] == "=":
                    a = unwrap(f, n["c"][0])
                    if a is not None and a >= 0 and f.nodes[a]["k"] == "Ref" and f.nodes[a]["d"].startswith("%") and f.nodes[a]["d"] not in out \
                            and self.is_src(f, n["c"][1], out):
                        out.add(f.nodes[a]["d"])
                        ch = True
        return out

    def is_src(self, f, i, al):
        i = unwrap(f, i)
        while i is not None and i >= 0 and f.nodes[i]["k"] == "Construct" and len(f.nodes[i].get("c", ())) == 1:
            i = unwrap(f, f.nodes[i]["c"][0])
        return i is not None and i >= 0 and f.nodes[i]["k"] == "Ref" and f.nodes[i]["d"] in al

    def src_reads(self, f, root, al, cls, taint):
        """fields of the source read in the expression at root"""
        out = set()
        for x in f.walk(root):
            n = f.nodes[x]
            if n["k"] == "Member" and n.get("c") and "d" in n and self.is_src(f, n["c"][0], al):
                out.add(n["d"])
            elif n["k"] == "Call" and n.get("m") and n.get("c") and self.is_src(f, n["c"][0], al):
                t = n.get("f")
                if n.get("virt"):
                    t = self.p.final_overrider(cls, t) or t
                g = self.p.fns.get(t)
                if g is not None:
                    out |= {d for d, s in self.F.closure(g, cls)[0].items()}
            elif n["k"] == "Ref" and n["d"] in taint:
                out |= taint[n["d"]]
        return out

    def stmt(self, f, i):
        """the whole expression or declaration a node belongs to"""
        par = f.parent
        while i in par and f.nodes[par[i]]["k"] not in ("Compound", "If", "For", "While", "Do", "Switch", "Case", "Default", "Return", "Try", "Catch", "RangeFor", "Label", "OMP"):
            i = par[i]
        return i

    def transfers(self, f, cls, src):
        """({field: [node]} given a value from the same field of the source, {field} written at all, own reads [(node, field)])"""
        key = (f.id, cls, tuple(sorted(src)))
        if key in self._memo:
            return self._memo[key]
        self._memo[key] = ({}, set())
        p, F = self.p, self.F
        al = self.aliases(f, src)
        taint = {}
        ch = True
        while ch:
            ch = False
            for i, n in enumerate(f.nodes):
                if not n:
                    continue
                d = None
                if n["k"] == "Var" and n.get("c") and n["d"] not in al:
                    d, v = n["d"], n["c"][0]
                elif n["k"] == "Assign":
                    a = unwrap(f, n["c"][0])
                    if a is not None and a >= 0 and f.nodes[a]["k"] == "Ref" and f.nodes[a]["d"].startswith("%"):
                        d, v = f.nodes[a]["d"], n["c"][1]
                elif n["k"] == "Call" and n.get("m") and n.get("c"):
                    a = unwrap(f, n["c"][0])
                    if a is not None and a >= 0 and f.nodes[a]["k"] == "Ref" and f.nodes[a]["d"].startswith("%") and f.nodes[a]["d"] not in al:
                        d, v = f.nodes[a]["d"], i
                if d is None or d in al:
                    continue
                r = self.src_reads(f, v, al, cls, taint)
                if not r <= taint.get(d, set()):
                    taint.setdefault(d, set()).update(r)
                    ch = True
        got, wrote, derived = {}, set(), []

        def give(d, at):
            got.setdefault(d, []).append(at)
        for i, n in enumerate(f.nodes):
            if not n or i not in f.parent and i != f.body:
                continue
            if n["k"] == "Member" and n.get("c") and "d" in n and on_this(f, n["c"][0]):
                u = F.use(f, i)
                if u & {"W", "M"}:
                    wrote.add(n["d"])
                    st = self.stmt(f, i)
                    r = self.src_reads(f, st, al, cls, taint)
                    if n["d"] in r:
                        give(n["d"], i)
                    elif not n.get("t", "").replace("const ", "").startswith(SCALAR) or n["t"].endswith("*"):
                        # objects may be rebuilt from what was taken over
                        own = {f.nodes[x].get("d") for x in f.walk(st) if f.nodes[x]["k"] == "Member" and f.nodes[x].get("c")
                               and on_this(f, f.nodes[x]["c"][0])} - {n["d"]}
                        derived.append((n["d"], i, bool(r), own))
            if n["k"] == "Call" and n.get("m") and n.get("c") and on_this(f, n["c"][0]):
                t = n.get("f")
                args = n["c"][1:]
                srcarg = [k for k, a in enumerate(args) if self.is_src(f, a, al)]
                if n.get("virt"):
                    t = p.final_overrider(cls, t) or t
                g = p.fns.get(t)
                if n.get("op") == "=" and srcarg and n.get("cls", "").startswith(VALUE):
                    for d in self.all_fields(n["cls"]):
                        give(d, i)
                        wrote.add(d)
                    continue
                if g is None or not g.blocks:
                    if srcarg and n.get("op") == "=":
                        for d in self.all_fields(n.get("cls", "")):
                            give(d, i)
                            wrote.add(d)
                    continue
                if srcarg:
                    s2 = {g.params[k] for k in srcarg if k < len(g.params)}
                    t2, w2 = self.transfers(g, cls, frozenset(s2))
                    for d in t2:
                        give(d, i)
                    wrote |= w2
                else:
                    a, _ = F.closure(g, cls)
                    w = {d for d, s in a.items() if s & {"W", "M"}}
                    wrote |= w
                    rd = {d for d, s in a.items() if "R" in s}
                    for d in w:
                        if not self.scalar(d):
                            derived.append((d, i, False, rd - {d}))
                    if args:
                        r = set()
                        for x in args:
                            r |= self.src_reads(f, x, al, cls, taint)
                        for d in w & r:
                            give(d, i)
        for d, i, r, own in derived:
            if r or own & set(got):
                give(d, i)
        self._memo[key] = (got, wrote)
        return self._memo[key]

    def scalar(self, d):
        if not hasattr(self, "_ft"):
            self._ft = {fl["id"]: fl.get("t", "") for r in self.p.recs.values() for fl in r.get("fields", ()) if isinstance(fl, dict)}
        t = self._ft.get(d, "int").replace("const ", "")
        return t.startswith(SCALAR) and not t.endswith("*")

    def all_fields(self, cls):
        out = set()
        for c in [cls] + self.p.all_bases(cls):
            for fl in self.p.recs.get(c, {}).get("fields", ()):
                out.add(fl["id"] if isinstance(fl, dict) else fl)
        return out

    # --- order: own configuration used before it was taken over
    def early_uses(self, f, cls, src, need, got):
        p, F = self.p, self.F
        al = self.aliases(f, src)
        ev = {}
        for d, at in got.items():
            if d in need:
                for x in at:
                    ev.setdefault(self.stmt(f, x), set()).add(d)
        uses = {}
        for i, n in enumerate(f.nodes):
            if not n or i not in f.parent:
                continue
            if n["k"] == "Member" and n.get("c") and n.get("d") in need and on_this(f, n["c"][0]):
                if F.use(f, i) == {"R"} and not self.harmless(f, i):
                    uses.setdefault(i, set()).add(n["d"])
            elif n["k"] == "Call" and n.get("m") and n.get("c") and on_this(f, n["c"][0]) and not any(self.is_src(f, a, al) for a in n["c"][1:]):
                t = n.get("f")
                if n.get("virt"):
                    t = p.final_overrider(cls, t) or t
                g = p.fns.get(t)
                if g is not None and not n.get("cls", "").startswith(VALUE):
                    a, _ = F.closure(g, cls)
                    for d, s in a.items():
                        if d in need and "R" in s and "W" not in s:
                            uses.setdefault(i, set()).add(d)
        if not uses:
            return []
        # forward must-analysis: fields certainly taken over
        IN = {f.entry: frozenset()}
        work = [f.entry]
        bad = {}
        anc = {}

        def st(e):
            if e not in anc:
                anc[e] = self.stmt(f, e)
            return anc[e]
        while work:
            b = work.pop()
            cur = set(IN[b])
            for e in f.blocks[b]["e"]:
                if e in uses:
                    s = ev.get(st(e), set())
                    for d in uses[e] - cur - s:
                        bad[(e, d)] = True
                if st(e) == e or e in ev:
                    cur |= ev.get(e, set())
            o = frozenset(cur)
            for s in f.blocks[b]["s"]:
                if s < 0:
                    continue
                if s not in IN:
                    IN[s] = o
                    work.append(s)
                else:
                    m = IN[s] & o
                    if m != IN[s]:
                        IN[s] = m
                        work.append(s)
        return sorted(bad)

    def harmless(self, f, i):
        """releasing, or testing for presence"""
        par = f.parent
        x = i
        while x in par:
            m = f.nodes[par[x]]
            if m["k"] == "Delete":
                return True
            if m["k"] == "Call" and m.get("fn") == "Delete":
                return True
            if m["k"] == "Bin" and m["op"] in ("==", "!=", "<", ">", "<=", ">="):
                return True
            if m["k"] == "Un" and m["op"] == "!" or m["k"] == "If" and m.get("cond") == x or m["k"] == "Bin" and m["op"] in ("&&", "||"):
                return True
            if m["k"] in ("Cast", "Un", "Index", "Member"):
                x = par[x]
                continue
            return False
        return False


def m_root(p, K):
    return "QDLIB::WaveFunction" if "QDLIB::WaveFunction" in p.all_bases(K) else "QDLIB::Operator"


def methods(p, cls):
    out = {}
    for c in [cls] + p.all_bases(cls):
        for m in p.recs.get(c, {"methods": []})["methods"]:
            out.setdefault(m["id"], m)
    return out


def check(prog, res, tier):
    p = prog
    C = Copies(p)
    F = C.F
    callers = {}
    for f in p.fns.values():
        for x, n in f.calls():
            if n.get("f"):
                callers.setdefault(n["f"], set()).add(f.id)
    ncls = nfld = 0
    for K in p.concrete("QDLIB::Operator") + ["QDLIB::Laser"]:
        laser = K == "QDLIB::Laser"
        ms = methods(p, K)
        fin = set()
        for mid, m in ms.items():
            g = p.final_overrider(K, mid) if m.get("virt") else mid
            if g in p.fns:
                fin.add(g)
        chain = {short(c).split("<")[0] for c in [K] + p.all_bases(K)}
        copies, ops, conf, initW = [], [], [], []
        for g in sorted(fin):
            f = p.fns[g]
            nm = f.short.split("::")[-1]
            sig = g.split("(", 1)[-1]
            if nm == "Copy" or nm == "operator=":
                if laser and "Laser" in sig or not laser and "Operator *" in sig:
                    copies.append(f)
            elif nm in (LOPS if laser else OPS):
                ops.append(f)
            elif nm == "Init" and "WaveFunction" in sig:
                initW.append(f)
            elif nm.startswith("~") or nm in chain or nm == "RecalcInternals":
                continue
            else:
                conf.append(f)
        # functions that serve only the copies are part of them
        cid = {f.id for f in copies}
        for c in copies:
            cid |= F.closure(c, K)[1]

        def only_copy(f, seen=()):
            cs = callers.get(f.id, ())
            return bool(cs) and all(c in cid and (c in {x.id for x in copies} or p.fns[c].short.split("::")[-1] in ("Copy", "operator=") or
                                                  c not in seen and only_copy(p.fns[c], seen + (f.id,))) for c in cs)
        R, A, W = set(), set(), set()
        for f in ops + initW:
            a, _ = F.closure(f, K)
            R |= {d for d, s in a.items() if "R" in s}
            A |= {d for d, s in a.items() if "W" in s}
        I, G = set(), set()
        for f in initW:
            a, _ = F.closure(f, K)
            I |= {d for d, s in a.items() if s & {"W", "M"}}
            G |= guards(p, F, f, K)
        opsA = set()
        for f in ops:
            opsA |= {d for d, s in F.closure(f, K)[0].items() if "W" in s}
        part = set()
        for f in ops + initW:
            part |= F.closure(f, K)[1]
        for f in conf:
            if f.id in part or only_copy(f):
                continue
            data = any("WaveFunction" in f.locals[x]["t"] for x in f.params)
            W |= {d for d, s in F.closure(f, K)[0].items() if s & ({"W"} if data else {"W", "M"})}
        need = (R & W) - A - I
        opsR = set()
        for f in ops:
            opsR |= {d for d, s in F.closure(f, K)[0].items() if "R" in s}
        if not copies:
            res.bad("C07.copy", short(K), "no copy", "%s" % p.recs[K].get("file", K), "%s has no copy function" % short(K))
            continue
        ncls += 1
        for c in copies:
            if c.params and never_returns(p, c):
                res.ok("C07.copy", "%s as %s" % (c.where(), short(K)), "%s rejects every copy with an error" % c.short)
                continue
            got, wrote = C.transfers(c, K, frozenset(c.params[:1]))
            for d in sorted(need):
                nfld += 1
                if d in got:
                    res.ok("C07.copy", "%s as %s" % (c.where(), short(K)), "%s is taken over" % short(d))
                else:
                    res.bad("C07.copy", c.short, "%s of %s" % (short(d), short(K)), c.where(),
                            "copying a %s: `%s` %s, but the operations of the copy use it" % (
                                short(K), short(d), "is set, but not from the source" if d in wrote else "is not taken over from the source"))
            for e, d in C.early_uses(c, K, frozenset(c.params[:1]), need & set(got), got):
                res.bad("C07.order", c.short, "%s used by %s" % (short(d), c.txt(e)[:50]), c.where(e),
                        "`%s` uses `%s` of the copy before it is taken over from the source" % (c.txt(e)[:60], short(d)))
            g = sorted(G & wrote)
            if g:
                miss = sorted((I & opsR) - opsA - wrote)
                for d in miss:
                    res.bad("C07.init", c.short, "%s of %s" % (short(d), short(K)), c.where(),
                            "the copy provides `%s`, for which Init(WaveFunction) does nothing any more, but not `%s`" % (short(g[0]), short(d)))
                if not miss:
                    res.ok("C07.init", "%s as %s" % (c.where(), short(K)), "copies the initialised state completely (%s)" % ", ".join(short(x) for x in g))
    # wave functions: assignment takes over values, grid and basis
    for K in p.concrete("QDLIB::WaveFunction"):
        chain = [K] + p.all_bases(K)
        states = [fl["id"] for c in chain for fl in p.recs.get(c, {}).get("fields", ()) if isinstance(fl, dict) and
                  fl.get("t", "").replace("const ", "").startswith("QDLIB::WaveFunction *[")]
        data = [fl["id"] for c in chain if c.startswith("QDLIB::Vector<") for fl in p.recs.get(c, {}).get("fields", ()) if fl["id"].endswith("::v_")]
        need = set(states or data)
        if "QDLIB::GridSystem" in chain:
            need |= {fl["id"] for fl in p.recs["QDLIB::GridSystem"]["fields"] if fl["id"].endswith("::grid_sys")}
            need |= {fl["id"] for fl in p.recs["QDLIB::WaveFunction"]["fields"] if fl["id"].endswith("::_IsKspace")}
        for mid, m in methods(p, K).items():
            g = p.final_overrider(K, mid) if m.get("virt") else mid
            if not mid.endswith("::operator=(QDLIB::WaveFunction *)") or g not in p.fns:
                continue
            f = p.fns[g]
            got, wrote = C.transfers(f, K, frozenset(f.params[:1]))
            for d in sorted(need):
                nfld += 1
                if d in got:
                    res.ok("C07.wf", "%s as %s" % (f.where(), short(K)), "%s is taken over" % short(d))
                else:
                    res.bad("C07.wf", f.short, "%s of %s" % (short(d), short(K)), f.where(),
                            "assigning a %s: `%s` is not taken over from the source" % (short(K), short(d)))
            break
    # new instances have the class of the original
    for K in p.concrete("QDLIB::WaveFunction") + p.concrete("QDLIB::Operator"):
        for mid, m in sorted(methods(p, K).items()):
            if not mid.endswith("::NewInstance()"):
                continue
            g = p.final_overrider(K, mid)
            f = p.fns.get(g)
            if f is None:
                continue
            new = {n["t"] for i, n in enumerate(f.nodes) if n and n["k"] == "New" and i in f.parent and n["t"].endswith(" *")
                   and p.derives(n["t"][:-2], m_root(p, K))}
            sub = f.id in F.closure(f, K)[1] and not new and any(n.get("f") in p.fns for _, n in f.calls())
            if new == {K + " *"} or sub:
                res.ok("C07.class", "%s as %s" % (f.where(), short(K)), "creates a %s" % short(K))
            else:
                res.bad("C07.class", f.short, "NewInstance of %s" % short(K), f.where(),
                        "NewInstance() of a %s creates %s" % (short(K), ", ".join(short(x) for x in sorted(new)) or "nothing"))
            break
    res.count("configuration_fields_checked", nfld)
    res.floor("classes_with_copy", ncls, 20)
    res.assumptions += ["state that Init(WaveFunction) or an operation (re)computes itself is not configuration",
                        "arrays are taken as a whole: copying elements of an array counts as copying it"]


def never_returns(p, f, seen=()):
    """every path ends in an error"""
    if not f.blocks or f.id in seen:
        return False
    done, work = set(), [f.entry]
    while work:
        b = work.pop()
        if b in done:
            continue
        done.add(b)
        if b == f.exit:
            return False
        if f.is_abrupt(f.blocks[b]):
            continue
        if any(f.nodes[e] and f.nodes[e]["k"] == "Call" and f.nodes[e].get("f") in p.fns and f.nodes[e].get("m") and f.nodes[e].get("c")
               and on_this(f, f.nodes[e]["c"][0]) and never_returns(p, p.fns[f.nodes[e]["f"]], seen + (f.id,)) for e in f.blocks[b]["e"]):
            continue
        work += [s for s in f.blocks[b]["s"] if s >= 0]
    return True


def guards(p, F, f, cls):
    """own fields whose test makes Init return at once"""
    out = set()
    for i, n in enumerate(f.nodes):
        if not n or n["k"] != "If" or i not in f.parent:
            continue
        t = n.get("then", -1)
        if t < 0:
            continue
        body = f.nodes[t].get("c", ()) if f.nodes[t]["k"] == "Compound" else [t]
        body = [x for x in body if x >= 0]
        if len(body) == 1 and f.nodes[body[0]]["k"] == "Return" and n.get("else", -1) < 0:
            for x in f.walk(n["cond"]):
                m = f.nodes[x]
                if m["k"] == "Member" and m.get("c") and "d" in m and on_this(f, m["c"][0]):
                    out.add(m["d"])
    return out
