"""C14: objects are released in the way they were created, once, and not used afterwards.

Forward analysis of released access paths (locals, parameters, members, table elements) over the control flow graphs, with summaries
of what methods of the same object and functions taking pointers release; plus rules on the form of a release and on sharing."""
import re
from collections import defaultdict
from ..core import AnalysisBroken
from ..effects import split_params
from ..prog import cond_atoms, forward, short


def pre(p, q):
    """q is p or lies below p"""
    return q == p or q.startswith(p) and q[len(p)] in ".["


CHANGE = {"clear", "erase", "pop_back", "pop_front", "pop", "resize", "swap", "assign"}


class Paths:
    def __init__(self, prog):
        self.p = prog

    def strip(self, f, e):
        while f.nodes[e]["k"] == "Cast" and f.nodes[e].get("c"):
            e = f.nodes[e]["c"][0]
        return e

    def index(self, f, e):
        e = self.strip(f, e)
        n = f.nodes[e]
        v = n.get("cv", n.get("v"))
        if isinstance(v, int) and not isinstance(v, bool):
            return str(v)
        if n["k"] == "Ref":
            return "{%s}" % n["d"]
        q = self.path(f, e)
        return "{%s}" % q if q else "?"

    def path(self, f, e):
        if e is None or e < 0:
            return None
        n = f.nodes[e]
        k = n["k"]
        c = n.get("c", ())
        if k == "This":
            return "this"
        if k == "Ref":
            return n["d"]
        if k == "Member":
            b = self.path(f, c[0]) if c else None
            return None if b is None else b + "." + n["n"]
        if k == "Un" and n["op"] == "*":
            b = self.path(f, c[0])
            return b if b in (None, "this") else b + "[0]"
        if k == "Cast":
            return self.path(f, c[0]) if c else None
        if k == "Index" or k == "Call" and n.get("op") == "[]" and len(c) == 2:
            b = self.path(f, c[0])
            return None if b is None else b + "[" + self.index(f, c[1]) + "]"
        if k == "Call" and n.get("op") in ("*", "->") and len(c) == 1:
            b = self.path(f, c[0])
            return None if b is None else b + "[0]"
        return None


def same(a, b):
    """may two paths denote the same place (indices that other rounds of a loop used match other indices)"""
    if a == b:
        return True
    x, y = re.split(r"(\[[^\]]*\])", a), re.split(r"(\[[^\]]*\])", b)
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        if p == q:
            continue
        if not (p.startswith("[") and q.startswith("[")):
            return False
        p, q = p[1:-1], q[1:-1]
        if p == "*" or q == "*":
            continue
        for u, v in ((p, q), (q, p)):
            if u.startswith("~") and v != u[1:]:
                break
        else:
            return False
    return True


def hit(rel, q):
    """released path fact that makes q unusable"""
    parts = []
    i = 0
    # every prefix of q
    for m in re.finditer(r"\.|\[", q):
        if m.start():
            parts.append(q[:m.start()])
    parts.append(q)
    for r in rel:
        for x in parts:
            if (r[1] == x or "[" in x and same(r[1], x)):
                return r
    return None


class Own:
    def __init__(self, prog):
        self.p = prog
        self.P = Paths(prog)
        self.sum = {}
        self.found = {}
        self.sites = defaultdict(set)
        self.active = set()
        self.collected = set()
        for r in prog.recs.values():
            if any(m["n"] == "operator new" for m in r["methods"]):
                self.collected.add(r["id"])

    def own(self, f, e):
        e = self.P.strip(f, e)
        n = f.nodes[e]
        return n["k"] == "This" or n["k"] == "Un" and n["op"] == "*" and self.own(f, n["c"][0])

    def release(self, f, e):
        """expression released by node e"""
        n = f.nodes[e]
        if n["k"] == "Delete":
            return n["c"][0]
        if n["k"] == "Call" and n.get("fn") == "Delete" and n.get("m") and "Collector<" in (n.get("cls") or ""):
            a = f.args(e)
            return a[0] if a else None
        if n["k"] == "Call" and (n.get("m") and n.get("fn") == "Free" and (n.get("cls") or "").endswith("Memory")
                                 or not n.get("m") and n.get("fn") in RELEASERS) and f.args(e):
            return f.args(e)[0]
        return None

    # ---- summaries: (released parameters / own members, own members assigned)
    def summary(self, g):
        if g.id in self.sum:
            return self.sum[g.id]
        if g.id in self.active or not g.blocks:
            return frozenset(), frozenset()
        self.active.add(g.id)
        r = self.analyse(g)
        self.active.discard(g.id)
        self.sum[g.id] = r
        return r

    def relevant(self, g):
        if not hasattr(self, "_rel"):
            self._rel = set()
            todo = []
            for f in self.p.fns.values():
                if any(n and self.release(f, i) is not None for i, n in enumerate(f.nodes)):
                    self._rel.add(f.id)
                    todo.append(f)
            while todo:
                f = todo.pop()
                for c, _ in self.p.callers.get(f.id, ()):
                    if c.id not in self._rel:
                        self._rel.add(c.id)
                        todo.append(c)
        return g.id in self._rel

    def assigned(self, g, seen=None):
        """own members a method sets"""
        key = ("a", g.id)
        if key in self.sum:
            return self.sum[key]
        self.sum[key] = set()
        r = set()
        for i, n in enumerate(g.nodes):
            if not n:
                continue
            if n["k"] == "Assign" and n["op"] == "=":
                q = self.P.path(g, n["c"][0])
                if q and q.startswith("this."):
                    r.add(re.sub(r"\[[^\]]*\]", "[*]", q))
            elif n["k"] == "Call" and n.get("m") and n.get("c") and self.own(g, n["c"][0]):
                for h in self.p.callees(g, i):
                    r |= self.assigned(h)
        self.sum[key] = r
        return r

    def analyse(self, f, init=frozenset()):
        bad = {}

        def use(f, e, q, st, what):
            if q is None:
                return
            rel = [x for x in st if x[0] == "R"]
            if not rel:
                return
            r = hit(rel, q)
            if r:
                bad.setdefault(e, (q, r, what))

        def rename(st, d):
            """index variable d changes"""
            out = set()
            for x in st:
                y = x
                if x[0] == "R" and "{%s}" % d in x[1]:
                    y = ("R", x[1].replace("[{%s}]" % d, "[~{%s}]" % d)) + x[2:]
                elif x[0] == "A" and ("{%s}" % d in x[1] or "{%s}" % d in x[2]):
                    continue
                out.add(y)
            return frozenset(out)

        def reset(st, d):
            """index variable d starts again"""
            st = rename(st, d)
            return frozenset(("R", x[1].replace("[~{%s}]" % d, "[*]")) + x[2:] if x[0] == "R" else x for x in st)

        def kill(st, q):
            return frozenset(x for x in st if not (x[0] == "R" and (pre(q, x[1]) or "[" in x[1] and any(
                same(q, y) for y in self.prefixes(x[1]))) or x[0] == "A" and (pre(q, x[1]) or pre(q, x[2]))))

        def gen(st, q, e):
            if "[?]" in q:
                return st
            new = {("R", q, e)}
            for x in st:
                if x[0] == "A" and x[1] == q:
                    new.add(("R", x[2], e))
                elif x[0] == "A" and x[2] == q:
                    new.add(("R", x[1], e))
            return st | new

        def setto(f, st, l, r):
            lp, rp = l, self.P.path(f, r) if r is not None and r >= 0 else None
            dang = rp and hit([x for x in st if x[0] == "R"], rp)
            st = kill(st, lp)
            if dang:
                st = st | {("R", lp, dang[2])}
            elif rp and rp != lp and not pre(lp, rp):
                st = st | {("A", lp, rp)}
            return st

        def tr(f, e, st):
            n = f.nodes[e]
            k = n["k"]
            rel = self.release(f, e)
            if rel is not None:
                q = self.P.path(f, rel)
                if q is not None:
                    use(f, e, q, st, "released again")
                    self.sites[f.id].add(e)
                    if f.nodes[self.P.strip(f, rel)]["k"] != "Null":
                        st = gen(st, q, e)
                return st
            if k == "Var":
                if n.get("c"):
                    return setto(f, kill(st, n["d"]), n["d"], n["c"][0]) if n["t"].rstrip().endswith("*") else reset(st, n["d"])
                return reset(kill(st, n["d"]), n["d"])
            if k == "Decl":
                for v in n["c"]:
                    st = tr(f, v, st)
                return st
            if k == "Assign":
                q = self.P.path(f, n["c"][0])
                if q is None:
                    return st
                ty = f.nodes[n["c"][0]].get("t", "").rstrip()
                if n["op"] == "=" and ty.endswith("*"):
                    return setto(f, st, q, n["c"][1])
                if n["op"] != "=" and ty.endswith("*"):
                    return kill(st, q)
                if f.nodes[self.P.strip(f, n["c"][0])]["k"] == "Ref":
                    return reset(st, q) if n["op"] == "=" else rename(st, q)
                return st
            if k == "Un" and n["op"] in ("++", "--"):
                q = self.P.path(f, n["c"][0])
                if q and f.nodes[n["c"][0]].get("t", "").rstrip().endswith("*"):
                    return kill(st, q)
                return rename(st, q) if q else st
            if k == "Un" and n["op"] == "*" or k == "Index" or k == "Member" and n.get("arrow"):
                use(f, e, self.P.path(f, n["c"][0]) if n.get("c") else None, st, "used")
                return st
            if k == "Return" and n.get("c") and f.raw.get("ret", "").rstrip().endswith("*"):
                use(f, e, self.P.path(f, n["c"][0]), st, "returned")
                return st
            if k == "Call":
                args = f.args(e)
                r = f.recv(e)
                if r is not None and f.nodes[self.P.strip(f, r)].get("t", "").rstrip().endswith("*"):
                    use(f, e, self.P.path(f, r), st, "used")
                for a in args:
                    x = f.nodes[self.P.strip(f, a)]
                    if x["k"] == "Un" and x["op"] == "&":
                        q = self.P.path(f, x["c"][0])
                        if q:
                            st = kill(st, q)
                    elif x.get("t", "").rstrip().endswith("*"):
                        use(f, e, self.P.path(f, a), st, "handed on")
                q = self.P.path(f, args[0] if n.get("op") and r is None and args else r)
                if q and (n.get("fn") in CHANGE or n.get("op") in ("++", "--", "=", "+=")):
                    st = kill(st, q)
                gs = self.p.callees(f, e)
                ownc = r is not None and self.own(f, r)
                for g in gs:
                    if g.impl or not self.relevant(g):
                        if ownc:
                            for m in self.assigned(g):
                                st = kill(st, m)
                        continue
                    rel, _ = self.summary(g)
                    ts = split_params(g.id)
                    if ownc:
                        for m in self.assigned(g):
                            st = kill(st, m)
                    for t in rel:
                        if t[0] == "p" and t[1] < len(args):
                            q = self.P.path(f, args[t[1]])
                            if q and f.nodes[self.P.strip(f, args[t[1]])].get("t", "").rstrip().endswith("*"):
                                st = gen(st, q, e)
                        elif t[0] == "m" and ownc:
                            st = gen(st, t[1], e)
                    for d, t, a in zip(g.params, ts, args):
                        if t.endswith("&") and t.replace("&", "").rstrip().endswith("*"):
                            q = self.P.path(f, a)
                            if q and self.sets(g, d) and not any(y == ("p", g.params.index(d)) for y in rel):
                                st = kill(st, q)
                return st
            return st

        def edge(f, b, k, st):
            c = b.get("t", -1)
            if c is None or c < 0 or len(b["s"]) != 2:
                return st
            c = f.nodes[c].get("cond", c) if f.nodes[c]["k"] in ("If", "While", "For", "Do") else c
            if f.nodes[c]["k"] == "Cond":
                c = f.nodes[c]["c"][0]
            if f.nodes[c]["k"] == "Bin" and f.nodes[c]["op"] in ("&&", "||"):
                if b["e"]:
                    c = b["e"][-1]
            for i, v in cond_atoms(f, c, k == 0):
                i = self.P.strip(f, i)
                n = f.nodes[i]
                nul = None
                if n["k"] == "Bin" and n["op"] in ("==", "!="):
                    for a, z in (n["c"], n["c"][::-1]):
                        if f.nodes[self.P.strip(f, z)]["k"] == "Null" or f.nodes[self.P.strip(f, z)].get("v") == 0:
                            nul = a if (n["op"] == "==") == v else None
                elif n.get("t", "").rstrip().endswith("*") and not v:
                    nul = i
                if nul is not None:
                    q = self.P.path(f, nul)
                    if q:
                        st = kill(st, q)
            return st

        def join(a, b):
            return frozenset({x for x in a | b if x[0] == "R"} | {x for x in a & b if x[0] == "A"})
        inb, outb = forward(f, init, tr, join, edge)
        if init:
            return bad
        rel, left = set(), {}
        for b, k in f.preds[f.exit]:
            if b not in outb or f.is_abrupt(f.blocks[b]):
                continue
            for x in outb[b]:
                if x[0] != "R":
                    continue
                if x[1] in f.params:
                    rel.add(("p", f.params.index(x[1])))
                elif x[1].startswith("this.") or "::" in x[1]:
                    rel.add(("m", re.sub(r"\[[^\]]*\]", "[*]", x[1])))
                    left[x[1]] = x[2]
        self.found[f.id] = (bad, left)
        return frozenset(rel), frozenset()

    def later(self, f, q):
        """a method that uses the member without setting it first"""
        name = re.split(r"[.\[]", q[5:])[0] if q.startswith("this.") else None
        for g in sorted(self.p.fns.values(), key=lambda g: g.id):
            if not g.blocks or g.impl or not lib(g):
                continue
            if name:
                if not g.cls or not f.cls or not (self.p.derives(g.cls, f.cls) or self.p.derives(f.cls, g.cls)) or g.raw.get("inits") and g.name == g.cls.split("::")[-1]:
                    continue
                if not any(n and n["k"] == "Member" and n["n"] == name for n in g.nodes):
                    continue
            elif not any(n and n["k"] == "Ref" and n.get("d") == re.split(r"[.\[]", q)[0] for n in g.nodes):
                continue
            bad = self.analyse(g, frozenset({("R", q, -1)}))
            for e, (x, r, what) in sorted(bad.items()):
                if r[2] == -1:
                    return g, e, what
        return None

    def prefixes(self, q):
        out = [q]
        for m in re.finditer(r"\.|\[", q):
            if m.start():
                out.append(q[:m.start()])
        return out

    def sets(self, g, d):
        return any(n and n["k"] == "Assign" and g.nodes[n["c"][0]].get("d") == d for n in g.nodes)


def lib(f):
    return f.file.startswith("src/") and not f.file.startswith("src/tests/") and ".pb." not in f.file


def destructs(f):
    return f.name.startswith("~")


RELEASERS = {"free": "free", "cfree": "free", "fclose": "fclose", "pclose": "pclose"}
MAKERS = {"malloc": "free", "calloc": "free", "realloc": "free", "strdup": "free", "fopen": "fclose", "fdopen": "fclose", "popen": "pclose"}
HOW = {"delete": "delete", "delete[]": "delete[]", "free": "free()", "fclose": "fclose()", "pclose": "pclose()", "Memory": "Memory::Free()",
       "Collector": "its Collector"}


class Kinds:
    """how the object at a place is created and released: places are locals, and members of a class family"""

    def __init__(self, A, prog):
        self.A, self.p, self.P = A, prog, A.P
        self.made = defaultdict(dict)
        self.rel = defaultdict(list)
        self.memo = {}
        fns = [f for f in sorted(prog.fns.values(), key=lambda f: f.id) if f.blocks and not f.impl and lib(f)]
        for f in fns:
            for i, n in enumerate(f.nodes):
                if not n:
                    continue
                if n["k"] == "Var" and n.get("c") and n["t"].rstrip().endswith("*"):
                    self.flow(f, n["d"], n["c"][0])
                elif n["k"] == "Assign" and n["op"] == "=" and f.nodes[n["c"][0]].get("t", "").rstrip().endswith("*"):
                    self.flow(f, self.P.path(f, n["c"][0]), n["c"][1])
                elif n["k"] == "Call" and n.get("fn") in ("Align", "posix_memalign") and f.args(i):
                    e = self.P.strip(f, f.args(i)[0])
                    if f.nodes[e]["k"] == "Un" and f.nodes[e]["op"] == "&":
                        self.put(f, self.P.path(f, f.nodes[e]["c"][0]), {"Memory" if n["fn"] == "Align" else "free"}, i)
                k, e = self.released(f, i)
                if k:
                    q = self.P.path(f, e)
                    if q and not self.P.strip(f, e) in f.params:
                        self.rel[self.key(f, q)].append((f, i, k, q))

    def released(self, f, i):
        n = f.nodes[i]
        if n["k"] == "Delete":
            return "delete[]" if n.get("arr") else "delete", n["c"][0]
        if n["k"] == "Call":
            a = f.args(i)
            if self.A.release(f, i) is not None:
                return "Collector" if n.get("fn") == "Delete" else "Memory" if n.get("m") else RELEASERS[n["fn"]], a[0]
        return None, None

    def key(self, f, q):
        q = re.sub(r"\[[^\]]*\]", "[*]", q)
        if q.startswith("this."):
            m = q.split(".")[1].split("[")[0]
            c = f.cls
            for b in [c] + self.p.all_bases(c):
                r = self.p.recs.get(b)
                if r and any(x["n"] == m for x in r["fields"]):
                    c = b
                    break
            return "m", c, q
        return "l", f.id, q

    def created(self, f, e, seen=()):
        """ways the value of an expression may have been created here; None: unknown"""
        e = self.P.strip(f, e)
        n = f.nodes[e]
        k = n["k"]
        if k == "New":
            ty = n.get("ty", "")
            if n.get("placement"):
                return None
            if n.get("arr"):
                return {"delete[]"}
            return {"Collector" if any(self.p.derives(ty, c) for c in self.A.collected) else "delete"}
        if k == "Null" or n.get("v") == 0 and k != "Ref":
            return set()
        if k == "Cond" and len(n.get("c", ())) == 3:
            a, b = self.created(f, n["c"][1], seen), self.created(f, n["c"][2], seen)
            return None if a is None or b is None else a | b
        if k == "Call":
            if not n.get("m") and n.get("fn") in MAKERS:
                return {MAKERS[n["fn"]]}
            gs = self.p.callees(f, e)
            out = set()
            for g in gs:
                x = self.returns(g, seen)
                if x is None:
                    return None
                out |= x
            return out if gs else None
        return None

    def returns(self, g, seen):
        if g.id in seen or not g.blocks:
            return None
        if g.id in self.memo:
            return self.memo[g.id]
        out = set()
        for i, n in enumerate(g.nodes):
            if n and n["k"] == "Return" and n.get("c"):
                x = self.created(g, n["c"][0], seen + (g.id,))
                if x is None:
                    e = self.P.strip(g, n["c"][0])
                    x = self.local(g, g.nodes[e].get("d"), seen) if g.nodes[e]["k"] == "Ref" else None
                if x is None:
                    out = None
                    break
                out |= x
        self.memo[g.id] = out
        return out

    def local(self, g, d, seen):
        """a local that is only set to fresh objects and not handed to anything that keeps it"""
        if not d or d in g.params or "::" in d:
            return None
        out = set()
        for i, n in enumerate(g.nodes):
            if not n:
                continue
            if n["k"] == "Var" and n.get("d") == d and n.get("c"):
                x = self.created(g, n["c"][0], seen + (g.id,))
            elif n["k"] == "Assign" and g.nodes[n["c"][0]].get("d") == d and g.nodes[n["c"][0]]["k"] == "Ref":
                x = self.created(g, n["c"][1], seen + (g.id,))
            else:
                continue
            if x is None:
                return None
            out |= x
        return out or None

    def put(self, f, q, ks, e):
        if q:
            for k in ks:
                self.made[self.key(f, q)].setdefault(k, (f, e))

    def flow(self, f, q, e):
        if not q:
            return
        x = self.created(f, e)
        if x is None:
            r = self.P.strip(f, e)
            self.made[self.key(f, q)].setdefault(None, (f, e))
            if f.nodes[r]["k"] == "Ref" and f.nodes[r].get("d") not in f.params:
                x = self.local(f, f.nodes[r].get("d"), ())
                if x:
                    del self.made[self.key(f, q)][None]
        if x:
            self.put(f, q, x, e)


def kinds(prog, res, A):
    K = Kinds(A, prog)
    n = 0
    for key in sorted(K.rel, key=str):
        made = K.made.get(key, {})
        for f, e, k, q in K.rel[key]:
            show = re.sub(r"%\d+\.", "", q)
            ty = f.nodes[e].get("ty", "") if f.nodes[e]["k"] == "Delete" else ""
            if ty and not ty.rstrip().endswith("*") and any(prog.derives(ty, c) for c in A.collected):
                if not (f.cls or "").startswith("QDLIB::Collector<"):
                    res.bad("C14.form", f.short, show, f.where(e), "%s releases %s (%s) with %s although objects of this class belong to their Collector" % (
                        f.short, show, short(ty), k))
                    continue
            if ty and not ty.rstrip().endswith("*") and ty in prog.recs:
                r = prog.recs[ty]
                if any(m.get("virt") for m in r["methods"]) and any(x != ty and prog.derives(x, ty) for x in prog.recs):
                    d = [m for m in r["methods"] if m["n"].startswith("~")]
                    if not d or not d[0].get("virt"):
                        if not (len(made) == 1 and None not in made and all(
                                g.nodes[K.P.strip(g, x)].get("ty") == ty for g, x in made.values())):
                            res.bad("C14.form", f.short, show, f.where(e), "%s deletes %s through %s, whose destructor is not virtual" % (f.short, show, short(ty)))
                            continue
            if any(x is not None for x in made):
                n += 1
                if k not in made:
                    m = sorted(x for x in made if x)[0]
                    if None in made:
                        res.ok("C14.form", f.where(e), "%s: %s may come from elsewhere" % (f.short, show))
                        continue
                    g, x = made[m]
                    res.bad("C14.form", f.short, show, f.where(e), "%s releases %s with %s, but it was created for %s (%s)" % (
                        f.short, show, HOW[k], HOW[m], g.where(x)))
                    continue
            res.ok("C14.form", f.where(e), "%s: %s is released by %s" % (f.short, show, HOW[k]))
    res.count("releases matched with a creation", n)
    if n < 15:
        raise AnalysisBroken("only %d releases matched with a creation" % n)
    return K


def closure(prog, A, f, seen):
    """member paths released by a destructor, including own methods it calls"""
    if f.id in seen or not f.blocks:
        return {}
    seen.add(f.id)
    out = {}
    for i, n in enumerate(f.nodes):
        if not n:
            continue
        e = A.release(f, i)
        if e is not None and (n["k"] == "Delete" or n.get("fn") == "Delete"):
            q = A.P.path(f, e)
            if q and q.startswith("this."):
                out[re.sub(r"\[[^\]]*\]", "[*]", q)] = (f, i, "c" if n.get("fn") == "Delete" else "d")
        elif n["k"] == "Call" and n.get("m") and n.get("c") and A.own(f, n["c"][0]):
            for g in prog.callees(f, i):
                out.update(closure(prog, A, g, seen))
    return out


def sharing(prog, res, A):
    owned = {}
    for f in prog.fns.values():
        if destructs(f) and f.cls and lib(f):
            owned[f.cls] = closure(prog, A, f, set())
    res.count("owning classes", sum(1 for x in owned.values() if x))
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if not f.cls or not lib(f):
            continue
        fam = {}
        for b in [f.cls] + prog.all_bases(f.cls):
            fam.update({q: (b, v) for q, v in owned.get(b, {}).items()})
        if not fam:
            continue
        sites = []
        for x in f.raw.get("inits") or ():
            if f.impl and x.get("field"):
                q = "this." + x["field"].split("::")[-1]
                if q in fam:
                    sites.append((q, x["e"], None))
        if f.blocks:
            for i, n in enumerate(f.nodes):
                if n and n["k"] == "Assign" and n["op"] == "=":
                    q, r = A.P.path(f, n["c"][0]), A.P.path(f, n["c"][1])
                    if not q or not r or not q.startswith("this.") or r.startswith("this."):
                        continue
                    k = re.sub(r"\[[^\]]*\]", "[*]", q)
                    m = re.match(r"(%\d+\.\w*)[.](.*)$", r)
                    if k in fam and m and re.sub(r"\[[^\]]*\]", "[*]", "this." + m.group(2)) == k:
                        sites.append((k, i, r))
        for k, i, r in sites:
            b, (d, e, how) = fam[k]
            if f.impl and not prog.callers.get(f.id):
                continue
            if r and how == "c" and any(n and n["k"] == "Call" and n.get("fn") == "Register" and f.args(j) and same(
                    (A.P.path(f, f.args(j)[0]) or "").replace(r, q_of(f, A, i)), q_of(f, A, i)) for j, n in enumerate(f.nodes)):
                res.ok("C14.share", f.where(i), "%s: the shared %s is registered again" % (f.short, k[5:]))
                continue
            if r and any(n and n["k"] == "Assign" and A.P.path(f, n["c"][0]) == r and f.nodes[A.P.strip(f, n["c"][1])]["k"] == "Null" for n in f.nodes):
                res.ok("C14.share", f.where(i), "%s: %s is taken over" % (f.short, k[5:]))
                continue
            where = f.where(i) if not f.impl else prog.callers[f.id][0][0].where(prog.callers[f.id][0][1])
            res.bad("C14.share", f.short, k, where, "%s makes two objects point to the same %s, and each destructor releases it (%s)" % (
                f.short if not f.impl else "the generated copy %s" % f.short, k[5:], d.where(e)))
        if f.name in ("Copy", "operator=") and not sites:
            res.ok("C14.share", f.where(), "%s: nothing that the destructor releases is shared" % f.short)
    # destructors of a class and of its bases
    for c, mine in sorted(owned.items()):
        for b in prog.all_bases(c):
            for q in sorted(set(mine) & set(owned.get(b, {}))):
                f, e, _ = mine[q]
                g, x, _ = owned[b][q]
                m = re.split(r"[.\[]", q[5:])[0]
                if f is g or any(y["n"] == m for z in [c] + prog.all_bases(c) if z != b and prog.derives(z, b) and z in prog.recs for y in prog.recs[z]["fields"]):
                    continue
                if cleared(f, A, q):
                    continue
                res.bad("C14.use", f.short, q, f.where(e), "%s is released by the destructor of %s and again by that of %s (%s)" % (q[5:], short(c), short(b), g.where(x)))


def q_of(f, A, i):
    return A.P.path(f, f.nodes[i]["c"][0])


def cleared(f, A, q):
    return any(n and n["k"] == "Assign" and re.sub(r"\[[^\]]*\]", "[*]", A.P.path(f, n["c"][0]) or "") == q
               and f.nodes[A.P.strip(f, n["c"][1])]["k"] == "Null" for n in f.nodes)


def check(prog, res, tier):
    A = Own(prog)
    fns = [f for f in sorted(prog.fns.values(), key=lambda f: f.id) if f.blocks and not f.impl and lib(f) and A.relevant(f)]
    if len(fns) < 30:
        raise AnalysisBroken("only %d functions release anything" % len(fns))
    for f in fns:
        A.summary(f)
    res.count("functions", len(fns))
    res.count("release sites", sum(len(x) for x in A.sites.values()))
    for f in fns:
        bad, left = A.found[f.id]
        for e, (q, r, what) in sorted(bad.items()):
            res.bad("C14.use", f.short, re.sub(r"%\d+\.", "", q), f.where(e), "%s: %s is %s after it was released (line %d)" % (
                f.short, re.sub(r"%\d+\.", "", q), what, f.nodes[r[2]]["l"]))
        if not bad:
            res.ok("C14.use", f.where(), "%s: nothing is used after its release" % f.short)
        if destructs(f):
            continue
        cs = [g for g, _ in prog.callers.get(f.id, ()) if lib(g)]
        inner = cs and not f.virt and all(g.cls and f.cls and (prog.derives(g.cls, f.cls) or prog.derives(f.cls, g.cls)) for g in cs)
        for q, e in sorted(left.items()):
            if inner:
                res.ok("C14.dangling", f.where(e), "%s: judged in its callers" % f.short)
                continue
            user = A.later(f, re.sub(r"\[[^\]]*\]", "[*]", q))
            if user:
                g, x, what = user
                res.bad("C14.dangling", f.short, re.sub(r"%\d+\.", "", q), f.where(e), "%s returns with %s released but still set; %s by %s (%s)" % (
                    f.short, re.sub(r"%\d+\.", "", q), what, g.short, g.where(x)))
            else:
                res.ok("C14.dangling", f.where(e), "%s: %s is not used by any method until it is set again" % (f.short, q))


    kinds(prog, res, A)
    sharing(prog, res, A)


ID = "C14"
DESC = __doc__
