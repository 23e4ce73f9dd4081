"""C15: every loop comes to an end.

For every loop of the control flow graphs a ranking is looked for: a test that is passed in every round and leaves the loop once a
difference (limit - counter, the length of a container, the rest of a chain, the rest of an input) is used up, together with steps that
reduce this difference, lie on every way round the loop, and are not undone by anything else in the loop."""
import re
from collections import defaultdict
from ..core import AnalysisBroken
from ..effects import split_params
from ..prog import cond_atoms, short
from .C14 import lib

GROW = {"push_back", "push_front", "push", "insert", "append", "emplace", "emplace_back", "resize", "assign", "str", "write", "reserve_grow"}
SHRINK = {"pop_back", "pop_front", "pop", "clear"}
CHANGE = {"swap", "merge", "splice", "replace"}
STREAMOPS = {"read", "get", "getline", "Next", "readsome", "ignore", "sgetn", "ReadRaw", "ReadVarint32", "ReadString", "Read", "Skip"}
INFUNCS = {"getline", "getopt", "getopt_long", "fread", "fgets", "fgetc", "getc", "getchar", "readdir", "recv", "read", "fscanf", "scanf", "strtok"}
FIND = {"find", "find_first_of", "find_first_not_of"}
ATLEAST1 = {"Get_size", "omp_get_num_threads", "omp_get_max_threads"}


def base(t):
    return re.sub(r"\b(const|volatile)\b|&", "", t or "").strip()


UNS = {"unsigned int": 32, "unsigned long": 64, "unsigned char": 8, "unsigned short": 16, "unsigned long long": 64, "size_t": 64, "uint": 32,
       "std::size_t": 64, "uint32_t": 32, "uint64_t": 64, "size_type": 64}
SIG = {"int": 32, "long": 64, "char": 8, "short": 16, "long long": 64, "signed char": 8, "lint": 64, "int32_t": 32, "int64_t": 64}


def width(t):
    t = base(t)
    if t in UNS:
        return UNS[t], True
    if t in SIG:
        return SIG[t], False
    if t.endswith("size_type") or t.endswith("size_t"):
        return 64, True
    return None


def num(n):
    v = n.get("cv", n.get("v"))
    return v if isinstance(v, (int, float)) and not isinstance(v, bool) else None


def pre(p, q):
    return q == p or q.startswith(p) and q[len(p)] in ".["


class Lin:
    """linear combination of places (and opaque values with the places they read)"""

    def __init__(self, t=None, c=0, reads=()):
        self.t = t or {}
        self.c = c
        self.reads = dict(reads)    # opaque key -> places read

    def add(self, o, s=1):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + s * v
            if not t[k]:
                del t[k]
        r = dict(self.reads)
        r.update(o.reads)
        return Lin(t, self.c + s * o.c, r)

    def scale(self, s):
        return Lin({k: v * s for k, v in self.t.items()}, self.c * s, self.reads)


class Loops:
    def __init__(self, prog):
        self.p = prog
        self._sum = {}
        self._pos = {}
        self._cons = {}
        self._assign = None
        self.taken = {}     # calls of predicates that decide the test looked at: their result while the loop goes on

    # ------------------------------------------------------------ expressions
    def strip(self, f, e):
        while f.nodes[e]["k"] in ("Cast", "Paren") and f.nodes[e].get("c"):
            e = f.nodes[e]["c"][0]
        return e

    def path(self, f, e, env=None):
        if e is None or e < 0:
            return None
        n = f.nodes[e]
        k = n["k"]
        c = n.get("c", ())
        if k == "This":
            return (env or {}).get("this", "this")
        if k == "Ref":
            if env is not None:
                if n["d"] in env:
                    return env[n["d"]]
                if n["d"] in f.params or n["d"].startswith("%"):
                    return None if env else n["d"]
            al = self.alias(f).get(n["d"])
            if al is not None:
                return self.path(f, al, env)
            return n["d"]
        if k == "Member":
            b = self.objpath(f, c[0], env) if c else None
            return None if b is None else b + "." + n["n"]
        if k == "Un" and n["op"] == "&":
            return self.path(f, c[0], env)
        if k == "Un" and n["op"] == "*":
            b = self.path(f, c[0], env)
            return b if b in (None, "this") else b + "[]"
        if k == "Cast":
            return self.path(f, c[0], env) if c else None
        if k == "Construct" and len(c) == 1 and "iterator" in n.get("cls", ""):
            return self.path(f, c[0], env)
        if k == "Index" or k == "Call" and n.get("op") == "[]" and len(c) == 2:
            b = self.path(f, c[0], env)
            return None if b is None else b + "[]"
        if k == "Call" and n.get("op") in ("*", "->") and len(c) == 1:
            b = self.path(f, c[0], env)
            return b if b is None else b + "[]"
        return None

    def objpath(self, f, e, env=None):
        """path of an object named directly or through a pointer: p->x and (*p).x are the same"""
        s = self.strip(f, e)
        n = f.nodes[s]
        if (n["k"] == "Un" and n["op"] == "*" or n["k"] == "Call" and n.get("op") in ("*", "->") and len(n.get("c", ())) == 1):
            return self.objpath(f, n["c"][0], env)
        return self.path(f, e, env)

    def alias(self, f):
        """reference locals bound once"""
        if not hasattr(f, "_al15"):
            f._al15 = {}
            for n in f.nodes:
                if n and n["k"] == "Var" and n["t"].rstrip().endswith("&") and n.get("c"):
                    f._al15[n["d"]] = n["c"][0]
        return f._al15

    def places(self, f, e, env=None):
        """places an expression reads (getters of program classes are opened)"""
        out = set()
        skip = set()
        for x in f.walk(e):
            n = f.nodes[x]
            if n["k"] == "Call" and n.get("m") and n.get("c"):
                gs = self.p.callees(f, x)
                if gs and all(g.blocks and self.reads(g) for g in gs):
                    skip.add(self.strip(f, n["c"][0]))      # only what the getter reads matters
            if n["k"] in ("Ref", "Member", "Index"):
                q = self.path(f, x, env)
                if q and x not in skip:
                    out.add(q)
            elif n["k"] == "Call":
                r = f.recv(x)
                q = self.objpath(f, r, env) if r is not None else None
                for g in self.p.callees(f, x):
                    if q:
                        for m in self.reads(g):
                            out.add(q + m[4:])
        return out

    def reads(self, g, depth=0):
        """own members a getter reads"""
        key = ("r", g.id)
        if key in self._sum:
            return self._sum[key]
        self._sum[key] = set()
        out = set()
        if g.blocks and depth < 4:
            for x in g.walk():
                n = g.nodes[x]
                if n["k"] == "Member":
                    q = self.path(g, x)
                    if q and q.startswith("this."):
                        out.add(q)
                elif n["k"] == "Call":
                    r = g.recv(x)
                    q = self.path(g, r) if r is not None else None
                    if q and pre("this", q):
                        for h in self.p.callees(g, x):
                            for m in self.reads(h, depth + 1):
                                out.add(q + m[4:])
        self._sum[key] = out
        return out

    def lin(self, f, e, env=None, depth=0):
        n = f.nodes[e]
        k = n["k"]
        c = n.get("c", ())
        if k == "Ref" and n["d"].endswith("::npos") or k == "Member" and n["n"] == "npos":
            return Lin({"npos": 1})
        v = num(n)
        if v is not None:
            return Lin(c=v)
        if k == "Bool":
            return Lin(c=int(n["v"]))
        if k == "Null":
            return Lin(c=0)
        if k in ("Cast", "Paren") and c:
            return self.lin(f, c[0], env, depth)
        if k in ("Ref", "Member"):
            if k == "Ref" and n.get("enum") is not None:
                return Lin(c=n["enum"])
            q = self.path(f, e, env)
            if q:
                return Lin({q: 1}, reads={q: {q}})
        if k == "Index" or k == "Call" and n.get("op") == "[]":
            q = self.path(f, e, env)
        if k == "Bin" and n["op"] in ("+", "-"):
            return self.lin(f, c[0], env, depth).add(self.lin(f, c[1], env, depth), 1 if n["op"] == "+" else -1)
        if k == "Call" and n.get("op") in ("+", "-") and len(c) == 2:
            return self.lin(f, c[0], env, depth).add(self.lin(f, c[1], env, depth), 1 if n["op"] == "+" else -1)
        if k == "Bin" and n["op"] == "*":
            a, b = self.lin(f, c[0], env, depth), self.lin(f, c[1], env, depth)
            if not a.t:
                return b.scale(a.c)
            if not b.t:
                return a.scale(b.c)
        if k == "Un" and n["op"] == "-":
            return self.lin(f, c[0], env, depth).scale(-1)
        if k == "Un" and n["op"] in ("++", "--"):
            a = self.lin(f, c[0], env, depth)
            return a.add(Lin(c=0 if not n.get("post") else (-1 if n["op"] == "++" else 1)))
        if k == "Call" and n.get("op") in ("++", "--"):
            return self.lin(f, c[0], env, depth)
        if k == "Construct" and len(c) == 1:
            return self.lin(f, c[0], env, depth)
        if k == "Assign":
            return self.lin(f, c[0], env, depth)
        if k == "Call" and n.get("m") and n.get("fn") in ("size", "length") and len(c) == 1:
            q = self.path(f, c[0], env)
            if q and not self.p.callees(f, e):
                return Lin({q + "#": 1}, reads={q + "#": {q}})
        if k == "Call" and n.get("m") and depth < 4:
            g = self.getter(f, e)
            r = f.recv(e)
            q = self.objpath(f, r, env) if r is not None else None
            if g and q:
                gg, x = g
                return self.lin(gg, x, {"this": q}, depth + 1)
        key = "(" + f.txt(e) + ")"
        return Lin({key: 1}, reads={key: self.places(f, e, env)})

    def getter(self, f, e):
        """the expression returned by a method of one return statement without arguments"""
        gs = self.p.callees(f, e)
        if len(gs) != 1 or gs[0].params or not gs[0].blocks:
            return None
        g = gs[0]
        rs = [n for n in (g.nodes[x] for x in g.walk(g.body)) if n["k"] == "Return"]
        if len(rs) == 1 and rs[0].get("c"):
            return g, rs[0]["c"][0]
        return None

    # ------------------------------------------------------------ positive values
    def assigns(self):
        if self._assign is None:
            self._assign = defaultdict(list)    # (class, field) -> (fn, expr)
            for f in self.p.fns.values():
                for io in f.raw["inits"]:
                    if io.get("field"):
                        self._assign[io["field"].split("::")[-1]].append((f, io["e"]))
                for n in f.nodes:
                    if n and n["k"] == "Assign":
                        m = f.nodes[self.strip(f, n["c"][0])]
                        if m["k"] == "Member":
                            self._assign[m["n"]].append((f, n["c"][1] if n["op"] == "=" else -1))
                    elif n and n["k"] == "Un" and n["op"] == "--":
                        m = f.nodes[self.strip(f, n["c"][0])]
                        if m["k"] == "Member":
                            self._assign[m["n"]].append((f, -1))
        return self._assign

    def positive(self, f, e, D=None, seen=()):
        """the value is at least one (D: a difference known to be positive here)"""
        if e is None or e < 0 or len(seen) > 12:
            return False
        e = self.strip(f, e)
        n = f.nodes[e]
        k = n["k"]
        c = n.get("c", ())
        v = num(n)
        if v is not None:
            return v >= 1 or isinstance(v, float) and v > 0
        if k == "Sizeof":
            return True
        key = (f.id, e)
        if key in seen:
            return True
        seen = seen + (key,)
        if D is not None and k != "Ref":
            L = self.lin(f, e)
            if L.t == D.t and L.c == D.c:
                return True
        if k == "Cond":
            return self.positive(f, c[1], D, seen) and self.positive(f, c[2], D, seen)
        if k == "Bin" and n["op"] == "*":
            return self.positive(f, c[0], D, seen) and self.positive(f, c[1], D, seen)
        if k == "Bin" and n["op"] == "+":
            return self.positive(f, c[0], D, seen) and self.natural(f, c[1]) or self.positive(f, c[1], D, seen) and self.natural(f, c[0])
        if k == "Ref":
            return self.posplace(f, n["d"], D, seen)
        if k == "Member":
            rec = n.get("own") or ""
            ws = [(g, x) for g, x in self.assigns().get(n["n"], ()) if self.related(g, f, n, c)]
            return bool(ws) and all(self.positive(g, x, None, seen) for g, x in ws)
        if k == "Call":
            if n.get("fn") in ATLEAST1:
                return True
            if n.get("fn") in ("max",):
                return any(self.positive(f, a, D, seen) for a in f.args(e))
            if n.get("fn") in ("min",):
                return all(self.positive(f, a, D, seen) for a in f.args(e))
            gs = self.p.callees(f, e)
            if gs and all(g.blocks for g in gs):
                for g in gs:
                    rs = [m for m in (g.nodes[x] for x in g.walk(g.body)) if m["k"] == "Return"]
                    if not rs or not all(m.get("c") and self.positive(g, m["c"][0], None, seen) for m in rs):
                        return False
                return True
        return False

    def related(self, g, f, n, c):
        """may an assignment in g concern the member n of f"""
        t = base(f.nodes[c[0]].get("t", "")).replace("*", "").strip() if c else f.cls
        if f.nodes[c[0]]["k"] == "This":
            t = f.cls
        if not g.cls or not t:
            return True
        a, b = re.sub(r"<.*", "", g.cls), re.sub(r"<.*", "", t)
        if a.split("::")[-1] == b.split("::")[-1]:
            return True
        return self.p.derives(g.cls, t) or self.p.derives(t, g.cls)

    def natural(self, f, e):
        e = self.strip(f, e)
        n = f.nodes[e]
        v = num(n)
        if v is not None:
            return v >= 0
        w = width(n.get("t"))
        return bool(w and w[1]) or n["k"] == "Call" and n.get("fn") in ("size", "length") or self.positive(f, e)

    def posplace(self, f, d, D, seen):
        """every value a local gets is positive (results of Next(): eventually)"""
        ws = 0
        for i, n in enumerate(f.nodes):
            if not n:
                continue
            if n["k"] == "Var" and n["d"] == d:
                if n.get("c"):
                    v = num(f.nodes[self.strip(f, n["c"][0])])
                    if v == 0:
                        continue
                    ws += 1
                    if not self.positive(f, n["c"][0], D, seen):
                        return False
            elif n["k"] == "Assign" and f.nodes[self.strip(f, n["c"][0])].get("d") == d:
                ws += 1
                if n["op"] == "=" and not self.positive(f, n["c"][1], D, seen):
                    return False
                if n["op"] not in ("=", "+=", "*="):
                    return False
            elif n["k"] == "Un" and n["op"] == "--" and f.nodes[self.strip(f, n["c"][0])].get("d") == d:
                return False
            elif n["k"] == "Un" and n["op"] == "&" and f.nodes[self.strip(f, n["c"][0])].get("d") == d:
                par = [a for a in f.ancestors(i) if f.nodes[a]["k"] == "Call"]
                if par and f.nodes[par[0]].get("fn") == "Next":
                    ws += 1
                else:
                    return False
        return ws > 0 and d not in f.params

    # ------------------------------------------------------------ events
    def calltargets(self, f, e, place, env=None):
        """(callee, place of the callee) through which a call may change the place"""
        n = f.nodes[e]
        out = []
        r = f.recv(e)
        gs = self.p.callees(f, e)
        args = f.args(e) if n["k"] == "Call" else list(n.get("c", ()))
        if r is None and n.get("op") and args and gs and len(args) > len(gs[0].params):
            r, args = args[0], args[1:]
        rp = self.objpath(f, r) if r is not None else None
        if n["k"] == "Call" and rp and pre(rp, place):
            for g in gs:
                out.append((g, "this" + place[len(rp):]))
        ts = split_params(n.get("f") or "")
        for i, a in enumerate(args):
            if i >= len(ts):
                break
            t = ts[i].strip()
            s = self.strip(f, a)
            q = self.path(f, a)
            if not q or not pre(q, place):
                continue
            amp = f.nodes[s]["k"] == "Un" and f.nodes[s]["op"] == "&"
            ref = t.endswith("&") and not t.startswith("const")
            ptr = t.endswith("*") and not t.startswith("const")
            if q == place and not (amp or ref):
                continue
            if not (amp or ref or ptr):
                continue
            if gs:
                for g in gs:
                    if i < len(g.params):
                        out.append((g, g.params[i] + place[len(q):]))
            else:
                out.append((None, place))
        return out

    def events(self, f, e, place, D=None):
        """what node e does to a place: list of (kind, amount); kinds + - = chain grow shrink find npos"""
        n = f.nodes[e]
        k = n["k"]
        c = n.get("c", ())
        out = []
        size = place.endswith("#")
        pl = place[:-1] if size else place
        if k == "Decl":
            for v in c:
                out += self.events(f, v, place, D)
            return out
        if k == "Var":
            return [("=", None)] if pre(n["d"], pl) else []
        if k == "Un" and n["op"] in ("++", "--") or k == "Call" and n.get("op") in ("++", "--"):
            q = self.path(f, c[0])
            if q == place:
                return [("+" if n["op"] == "++" else "-", 1)]
            if q and pre(q, pl) and not (k == "Call" and self.p.callees(f, e)):
                return [("=", None)]
            if k == "Un":
                return []
        if k == "Assign" or k == "Call" and n.get("op") in ("=", "+=", "-=") and len(c) == 2:
            q = self.path(f, c[0])
            if q is None:
                return []
            if q == place or size and q == pl:
                op = n["op"]
                if size:
                    r = self.strip(f, c[1])
                    while f.nodes[r]["k"] == "Construct" and len(f.nodes[r].get("c", ())) == 1:
                        r = self.strip(f, f.nodes[r]["c"][0])
                    m = f.nodes[r]
                    if op == "=" and m["k"] == "Call" and m.get("fn") == "substr" and f.args(r) and self.path(f, f.recv(r)) == pl:
                        return [("-", None)] if self.positive(f, f.args(r)[0]) else [("=", None)]
                    return [("+", None)] if op == "+=" else [("=", None)]
                if op in ("+=", "-="):
                    v = num(f.nodes[self.strip(f, c[1])])
                    if v is not None:
                        return [] if v == 0 else [("+" if (op == "+=") == (v > 0) else "-", abs(v))]
                    if self.positive(f, c[1], D):
                        return [("+" if op == "+=" else "-", None)]
                    return [("=", None)]
                if op in ("*=", "<<="):
                    v = num(f.nodes[self.strip(f, c[1])])
                    return [("+", None)] if v and v >= (2 if op == "*=" else 1) else [("=", None)]
                if op in ("/=", ">>="):
                    v = num(f.nodes[self.strip(f, c[1])])
                    return [("-", None)] if v and v >= (2 if op == "/=" else 1) else [("=", None)]
                if op == "=":
                    return [self.setto(f, c[1], place, D)]
                return [("=", None)]
            if pre(q, pl):
                return [("=", None)]
            return []
        if k in ("Call", "Construct"):
            r = f.recv(e) if k == "Call" else None
            gs = self.p.callees(f, e) if k == "Call" else []
            rp = self.objpath(f, r) if r is not None else None
            fn = n.get("fn")
            if k == "Call" and n.get("op") and not n.get("m") and c:
                rp = self.path(f, c[0])
            if rp == pl and not gs:
                if n.get("op") == "<<" and size:
                    return [("+", None)]
                if fn in GROW or n.get("op") == "+=":
                    if fn == "str" and not f.args(e):
                        return []
                    return [("+", e)] if size else [("grow", e)]
                if fn in SHRINK:
                    return [("-", 1)] if size else [("shrink", e)]
                if fn == "erase":
                    a = f.args(e)
                    sure = a and (not width(f.nodes[self.strip(f, a[0])].get("t")) or len(a) > 1 and self.positive(f, a[1]))
                    if not sure:
                        return [("may-", 1)] if size else [("mayshrink", e)]
                    return [("-", 1)] if size else [("shrink", e)]
                if fn in CHANGE:
                    return [("=", None)]
                if n.get("op") == "[]" and "map" in (n.get("cls") or f.nodes[c[0]].get("t", "")):
                    return [("+", None)] if size else [("grow", e)]
            for g, q in self.calltargets(f, e, place):
                if g is None:
                    out.append(("=", None))
                    continue
                may, must = self.effect(g, q, self.taken.get((f.id, e)))
                for x in may:
                    if x in must:
                        out.append(must[x])
                    else:
                        out.append(("may" + x[0], x[1]) if x[0] in "+-" or x[0] in ("chain", "shrink") else x)
        return out

    def setto(self, f, e, place, D):
        """place = expression"""
        s = self.strip(f, e)
        n = f.nodes[s]
        L = self.lin(f, e)
        if L.t == {place: 1}:
            return ("+", L.c) if L.c > 0 else ("-", -L.c) if L.c < 0 else ("same", None)
        if L.t == {"npos": 1}:
            return ("npos", None)
        if place in L.t and L.t[place] == 1:
            rest = L.add(Lin({place: 1}), -1)
            for x in f.walk(e):
                pass
            b = f.nodes[s]
            if b["k"] == "Bin" and b["op"] in ("+", "-"):
                for u, w in ((0, 1), (1, 0)):
                    if self.path(f, b["c"][u]) == place and (b["op"] == "+" or u == 0) and self.positive(f, b["c"][w], D):
                        return ("+" if b["op"] == "+" else "-", None)
        q = self.path(f, e)
        if q and q != place and pre(place, q):
            return ("chain", None)
        if n["k"] == "Ref" and n["d"] != place and n["d"] not in f.params:
            vs = self.values(f, n["d"])
            if vs and None not in vs:
                qs = [self.path(f, x) for x in vs]
                if all(y and (y != place and pre(place, y) or y != n["d"] and pre(n["d"], y)) for y in qs) and any(pre(place, y) for y in qs):
                    return ("chain", None)
        if n["k"] == "Call" and n.get("m"):
            r = self.path(f, f.recv(s))
            if n.get("fn") == "erase":
                return ("+", 1)
            if n.get("fn") in FIND and r:
                a = f.args(s)
                fwd = False
                if len(a) > 1:
                    P = self.lin(f, a[1])
                    fwd = P.t == {place: 1} and P.c >= 1
                    if not fwd and len(P.t) == 1 and list(P.t.values()) == [1] and P.c >= 0 and list(P.t)[0] != place:
                        fwd = list(P.t)[0]      # a place that may be set behind the last find
                return ("find", (r, fwd, f.txt(a[0]) if a else "", self.lit(f, a[0]) if a else None))
            if r == place and n.get("fn") in ("GetNext", "Next", "next", "NextSibling", "getNext"):
                return ("chain", None)
        if n["k"] == "Bin" and n["op"] in ("/", ">>") and self.path(f, n["c"][0]) == place:
            v = num(f.nodes[self.strip(f, n["c"][1])])
            if v and v >= (2 if n["op"] == "/" else 1):
                return ("-", None)
        if n["k"] == "Bin" and n["op"] in ("*", "<<") and self.path(f, n["c"][0]) == place:
            v = num(f.nodes[self.strip(f, n["c"][1])])
            if v and v >= (2 if n["op"] == "*" else 1):
                return ("+", None)
        return ("=", None)

    def lit(self, f, e):
        for x in f.walk(e):
            if f.nodes[x]["k"] == "Str":
                return f.nodes[x]["v"]
            if f.nodes[x]["k"] == "Char":
                return chr(f.nodes[x]["v"])
        return None

    def effect(self, g, place, val=None):
        """what a function may do to a place of its own, and what it does on every way through it (val: on which it returns this)"""
        key = (g.id, place, val)
        if key in self._sum:
            return self._sum[key]
        self._sum[key] = (set(), {})
        may = set()
        if not g.blocks:
            const = (g.raw.get("const") or False)
            r = (set(), {})
            self._sum[key] = r
            return r
        where = defaultdict(set)
        for b in g.blocks.values():
            for e in b["e"]:
                for x in self.events(g, e, place):
                    k = x if x[0] in ("+", "-") else (x[0], x[1] if x[0] == "find" else None)
                    may.add(k)
                    where[k].add(b["i"])
        for x in g.walk() if g.raw["inits"] else ():
            pass
        must = {}
        other = set()
        if val is not None:
            for b in g.blocks.values():
                for e in b["e"]:
                    n = g.nodes[e]
                    if n["k"] == "Return" and n.get("c"):
                        r = g.nodes[self.strip(g, n["c"][0])]
                        if r["k"] == "Bool" and bool(r["v"]) != val:
                            other.add(b["i"])
        for k, bs in where.items():
            if k[0] in ("+", "-", "chain", "shrink") and not self.reaches(g, g.entry, g.exit, bs | other):
                must[k] = k
        self._sum[key] = (may, must)
        return may, must

    def reaches(self, g, a, b, cut, within=None, edgecut=()):
        if a in cut:
            return False
        st, seen = [a], {a}
        while st:
            x = st.pop()
            if x == b:
                return True
            for k, s in enumerate(g.blocks[x]["s"]):
                if s < 0 or s in cut or s in seen or (x, k) in edgecut or within is not None and s not in within:
                    continue
                if g.is_abrupt(g.blocks[x]) and s == g.exit:
                    continue
                seen.add(s)
                st.append(s)
        return False

    # ------------------------------------------------------------ loops
    def loops(self, f):
        """natural loops: header -> blocks"""
        succ = {b["i"]: [s for s in b["s"] if s >= 0] for b in f.blocks.values()}
        # dominators
        order, seen = [], set()

        def dfs(r):
            st = [(r, iter(succ[r]))]
            seen.add(r)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(succ[s])))
                        break
                else:
                    st.pop()
                    order.append(x)
        dfs(f.entry)
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = defaultdict(list)
        for b in rpo:
            for s in succ[b]:
                preds[s].append(b)
        dom = {b: None for b in rpo}
        dom[f.entry] = {f.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == f.entry:
                    continue
                ps = [dom[q] for q in preds[b] if dom[q] is not None]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        out = {}
        for b in rpo:
            for s in succ[b]:
                if s in dom[b]:
                    body = out.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += [q for q in preds[x] if q in idx]
        return out

    def cond(self, f, b):
        c = b.get("tc", b.get("t", -1))
        if c is None or c < 0 or len(b["s"]) != 2:
            return None
        n = f.nodes[c]
        if "tc" not in b:
            if n["k"] in ("If", "While", "For", "Do"):
                c = n.get("cond", -1)
            elif n["k"] == "Cond":
                c = n["c"][0]
            elif n["k"] == "Bin" and n["op"] in ("&&", "||"):
                c = b["e"][-1] if b["e"] else n["c"][0]
            elif n["k"] in ("Switch", "Try"):
                return None
        elif n["k"] == "Bin" and n["op"] in ("&&", "||"):
            c = b["e"][-1] if b["e"] else n["c"][0]
        return c if c is not None and c >= 0 else None

    def atoms(self, f, c, val, env=None, depth=0):
        """(fn, node, value, env) facts a condition implies; predicates of program classes are opened"""
        out = []
        for i, v in cond_atoms(f, c, val):
            i = self.strip(f, i)
            n = f.nodes[i]
            if n["k"] == "Un" and n["op"] == "!":
                out += self.atoms(f, n["c"][0], not v, env, depth)
                continue
            out.append((f, i, v, env))
            if n["k"] == "Bin" and n["op"] in ("==", "!=") and depth < 3:
                for a, z in (n["c"], n["c"][::-1]):
                    zn = f.nodes[self.strip(f, z)]
                    if zn["k"] == "Bool":
                        out += self.atoms(f, a, (bool(zn["v"]) == (n["op"] == "==")) == v, env, depth + 1)
            if n["k"] == "Ref" and depth < 3:
                s = self.single(f, n["d"])
                if s is not None:
                    out += self.atoms(f, s, v, env, depth + 1)
            if n["k"] == "Call" and depth < 3:
                gs = self.p.callees(f, i)
                if len(gs) == 1 and gs[0].blocks and base(gs[0].raw.get("ret", "")) == "bool":
                    g = gs[0]
                    r = f.recv(i)
                    sub = {}
                    if r is not None:
                        q = self.path(f, r, env)
                        if q:
                            sub["this"] = q
                    for d, a in zip(g.params, f.args(i)):
                        q = self.path(f, a, env)
                        if q:
                            sub[d] = q
                    out += self.implied(g, v, sub, depth + 1)
        return out

    def single(self, f, d):
        """the only expression a bool local is set to"""
        vs = [n for n in f.nodes if n and n["k"] == "Var" and n["d"] == d]
        if len(vs) == 1 and base(vs[0]["t"]) == "bool" and vs[0].get("c") and not any(
                n and n["k"] == "Assign" and f.nodes[n["c"][0]].get("d") == d for n in f.nodes):
            return vs[0]["c"][0]
        return None

    def implied(self, g, val, env, depth):
        """facts that hold at entry whenever a predicate returns val"""
        rets = []
        for b in g.blocks.values():
            for e in b["e"]:
                if g.nodes[e]["k"] == "Return" and g.nodes[e].get("c"):
                    rets.append((b["i"], g.nodes[e]["c"][0]))
        facts = None
        for bi, e in rets:
            s = self.strip(g, e)
            n = g.nodes[s]
            mine = []
            if n["k"] == "Bool":
                if bool(n["v"]) != val:
                    continue
            else:
                mine += self.atoms(g, e, val, env, depth)
            # branches that must have been taken on the way
            for b in g.blocks.values():
                c = self.cond(g, b)
                if c is None:
                    continue
                for k in (0, 1):
                    if b["s"][1 - k] >= 0 and bi != b["i"] and not self.reaches(g, g.entry, bi, (), edgecut={(b["i"], k)}):
                        mine += self.atoms(g, c, k == 0, env, depth)
            keys = {(x[0].id, x[1], x[2]): x for x in mine}
            facts = keys if facts is None else {k: v for k, v in facts.items() if k in keys}
        return list((facts or {}).values())

    # ------------------------------------------------------------ ranking
    def measures(self, f, i, val, env):
        """differences that are positive while the loop goes on: (kind, Lin, strict, node, unsigned compare)"""
        n = f.nodes[i]
        k = n["k"]
        c = n.get("c", ())
        out = []
        op = n.get("op")
        if (k == "Bin" or k == "Call" and len(c) == 2) and op in ("<", "<=", ">", ">=", "!=", "=="):
            if not val:
                op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "!=": "==", "==": "!="}[op]
            a, b = self.lin(f, c[0], env), self.lin(f, c[1], env)
            ta, tb = width(f.nodes[self.strip(f, c[0])].get("t")), width(f.nodes[self.strip(f, c[1])].get("t"))
            uns = False
            if ta and tb:
                if ta[1] and tb[1]:
                    uns = True
                elif ta[1] != tb[1]:
                    u, s = (ta, tb) if ta[1] else (tb, ta)
                    cs = f.nodes[self.strip(f, c[1] if ta[1] else c[0])]
                    uns = max(u[0], 32) >= max(s[0], 32) and u[0] >= 32
            if op in ("<", "<="):
                out.append(("lt", b.add(a, -1), op == "<", uns, a, b))
            elif op in (">", ">="):
                out.append(("lt", a.add(b, -1), op == ">", uns, b, a))
            elif op == "!=":
                out.append(("ne", b.add(a, -1), True, uns, a, b))
                out.append(("ne", a.add(b, -1), True, uns, b, a))
        elif k == "Call" and n.get("fn") == "empty" and not val and c and not self.p.callees(f, i):
            q = self.path(f, c[0], env)
            if q:
                L = Lin({q + "#": 1}, reads={q + "#": {q}})
                out.append(("lt", L, True, True, Lin(), L))
        elif val and k in ("Ref", "Member", "Un", "Call", "Bin") and (width(n.get("t")) or n.get("t", "").rstrip().endswith("*")):
            L = self.lin(f, i, env)
            out.append(("ne", L, True, False, Lin(), L))
            out.append(("ne", L.scale(-1), True, False, L, Lin()))
        return out

    def badlimit(self, f, kind, strict, uns, low, high, down, step):
        """a counter running down in unsigned arithmetic passes its limit"""
        if kind != "lt" or not down or not uns:
            return False
        lim = low.c if not low.t else 0     # the limit may be zero unless it is a constant
        if strict:
            return step is None and not self._capped or step is not None and step > lim + 1
        return (step if step is not None else 2) > lim

    def ranking(self, f, h, body):
        """None if a ranking exists, else the reason of the best failure"""
        self._capped = False
        best = None
        entry_reason = "no test that is passed in every round leaves this loop"
        tests = []
        for bi in body:
            b = f.blocks[bi]
            outs = [k for k, s in enumerate(b["s"]) if s >= 0 and s not in body]
            if not outs:
                continue
            ins = [k for k, s in enumerate(b["s"]) if s >= 0 and s in body]
            t = b.get("t", -1)
            if t is not None and t >= 0 and f.nodes[t]["k"] in ("RangeFor", "ForRange"):
                tests.append((bi, "range", None))
                continue
            if len(ins) != 1 or len(b["s"]) != 2:
                continue
            c = self.cond(f, b)
            if c is None:
                continue
            for at in self.atoms(f, c, ins[0] == 0):
                tests.append((bi, "atom", at, c, ins[0] == 0))
        prog_reason = None
        for t in tests:
            bi = t[0]
            onall = not self.cycle(f, h, body, {bi})
            if t[1] == "range":
                if onall:
                    return None
                continue
            g, i, val, env = t[2]
            ms = self.measures(g, i, val, env)
            if not onall:
                continue
            self.taken = {(f.id, self.strip(f, x)): v for x, v in cond_atoms(f, t[3], t[4]) if f.nodes[self.strip(f, x)]["k"] == "Call"}
            for kind, D, strict, uns, low, high in ms:
                r = self.decreases(f, h, body, bi, g, i, kind, D, strict, uns, low, high, t)
                if r is None:
                    return None
                if best is None or r[0] > best[0]:
                    best = r
        # chains and searches and inputs
        self.taken = {}
        for t in tests:
            if t[1] != "atom":
                continue
            bi = t[0]
            if self.cycle(f, h, body, {bi}):
                continue
            g, i, val, env = t[2]
            r = self.special(f, h, body, bi, g, i, val, env, t[3])
            if r is None:
                return None
            if r and (best is None or r[0] > best[0]):
                best = r
        r = self.input(f, h, body, tests)
        if r is None:
            return None
        if best is None or r[0] > best[0]:
            best = r if r[1] else best
        return best[1] if best else entry_reason

    def cycle(self, f, h, body, cut, edgecut=()):
        """is there a way round the loop avoiding the blocks"""
        if h in cut:
            return False
        for k, s in enumerate(f.blocks[h]["s"]):
            if s == h and (h, k) not in edgecut:
                return True
            if s in body and s not in cut and (h, k) not in edgecut and self.reaches(f, s, h, cut, body, edgecut):
                return True
        return False

    def walkevents(self, f, body, place, D):
        out = []
        for bi in sorted(body):
            for e in f.blocks[bi]["e"]:
                for x in self.events(f, e, place, D):
                    out.append((bi, e, x))
        return out

    def dead(self, f, body, bi, g, i, val):
        """edges on which the test is known to fail next time"""
        if g is not f:
            return set()
        txt = self.norm(f, i, val)
        out = set()
        rd = self.places(f, i)
        for b in body:
            if b == bi:
                continue
            c = self.cond(f, f.blocks[b])
            if c is None:
                continue
            for k in (0, 1):
                s = f.blocks[b]["s"][k]
                if s not in body:
                    continue
                if any(txt and self.norm(f2, j, v) == self.neg(txt) for f2, j, v, ev in self.atoms(f, c, k == 0) if f2 is f):
                    # nothing changes the values before the test
                    st, seen, ok = [s], {s}, True
                    while st and ok:
                        x = st.pop()
                        if any(y[0] not in ("same",) for e in f.blocks[x]["e"] for q in rd for y in self.events(f, e, q)):
                            ok = False
                            break
                        if x == bi:
                            continue
                        for z in f.blocks[x]["s"]:
                            if z in body and z not in seen:
                                seen.add(z)
                                st.append(z)
                    if ok:
                        out.add((b, k))
        return out

    def norm(self, f, i, val):
        n = f.nodes[i]
        if n["k"] == "Bin" and n["op"] in ("==", "!="):
            a, b = sorted("npos" if f.txt(x).endswith("npos") else f.txt(x) for x in n["c"])
            return ("==", a, b, (n["op"] == "==") == val)
        return ("b", f.txt(i), "", val)

    def neg(self, t):
        return t[:3] + (not t[3],)

    def decreases(self, f, h, body, bi, g, i, kind, D, strict, uns, low, high, test):
        if not D.t:
            return (0, "its condition does not depend on anything the loop changes")
        if "npos" in D.t:
            return (0, "")
        prog = set()
        down = up = False
        step = 1
        moved = False
        restart = []
        shrunk = defaultdict(set)
        ends = set()
        for term, co in sorted(D.t.items()):
            opaque = term.startswith("(")
            if opaque:
                for q in sorted(D.reads.get(term, ())):
                    iterend = re.search(r"\.r?end\(\)\)$", term)
                    for b, e, x in self.walkevents(f, body, q, D):
                        if x[0] in ("shrink", "mayshrink"):
                            shrunk[q].add(b)
                            continue
                        if x[0] == "same":
                            continue
                        if self.inner(f, body, e, q):
                            continue
                        return (2, "%s, on which its limit depends, is changed in the loop (%s)" % (self.show(q), f.where(e)))
                    for b, e, x in self.walkevents(f, body, q + "#", D):
                        if x[0] in ("+", "may+"):
                            return (2, "%s, on which its limit depends, grows in the loop (%s)" % (self.show(q), f.where(e)))
                continue
            for b, e, x in self.walkevents(f, body, term, D):
                kx, amt = x
                if kx == "same":
                    continue
                moved = True
                if kx in ("=", "find", "npos"):
                    restart.append((b, e, term))
                    continue
                if kx in ("grow", "shrink", "maygrow", "mayshrink"):
                    if term.endswith("#"):
                        pass
                    continue
                if kx == "chain":
                    restart.append((b, e, term))
                    continue
                may = kx.startswith("may")
                s = kx[-1]
                fav = (s == "+") == (co < 0)
                if not fav:
                    return (3, "%s is also moved away from its limit (%s)" % (self.show(term), f.where(e)))
                if kind == "ne" and (amt != 1 or abs(co) != 1):
                    return (2, "%s may step over the value it is compared with (%s)" % (self.show(term), f.where(e)))
                if s == "-":
                    down = True
                    w = width(self.typeof(f, term))
                    if amt is None or step is None:
                        step = None
                    else:
                        step = max(step, amt)
                else:
                    up = True
                    w = width(self.typeof(f, term))
                    if w and w[0] < 32 and any(t.startswith("(") or t != term for t in D.t):
                        return (2, "%s is too small for the numbers it counts to" % self.show(term))
                    if w and w[0] < 32 and D.c >= 2 ** (w[0] - (0 if w[1] else 1)):
                        return (2, "%s is too small for the numbers it counts to" % self.show(term))
                if not may:
                    prog.add(b)
        for b, e, term in restart:
            # starting over after taking an element away
            if shrunk and any(b in s for s in shrunk.values()):
                prog.add(b)
                continue
            return (3, "%s is set anew in the loop (%s)" % (self.show(term), f.where(e)))
        if not moved:
            return (1, "nothing in the loop moves %s" % " or ".join(sorted(self.show(t) for t in D.t)))
        dead = self.dead(f, body, bi, g, i, test[2][2])
        if self.cycle(f, h, body, prog, dead):
            return (4, "there is a way round the loop on which %s does not advance" % " or ".join(sorted(self.show(t) for t in D.t if any(
                True for _ in self.walkevents(f, body, t, D)))))
        signedplace = all((lambda w: w is None or not w[1])(width(self.typeof(f, t))) for t in D.t if not t.startswith("(") and not t.endswith("#"))
        if down and kind == "lt":
            # runs towards low
            lim = low.c if not low.t else 0
            if uns:
                over = (step if step is not None else 10 ** 9) > lim + (1 if strict else 0)
                if over and not any(t.endswith("#") for t in high.t):
                    return (5, "%s, compared as an unsigned number, runs past zero and becomes the largest number before it is below its limit" %
                            " and ".join(sorted(self.show(t) for t in high.t)))
        return None

    def inner(self, f, body, e, q):
        return False

    def typeof(self, f, place):
        if not hasattr(f, "_ty15"):
            f._ty15 = {}
            for i, n in enumerate(f.nodes):
                if n and n["k"] in ("Ref", "Member"):
                    q = self.path(f, i)
                    if q:
                        f._ty15.setdefault(q, n.get("t"))
                elif n and n["k"] == "Var":
                    f._ty15[n["d"]] = n.get("t")
        return f._ty15.get(place)

    def show(self, t):
        if t.endswith("#"):
            return "the length of " + self.show(t[:-1])
        t = re.sub(r"%[0-9]+\.", "", t)
        return t.replace("this.", "").replace("QDLIB::", "")

    def special(self, f, h, body, bi, g, i, val, env, cond):
        n = g.nodes[i]
        c = n.get("c", ())
        places = []
        # pointer chains: p != NULL, p
        q = None
        if n["k"] == "Bin" and n["op"] in ("!=", "==") and (n["op"] == "!=") == val:
            for a, z in (c, c[::-1]):
                zn = g.nodes[self.strip(g, z)]
                if zn["k"] == "Null" or num(zn) == 0:
                    q = self.path(g, self.strip(g, a), env)
                if self.lin(g, z).t == {"npos": 1}:
                    return self.search(f, h, body, bi, g, i, val, self.path(g, self.strip(g, a), env))
        elif n["k"] in ("Ref", "Member") and val:
            q = self.path(g, i, env)
        if q:
            prog = set()
            ev = self.walkevents(f, body, q, None)
            if not ev:
                return (1, "nothing in the loop moves %s" % self.show(q))
            for b, e, x in ev:
                if x[0] == "chain":
                    prog.add(b)
                elif x[0] not in ("maychain", "same"):
                    return (3, "%s is set anew in the loop (%s)" % (self.show(q), f.where(e)))
            if self.cycle(f, h, body, prog, self.dead(f, body, bi, g, i, val)):
                return (4, "there is a way round the loop on which %s does not advance" % self.show(q))
            return None
        return ()

    def search(self, f, h, body, bi, g, i, val, q):
        if not q or g is not f:
            return ()
        ev = self.walkevents(f, body, q, None)
        if not ev:
            return (1, "nothing in the loop moves %s" % self.show(q))
        prog, strs, allfwd, lits = set(), set(), True, set()
        for b, e, x in ev:
            if x[0] == "npos":
                prog.add(b)
            elif x[0] == "find":
                strs.add(x[1][0])
                lits.add(x[1][3])
                if x[1][1] is True:
                    prog.add(b)
                elif x[1][1] and self.follows(f, h, body, x[1][1], q):
                    prog.add(b)
                else:
                    allfwd = False
            else:
                return (3, "%s is set anew in the loop (%s)" % (self.show(q), f.where(e)))
        if len(strs) != 1:
            return (3, "%s is searched in several texts" % self.show(q))
        s = strs.pop()
        if not allfwd:
            prog = set()
        for b, e, x in self.walkevents(f, body, s + "#", None):
            if x[0] in ("+", "may+", "="):
                if x[0] == "+" and x[1] is not None and allfwd and self.harmless(f, x[1], lits):
                    continue
                return (3, "the text that is searched grows in the loop (%s)" % f.where(e))
            if x[0] == "-" and not allfwd:
                prog.add(b)
        if self.cycle(f, h, body, prog, self.dead(f, body, bi, g, i, val)):
            return (4, "there is a way round the loop on which the search does not get any further")
        return None

    def follows(self, f, h, body, v, q):
        """in every round the place v is set behind the place q"""
        bs = set()
        for b in body:
            for e in f.blocks[b]["e"]:
                for x in self.events(f, e, v):
                    n = f.nodes[e]
                    r = n["c"][1] if n["k"] == "Assign" and n["op"] == "=" else n["c"][0] if n["k"] == "Var" and n.get("c") else None
                    if n["k"] == "Decl":
                        r = next((f.nodes[y]["c"][0] for y in n["c"] if f.nodes[y].get("d") == v and f.nodes[y].get("c")), None)
                    if r is None:
                        return False
                    L = self.lin(f, r)
                    if L.t != {q: 1} or L.c < 1:
                        return False
                    bs.add(b)
        return bool(bs) and not self.cycle(f, h, body, bs)

    def values(self, f, d):
        """expressions a local is set to (None: changed in another way)"""
        out = []
        for i, m in enumerate(f.nodes):
            if not m:
                continue
            if m["k"] == "Var" and m["d"] == d:
                out += m.get("c", ())[:1]
            elif m["k"] == "Assign" and f.nodes[self.strip(f, m["c"][0])].get("d") == d:
                out.append(m["c"][1] if m["op"] == "=" else None)
            elif m["k"] == "Un" and m["op"] in ("++", "--", "&") and f.nodes[self.strip(f, m["c"][0])].get("d") == d:
                out.append(None)
        return out

    def harmless(self, f, e, lits):
        """the text inserted cannot contain what is searched for"""
        a = f.args(e)
        if not a or None in lits:
            return False
        q = self.path(f, a[-1])
        if not q:
            l = self.lit(f, a[-1])
            return l is not None and not any(x in l for x in lits)
        for j, n in enumerate(f.nodes):
            if n and n["k"] == "Call" and n.get("c") and self.path(f, n["c"][0]) == q and (n.get("op") in ("+=", "=") or n.get("fn") in GROW):
                l = self.lit(f, n["c"][-1])
                if l is None or any(x in l for x in lits):
                    return False
        return True

    # ------------------------------------------------------------ inputs
    def consumes(self, g, depth=0):
        """program function that reads on in a stream and reports the end of it by an exception or its result"""
        key = ("c", g.id)
        if key in self._cons:
            return self._cons[key]
        self._cons[key] = False
        r = False
        if g.blocks:
            bs = {b["i"] for b in g.blocks.values() if any(self.reading(g, e, depth + 1) for e in b["e"])}
            r = bool(bs) and not self.reaches(g, g.entry, g.exit, bs)
        self._cons[key] = r
        return r

    def reading(self, f, e, depth=0):
        n = f.nodes[e]
        if n["k"] != "Call":
            return False
        gs = self.p.callees(f, e)
        if not gs:
            r = f.recv(e)
            if r is not None and n.get("fn") in STREAMOPS:
                t = (n.get("cls") or "") + f.nodes[self.strip(f, r)].get("t", "")
                return ("stream" in t or "Stream" in t) and "OutputStream" not in t and "ostream" not in t
            if not n.get("m") and n.get("fn") in INFUNCS:
                return True
            if n.get("op") == ">>" and n.get("c") and "stream" in f.nodes[self.strip(f, n["c"][0])].get("t", ""):
                return True
            return False
        if depth > 8:
            return False
        return all(self.consumes(g, depth) for g in gs)

    def input(self, f, h, body, tests):
        """every round takes something from an input, and the loop is left when nothing more comes"""
        cons = {}
        for bi in body:
            for e in f.blocks[bi]["e"]:
                if self.reading(f, e):
                    cons[bi] = e
        if not cons:
            return (0, "")
        # handlers from which the loop is left
        out = {s for b in cons for q, k in f.preds[b] for s in f.blocks[q]["s"] if s != b and s in body and (f.blocks[q].get("t", -1) or -1) < 0
               and self.leaves(f, body, s, b)}
        if self.cycle(f, h, body, set(cons) | out):
            return (2, "there is a way round the loop on which nothing is read from its input")
        direct = {b: e for b, e in cons.items() if not self.p.callees(f, e)}
        lib = {b for b in cons if b not in direct}
        if lib and not self.cycle(f, h, body, lib | out):
            # the functions of the library report a failed read by an exception (C03): it is caught outside the loop, or what was read decides
            if all(any(self.leaves(f, body, s, b) for q, k in f.preds[b] for s in f.blocks[q]["s"]
                       if s != b and s >= 0 and (f.blocks[q].get("t", -1) or -1) < 0) for b in lib):
                return None
            for t in tests:
                if t[1] == "atom" and not self.cycle(f, h, body, {t[0]}):
                    g, i, val, env = t[2]
                    if g.nodes[i]["k"] == "Call" and base(g.nodes[i].get("t")) == "bool" and (g.nodes[i].get("cls") or "") in self.p.messages:
                        return None
        for t in tests:
            if t[1] != "atom" or self.cycle(f, h, body, {t[0]}):
                continue
            g, i, val, env = t[2]
            if self.status(g, i, val):
                return None
        return (2, "the loop goes on when nothing more can be read")

    def leaves(self, f, body, s, b):
        """from block s the loop is left before block b comes again (flags set to constants on the way are followed)"""
        st, seen = [(s, frozenset())], set()
        while st:
            x, env = st.pop()
            if x not in body or (x, env) in seen:
                continue
            if x == b or len(seen) > 2000:
                return False
            seen.add((x, env))
            ev = dict(env)
            for e in f.blocks[x]["e"]:
                n = f.nodes[e]
                if n["k"] in ("Assign", "Var"):
                    d = n["d"] if n["k"] == "Var" else f.nodes[self.strip(f, n["c"][0])].get("d")
                    if d is None or not n.get("c"):
                        continue
                    m = f.nodes[self.strip(f, n["c"][-1])]
                    v = bool(m["v"]) if m["k"] == "Bool" else num(m)
                    ev.pop(d, None)
                    if v is not None and n.get("op", "=") == "=":
                        ev[d] = v
            env = frozenset(ev.items())
            c = self.cond(f, f.blocks[x])
            for k, z in enumerate(f.blocks[x]["s"]):
                if z < 0:
                    continue
                if c is not None:
                    dead = False
                    for i, v in cond_atoms(f, c, k == 0):
                        n = f.nodes[self.strip(f, i)]
                        if n["k"] == "Un" and n["op"] == "!":
                            n, v = f.nodes[self.strip(f, n["c"][0])], not v
                        if n["k"] == "Ref" and n["d"] in ev and bool(ev[n["d"]]) != v:
                            dead = True
                        if n["k"] == "Bin" and n["op"] in ("==", "!="):
                            l, r = (f.nodes[self.strip(f, y)] for y in n["c"])
                            if l.get("d") in ev and (num(r) is not None or r["k"] == "Bool"):
                                w = num(r) if r["k"] != "Bool" else bool(r["v"])
                                if ((ev[l["d"]] == w) == (n["op"] == "==")) != v:
                                    dead = True
                    if dead:
                        continue
                st.append((z, env))
        return True

    def status(self, f, i, val, depth=0):
        """the condition fails once reading fails"""
        n = f.nodes[i]
        if n["k"] == "Call":
            fn = n.get("fn")
            if fn == "good" and val or fn == "fail" and not val:
                return True
            if fn == "operator bool" and val or fn == "operator!" and not val or n.get("op") == "!" and not val:
                return True
            if self.reading(f, i) and val:
                return True
            if n.get("c") and n.get("fn") and n["fn"].startswith("operator"):
                return self.status(f, self.strip(f, n["c"][0]), val)
        if n["k"] == "Bin" and n["op"] in ("!=", ">", "=="):
            for a in n["c"]:
                s = self.strip(f, a)
                m = f.nodes[s]
                if m["k"] == "Assign":
                    s = self.strip(f, m["c"][1])
                if f.nodes[s]["k"] == "Call" and self.reading(f, s):
                    return (n["op"] != "==") == val
                if f.nodes[s]["k"] == "Ref" and depth < 3:
                    vs = [self.strip(f, y) if y is not None else None for y in self.values(f, f.nodes[s]["d"])]
                    vs = [y for y in vs if y is None or num(f.nodes[y]) is None]
                    if vs and all(y is not None and f.nodes[y]["k"] == "Call" and self.reading(f, y) for y in vs):
                        return (n["op"] != "==") == val
        if n["k"] == "Ref" and val and "stream" in n.get("t", ""):
            return True
        if n["k"] == "Ref" and base(n.get("t")) == "bool" and depth < 3:
            vs = [self.strip(f, y) if y is not None else None for y in self.values(f, n["d"])]
            vs = [y for y in vs if y is None or f.nodes[y]["k"] != "Bool" or bool(f.nodes[y]["v"]) == val]
            vs = [y for y in vs if y is None or f.nodes[y]["k"] != "Bool"]
            if vs and all(y is not None and any(self.status(f, self.strip(f, j), v, depth + 1) for j, v in cond_atoms(f, y, val)) for y in vs):
                return True
        if n["k"] == "Un" and n["op"] == "!":
            return self.status(f, self.strip(f, n["c"][0]), not val, depth + 1)
        return False


    # ------------------------------------------------------------ limits
    def facts(self, f, bi):
        """atoms of the branches that must have been taken to get to a block"""
        out = []
        for b in f.blocks.values():
            c = self.cond(f, b)
            if c is None or b["i"] == bi:
                continue
            for k in (0, 1):
                if b["s"][k] >= 0 and b["s"][0] != b["s"][1] and not self.reaches(f, f.entry, bi, (), edgecut={(b["i"], k)}):
                    out += self.atoms(f, c, k == 0)
        return out

    def limits(self, f, body):
        """limits of a loop that wrap or are not numbers: (node, text)"""
        n = 0
        bad = []
        for bi in sorted(body):
            b = f.blocks[bi]
            if all(s in body or s < 0 for s in b["s"]):
                continue
            c = self.cond(f, b)
            if c is None:
                continue
            todo = [(c, 0)]
            for q in self.places(f, c):
                e = self.once(f, q)
                if e is not None:
                    todo.append((e, 1))
            for top, _ in todo:
                for x in f.walk(top):
                    m = f.nodes[x]
                    if m["k"] == "Bin" and m["op"] == "-" and (width(m.get("t")) or (0, 0))[1] and num(m) is None:
                        n += 1
                        if not self.covered(f, bi, self.lin(f, x)):
                            bad.append((x, "%s is computed without sign and becomes a huge number when it should be negative" % f.txt(x)))
                    if m["k"] == "Cast" and width(m.get("t")) and base(f.nodes[m["c"][0]].get("t")) in ("double", "float", "long double"):
                        for y in f.walk(m["c"][0]):
                            d = f.nodes[y]
                            if d["k"] == "Bin" and d["op"] == "/" and num(f.nodes[self.strip(f, d["c"][1])]) is None:
                                n += 1
                                if not self.nonzero(f, bi, d["c"][1]):
                                    bad.append((x, "%s may be zero, and then the number of rounds is not a number" % f.txt(d["c"][1])))
        return n, bad

    def once(self, f, q):
        """the value of a local that is set only where it is declared"""
        vs = [m for m in f.nodes if m and m["k"] == "Var" and m["d"] == q and m.get("c")]
        if len(vs) != 1 or not width(vs[0].get("t")):
            return None
        for m in f.nodes:
            if m and (m["k"] == "Assign" or m["k"] == "Un" and m["op"] in ("++", "--", "&")) and self.path(f, m["c"][0]) == q:
                return None
        return vs[0]["c"][0]

    def covered(self, f, bi, X):
        for g, i, v, env in self.facts(f, bi):
            for kind, D, strict, uns, low, high in self.measures(g, i, v, env):
                if kind == "ne" and not (len(D.t) == 1 and list(D.t.values())[0] > 0 and D.c == 0):
                    continue
                R = X.add(D, -1)
                if R.c + (1 if strict else 0) >= 0 and all(co >= 0 for co in R.t.values()):
                    return True
        return X.c >= 0 and all(co >= 0 for co in X.t.values())

    def nonzero(self, f, bi, e):
        t = f.txt(self.strip(f, e))
        for g, i, v, env in self.facts(f, bi):
            n = g.nodes[i]
            if n["k"] == "Bin" and n["op"] in ("==", "!=", "<", ">", "<=", ">="):
                txts = [g.txt(self.strip(g, x)) for x in n["c"]]
                if not any(x == t or "(%s)" % t in x for x in txts):
                    continue
                if n["op"] == "==" and v or n["op"] == "!=" and not v:
                    continue
                return True
            elif g.txt(i) == t and v:
                return True
        return self.positive(f, e)


def check(prog, res, tier):
    L = Loops(prog)
    nl = nf = nlim = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if f.impl or not lib(f) or not f.blocks:
            continue
        ls = L.loops(f)
        if not ls:
            continue
        nf += 1
        for h, body in sorted(ls.items()):
            nl += 1
            why = L.ranking(f, h, body)
            site = L_where(f, h, body)
            if why is None:
                res.ok("C15.end", "%s at %s" % (f.short, site), "")
            else:
                res.bad("C15.end", f.id, "loop", site, "the loop may never end: " + why)
            k, bad = L.limits(f, body)
            nlim += k
            for x, what in bad:
                res.bad("C15.limit", f.id, f.txt(x), f.where(x), "the limit of a loop is wrong: " + what)
            if k and not bad:
                res.ok("C15.limit", "%s at %s" % (f.short, site), "")
    res.count("functions with loops", nf)
    res.count("computed limits", nlim)
    res.count("loops", nl)
    res.floor("loops", nl, 300)


def L_where(f, h, body):
    t = f.blocks[h].get("t", -1)
    best = None
    for bi in body:
        b = f.blocks[bi]
        t = b.get("t", -1)
        if t is not None and t >= 0 and f.nodes[t]["k"] in ("For", "While", "Do", "RangeFor") and (bi == h or f.nodes[t]["k"] == "Do"):
            return f.where(t)
        for e in b["e"]:
            if best is None or f.nodes[e]["l"] < f.nodes[best]["l"]:
                best = e
    return f.where(best)


ID = "C15"
DESC = ("For every natural loop of the control flow graphs of all functions of the library and its programs a ranking is looked for: a test passed "
        "in every round that leaves the loop once a difference (limit - counter, container length, rest of a chain, of a text or of an input) is used "
        "up; steps in that direction on every way round the loop; and nothing in the loop (also through called functions, references and members) that "
        "moves the counter back or the limit away.")
