"""Interpretation over the syntax tree of what is certainly / possibly switched on, with methods of the same object inlined.

A state is a set of facts: ("H", slot, dim) certainly held, ("M", slot, dim) possibly taken and not given back (united at joins),
("T", slot, dim) given back, ("F", path, value) a condition that is known, ("K", local, number) a local that is known.
Slots are members of the object, members of other objects, or locals; arrays carry a range dim = (lo, hi) of symbolic indices.
Several states are kept per program point as long as they differ in known conditions."""
from .effects import split_params
from .prog import short

CAP = 24
FLIP = {"==": "!=", "!=": "==", "<": ">=", ">": "<=", "<=": ">", ">=": "<"}


def plus(s, c):
    return None if s is None else s[:-1] + (s[-1] + c,)


def join2(a, b):
    r = {x for x in a if x[0] not in "M" and x in b}
    # certain facts survive when the other side has them for a wider range
    for x in a ^ b:
        if x[0] == "M":
            r.add(x)
    r |= {x for x in a & b}
    return frozenset(r)


def plain(t):
    return t[6:] if t.startswith("const ") else t


class Out:
    def __init__(self, fall=()):
        self.fall, self.ret, self.brk, self.cont = list(fall), [], [], []

    def take(self, r):
        self.ret += r.ret
        self.brk += r.brk
        self.cont += r.cont


class Machine:
    """client: is_slot(f, member/local node), call(M, f, i, state) -> list of states or None, use(M, f, i, slot, state)"""

    def __init__(self, prog, C, client):
        self.p, self.C, self.cl = prog, C, client
        self.stack = []
        self.frames = []
        self.same = {}
        self.visited = set()
        self.memo = {}

    # ---- expressions
    def strip(self, f, e):
        while f.nodes[e]["k"] == "Cast" and f.nodes[e].get("c"):
            e = f.nodes[e]["c"][0]
        return e

    def own(self, f, e):
        e = self.strip(f, e)
        n = f.nodes[e]
        return n["k"] == "This" or n["k"] == "Un" and n["op"] == "*" and self.own(f, n["c"][0])

    def target(self, f, e):
        n = f.nodes[e]
        fid = n.get("f")
        if fid is None:
            return None
        r = f.recv(e)
        if n.get("m") and r is not None:
            if not self.own(f, r):
                return None
            if n.get("virt") and self.C:
                fid = self.p.final_overrider(self.C, fid) or fid
        return self.p.fns.get(fid)

    def getter(self, g):
        b = g.nodes[g.body] if g is not None and g.body >= 0 else None
        if not b or b["k"] != "Compound" or len(b.get("c", ())) != 1:
            return None
        r = g.nodes[b["c"][0]]
        if r["k"] != "Return" or not r.get("c"):
            return None
        return self.strip(g, r["c"][0])

    def sym(self, f, e, depth=0):
        if e < 0 or depth > 6:
            return None
        e = self.strip(f, e)
        n = f.nodes[e]
        k = n["k"]
        v = n.get("cv", n.get("v"))
        if isinstance(v, int) and not isinstance(v, bool) and k in ("Int", "Enum", "Sizeof", "Bin", "Ref", "Cast"):
            return ("k", v)
        if k == "Member" and (not n.get("c") or self.own(f, n["c"][0])):
            return ("m", n["d"], 0)
        if k == "Call" and n.get("m") and not f.args(e) and f.recv(e) is not None and self.own(f, f.recv(e)):
            g = self.target(f, e)
            x = self.getter(g) if g is not None and g.blocks else None
            if x is not None:
                s = self.sym(g, x, depth + 1)
                if s and s[0] in "km":
                    return s
            return ("m", n["f"], 0)
        if k == "Ref":
            fr = self.frames[-1] if self.frames else {}
            if n["d"] in fr.get("sym", {}):
                return fr["sym"][n["d"]]
            x = self.single(f, n["d"])
            if x is not None and x >= 0 and n["d"] not in f.params:
                s = self.sym(f, x, depth + 1)
                if s is not None:
                    return s
            return ("v", f.id, n["d"], 0)
        if k == "Bin" and n["op"] in ("+", "-"):
            a, b = (self.sym(f, x, depth + 1) for x in n["c"])
            if a and b and b[0] == "k":
                return plus(a, b[1] if n["op"] == "+" else -b[1])
            if a and b and a[0] == "k" and n["op"] == "+":
                return plus(b, a[1])
        return None

    def writes(self, f):
        w = self.memo.get(("w", f.id))
        if w is None:
            w = {}
            for n in f.nodes:
                if n is None:
                    continue
                if n["k"] == "Var" and n.get("c"):
                    w.setdefault(n["d"], []).append(n["c"][0])
                elif n["k"] == "Assign" and f.nodes[n["c"][0]]["k"] == "Ref":
                    w.setdefault(f.nodes[n["c"][0]]["d"], []).append(n["c"][1] if n["op"] == "=" else -1)
                elif n["k"] == "Un" and n["op"] in ("++", "--", "&") and f.nodes[n["c"][0]]["k"] == "Ref":
                    w.setdefault(f.nodes[n["c"][0]]["d"], []).append(-1)
            self.memo[("w", f.id)] = w
        return w

    def single(self, f, d):
        w = [x for x in self.writes(f).get(d, ()) if x < 0 or f.nodes[self.strip(f, x)]["k"] != "Null"]
        return w[0] if len(w) == 1 and w[0] >= 0 else None

    # ---- slots
    def slot(self, f, e, depth=0):
        """(slot, index symbol or None) of an expression that denotes a tracked object"""
        if e is None or e < 0 or depth > 8:
            return None
        n = f.nodes[e]
        k = n["k"]
        c = n.get("c", ())
        if k == "Cast":
            return self.slot(f, c[0], depth + 1) if c and not self.cl.other(n) else None
        if k == "Un" and n["op"] in ("*", "&"):
            return self.slot(f, c[0], depth + 1)
        if k == "Member":
            if not self.cl.is_slot(self, f, n):
                return None
            if not c or self.own(f, c[0]):
                return ("o", n["d"]), None
            return ("x", n["d"], f.txt(c[0])), None
        if k == "Index":
            el = self.listed(f, c[0])
            if el is not None:
                x = self.sym(f, c[1])
                return self.slot(f, el[x[1]], depth + 1) if x and x[0] == "k" and 0 <= x[1] < len(el) else None
            b = self.slot(f, c[0], depth + 1)
            if b is None or b[1] is not None or b[0][0] == "l":
                return None
            return b[0], self.sym(f, c[1]) or ("v", f.id, "?%d" % e, 0)
        if k == "Ref":
            d = n["d"]
            fr = self.frames[-1] if self.frames else {}
            if d in fr.get("bind", {}):
                return fr["bind"][d]
            if d not in f.params:
                x = self.single(f, d)
                if x is not None:
                    s = self.slot(f, x, depth + 1)
                    if s is not None:
                        return s
            if self.cl.is_slot(self, f, n):
                return ("l", f.id, d, len(self.stack)), None
            return None
        if k == "Call" and n.get("m") and f.recv(e) is not None and self.own(f, f.recv(e)):
            g = self.target(f, e)
            if g is not None and g.blocks and not g.impl and g.raw.get("ret", "").rstrip().endswith(("*", "&")):
                x = self.getter(g)
                if x is not None and g.nodes[x]["k"] in ("Member", "Index"):
                    args = f.args(e)
                    self.frames.append({"sym": {d: self.sym(f, a) for d, a in zip(g.params, args)}, "bind": {}})
                    try:
                        return self.slot(g, x, depth + 1)
                    finally:
                        self.frames.pop()
        return None

    def listed(self, f, e):
        """elements of a local array that is written out: tracked objects"""
        e = self.strip(f, e)
        n = f.nodes[e]
        if n["k"] != "Ref" or n["d"] in f.params:
            return None
        key = ("list", f.id, n["d"])
        if key not in self.memo:
            self.memo[key] = None
            w = self.writes(f).get(n["d"], ())
            if len(w) == 1 and w[0] >= 0 and f.nodes[w[0]]["k"] == "InitList":
                c = f.nodes[w[0]].get("c", ())
                if c and all(self.slot(f, x) is not None for x in c):
                    self.memo[key] = list(c)
        return self.memo[key]

    def rng(self, idx, ranges):
        """(lo, hi) of the values of an index symbol"""
        if idx is None:
            return None
        if idx[0] == "v":
            r = ranges.get(idx[1:3])
            if r:
                return plus(r[0], idx[-1]), plus(r[1], idx[-1])
        return idx, plus(idx, 1)

    def canon(self, slot, s):
        if s and s[0] == "m":
            return ("n",) + (slot,) + (s[-1],) if (slot, s[1]) in self.cl.counts else s
        return s

    def covers(self, slot, big, small):
        if big is None or small is None:
            return big is None
        bl, bh, sl, sh = (self.canon(slot, x) for x in big + small)
        return self.le(bl, sl) and self.le(sh, bh)

    def le(self, a, b):
        if a[:-1] == b[:-1]:
            return a[-1] <= b[-1]
        if a[0] == "k" and a[1] <= 0 and b[0] in ("n", "m", "v") and b[-1] >= 0:
            return True
        return False

    def apart(self, a, b):
        """ranges that cannot meet"""
        if a is None or b is None:
            return False
        return a[1][:-1] == b[0][:-1] and a[1][-1] <= b[0][-1] or b[1][:-1] == a[0][:-1] and b[1][-1] <= a[0][-1]

    def held(self, st, slot, dim):
        return any(x[0] == "H" and x[1] == slot and (x[2] is None or self.covers(slot, x[2], dim)) for x in st)

    def hold(self, st, slot, dim, may=True):
        st = {x for x in st if not (x[0] == "T" and x[1] == slot and not self.apart(x[2], dim))}
        st.add(("H", slot, dim))
        if may:
            st.add(("M", slot, dim))
        return frozenset(self.fuse(st, slot, "H"))

    def drop(self, st, slot, dim):
        st = {x for x in st if not (x[0] == "H" and x[1] == slot and not self.apart(x[2], dim))}
        st.add(("T", slot, dim))
        st = self.fuse(st, slot, "T")
        ts = [x[2] for x in st if x[0] == "T" and x[1] == slot]
        return frozenset(x for x in st if not (x[0] == "M" and x[1] == slot and any(t is None or self.covers(slot, t, x[2]) for t in ts if t is None or x[2] is not None)))

    def fuse(self, st, slot, tag):
        st = set(st)
        again = True
        while again:
            again = False
            rs = [x for x in st if x[0] == tag and x[1] == slot and x[2] is not None]
            for a in rs:
                for b in rs:
                    if a != b and a[2][1] == b[2][0]:
                        new = (tag, slot, (a[2][0], b[2][1]))
                        if new not in st:
                            st.add(new)
                            again = True
        return st

    # ---- states
    def reduce(self, sts):
        sts = list(dict.fromkeys(sts))
        groups = {}
        for s in sts:
            groups.setdefault(frozenset(x for x in s if x[0] in "FK"), []).append(s)
        out = []
        for ss in groups.values():
            r = ss[0]
            for s in ss[1:]:
                r = join2(r, s)
            out.append(r)
        if len(out) > CAP:
            r = out[0]
            for s in out[1:]:
                r = join2(r, s)
            out = [r]
        return out

    # ---- evaluation
    def run(self, f, e, sts):
        """states after evaluating e"""
        if e is None or e < 0:
            return sts
        n = f.nodes[e]
        k = n["k"]
        if k == "Lambda":
            return sts
        if k == "Bin" and n["op"] in ("&&", "||"):
            a = self.run(f, n["c"][0], sts)
            t = self.assume(f, n["c"][0], n["op"] == "&&", a)
            return self.reduce(self.run(f, n["c"][1], t) + self.assume(f, n["c"][0], n["op"] != "&&", a))
        if k == "Cond":
            a = self.run(f, n["c"][0], sts)
            return self.reduce(self.run(f, n["c"][1], self.assume(f, n["c"][0], True, a)) +
                               self.run(f, n["c"][2], self.assume(f, n["c"][0], False, a)))
        if k == "Decl":
            for v in n["c"]:
                if f.nodes[v]["k"] == "Var":
                    sts = self.bindvar(f, v, sts)
            return sts
        if k == "Assign":
            return self.assign(f, e, n, sts)
        if k == "Call":
            return self.call(f, e, n, sts)
        for x in n.get("c", ()):
            sts = self.run(f, x, sts)
        if k == "Un" and n["op"] in ("++", "--"):
            sts = self.forget(f, n["c"][0], sts)
        if k == "Un" and n["op"] == "*" or k == "Index" and self.slot(f, e) is None:
            self.touch(f, e, n["c"][0], sts)
        return sts

    def touch(self, f, at, e, sts):
        s = self.slot(f, e)
        if s is not None:
            for st in sts:
                self.cl.use(self, f, at, s[0], self.rng(s[1], self.ranges()) if s[1] is not None else None, st)

    def ranges(self):
        r = {}
        for fr in self.frames:
            r.update(fr.get("rng", {}))
        return r

    def forget(self, f, l, sts):
        l = self.strip(f, l)
        n = f.nodes[l]
        if n["k"] == "Ref":
            d = n["d"]
            return [frozenset(x for x in s if not (x[0] == "K" and x[1] == (f.id, d) or x[0] == "F" and x[1][:2] == (f.id, d))) for s in sts]
        if n["k"] == "Member":
            return [frozenset(x for x in s if not (x[0] == "F" and x[1][0] == n["d"])) for s in sts]
        return sts

    def const(self, f, e, st):
        e = self.strip(f, e)
        n = f.nodes[e]
        v = n.get("cv", n.get("v"))
        if isinstance(v, (int, bool)) and n["k"] in ("Int", "Enum", "Bool", "Bin", "Sizeof"):
            return int(v)
        if n["k"] == "Ref":
            for x in st:
                if x[0] == "K" and x[1] == (f.id, n["d"]):
                    return x[2]
            if isinstance(v, (int, bool)):
                return int(v)
        return None

    def setvar(self, f, d, e, sts):
        out = []
        for s in sts:
            s = frozenset(x for x in s if not (x[0] == "K" and x[1] == (f.id, d) or x[0] == "F" and x[1][:2] == (f.id, d)))
            v = self.const(f, e, s) if e is not None and e >= 0 else None
            if v is not None:
                s = s | {("K", (f.id, d), v)}
            out.append(s)
        return out

    def bindvar(self, f, v, sts):
        n = f.nodes[v]
        e = n["c"][0] if n.get("c") else -1
        sts = self.run(f, e, sts)
        if e >= 0 and f.nodes[e]["k"] == "InitList":
            return sts
        if plain(n["t"]) in ("int", "bool", "unsigned int", "long", "unsigned long"):
            return self.setvar(f, n["d"], e, sts)
        return self.pointer(f, v, e, sts)

    def pointer(self, f, l, e, sts):
        """l (Var, Ref, Member, Index) is set to the object e denotes"""
        n = f.nodes[l]
        if n["k"] == "Var":
            fake = self.cl.is_slot(self, f, n)
            if not fake or self.single(f, n["d"]) is not None and self.slot(f, self.single(f, n["d"])) is not None:
                return sts
            ls = (("l", f.id, n["d"], len(self.stack)), None)
        else:
            ls = self.slot(f, l)
            if ls is not None and n["k"] == "Ref" and ls[0][0] != "l" and not self.byref(f, n["d"]):
                return sts
        if ls is None:
            return sts
        src = self.slot(f, e) if e >= 0 else None
        ldim = self.rng(ls[1], self.ranges()) if ls[1] is not None else None
        out = []
        for s in sts:
            ok = True
            taken = False
            if src is not None:
                sd = self.rng(src[1], self.ranges()) if src[1] is not None else None
                ok = self.held(s, src[0], sd)
                taken = any(x[0] == "M" and x[1] == src[0] and not self.apart(x[2], sd) for x in s)
                if taken:
                    s = frozenset(x for x in s if not (x[0] == "M" and x[1] == src[0] and not self.apart(x[2], sd)))
            s = frozenset(x for x in s if not (x[0] in "HMT" and x[1] == ls[0] and not self.apart(x[2], ldim)))
            if ok:
                s = self.hold(s, ls[0], ldim, taken)
            elif taken:
                s = s | {("M", ls[0], ldim)}
            out.append(s)
        return out

    def byref(self, f, d):
        if d not in f.params:
            return False
        ts = split_params(f.id)
        return f.params.index(d) < len(ts) and ts[f.params.index(d)].rstrip().endswith("&")

    def assign(self, f, e, n, sts):
        l, r = n["c"]
        lt = f.nodes[self.strip(f, l)]
        sts = self.run(f, r, sts)
        if n["op"] == "=" and lt["k"] in ("Ref", "Member", "Index") and lt["t"].rstrip().endswith("*"):
            if lt["k"] == "Index":
                for x in lt.get("c", ())[1:]:
                    sts = self.run(f, x, sts)
            sts = self.forget(f, l, sts)
            return self.pointer(f, self.strip(f, l), r, sts)
        if lt["k"] == "Ref" and plain(lt["t"]) in ("int", "bool", "unsigned int", "long", "unsigned long"):
            return self.setvar(f, lt["d"], r if n["op"] == "=" else -1, sts)
        sts = self.run(f, l, sts)
        return self.forget(f, l, sts)

    def call(self, f, e, n, sts):
        recv = f.recv(e)
        args = f.args(e)
        g = self.target(f, e)
        inline = g is not None and g.blocks and not g.impl and self.cl.enter(self, f, e, g) and g.id not in self.stack and len(self.stack) < 8
        if recv is not None:
            sts = self.run(f, recv, sts)
        for a in args:
            sts = self.run(f, a, sts)
        r = self.cl.call(self, f, e, recv, args, sts)
        if r is not None:
            return self.reduce(r)
        if inline:
            return self.enter(f, e, g, args, sts)
        if recv is not None and not self.own(f, recv) and not self.cl.harmless(n) and not self.cl.outside(n):
            self.touch(f, e, recv, sts)
        if not self.cl.harmless(n):
            for a in args:
                if f.nodes[a]["t"].rstrip().endswith(("*", "&")) or self.slot(f, a) is not None:
                    self.touch(f, e, a, sts)
        if recv is not None and self.own(f, recv) and not (n.get("f") or "").endswith("const"):
            m = self.sets(g) if g is not None else None
            sts = [frozenset(x for x in s if not (x[0] == "F" and x[1][0] not in self.p.fns and (m is None or x[1][0] in m))) for s in sts]
        return sts

    def sets(self, g, depth=0):
        """members of the object a method may change, or None when that is not known"""
        key = ("sets", g.id)
        if key in self.memo:
            return self.memo[key]
        if not g.blocks or depth > 12:
            return None
        self.memo[key] = set()
        r = set()
        for i, n in enumerate(g.nodes):
            if n is None:
                continue
            if n["k"] in ("Assign", "Un") and n.get("c") and (n["k"] == "Assign" or n["op"] in ("++", "--", "&")):
                l = self.strip(g, n["c"][0])
                while g.nodes[l]["k"] == "Index":
                    l = self.strip(g, g.nodes[l]["c"][0])
                if g.nodes[l]["k"] == "Member":
                    r.add(g.nodes[l]["d"])
            elif n["k"] == "Call":
                for a in list(g.args(i)) + ([g.recv(i)] if g.recv(i) is not None else []):
                    m = g.nodes[self.strip(g, a)]
                    if m["k"] == "Member" and not m["t"].rstrip().endswith("*"):
                        r.add(m["d"])
                if n.get("m") and g.recv(i) is not None and self.own(g, g.recv(i)):
                    h = self.target(g, i)
                    x = self.sets(h, depth + 1) if h is not None else None
                    if x is None:
                        r = None
                        break
                    r |= x
        self.memo[key] = r
        return r

    def enter(self, f, e, g, args, sts):
        bind, sym = {}, {}
        for d, a in zip(g.params, args):
            s = self.slot(f, a)
            if s is not None:
                bind[d] = s
            y = self.sym(f, a)
            if y is not None:
                sym[d] = y
        self.stack.append(g.id)
        self.frames.append({"bind": bind, "sym": sym})
        kept = []
        for s in sts:
            for d, a in zip(g.params, args):
                v = self.const(f, a, s)
                if v is not None and g.params:
                    s = s | {("K", (g.id, d), v)}
            kept.append(s)
        o = self.stmt(g, g.body, kept)
        self.frames.pop()
        self.stack.pop()
        out = o.fall + [s for s, _ in o.ret]
        return self.reduce([frozenset(x for x in s if not (x[0] == "K" and x[1][0] == g.id or x[0] == "F" and x[1][0] == g.id)) for s in out])

    # ---- conditions
    def assume(self, f, c, val, sts):
        if c is None or c < 0:
            return sts
        c = self.strip(f, c)
        n = f.nodes[c]
        k = n["k"]
        if k == "Un" and n["op"] == "!":
            return self.assume(f, n["c"][0], not val, sts)
        if k == "Bin" and n["op"] in ("&&", "||"):
            if val == (n["op"] == "&&"):
                return self.assume(f, n["c"][1], val, self.assume(f, n["c"][0], val, sts))
            a, b = n["c"]
            return self.reduce(self.assume(f, a, val, sts) + self.assume(f, b, val, self.assume(f, a, not val, sts)))
        out = []
        key = self.key(f, c)
        cmpn = None
        if k == "Bin" and n["op"] in FLIP:
            a, b = n["c"]
            na, nb = (f.nodes[self.strip(f, x)] for x in (a, b))
            if nb["k"] == "Null" or nb["k"] == "Int" and nb.get("v") == 0 and na.get("t", "").endswith("*"):
                cmpn = (a, (n["op"] == "==") == val)
        elif n.get("t", "").rstrip().endswith("*"):
            cmpn = (c, not val)
        for s in sts:
            if k == "Bin" and n["op"] in FLIP:
                x, y = (self.const(f, q, s) for q in n["c"])
                if x is not None and y is not None:
                    t = {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[n["op"]]
                    if t == val:
                        out.append(s)
                    continue
            v = self.const(f, c, s)
            if v is not None:
                if bool(v) == val:
                    out.append(s)
                continue
            if key is not None:
                kk, pol = key
                have = [x[2] for x in s if x[0] == "F" and x[1] == kk]
                if have and have[0] != (val == pol):
                    continue
                s = s | {("F", kk, val == pol)}
            if cmpn and cmpn[1]:
                sl = self.slot(f, cmpn[0])
                if sl is not None:
                    d = self.rng(sl[1], self.ranges()) if sl[1] is not None else None
                    s = self.hold(self.drop(s, sl[0], d), sl[0], d, False)
            out.append(s)
        return out

    def key(self, f, c):
        """(key, polarity) of a condition on locals and members that stays true until they are written"""
        n = f.nodes[c]
        if n["k"] == "Ref" and plain(n["t"]) in ("bool", "int"):
            x = self.single(f, n["d"]) if n["d"] not in f.params else None
            m = f.nodes[self.strip(f, x)] if x is not None else None
            if m and m["k"] == "Member" and not any(w and w["k"] in ("Assign", "Un") and w.get("c") and w.get("op") not in ("!", "-", "*") and
                                                    f.nodes[w["c"][0]].get("d") == m["d"] for w in f.nodes):
                return self.key(f, self.strip(f, x))
            return (f.id, n["d"], "len%d" % len(self.stack)), True
        if n["k"] == "Member" and plain(n["t"]) in ("bool", "int") and (not n.get("c") or self.own(f, n["c"][0])):
            return (n["d"], "v"), True
        if n["k"] == "Member" and n["t"].rstrip().endswith("*") and (not n.get("c") or self.own(f, n["c"][0])):
            return (n["d"], "v"), True
        if n["k"] == "Bin" and n["op"] in ("==", "!="):
            a, b = (self.strip(f, x) for x in n["c"])
            if f.nodes[b]["k"] in ("Null",) and f.nodes[a]["k"] == "Member":
                r = self.key(f, a)
                return (r[0], n["op"] == "!=") if r else None
            v = f.nodes[b].get("cv", f.nodes[b].get("v"))
            if v is not None and f.nodes[a]["k"] in ("Ref", "Member") and f.nodes[b]["k"] in ("Int", "Enum", "Bool"):
                r = self.key(f, a) if plain(f.nodes[a]["t"]) in ("bool", "int") else ((f.nodes[a]["d"], "v"), True)
                if r:
                    return r[0] + (("==", v),), n["op"] == "=="
        return None

    # ---- statements
    def stmt(self, f, i, sts):
        o = Out()
        self.visited.add((f.id, i))
        if i is None or i < 0:
            o.fall = list(sts)
            return o
        n = f.nodes[i]
        k = n["k"]
        if k in ("Compound", "OMP", "LabelStmt"):
            cur = list(sts)
            for x in n.get("c", ()):
                if x < 0 or not cur:
                    continue
                r = self.stmt(f, x, cur)
                o.take(r)
                cur = self.reduce(r.fall)
            o.fall = cur
            return o
        if k == "If":
            sts = self.run(f, n["cond"], sts)
            a = self.stmt(f, n["then"], self.assume(f, n["cond"], True, sts))
            b = self.stmt(f, n["else"], self.assume(f, n["cond"], False, sts))
            o.take(a)
            o.take(b)
            o.fall = self.reduce(a.fall + b.fall)
            return o
        if k in ("For", "While", "Do"):
            return self.loop(f, i, n, sts)
        if k == "CXXForRangeStmt":
            return self.rangefor(f, i, n, sts)
        if k == "Return":
            for x in n.get("c", ()):
                sts = self.run(f, x, sts)
            o.ret = [(s, i) for s in sts]
            return o
        if k == "Break":
            o.brk = list(sts)
            return o
        if k == "Continue":
            o.cont = list(sts)
            return o
        if k == "Throw":
            for x in n.get("c", ()):
                sts = self.run(f, x, sts)
            return o
        if k == "Try":
            r = self.stmt(f, n["c"][0], sts)
            o.take(r)
            fall = list(r.fall)
            for h in n["c"][1:]:
                b = f.nodes[h]["c"][-1] if f.nodes[h].get("c") else -1
                q = self.stmt(f, b, self.reduce(list(sts) + r.fall))
                o.take(q)
                fall += q.fall
            o.fall = self.reduce(fall)
            return o
        if k == "Switch":
            sts = self.run(f, n["cond"], sts)
            body = f.nodes[n["body"]]
            cur, fall, dflt = [], [], False
            for x in body.get("c", ()):
                y = x
                while f.nodes[y]["k"] in ("Case", "Default"):
                    dflt = dflt or f.nodes[y]["k"] == "Default"
                    cur = self.reduce(cur + list(sts))
                    y = f.nodes[y]["c"][-1] if f.nodes[y].get("c") else -1
                    if y < 0:
                        break
                r = self.stmt(f, y, cur) if cur else Out()
                o.ret += r.ret
                o.cont += r.cont
                fall += r.brk
                cur = r.fall
            o.fall = self.reduce(fall + cur + ([] if dflt else list(sts)))
            return o
        if k in ("Case", "Default"):
            return self.stmt(f, n["c"][-1], sts) if n.get("c") else Out(sts)
        o.fall = self.run(f, i, sts)
        return o

    def loop(self, f, i, n, sts):
        o = Out()
        if n["k"] == "For" and n["init"] >= 0:
            sts = self.stmt(f, n["init"], sts).fall
        sh = self.shape(f, i, n)
        out = []
        if sh and sh[1][0] == sh[2][0] == "k" and sh[2][1] - sh[1][1] <= 16 and any(
                f.nodes[x]["k"] == "Index" and self.listed(f, f.nodes[x]["c"][0]) for x in f.walk(n["body"])):
            return self.unroll(f, n["body"], [{"sym": {sh[0]: ("k", v)}} for v in range(sh[1][1], sh[2][1])], sts)

        def once(ss, guard=True):
            ss = self.run(f, n["cond"], ss) if guard and n["cond"] >= 0 else ss
            if guard and n["cond"] >= 0:
                out.extend(self.assume(f, n["cond"], False, ss))
                ss = self.assume(f, n["cond"], True, ss)
            b = self.stmt(f, n["body"], ss)
            o.ret += b.ret
            out.extend(b.brk)
            ss = self.reduce(b.fall + b.cont)
            if n["k"] == "For" and n["inc"] >= 0:
                ss = self.run(f, n["inc"], ss)
            return self.reduce(ss)
        # the first round with what is known, the others in general
        self.frames.append({**{k: v for k, v in (self.frames[-1] if self.frames else {}).items()}, "rng": {}})
        fr = self.frames[-1]
        ranged = sh and any(self.elemop(f, x, sh) for x in f.walk(n["body"]))
        if ranged:
            fr["rng"] = {}          # inside the body the variable stands for itself
            fr["loopvar"] = sh
            marks = [s for s in sts]
            gen = [frozenset(x for x in s if x[0] != "K") for s in sts]
            ins = []
            for _ in range(2):
                b = self.stmt(f, n["body"], self.reduce(gen))
                ins = self.reduce(b.fall + b.cont)
                gen = self.reduce(gen + [frozenset(x for x in s if not self.hasvar(x, f, sh[0])) for s in ins])
            o.ret += b.ret
            ends = [self.spread(s, f, sh, not b.brk) for s in ins]
            out = ends + [self.spread(s, f, sh, False) for s in b.brk]
            self.frames.pop()
            if not ends:
                out = marks
            o.fall = self.reduce(out)
            return o
        if sh:
            fr["rng"] = {(f.id, sh[0]): (sh[1], sh[2])}
        ss = once(sts, n["k"] != "Do")
        head = list(ss)
        for _ in range(6):
            new = once(self.reduce([frozenset(x for x in s if x[0] != "K" or x[1][1] not in self.steps(f, n)) for s in head]))
            nxt = self.reduce(head + new)
            if set(nxt) == set(head):
                break
            head = nxt
        self.frames.pop()
        if n["cond"] < 0 and n["k"] != "Do":
            pass
        o.fall = self.reduce(out)
        return o

    def unroll(self, f, body, envs, sts):
        o = Out()
        cur, out = list(sts), []
        for env in envs:
            top = self.frames[-1] if self.frames else {}
            self.frames.append({**top, **{k: {**top.get(k, {}), **v} for k, v in env.items()}})
            b = self.stmt(f, body, cur)
            self.frames.pop()
            o.ret += b.ret
            out += b.brk
            cur = self.reduce(b.fall + b.cont)
        o.fall = self.reduce(out + cur)
        return o

    def rangefor(self, f, i, n, sts):
        c = [x for x in n.get("c", ()) if x >= 0]
        body = c[-1]
        decls = [v for x in c[:-1] if f.nodes[x]["k"] == "Decl" for v in f.nodes[x]["c"]]
        ext = next((v for v in decls if f.nodes[v].get("n", "").startswith("__range") or f.nodes[v]["d"].split(".")[-1].startswith("__range")), None)
        var = decls[-1] if decls else None
        el = None
        if ext is not None and f.nodes[ext].get("c"):
            el = self.listed(f, f.nodes[ext]["c"][0])
        if el is not None and var is not None:
            return self.unroll(f, body, [{"bind": {f.nodes[var]["d"]: self.slot(f, x)}} for x in el], sts)
        o = Out()
        head = list(sts)
        out = []
        for _ in range(4):
            b = self.stmt(f, body, head)
            o.ret += b.ret
            out += b.brk
            nxt = self.reduce(head + b.fall + b.cont)
            if set(nxt) == set(head):
                break
            head = nxt
        o.fall = self.reduce(head + out)
        return o

    def steps(self, f, n):
        w = set()
        for x in list(f.walk(n["body"])) + (list(f.walk(n["inc"])) if n["k"] == "For" and n["inc"] >= 0 else []) + (list(f.walk(n["cond"])) if n["cond"] >= 0 else []):
            m = f.nodes[x]
            if m["k"] in ("Assign", "Un") and m.get("c") and f.nodes[m["c"][0]]["k"] == "Ref" and (m["k"] == "Assign" or m["op"] in ("++", "--")):
                w.add(f.nodes[m["c"][0]]["d"])
            if m["k"] == "Var":
                w.add(m["d"])
        return w

    def elemop(self, f, x, sh):
        """a switch on the element the loop variable points at"""
        n = f.nodes[x]
        if n["k"] == "Assign" and n["op"] == "=" and f.nodes[n["c"][0]]["k"] == "Index":
            s = self.slot(f, n["c"][0])
            return s is not None and s[1] is not None and s[1][:3] == ("v", f.id, sh[0])
        if n["k"] != "Call":
            return False
        for y in ([f.recv(x)] if f.recv(x) is not None else []) + list(f.args(x)):
            s = self.slot(f, y)
            if s is not None and s[1] is not None and s[1][:3] == ("v", f.id, sh[0]):
                g = self.target(f, x)
                if self.cl.switches(n) or g is not None and self.cl.reaches(g):
                    return True
        g = self.target(f, x)
        if g is not None and self.cl.reaches(g):
            return any((self.sym(f, y) or ("",))[:3] == ("v", f.id, sh[0]) for y in f.args(x))
        return False

    def hasvar(self, x, f, d):
        return x[0] in "HMT" and x[2] is not None and any(s[0] == "v" and s[1:3] == (f.id, d) for s in x[2])

    def spread(self, st, f, sh, whole):
        d, lo, hi = sh
        r = set()
        add = []
        for x in st:
            if not self.hasvar(x, f, d):
                r.add(x)
                continue
            a, b = x[2]
            if a[:3] == ("v", f.id, d) and b[:3] == ("v", f.id, d) and (whole or x[0] == "M"):
                add.append((x[0], x[1], (plus(lo, a[-1]), plus(hi, b[-1] - 1))))
        st = frozenset(r)
        for t, s, dim in add:
            if t == "T":
                st = self.drop(st, s, dim)
        for t, s, dim in add:
            if t == "H":
                st = frozenset(self.fuse(st | {("H", s, dim)}, s, "H"))
            elif t == "M":
                st = st | {("M", s, dim)}
        return st

    # ---- loop ranges: (variable, lo, hi)
    def shape(self, f, i, n):
        if n["cond"] < 0 or n["k"] == "Do":
            return None
        c = self.strip(f, n["cond"])
        q = f.nodes[c]
        if q["k"] != "Bin" or q["op"] not in ("<", "<=", ">", ">=", "!="):
            return None
        a, b = (self.strip(f, x) for x in q["c"])
        na = f.nodes[a]
        if na["k"] == "Un" and na["op"] == "--" and na.get("post") and f.nodes[na["c"][0]]["k"] == "Ref":
            d = f.nodes[na["c"][0]]["d"]
            s, bnd = self.start(f, i, n, d), self.sym(f, b)
            return (d, bnd, s) if s and bnd and q["op"] in (">", "!=") else None
        st = self.step(f, n)
        if not st:
            return None
        d, step = st
        op = q["op"]
        if na["k"] == "Ref" and na["d"] == d:
            bound = self.sym(f, b)
        elif f.nodes[b]["k"] == "Ref" and f.nodes[b]["d"] == d:
            bound = self.sym(f, a)
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        else:
            return None
        s = self.start(f, i, n, d)
        if bound is None or s is None:
            return None
        if step == 1 and op in ("<", "<=", "!="):
            return d, s, plus(bound, 1) if op == "<=" else bound
        if step == -1 and op in (">", ">=", "!="):
            return d, bound if op == ">=" else plus(bound, 1), plus(s, 1)
        return None

    def step(self, f, n):
        if n["k"] == "For" and n["inc"] >= 0:
            cand, body = [n["inc"]], list(f.walk(n["body"])) if n["body"] >= 0 else []
            while f.nodes[cand[0]]["k"] == "Bin" and f.nodes[cand[0]]["op"] == ",":
                x = cand.pop(0)
                cand[:0] = f.nodes[x]["c"]
        else:
            b = f.nodes[n["body"]]
            if b["k"] != "Compound" or not b.get("c"):
                return None
            cand = [b["c"][-1]]
            inner = set(f.walk(cand[0]))
            body = [x for x in f.walk(n["body"]) if x not in inner]
            if any(f.nodes[x]["k"] == "Continue" for x in body):
                return None
        for x in cand:
            q = f.nodes[x]
            if not q.get("c") or f.nodes[q["c"][0]]["k"] != "Ref":
                continue
            d = f.nodes[q["c"][0]]["d"]
            s = None
            if q["k"] == "Un" and q["op"] in ("++", "--"):
                s = 1 if q["op"] == "++" else -1
            elif q["k"] == "Assign" and q["op"] in ("+=", "-=") and self.sym(f, q["c"][1]) == ("k", 1):
                s = 1 if q["op"] == "+=" else -1
            if s and not any(f.nodes[y]["k"] in ("Assign", "Un") and f.nodes[y].get("c") and f.nodes[f.nodes[y]["c"][0]].get("d") == d and
                             (f.nodes[y]["k"] == "Assign" or f.nodes[y]["op"] in ("++", "--")) for y in body):
                return d, s
        return None

    def start(self, f, i, n, d):
        def of(x):
            q = f.nodes[x]
            if q["k"] == "Decl":
                for v in q["c"]:
                    if f.nodes[v]["k"] == "Var" and f.nodes[v]["d"] == d:
                        return self.sym(f, f.nodes[v]["c"][0]) if f.nodes[v].get("c") else None
            if q["k"] == "Assign" and q["op"] == "=" and f.nodes[q["c"][0]].get("d") == d:
                return self.sym(f, q["c"][1])
            if q["k"] == "Bin" and q["op"] == ",":
                return of(q["c"][0]) or of(q["c"][1])
            return None
        if n["k"] == "For" and n["init"] >= 0:
            s = of(n["init"])
            if s is not None:
                return s
        par = f.parent.get(i) if isinstance(f.parent, dict) else f.parent[i]
        if par is None or par < 0 or f.nodes[par]["k"] != "Compound":
            return None
        sib = list(f.nodes[par]["c"])
        for x in reversed(sib[:sib.index(i)]):
            s = of(x)
            if s is not None:
                return s
            if any(f.nodes[y]["k"] in ("Assign", "Un") and f.nodes[y].get("c") and f.nodes[f.nodes[y]["c"][0]].get("d") == d for y in f.walk(x)):
                return None
        return None
