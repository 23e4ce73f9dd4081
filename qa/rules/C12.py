"""C12: composite operators and wave functions reach all of their parts.

A part table is a member array of pointers to operators / wave functions whose entries are handed in by callers; its length is
the member its loops run to. Functions are interpreted over the syntax tree with the set of part indices that are certainly
reached (per path, meet over paths): single entries, ranges of loops, rows and triangles of matrices, whole tables through calls."""
import itertools
import re
from collections import Counter
from ..core import AnalysisBroken
from ..prog import cond_atoms, short

OP, WF = "QDLIB::Operator", "QDLIB::WaveFunction"
# request -> methods of a part that carry it out
CONTROL = {"Clock(QDLIB::QDClock *)": {"Clock"}, "UpdateTime()": {"UpdateTime"}, "Conj(bool)": {"Conj"},
           "RecalcInternals(bool)": {"RecalcInternals"}, "Init(QDLIB::WaveFunction *)": {"Init"},
           "Valid(QDLIB::WaveFunction *)": {"Valid"}}
EVAL = {"Apply(QDLIB::WaveFunction *, QDLIB::WaveFunction *)": {"Apply", "ApplyAdd"}, "Apply(QDLIB::WaveFunction *)": {"Apply", "ApplyAdd"},
        "ApplyParent(QDLIB::WaveFunction *, QDLIB::WaveFunction *)": {"ApplyParent"},
        "ApplyAdd(QDLIB::WaveFunction *, QDLIB::WaveFunction *)": {"Apply", "ApplyAdd"},
        "Emax()": {"Emax"}, "Emin()": {"Emin"}}
STORE = {"Retire()": {"Retire"}, "Reaquire()": {"Reaquire"}}
ALL = ("k", 0), ("n", 0)


def add(s, c):
    return None if s is None else s[:-1] + (s[-1] + c,)


class Out:
    def __init__(self, fall=None):
        self.fall = fall
        self.ret = []
        self.brk = []
        self.cont = []


class Cover:
    """must-reached parts of table T in the methods of class C, for a request carried out by the part methods in `names`
    (None: any use of the part)"""

    def __init__(self, M, T, C, names, init=False):
        self.M, self.p, self.T, self.C, self.names, self.init = M, M.p, T, C, names, init
        self.memo = {}
        self.stack = []
        self.assume = {}        # values of the object's flags in the case under analysis

    def flag(self, f, c):
        """(flag member, value for which the condition holds)"""
        if c < 0:
            return None
        c = self.strip(f, c)
        n = f.nodes[c]
        if n["k"] == "Un" and n["op"] == "!":
            r = self.flag(f, n["c"][0])
            return (r[0], not r[1]) if r else None
        if n["k"] == "Member" and n.get("t") == "bool" and (not n.get("c") or self.own(f, n["c"][0])):
            return n["d"], True
        return None

    def flags(self, f):
        """flags that choose between values in this function and are not set in it"""
        out = []
        for n in f.nodes:
            if n and n["k"] == "Cond":
                r = self.flag(f, n["c"][0])
                if r and r[0] not in out and not any(
                        m and m["k"] == "Assign" and f.nodes[m["c"][0]].get("d") == r[0] for m in f.nodes):
                    out.append(r[0])
        return out[:3]

    # ---- symbols
    def single(self, f, d):
        """the only expression a local is ever set to"""
        key = (f.id, d)
        c = self.M.defs.get(key)
        if c is None:
            c = []
            for n in f.nodes:
                if n is None:
                    continue
                if n["k"] == "Var" and n["d"] == d:
                    if n.get("c"):
                        c.append(n["c"][0])
                elif n["k"] == "Assign" and f.nodes[n["c"][0]].get("d") == d and f.nodes[n["c"][0]]["k"] == "Ref":
                    c += [n["c"][1], -1] if n["op"] != "=" else [n["c"][1]]
                elif n["k"] == "Un" and n["op"] in ("++", "--", "&") and f.nodes[n["c"][0]]["k"] == "Ref" and f.nodes[n["c"][0]].get("d") == d:
                    c += [-1, -1]
            c = [x for x in c if x == -1 or f.nodes[x]["k"] != "Null"]
            self.M.defs[key] = c
        return c[0] if len(c) == 1 and c[0] != -1 else None

    def strip(self, f, e):
        while f.nodes[e]["k"] == "Cast" and f.nodes[e].get("c"):
            e = f.nodes[e]["c"][0]
        return e

    def sym(self, f, e, depth=0):
        if e < 0 or depth > 6:
            return None
        e = self.strip(f, e)
        n = f.nodes[e]
        k = n["k"]
        v = n.get("cv", n.get("v"))
        if isinstance(v, int) and not isinstance(v, bool) and k in ("Int", "Enum", "Sizeof", "Bin", "Ref", "Cast"):
            return ("k", v)
        if k == "Member":
            if n["d"] in self.T.counts:
                return ("n", 0)
            if n["d"] in self.T.fields and self.T.dims == 1 and (not n.get("c") or self.own(f, n["c"][0])):
                return ("k", 0)
            return None
        if k == "Un" and n["op"] == "&":
            el = self.elem(f, n["c"][0]) if f.nodes[self.strip(f, n["c"][0])]["k"] == "Index" else None
            return el[0][0] if el and len(el[0]) == 1 else None
        if k == "Cond":
            r = self.flag(f, n["c"][0])
            if r and r[0] in self.assume:
                return self.sym(f, n["c"][1 if self.assume[r[0]] == r[1] else 2], depth + 1)
            return None
        if k == "Call" and n.get("m"):
            for g in self.target(f, e):
                if self.M.getter(g) in self.T.counts:
                    return ("n", 0)
            if n["fn"] == "MPIrank":
                return ("k", 0)
            return None
        if k == "Call" and n.get("fn") in ("min", "max") and len(n.get("c", ())) == 2:
            a, b = (self.sym(f, x, depth + 1) for x in n["c"])
            if n["fn"] == "min" and a and b and {a[0], b[0]} == {"n", "k"} and (a if a[0] == "k" else b)[1] >= self.T.size:
                return a if a[0] == "n" else b
            return a if a == b else None
        if k == "Ref":
            d = n["d"]
            if d in f.params:
                if self.assigned(f, d):
                    return None
                return ("p", f.params.index(d), 0)
            x = self.single(f, d)
            if x is not None:
                s = self.sym(f, x, depth + 1)
                if s is not None:
                    return s
            return ("v", f.id, d, 0)
        if k == "Bin" and n["op"] in ("+", "-"):
            a, b = (self.sym(f, x, depth + 1) for x in n["c"])
            if a is None or b is None:
                return None
            if b[0] == "k":
                return add(a, b[1] if n["op"] == "+" else -b[1])
            if a[0] == "k" and n["op"] == "+":
                return add(b, a[1])
        return None

    def assigned(self, f, d):
        return any(n and ((n["k"] == "Assign" and f.nodes[n["c"][0]].get("d") == d and f.nodes[n["c"][0]]["k"] == "Ref") or
                          (n["k"] == "Un" and n["op"] in ("++", "--") and f.nodes[n["c"][0]].get("d") == d)) for n in f.nodes)

    def target(self, f, e):
        """functions a call on this object reaches when it is a C"""
        n = f.nodes[e]
        fid = n.get("f")
        if fid is None:
            return []
        if n.get("virt"):
            r = f.recv(e)
            if r is not None and self.own(f, r):
                fid = self.p.final_overrider(self.C, fid) or fid
        return [self.p.fns[fid]] if fid in self.p.fns else []

    def own(self, f, e):
        e = self.strip(f, e)
        n = f.nodes[e]
        if n["k"] == "This":
            return True
        if n["k"] == "Un" and n["op"] == "*":
            return self.own(f, n["c"][0])
        return False

    def elem(self, f, e, depth=0):
        """(index symbols, converted) when e denotes a part of this object, or ('P', k) for parameter k"""
        if e < 0 or depth > 8:
            return None
        n = f.nodes[e]
        k = n["k"]
        c = n.get("c", ())
        if k == "Cast":
            r = self.elem(f, c[0], depth + 1) if c else None
            return (r[0], r[1] or "dynamic" in str(n.get("ck", "")).lower()) if r else None
        if k == "Un" and n["op"] == "*" and self.T.dims == 1 and f.nodes[self.strip(f, c[0])].get("t", "").replace(" ", "").replace("const", "").endswith("**"):
            x = self.sym(f, c[0])
            return ((x,), False) if x is not None else None
        if k == "Un" and n["op"] in ("*", "&"):
            return self.elem(f, c[0], depth + 1)
        if k == "Member" and n["d"] in self.T.driven and (not c or self.own(f, c[0])):
            return ("H",), False
        if k == "Index":
            idx = [c[1]]
            b = self.strip(f, c[0])
            while f.nodes[b]["k"] == "Index":
                idx.insert(0, f.nodes[b]["c"][1])
                b = self.strip(f, f.nodes[b]["c"][0])
            m = f.nodes[b]
            if m["k"] == "Member" and m["d"] in self.T.fields and (not m.get("c") or self.own(f, m["c"][0])):
                return tuple(self.sym(f, x) for x in idx), False
            return None
        if k == "Ref":
            d = n["d"]
            if d in f.params:
                return ("P", f.params.index(d)), False
            x = self.single(f, d)
            return self.elem(f, x, depth + 1) if x is not None else None
        if k == "Call" and n.get("m") and f.recv(e) is not None and self.own(f, f.recv(e)):
            for g in self.target(f, e):
                acc = self.M.accessor(g, self)
                if acc:
                    args = f.args(e)
                    return tuple(self.subst(f, s, args) for s in acc), False
        if k == "Call" and n.get("op") == "[]" and n.get("c"):
            return None
        return None

    def subst(self, f, s, args):
        if s is None:
            return None
        if s[0] == "p":
            return add(self.sym(f, args[s[1]]), s[2]) if s[1] < len(args) else None
        return s if s[0] in "kn" else None

    # ---- items
    def item(self, el):
        if el is None:
            return None
        if el[0] and el[0][0] == "P":
            return ("P", el[0][1])
        if el[0] and el[0][0] == "H":
            return tuple(("rg",) + ALL for _ in range(self.T.dims)) if self.names is not None else None
        if any(s is None for s in el[0]):
            return None
        return tuple(("pt", s) for s in el[0])

    def norm(self, S):
        S = set(S)
        changed = True
        while changed and len(S) < 200:
            changed = False
            its = [x for x in S if x and isinstance(x[0], tuple)]
            for a in its:
                for b in its:
                    if a is b or len(a) != len(b):
                        continue
                    diff = [k for k in range(len(a)) if a[k] != b[k]]
                    if len(diff) != 1:
                        continue
                    k = diff[0]
                    ra, rb = self.rg(a[k]), self.rg(b[k])
                    if not ra or not rb:
                        continue
                    if ra[1] == rb[0] or (ra[1][0] == rb[0][0] == "k" and ra[1][1] >= rb[0][1]):
                        new = a[:k] + (("rg", ra[0], rb[1]),) + a[k + 1:]
                        if new not in S:
                            S.add(new)
                            changed = True
        return S

    def rg(self, d):
        if d[0] == "pt":
            return (d[1], add(d[1], 1))
        if d[0] == "rg":
            return d[1], d[2]
        return None

    def fulldim(self, d):
        r = self.rg(d)
        if not r:
            return False
        lo, hi = r
        return lo[0] == "k" and lo[1] <= 0 and (hi[0] == "n" and hi[1] >= 0 or hi[0] == "k" and hi[1] >= self.T.size)

    def full(self, S):
        for x in self.norm(S):
            if not x or not isinstance(x[0], tuple):
                continue
            if all(self.fulldim(d) for d in x):
                return True
            if any(d[0] == "tri" for d in x) and all(d[0] == "tri" or self.fulldim(d) for d in x) and \
                    any(y[0] == "F" and y[1].endswith("_hermitian") and y[2] for y in S):
                return True
        return False

    def complete(self, S):
        S = set(S)
        if self.full(S):
            S.add(tuple(("rg",) + ALL for _ in range(self.T.dims)))
        return S

    def meet(self, xs):
        xs = [self.norm(self.complete(x)) for x in xs if x is not None]
        if not xs:
            return None
        whole = tuple(("rg",) + ALL for _ in range(self.T.dims))
        part = [x for x in xs if whole not in x] or xs
        r = set(part[0])
        for x in part[1:]:
            r &= x
        for x in xs:
            r = {y for y in r if y[0] != "F" or y in x}
        return r

    # ---- expressions
    def visits(self, f, e, out, cond=False):
        """items certainly reached by evaluating e"""
        if e < 0:
            return
        n = f.nodes[e]
        k = n["k"]
        if k in ("Bin",) and n["op"] in ("&&", "||"):
            self.visits(f, n["c"][0], out)
            return
        if k == "Cond":
            self.visits(f, n["c"][0], out)
            a, b = set(), set()
            self.visits(f, n["c"][1], a)
            self.visits(f, n["c"][2], b)
            a, b = self.atoms(f, n["c"][0], True, a), self.atoms(f, n["c"][0], False, b)
            out |= self.meet([a, b])
            return
        asked = k == "Call" and n.get("t") == "bool" and self.names is None and f.recv(e) is not None     # only asked for a property
        for x in n.get("c", ()):
            if not (asked and self.elem(f, x)):
                self.visits(f, x, out)
        if k == "Call":
            r = f.recv(e)
            args = f.args(e)
            if r is not None and self.names is not None and n.get("fn") in self.names and not self.own(f, r):
                it = self.item(self.elem(f, r))
                if it is not None:
                    out.add(it)
            gs = []
            if r is None or self.own(f, r):
                gs = self.target(f, e)
            for g in gs:
                sm = self.summary(g)
                for it in sm:
                    if it[0] == "P":
                        if it[1] < len(args):
                            x = self.item(self.elem(f, args[it[1]]))
                            if x is not None:
                                out.add(x)
                    elif it[0] == "F":
                        pass
                    else:
                        if r is None and not self.fromthis(g):
                            continue
                        dims = []
                        for d in it:
                            d2 = (d[0],) + tuple(self.subst(f, s, args) for s in d[1:]) if d[0] != "tri" else d
                            dims.append(d2)
                        if all(None not in d for d in dims):
                            out.add(tuple(dims))
        if self.names is None and k in ("Index", "Call"):
            it = self.item(self.elem(f, e))
            if it is not None and it[0] != "P":
                out.add(it)

    def fromthis(self, g):
        return bool(g.cls)

    def atoms(self, f, c, val, S):
        S = set(S)
        for i, v in cond_atoms(f, c, val):
            i = self.strip(f, i)
            n = f.nodes[i]
            if n["k"] == "Un" and n["op"] == "!":
                continue
            if n["k"] == "Bin" and n["op"] in ("==", "!=", "<", ">", "<=", ">="):
                a, b = n["c"]
                op = n["op"]
                if not v:
                    op = {"==": "!=", "!=": "==", "<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
                nul = [x for x in (a, b) if f.nodes[self.strip(f, x)]["k"] == "Null" or f.nodes[self.strip(f, x)].get("v") == 0]
                if nul and op == "==":
                    el = self.elem(f, b if nul[0] == a else a)
                    if el and not el[1]:
                        it = self.item(el)
                        if it:
                            S.add(it)
                x, y = self.sym(f, a), self.sym(f, b)
                if x and y and y[0] == "n" and x[0] == "k":
                    x, y, op = y, x, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                if x and y and x[0] == "n" and y[0] == "k":
                    k = y[1] - x[1]
                    if op in ("==", "<="):
                        self.atmost(S, k)
                    elif op == "<":
                        self.atmost(S, k - 1)
            elif n["k"] == "Member" and n["t"] == "bool" and (not n.get("c") or self.own(f, n["c"][0])):
                S.add(("F", n["d"], v))
                if self.init and not v:
                    S.add(tuple(("rg",) + ALL for _ in range(self.T.dims)))
            elif not v:
                el = self.elem(f, i)
                if el and not el[1] and n.get("t", "").rstrip().endswith("*"):
                    it = self.item(el)
                    if it:
                        S.add(it)
        return S

    def atmost(self, S, k):
        """the table holds at most k parts"""
        if self.T.dims == 1:
            S.add((("rg", ("k", max(k, 0)), ("n", 0)),))
        elif k <= 0:
            S.add(tuple(("rg",) + ALL for _ in range(self.T.dims)))

    # ---- statements
    def stmt(self, f, i, S):
        o = Out()
        if i < 0:
            o.fall = S
            return o
        n = f.nodes[i]
        k = n["k"]
        if k in ("Compound", "OMP", "LabelStmt"):
            cur = S
            for x in n.get("c", ()):
                if cur is None or x < 0:
                    continue
                r = self.stmt(f, x, cur)
                self.merge(o, r)
                cur = r.fall
            o.fall = cur
            return o
        if k == "If":
            S = set(S)
            c = n["cond"]
            if c >= 0:
                self.visits(f, c, S)
            r = self.flag(f, c)
            if r and r[0] in self.assume:
                return self.stmt(f, n["then" if self.assume[r[0]] == r[1] else "else"], self.atoms(f, c, self.assume[r[0]] == r[1], S))
            a = self.stmt(f, n["then"], self.atoms(f, c, True, S))
            b = self.stmt(f, n["else"], self.atoms(f, c, False, S))
            self.merge(o, a)
            self.merge(o, b)
            o.fall = self.meet([a.fall, b.fall])
            return o
        if k in ("For", "While", "Do"):
            return self.loop(f, i, n, S)
        if k == "Return":
            S = set(S)
            for x in n.get("c", ()):
                self.visits(f, x, S)
            o.ret.append((S, i))
            return o
        if k == "Break":
            o.brk.append(S)
            return o
        if k == "Continue":
            o.cont.append(S)
            return o
        if k == "Throw":
            return o
        if k == "Try":
            r = self.stmt(f, n["c"][0], S)
            self.merge(o, r)
            falls = [r.fall]
            for h in n["c"][1:]:
                q = self.stmt(f, f.nodes[h]["c"][-1] if f.nodes[h].get("c") else -1, S)
                self.merge(o, q)
                falls.append(q.fall)
            o.fall = self.meet(falls)
            return o
        if k == "Switch":
            S = set(S)
            self.visits(f, n["cond"], S)
            r = self.stmt(f, n["body"], S)
            o.ret += [(set(S), x) for _, x in r.ret]
            o.cont += r.cont
            o.fall = S
            return o
        if k in ("Case", "Default"):
            return self.stmt(f, n["c"][-1], S) if n.get("c") else Out(S)
        S = set(S)
        self.visits(f, i, S)
        o.fall = S
        return o

    def merge(self, o, r):
        o.ret += r.ret
        o.brk += r.brk
        o.cont += r.cont

    def shape(self, f, i, n):
        """(variable, lo, hi) of the values the body sees"""
        cond = n["cond"]
        early = False
        if cond < 0:
            x = self.leave(f, n)
            r = x is not None and self.shape1(f, i, n, self.strip(f, f.nodes[x]["cond"]), True)
            return r + (early,) if r else None
        cs = [cond]
        while f.nodes[cs[0]]["k"] == "Bin" and f.nodes[cs[0]]["op"] == "&&":
            x = cs.pop(0)
            cs[:0] = f.nodes[x]["c"]
            early = True
        for c in cs:
            r = self.shape1(f, i, n, self.strip(f, c))
            if r:
                return r + (early,)
        return None

    def leave(self, f, n):
        """the statement `if (c) break;` an endless loop starts with"""
        b = f.nodes[n["body"]] if n["body"] >= 0 else None
        if n["k"] == "Do" or not b or b["k"] != "Compound" or not b.get("c"):
            return None
        x = b["c"][0]
        m = f.nodes[x]
        if m["k"] != "If" or m["else"] >= 0:
            return None
        t = m["then"]
        while f.nodes[t]["k"] == "Compound" and len(f.nodes[t].get("c", ())) == 1:
            t = f.nodes[t]["c"][0]
        return x if f.nodes[t]["k"] == "Break" else None

    def shape1(self, f, i, n, c, neg=False):
        q = f.nodes[c]
        if neg:
            if q["k"] != "Bin" or q["op"] not in ("<", "<=", ">", ">=", "=="):
                return None
            q = dict(q, op={"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!="}[q["op"]])
        if q["k"] == "Un" and q["op"] in ("--",):    # while (i--)
            a, op, bound, post = q["c"][0], "!=", ("k", 0), q.get("post")
            v = f.nodes[a].get("d")
            return self.countdown(f, i, n, v, bound, op) if post and v else None
        if q["k"] != "Bin" or q["op"] not in ("<", "<=", ">", ">=", "!="):
            return None
        a, b = (self.strip(f, x) for x in q["c"])
        op = q["op"]
        na = f.nodes[a]
        if na["k"] == "Un" and na["op"] == "--" and na.get("post") and f.nodes[na["c"][0]]["k"] == "Ref":
            return self.countdown(f, i, n, f.nodes[na["c"][0]]["d"], self.sym(f, b), op)
        var = self.steps(f, n)
        if not var:
            return None
        d, step = var
        if f.nodes[a]["k"] == "Ref" and f.nodes[a]["d"] == d:
            bound = self.sym(f, b)
        elif f.nodes[b]["k"] == "Ref" and f.nodes[b]["d"] == d:
            bound = self.sym(f, a)
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        else:
            return None
        start = self.start(f, i, n, d)
        if bound is None or start is None:
            return None
        if step == 1 and op in ("<", "<=", "!="):
            return d, start, add(bound, 1) if op == "<=" else bound
        if step == -1 and op in (">", ">=", "!="):
            return d, bound if op == ">=" else add(bound, 1), add(start, 1)
        return None

    def countdown(self, f, i, n, d, bound, op):
        start = self.start(f, i, n, d)
        if start is None or bound is None or op not in (">", "!=", ">="):
            return None
        if op == ">=":
            bound = add(bound, -1)
        body = n["body"]
        if any(self.writes(f, x, d) for x in f.walk(body)):
            return None
        return d, bound, start

    def writes(self, f, x, d):
        n = f.nodes[x]
        return n["k"] in ("Assign", "Un") and n.get("c") and f.nodes[n["c"][0]]["k"] == "Ref" and f.nodes[n["c"][0]]["d"] == d and \
            (n["k"] == "Assign" or n["op"] in ("++", "--"))

    def steps(self, f, n):
        """(variable, step) of the loop: the only change to the variable, made once per round after the body"""
        cand = []
        if n["k"] == "For" and n["inc"] >= 0:
            incs = [n["inc"]]
            while f.nodes[incs[0]]["k"] == "Bin" and f.nodes[incs[0]]["op"] == ",":
                x = incs.pop(0)
                incs[:0] = f.nodes[x]["c"]
            cand = incs
            body = list(f.walk(n["body"])) if n["body"] >= 0 else []
        else:
            b = f.nodes[n["body"]]
            if b["k"] != "Compound" or not b.get("c"):
                return None
            cand = [b["c"][-1]]
            inner = set(f.walk(cand[0]))
            body = [x for x in f.walk(n["body"]) if x not in inner]
            if any(f.nodes[x]["k"] == "Continue" for x in body):
                return None
        for x in cand:
            q = f.nodes[x]
            if not q.get("c") or f.nodes[q["c"][0]]["k"] != "Ref":
                continue
            d = f.nodes[q["c"][0]]["d"]
            step = None
            if q["k"] == "Un" and q["op"] in ("++", "--"):
                step = 1 if q["op"] == "++" else -1
            elif q["k"] == "Assign" and q["op"] in ("+=", "-="):
                s = self.sym(f, q["c"][1])
                if s == ("k", 1) or self.mpisize(f, q["c"][1]):
                    step = 1 if q["op"] == "+=" else -1
            elif q["k"] == "Assign" and q["op"] == "=":
                r = f.nodes[self.strip(f, q["c"][1])]
                if r["k"] == "Bin" and r["op"] in ("+", "-") and f.nodes[r["c"][0]].get("d") == d and self.sym(f, r["c"][1]) == ("k", 1):
                    step = 1 if r["op"] == "+" else -1
            if step and not any(self.writes(f, y, d) for y in body):
                return d, step
        return None

    def mpisize(self, f, e):
        e = self.strip(f, e)
        n = f.nodes[e]
        if n["k"] == "Ref":
            x = self.single(f, n["d"])
            return x is not None and self.mpisize(f, x)
        return n["k"] == "Call" and n.get("fn") == "MPIsize"

    def start(self, f, i, n, d):
        """value of the variable when the loop is entered"""
        def of(x):
            q = f.nodes[x]
            if q["k"] == "Decl":
                for v in q["c"]:
                    if f.nodes[v]["k"] == "Var" and f.nodes[v]["d"] == d:
                        return self.sym(f, f.nodes[v]["c"][0]) if f.nodes[v].get("c") else None
            if q["k"] == "Assign" and q["op"] == "=" and f.nodes[q["c"][0]].get("d") == d:
                return self.sym(f, q["c"][1])
            if q["k"] == "Bin" and q["op"] == ",":
                return of(q["c"][0]) or of(q["c"][1])
            return None
        if n["k"] == "For" and n["init"] >= 0:
            s = of(n["init"])
            if s is not None:
                return s
        par = f.parent.get(i) if isinstance(f.parent, dict) else f.parent[i]
        if par is None or par < 0 or f.nodes[par]["k"] != "Compound":
            return None
        sib = list(f.nodes[par]["c"])
        for x in reversed(sib[:sib.index(i)]):
            s = of(x)
            if s is not None:
                return s
            if any(self.writes(f, y, d) for y in f.walk(x)):
                return None
        return None

    def loop(self, f, i, n, S):
        S = set(S)
        if n["k"] == "For" and n["init"] >= 0:
            r = self.stmt(f, n["init"], S)
            S = r.fall
        sh = self.shape(f, i, n)
        base = {x for x in S if x and x[0] == "F"}
        x = self.leave(f, n) if n["cond"] < 0 and sh else None
        if x is not None:
            b = Out(set(base))
            for y in f.nodes[n["body"]]["c"][1:]:
                if b.fall is not None:
                    q = self.stmt(f, y, b.fall)
                    self.merge(b, q)
                    b.fall = q.fall
        else:
            b = self.stmt(f, n["body"], set(base))
        o = Out()
        o.ret = [(set(S) | {x for x in s if x[0] == "F"}, x) for s, x in b.ret]
        got = set()
        if sh and not ((b.brk or sh[3]) and not self.boolean(f)):
            Sb = self.meet([b.fall] + b.cont) or set()
            got = self.spread(Sb, f, sh)
        if n["k"] == "Do" and not b.brk:
            got = got | (self.meet([b.fall] + b.cont) or set())
        o.fall = S | got
        return o

    def boolean(self, f):
        return f.raw.get("ret") == "bool"

    def spread(self, Sb, f, sh):
        d, lo, hi, _ = sh
        out = set()
        for it in self.norm(Sb):
            if not it or not isinstance(it[0], tuple):
                continue
            hit = any(self.uses(s, f, d) for dim in it for s in dim[1:])
            if not hit:
                continue
            dims = []
            ok = True
            pts = [dim for dim in it if dim[0] == "pt" and self.uses(dim[1], f, d)]
            for dim in it:
                if dim[0] == "pt" and self.uses(dim[1], f, d):
                    dims.append(("rg", add(lo, dim[1][-1]), add(hi, dim[1][-1])))
                elif dim[0] == "rg" and any(self.uses(s, f, d) for s in dim[1:]):
                    l, h = dim[1:]
                    if len(it) == 2 and len(pts) == 1 and pts[0][1][-1] == 0 and (
                            l[0] == "k" and l[1] <= 0 and self.uses(h, f, d) and h[-1] >= 1 or
                            self.uses(l, f, d) and l[-1] <= 0 and h[0] == "n" and h[1] >= 0):
                        dims.append(("tri",))
                    else:
                        ok = False
                else:
                    dims.append(dim)
            if len(pts) > 1:
                ok = False
            if ok:
                out.add(tuple(dims))
        return out

    def uses(self, s, f, d):
        return isinstance(s, tuple) and s[0] == "v" and s[1] == f.id and s[2] == d

    # ---- functions
    def exits(self, f):
        out = []
        fl = self.flags(f)
        old = self.assume
        for vals in itertools.product((True, False), repeat=len(fl)):
            self.assume = dict(zip(fl, vals))
            r = self.stmt(f, f.body, {("F", d, v) for d, v in self.assume.items()})
            out += r.ret
            if r.fall is not None:
                out.append((r.fall, -1))
        self.assume = old
        return out

    def wanted(self, f):
        out = []
        for s, x in self.exits(f):
            if x >= 0:
                c = f.nodes[x].get("c") or ()
                if self.boolean(f) and c and f.nodes[self.strip(f, c[0])].get("v") in (False, 0):
                    continue
                if self.init and not self.last(f, x):
                    continue
            out.append((s, x))
        return out

    def last(self, f, x):
        c = f.nodes[f.body].get("c") or [-1]
        return c[-1] == x

    def summary(self, g):
        if g.id in self.memo:
            return self.memo[g.id]
        if g.id in self.stack or len(self.stack) > 6 or not g.blocks or g.impl:
            return set()
        if not any(n and (n["k"] == "Index" or n["k"] == "Call") for n in g.nodes):
            return set()
        self.stack.append(g.id)
        outs = [s for s, _ in self.wanted(g)]
        if self.names is None:
            outs = [s for s in outs if any(y and isinstance(y[0], tuple) for y in s)] or outs
        r = self.meet(outs) or set()
        self.stack.pop()
        r = {x for x in r if x and (x[0] == "P" or isinstance(x[0], tuple) and not any(
            isinstance(s, tuple) and s[0] == "v" for dim in x for s in dim[1:]))}
        self.memo[g.id] = r
        return r


class Table:
    def __init__(self, cls, field, dims, size, count, base):
        self.cls, self.field, self.dims, self.size, self.count, self.base = cls, field, dims, size, count, base
        self.fields = {field}
        self.counts = {count}
        self.driven = set()     # members that hold an entry of the table and stand for it


class Model:
    def __init__(self, prog):
        self.p = prog
        self.defs = {}
        self.acc = {}
        self.tables = []
        for r in prog.recs.values():
            for x in r["fields"]:
                m = re.match(r"^(.*?)\s*\*\s*((?:\[\d+\])+)$", x["t"])
                if not m:
                    continue
                base = [b for b in (OP, WF) if prog.derives(m.group(1), b)]
                # an operator part may be held through a second base class
                if not base or not any(prog.derives(r["id"], b) for b in (OP, WF)):
                    continue
                dims = [int(y) for y in re.findall(r"\[(\d+)\]", m.group(2))]
                if not self.handed_in(r["id"], x["id"]):
                    continue
                cnt = self.count_of(r["id"], x["id"])
                if cnt:
                    self.tables.append(Table(r["id"], x["id"], len(dims), dims[0], cnt, base[0]))
        for t in self.tables:
            self.aliases(t)

    def aliases(self, t):
        """tables and members of derived classes that are filled with entries of t, counters set to its length"""
        for f in self.p.fns.values():
            if not f.cls or not self.p.derives(f.cls, t.cls) or not f.blocks or f.impl:
                continue
            cov = Cover(self, t, f.cls, None)
            for n in f.nodes:
                if not n or n["k"] != "Assign" or n["op"] != "=":
                    continue
                l = cov.strip(f, n["c"][0])
                depth = 0
                while f.nodes[l]["k"] == "Index":
                    l = cov.strip(f, f.nodes[l]["c"][0])
                    depth += 1
                m = f.nodes[l]
                if m["k"] != "Member" or m["d"] in t.fields or (m.get("c") and not cov.own(f, m["c"][0])):
                    continue
                if depth == 0 and m["t"] == "int":
                    r = f.nodes[cov.strip(f, n["c"][1])]
                    if r["k"] == "Call" and cov.sym(f, cov.strip(f, n["c"][1])) == ("n", 0):
                        t.counts.add(m["d"])
                elif m["t"].rstrip().endswith(("*", "]")) and self.entry(cov, f, n["c"][1]):
                    (t.fields if depth else t.driven).add(m["d"])

    def entry(self, cov, f, e, depth=0):
        """e is an entry of the table, found by index or by name"""
        if e < 0 or depth > 6:
            return False
        e = cov.strip(f, e)
        n = f.nodes[e]
        if n["k"] == "Ref" and n["d"] not in f.params:
            x = cov.single(f, n["d"])
            return x is not None and self.entry(cov, f, x, depth + 1)
        if cov.elem(f, e) and cov.elem(f, e)[0][0] != "P":
            return True
        if n["k"] == "Call" and n.get("m") and f.recv(e) is not None and cov.own(f, f.recv(e)):
            for g in cov.target(f, e):
                for i in g.walk() if g.blocks else ():
                    if g.nodes[i]["k"] == "Return" and g.nodes[i].get("c") and self.entry(cov, g, g.nodes[i]["c"][0], depth + 1):
                        return True
        return False

    def methods(self, cls):
        return [f for f in self.p.fns.values() if f.cls == cls and f.blocks and not f.impl]

    def handed_in(self, cls, fid):
        """some method stores one of its arguments in the table"""
        for f in self.methods(cls):
            for n in f.nodes:
                if n and n["k"] == "Assign" and n["op"] == "=":
                    l = n["c"][0]
                    while f.nodes[l]["k"] == "Index":
                        l = f.nodes[l]["c"][0]
                    while f.nodes[l]["k"] == "Cast" and f.nodes[l].get("c"):
                        l = f.nodes[l]["c"][0]
                    r = n["c"][1]
                    while f.nodes[r]["k"] == "Cast" and f.nodes[r].get("c"):
                        r = f.nodes[r]["c"][0]
                    if f.nodes[l]["k"] == "Member" and f.nodes[l]["d"] == fid and f.nodes[r]["k"] == "Ref" and f.nodes[r]["d"] in f.params:
                        return True
        return False

    def getter(self, g):
        """member a function returns and nothing else"""
        b = g.nodes[g.body] if g.body >= 0 else None
        if not b or b["k"] != "Compound" or len(b.get("c", ())) != 1:
            return None
        r = g.nodes[b["c"][0]]
        if r["k"] != "Return" or not r.get("c"):
            return None
        x = r["c"][0]
        while g.nodes[x]["k"] == "Cast" and g.nodes[x].get("c"):
            x = g.nodes[x]["c"][0]
        return g.nodes[x]["d"] if g.nodes[x]["k"] == "Member" else None

    def count_of(self, cls, fid):
        """the integer member the loops over the table run to"""
        votes = Counter()
        for f in self.methods(cls):
            for i in f.walk():
                n = f.nodes[i]
                if n["k"] not in ("For", "While") or n["cond"] < 0:
                    continue
                if not any(f.nodes[x]["k"] == "Member" and f.nodes[x]["d"] == fid for x in f.walk(n["body"]) if n["body"] >= 0):
                    continue
                for x in f.walk(n["cond"]):
                    m = f.nodes[x]
                    if m["k"] == "Member" and m["t"] in ("int", "unsigned int", "long", "unsigned long"):
                        votes[m["d"]] += 1
                    elif m["k"] == "Call" and m.get("m") and m.get("f") in self.p.fns:
                        g = self.getter(self.p.fns[m["f"]])
                        if g:
                            votes[g] += 1
        return votes.most_common(1)[0][0] if votes else None

    def accessor(self, g, cov):
        """index symbols (over parameters) of the part a method returns"""
        key = (g.id, cov.T.field)
        if key in self.acc:
            return self.acc[key]
        self.acc[key] = None
        r = None
        if g.blocks and not g.impl and g.raw.get("ret", "").rstrip().endswith(("*", "&")):
            vals = set()
            for i in g.walk():
                n = g.nodes[i]
                if n["k"] == "Return" and n.get("c"):
                    x = cov.strip(g, n["c"][0])
                    if g.nodes[x]["k"] == "Null" or g.nodes[x].get("v") == 0:
                        continue
                    el = cov.elem(g, x)
                    vals.add(el[0] if el and el[0] and el[0][0] != "P" else None)
            if len(vals) == 1 and None not in vals:
                r = vals.pop()
                if not r or any(s is None or s[0] == "v" for s in r):
                    r = None
        self.acc[key] = r
        return r


def lib(f):
    return f.file.startswith("src/") and not f.file.startswith("src/tests/") and ".pb." not in f.file


def requests(p, M, t, C):
    """(request, part methods, mode) a composite of class C has to pass on"""
    out = []
    if t.base == OP and p.derives(C, OP):
        prop = p.derives(C, "QDLIB::OPropagator")
        for sig, names in CONTROL.items():
            if sig.startswith(("Init", "Valid")) and prop:
                continue            # propagators set up their own use of the Hamiltonian
            out.append((sig, names, "init" if sig.startswith("Init") else "must"))
        for sig, names in EVAL.items():
            out.append((sig, names, "eval"))
    if t.base == WF and p.derives(C, WF):
        for sig, names in STORE.items():
            out.append((sig, names, "must"))
    return out


def loops_over(cov, f):
    """does a loop that runs to the number of parts index the table of this object with its variable"""
    for i in f.walk():
        n = f.nodes[i]
        if n["k"] not in ("For", "While") or n["body"] < 0:
            continue
        if not any(s and s[0] == "n" for x in f.walk(n["cond"]) for s in [cov.sym(f, x)]) and not (
                n["k"] == "For" and n["init"] >= 0 and any(s and s[0] == "n" for x in f.walk(n["init"]) if f.nodes[x].get("t") for s in [cov.sym(f, x)])):
            continue
        for x in f.walk(n["body"]):
            if f.nodes[x]["k"] not in ("Index", "Call"):
                continue
            el = cov.elem(f, x)
            if el and el[0] and el[0][0] != "P" and any(s and s[0] == "v" for s in el[0]):
                return True
    return False


def check(prog, res, tier):
    M = Model(prog)
    if len(M.tables) < 3:
        raise AnalysisBroken("part tables not found: %s" % [short(t.field) for t in M.tables])
    res.count("tables", len(M.tables))
    seen = set()
    for t in sorted(M.tables, key=lambda t: t.field):
        classes = [C for C in prog.concrete(t.cls)]
        for C in classes:
            for sig, names, mode in requests(prog, M, t, C):
                mid = prog.final_overrider(C, t.base + "::" + sig)
                f = prog.fns.get(mid)
                if mode == "eval":
                    continue
                if f is None or not f.blocks:
                    continue
                cov = Cover(M, t, C, names, mode == "init")
                if not prog.derives(f.cls, t.cls):
                    seen.add(f.id)
                    if f.cls == t.base or prog.derives(t.cls, f.cls):
                        res.bad("C12.forward", short(C), sig, f.where(), "%s of a %s does not reach its parts (%s): %s serves it" % (
                            sig.split("(")[0], short(C), short(t.field), f.short))
                    continue
                key = (f.id, t.field, sig, C if calls_own(f) else "")
                if key in seen:
                    continue
                seen.add(key)
                gaps = [(s, x) for s, x in cov.wanted(f) if not cov.full(s)]
                if gaps:
                    x = gaps[0][1]
                    res.bad("C12.forward", f.short, sig, f.where(x) if x >= 0 else f.where(),
                            "%s of a %s may return without %s on every entry of %s" % (
                                f.short, short(C), "/".join(sorted(names)), short(t.field)))
                else:
                    res.ok("C12.forward", f.where(), "%s (%s): every entry of %s" % (f.short, short(C), short(t.field)))
            # evaluation over all parts
            whole(prog, M, t, C, res, seen)
    if len(res.obl) < 20:
        raise AnalysisBroken("only %d composite operations found" % len(res.obl))


def calls_own(f):
    return any(n and n["k"] == "Call" and n.get("virt") and n.get("c") and f.nodes[n["c"][0]]["k"] == "This" for n in f.nodes)


WHOLE = ("NewInstance", "Copy", "operator=", "operator*", "Norm", "Normalize", "Expec", "MatrixElement")


def whole(prog, M, t, C, res, seen):
    """operations that use the parts use all of them"""
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if f.cls != C or not f.blocks or f.impl or not lib(f):
            continue
        sig = f.id.split("::")[-1] if "(" not in f.id else f.name
        names = None
        for k, v in EVAL.items():
            if f.id.endswith("::" + k):
                names = set(v)
        if names is None and f.name not in WHOLE:
            continue
        cov = Cover(M, t, C, None)
        if not loops_over(cov, f) and not any(n and n["k"] == "Call" and passes_on(cov, f, i) for i, n in enumerate(f.nodes)):
            continue
        key = (f.id, t.field, "whole")
        if key in seen:
            continue
        seen.add(key)
        gaps = []
        for s, x in cov.exits(f):
            mine = [y for y in s if y and isinstance(y[0], tuple)]
            if not cov.full(s) and (mine or x < 0 or cov.last(f, x)):
                gaps.append((s, x))
        if gaps:
            x = gaps[0][1]
            res.bad("C12.whole", f.short, f.name, f.where(x) if x >= 0 else f.where(),
                    "%s uses parts of %s but not certainly all of them" % (f.short, short(t.field)))
        else:
            res.ok("C12.whole", f.where(), "%s: every entry of %s" % (f.short, short(t.field)))


def passes_on(cov, f, i):
    n = f.nodes[i]
    if f.recv(i) is None or cov.own(f, f.recv(i)):
        ops = set(WHOLE).union(*EVAL.values())
        return any(loops_over(cov, g) for g in cov.target(f, i) if g.name in ops and g.blocks)
    return False


ID = "C12"
DESC = __doc__
