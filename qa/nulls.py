"""Null-pointer typestate: pointers that may be null (failed dynamic_cast, lookups documented to return NULL) until tested."""
import re
from collections import defaultdict
from .prog import short, cond_atoms


def strip(f, i):
    while i is not None and i >= 0 and f.nodes[i]["k"] == "Cast" and f.nodes[i].get("c") and f.nodes[i].get("ck") != "dynamic":
        i = f.nodes[i]["c"][0]
    return i


def is_null(f, i):
    n = f.nodes[strip(f, i)]
    return n["k"] == "Null" or (n["k"] == "Int" and str(n["v"]) == "0")


class Nulls:
    """state: frozenset of (path, site) still untested, plus ('cap', var, path, polarity)"""

    EXT = {"getenv", "dlsym", "dlopen", "fopen"}

    def __init__(self, p):
        self.p = p
        self.lit = False
        self.maynull = {}
        self.pd = {f.id: set() for f in p.fns.values()}
        self._noreturn()
        self._own = {}
        self.post = {}       # (fn id, param index) -> set of {"ret", True, False}: not null after a return (with that value)
        self._post()
        self._may_null()
        self._param_derefs()

    def _noreturn(self):
        """functions which never return to the caller (always throw or exit)"""
        p = self.p
        self.nr = set()
        for _ in range(3):
            n0 = len(self.nr)
            for f in p.fns.values():
                if not f.blocks or f.id in self.nr:
                    continue
                seen, work = {f.entry}, [f.entry]
                while work:
                    b = f.blocks[work.pop()]
                    if f.is_abrupt(b) or any(self.never(f, e) for e in b["e"]):
                        continue
                    for t in b["s"]:
                        if t >= 0 and t not in seen:
                            seen.add(t)
                            work.append(t)
                if f.exit not in seen:
                    self.nr.add(f.id)
            if len(self.nr) == n0:
                break

    def never(self, f, e):
        if f.nodes[e]["k"] != "Call":
            return False
        gs = self.p.callees(f, e)
        return bool(gs) and all(g.id in self.nr for g in gs)

    def owned(self, f, x, caps):
        """cast of a member pointer under a member flag which is only true while the pointer holds a new object of that very type"""
        n = f.nodes[x]
        m = f.nodes[strip(f, n["c"][0])]
        if m["k"] != "Member" or not f.cls:
            return False
        ptr = f.path(strip(f, n["c"][0]))
        to = re.sub(r"\bconst\b|[*&]", "", n.get("t", "")).strip()
        for c in caps:
            if c[0] == "b" and c[2] and c[1].startswith("this.") and self._flag_owns(f.cls, c[1], ptr, to):
                return True
        return False

    def _flag_owns(self, cls, flag, ptr, to):
        key = (cls, flag, ptr, to)
        if key not in self._own:
            good, seen = True, False
            for g in self.p.fns.values():
                if g.cls != cls:
                    continue
                news, others, t, fl = 0, 0, 0, 0
                for i, n in enumerate(g.nodes):
                    if not n or n["k"] != "Assign" or n.get("op") != "=":
                        continue
                    pa = g.path(n["c"][0])
                    r = strip(g, n["c"][1])
                    if pa == ptr:
                        vals = [r]
                        if g.nodes[r]["k"] == "Ref":
                            q = g.path(r)
                            vals = [strip(g, v["c"][0]) for v in g.nodes if v and v["k"] == "Var" and v["d"] == q and v.get("c")] + \
                                   [strip(g, v["c"][1]) for v in g.nodes if v and v["k"] == "Assign" and g.path(v["c"][0]) == q] or [r]
                        for v in vals:
                            if is_null(g, v):
                                continue
                            if g.nodes[v]["k"] == "New" and g.nodes[v].get("ty") == to:
                                news += 1
                            else:
                                others += 1
                    elif pa == flag:
                        if g.nodes[r]["k"] == "Bool" and not g.nodes[r]["v"]:
                            fl += 1
                        else:
                            t += 1
                if (t and (not news or others)) or (others and not fl):
                    good = False
                seen = seen or bool(t and news)
            self._own[key] = good and seen
        return self._own[key]

    def sources(self, f, x, lit=False):
        """reason why the value of node x may be null, or None"""
        n = f.nodes[x]
        if n["k"] == "Cast" and n.get("ck") == "dynamic" and n.get("t", "").rstrip().endswith("*"):
            return "dynamic_cast to %s" % short(n["t"])
        if n["k"] == "Null" and lit:
            return "NULL"
        if n["k"] == "Call":
            if n.get("fn") in self.EXT and not n.get("m"):
                return n["fn"]
            for g in self.p.callees(f, x):
                if g.id in self.maynull:
                    return "%s may return NULL" % g.short
        return None

    def _may_null(self):
        p = self.p
        work = [f for f in p.fns.values() if f.blocks and any(
            n is not None and n["k"] == "Return" and n.get("c") and n["c"][0] is not None and n["c"][0] >= 0 and (
                f.nodes[n["c"][0]].get("t", "").rstrip().endswith("*") or f.nodes[strip(f, n["c"][0])]["k"] == "Null") for n in f.nodes)]
        todo = list(work)
        ids = {f.id for f in work}
        inq = set(ids)
        while todo:
            f = todo.pop()
            inq.discard(f.id)
            if f.id in self.maynull:
                continue
            hit = []

            def ret(e, st):
                n = f.nodes[e]
                if n["k"] == "Return" and n.get("c") and n["c"][0] is not None and n["c"][0] >= 0:
                    x = strip(f, n["c"][0])
                    m = f.nodes[x]
                    if self.sources(f, x, True) and not (m["k"] == "Cast" and self.typed(f, x, st[1])):
                        hit.append(x)
                    elif m["k"] in ("Ref", "Member"):
                        q = f.path(x)
                        hit.extend(s for (w, s) in st[0] if w == q)
            self.lit = True
            self.flow(f, frozenset(), lambda *a: None, True, ret)
            self.lit = False
            if hit:
                self.maynull[f.id] = hit[0]
                for g, _ in p.callers[f.id]:
                    if g.id in ids and g.id not in inq and g.id not in self.maynull:
                        inq.add(g.id)
                        todo.append(g)

    def typed(self, f, x, caps):
        """the dynamic_cast at x can not fail: the operand is known to be of that class here"""
        n = f.nodes[x]
        to = re.sub(r"\bconst\b|[*&]", "", n.get("t", "")).strip()
        s = n["c"][0]
        while f.nodes[s]["k"] == "Cast" and f.nodes[s].get("c"):
            s = f.nodes[s]["c"][0]
        m = f.nodes[s]
        if m["k"] == "Call" and m.get("fn") == "NewInstance" and f.recv(s) is not None:
            s = strip(f, f.recv(s))        # an instance of the same class
            m = f.nodes[s]
        st = re.sub(r"\bconst\b|[*&]", "", f.ty(s)).strip()
        if self.p.derives(st, to):
            return True
        pa = f.path(s)
        return pa is not None and any(c[0] == "ty" and c[1] == pa and self.p.derives(c[2], to) for c in caps)

    # parameters a function dereferences before testing them: {fn id: set(param index)}
    def _param_derefs(self):
        p = self.p
        work = [f for f in p.fns.values() if f.blocks and any(f.locals.get(x, {}).get("t", "").rstrip().endswith("*") for x in f.params)]
        inq = {f.id for f in work}
        while work:
            f = work.pop()
            inq.discard(f.id)
            init = frozenset((x, -1 - i) for i, x in enumerate(f.params) if f.locals.get(x, {}).get("t", "").rstrip().endswith("*"))
            hits = set()
            self.flow(f, init, lambda e, path, site, how: hits.add(-1 - site) if site < 0 else None, False)
            if not hits <= self.pd[f.id]:
                self.pd[f.id] |= hits
                for g, _ in p.callers[f.id]:
                    if g.id not in inq and g.blocks:
                        inq.add(g.id)
                        work.append(g)

    def _post(self):
        """tests done by helpers: parameters that are known not to be null once the function has returned (true / false)"""
        p = self.p
        for _ in range(2):
            for f in p.fns.values():
                ps = [(i, x) for i, x in enumerate(f.params) if f.locals.get(x, {}).get("t", "").rstrip().endswith("*")]
                if not ps or not f.blocks:
                    continue
                at = {"ret": None, True: None, False: None}
                init = frozenset((x, -1 - i) for i, x in ps)

                def meet(k, st):
                    left = {t[0] for t in st}
                    nn = {i for i, x in ps if x not in left}
                    at[k] = nn if at[k] is None else at[k] & nn

                def visit(e, sc):
                    n = f.nodes[e]
                    if n["k"] != "Return":
                        return
                    v = n["c"][0] if n.get("c") and n["c"][0] is not None and n["c"][0] >= 0 else None
                    m = f.nodes[strip(f, v)] if v is not None else None
                    if m is not None and m.get("t") == "bool":
                        for val in (True, False):
                            if m["k"] == "Bool":
                                if bool(m["v"]) == val:
                                    meet(val, sc[0])
                            else:
                                meet(val, self.assume(f, v, val, sc[0], sc[1])[0])
                ends = []

                def end(st):
                    ends.append(st)
                self.flow(f, init, lambda *a: None, False, visit, end)
                for st in ends:
                    meet("ret", st)
                for k, v in at.items():
                    for i in v or ():
                        self.post.setdefault((f.id, i), set()).add(k)

    def proven(self, f, c, kind):
        """argument nodes of call c that are known not to be null after it (returned `kind`)"""
        n = f.nodes[c]
        if n["k"] != "Call" or not n.get("f"):
            return []
        gs = self.p.callees(f, c)
        a = n["c"][1:] if n.get("op") and n.get("m") else f.args(c)
        return [x for i, x in enumerate(a) if gs and all(kind in self.post.get((g.id, i), ()) for g in gs)]

    def sink(self, f, e, state):
        """paths dereferenced by node e"""
        n = f.nodes[e]
        k = n["k"]
        out = []
        if k == "Member" and n.get("arrow") and n.get("c"):
            out.append((n["c"][0], "->" + n["n"]))
        elif k == "Un" and n["op"] == "*" and n.get("c"):
            out.append((n["c"][0], "*"))
        elif k == "Index" and n.get("c"):
            out.append((n["c"][0], "[]"))
        elif k == "Call":
            if n.get("m") and n.get("arrow") and n.get("c"):
                out.append((n["c"][0], "->%s()" % n.get("fn")))
            if n.get("f"):
                gs = self.p.callees(f, e)
                a = f.args(e)
                if n.get("op") and n.get("m"):
                    a = n["c"][1:]
                for i, x in enumerate(a):
                    hit = [g for g in gs if i in self.pd.get(g.id, ())]
                    if hit:
                        out.append((x, "argument %d of %s" % (i + 1, hit[0].short)))
        elif k == "Construct" and n.get("f") in self.p.fns:
            for i, x in enumerate(n.get("c", ())):
                if i in self.pd.get(n["f"], ()):
                    out.append((x, "argument %d of %s" % (i + 1, short(n["f"]))))
        res = []
        for x, how in out:
            x = strip(f, x)
            m = f.nodes[x]
            if m["k"] == "Cast" and m.get("ck") == "dynamic":
                res.append(("#%d" % x, how))
            elif m["k"] in ("Ref", "Member"):
                pa = f.path(x)
                if pa:
                    res.append((pa, how))
            elif m["k"] == "Call":
                res.append(("#%d" % x, how))
        return res

    def flow(self, f, init, report, use_sources=True, visit=None, end=None):
        p = self.p
        inb = {f.entry: (init, frozenset())}
        work = [f.entry]
        n_it = 0
        while work:
            n_it += 1
            if n_it > 5000:
                break
            bi = work.pop(0)
            b = f.blocks[bi]
            st, caps = inb[bi]
            for e in b["e"]:
                if visit:
                    visit(e, (st, caps))
                st, caps = self.step(f, e, st, caps, report, use_sources)
            if f.is_abrupt(b) or any(self.never(f, e) for e in b["e"]):
                continue
            for k, s in enumerate(b["s"]):
                if s < 0:
                    continue
                r = self.edge(f, b, k, st, caps)
                if r is None:
                    continue
                if end and s == f.exit:
                    end(r[0])
                if s not in inb:
                    inb[s] = r
                    work.append(s)
                else:
                    j = self.join(inb[s], r)
                    if j != inb[s]:
                        inb[s] = j
                        if s not in work:
                            work.append(s)

    @staticmethod
    def join(a, b):
        caps = a[1] & b[1]
        for x, y in ((a, b), (b, a)):
            for c in x[1]:
                if c[0] == "imp" and c not in caps and not any(t[0] == c[1] for t in y[0]):
                    caps = caps | {c}      # holds trivially on the other side: the pointer is not null there
        return (a[0] | b[0], caps)

    @staticmethod
    def forget(caps, word):
        pat = re.compile(r"\b%s\b" % re.escape(word))
        return frozenset(c for c in caps if not (c[0] == "nn" and pat.search(c[1]) or c[0] == "b" and pat.search(c[1])
                                                 or c[0] == "imp" and (pat.search(c[2]))))

    def step(self, f, e, st, caps, report, use_sources):
        n = f.nodes[e]
        k = n["k"]
        for pa, how in self.sink(f, e, st):
            if pa.startswith("#"):
                x = int(pa[1:])
                if ("nn", "$" + f.txt(x)) in caps:
                    continue
                if use_sources and self.sources(f, x) and not (f.nodes[x]["k"] == "Cast" and (self.typed(f, x, caps) or self.owned(f, x, caps))):
                    report(e, f.txt(x), x, how)
                continue
            for q, site in st:
                if q == pa:
                    report(e, pa, site, how)
            st = frozenset(t for t in st if t[0] != pa)         # reported once / has survived
        if k == "Call":
            for x in self.proven(f, e, "ret"):
                pa = f.path(strip(f, x))
                st = frozenset(t for t in st if t[0] != pa)
        if k == "Un" and n["op"] in ("++", "--") and n.get("c"):
            w = f.txt(n["c"][0])
            caps = self.forget(caps, w)
        if k == "Un" and n["op"] == "&" and n.get("c"):      # may be assigned through its address
            pa = f.path(n["c"][0])
            st = frozenset(t for t in st if t[0] != pa)
        if k in ("Var", "Assign"):
            if k == "Var":
                dst, src = n["d"], (n["c"][0] if n.get("c") else -1)
            else:
                if n.get("op") != "=":
                    return st, caps
                dst, src = f.path(n["c"][0]), n["c"][1]
            if dst is None:
                return st, caps
            st = frozenset(t for t in st if t[0] != dst and not t[0].startswith(dst + "."))
            caps = frozenset(c for c in caps if c[0] != dst and c[1] != dst and not (c[0] == "of" and c[2] == dst))
            caps = self.forget(caps, dst.split(".")[-1])
            if src is None or src < 0:
                return st, caps
            x = strip(f, src)
            m = f.nodes[x]
            w = dst.split(".")[-1]
            caps = self.forget(caps, w)
            if use_sources and self.sources(f, x, self.lit):
                if not (m["k"] == "Cast" and self.typed(f, x, caps)) and ("nn", "$" + f.txt(x)) not in caps:
                    st = st | {(dst, x)}
                    if m["k"] == "Cast":
                        y = strip(f, m["c"][0])
                        q = f.path(y) if f.nodes[y]["k"] in ("Ref", "Member") else None
                        if q:
                            caps = caps | {("of", dst, q, re.sub(r"\bconst\b|[*&]", "", m["t"]).strip())}
            elif m["k"] in ("Ref", "Member"):
                q = f.path(x)
                st = st | {(dst, s) for (w, s) in st if w == q}
            # captured comparison
            for v in (True, False):
                for a, bv in cond_atoms(f, src, v):
                    for x in self.proven(f, strip(f, a), bv):
                        if f.path(strip(f, x)):
                            caps = caps | {(dst, f.path(strip(f, x)), v)}
                    q = self.test(f, a)
                    if q and (q[1] == bv):
                        caps = caps | {(dst, q[0], v)}
        return st, caps

    def test(self, f, a):
        """(path, value of the atom that means non-null)"""
        a = strip(f, a)
        n = f.nodes[a]
        if n["k"] in ("Ref", "Member"):
            pa = f.path(a)
            return (pa, True) if pa else None
        if n["k"] == "Assign" and n.get("op") == "=":
            pa = f.path(n["c"][0])
            return (pa, True) if pa else None
        if n["k"] == "Call" and n.get("m") or n["k"] == "Cast" and n.get("ck") == "dynamic":
            return ("$" + f.txt(a), True)
        if n["k"] == "Bin" and n["op"] in ("==", "!="):
            for x, y in ((n["c"][0], n["c"][1]), (n["c"][1], n["c"][0])):
                if is_null(f, y):
                    t = self.test(f, x)
                    return (t[0], n["op"] == "!=") if t else None
        if n["k"] == "Un" and n["op"] == "!":
            t = self.test(f, n["c"][0])
            return (t[0], not t[1]) if t else None
        return None

    def edge(self, f, b, k, st, caps):
        tc = b.get("tc", -1)
        if tc is None or tc < 0 or len(b["s"]) != 2 or f.nodes[b["t"]]["k"] == "Switch":
            return st, caps
        val = (k == 0)
        i = tc
        while f.nodes[i]["k"] == "Bin" and f.nodes[i]["op"] in ("&&", "||"):
            i = f.nodes[i]["c"][1]
        return self.assume(f, i, val, st, caps)

    def assume(self, f, i, val, st, caps):
        for a, v in cond_atoms(f, i, val):
            for x in self.proven(f, strip(f, a), v):
                pa = f.path(strip(f, x))
                st = frozenset(t for t in st if t[0] != pa)
            t = self.test(f, a)
            key = None
            if t is not None:
                key, kv = t[0], v == t[1]
            elif f.nodes[strip(f, a)]["k"] == "Call" and f.nodes[strip(f, a)].get("m"):
                key, kv = "$" + f.txt(strip(f, a)), v
            if key is not None:
                for c in caps:
                    if c[0] == "imp" and c[2] == key and c[3] != kv:
                        st = frozenset(x for x in st if x[0] != c[1])
                caps = caps | {("imp", x[0], key, kv) for x in st if x[0] != key} | {("b", key, kv)}
            if t is None:
                continue
            if t[1] == v:
                if t[0].startswith("$"):
                    caps = caps | {("nn", t[0])}
                st = frozenset(x for x in st if x[0] != t[0])
                for c in caps:
                    if c[0] == "of" and c[1] == t[0]:
                        caps = caps | {("ty", c[2], c[3])}
            for c in caps:
                if len(c) == 3 and c[0] == t[0] and c[2] == (v == t[1]):
                    st = frozenset(x for x in st if x[0] != c[1])
        return st, caps
