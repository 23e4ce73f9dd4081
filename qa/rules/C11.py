"""C11: fixed tables are never accessed outside their bounds."""
import re
from ..bounds import Bounds, INF, is_int, base_type
from ..prog import short
from .. import bounds
from ..extract import AnalysisBroken

ID = "C11"
DESC = ("Difference-bound (zone) abstract interpretation of every function over its CFG, with function summaries (argument/result/member "
        "relations, conditional ones for predicates), member invariants that every writer establishes, and entry requirements handed to every "
        "call site: each index into an array of constant size must be proved to lie within it.")


def lib(f):
    return f.file.startswith("src/") and not f.file.endswith((".pb.cc", ".yy", ".ll", ".hh", ".cc")) and "/slatec" not in f.file


def dims(t):
    m = re.search(r"\[(\d+)\]", t or "")
    return int(m.group(1)) if m else None


class Tables:
    def __init__(self, prog):
        self.p = prog
        self.B = Bounds(prog)
        self.memo = {}
        self.trail = []
        self.depth = 0
        self.opened = set()
        self.redo = set()
        self.all = False
        self._touch()

    def sites(self, f):
        out = []
        for i in f.walk():
            n = f.nodes[i]
            if n["k"] == "Index":
                K = dims(f.ty(n["c"][0]))
                if K is not None:
                    out.append((i, n["c"][1], K))
        return out

    def _touch(self):
        """members each function reads or writes, directly or through its callees"""
        p, B = self.p, self.B
        t = {}
        for f in p.fns.values():
            m = set(B.direct[f.id])
            for i, n in enumerate(f.nodes):
                if n is None:
                    continue
                if n["k"] == "Member":
                    m.add(n["d"])
                elif n["k"] == "Call" and n.get("m") and n.get("c"):
                    T = bounds.obj_type(f.ty(n["c"][0]))
                    if T in B.messages:
                        m.add(T + "::" + n.get("fn", ""))
            t[f.id] = m
        rev = {}
        for g, cs in B.callees_of.items():
            for c in cs:
                rev.setdefault(c, set()).add(g)
        work = set(t)
        while work:
            x = work.pop()
            for q in rev.get(x, ()):
                if not t[x] <= t[q]:
                    t[q] |= t[x]
                    work.add(q)
        self.touch = t

    # -------------------------------------------------- member invariants
    def invariants(self):
        """bounds every writer of a member establishes, ascending from zero through THRESH"""
        B = self.B
        fields = [x for x, t in B.field_type.items() if is_int(t) and base_type(t) != "bool"]
        fields += [T + "::" + m for T in B.messages for m in B.msg_fields.get(T, ())]
        self.fields = set(fields)
        for x in fields:
            B.inv[x] = (0, 0)
        self.writers = {}
        for x in fields:
            for y in (x, x.rsplit("::", 1)[0] + "::*"):
                for g in B.writes.get(y, ()):
                    f = self.p.fns[g]
                    if not f.impl and f.blocks:
                        self.writers.setdefault(g, set()).add(x)
        self.rounds = 0
        ts = {0, 1}
        for f in self.p.fns.values():
            if lib(f) and f.blocks and not f.impl:
                for i, x, K in self.sites(f):
                    ts |= {K - 1, K}
        self.thresh = sorted(ts)
        self.ascend(set(self.writers))
        for _ in range(2):
            changed = self.tighten()
            if not changed:
                break
            B.inv.update(changed)
            self.ascend(B.invalidate(set(changed)) & set(self.writers))
        return self

    def ascend(self, todo):
        B = self.B
        rounds = 0
        while todo:
            rounds += 1
            self.rounds += 1
            changed = {}
            self.redo = set()
            for g in sorted(todo):
                for fid, a, s, v, node in self.points(self.p.fns[g]):
                    lo, hi = a.lo(s, v), a.hi(s, v)
                    cl, ch = changed.get(fid, B.inv[fid])
                    nl = cl if lo >= cl else self.down(lo)
                    nh = ch if hi <= ch else self.up(hi)
                    if (nl, nh) != (cl, ch):
                        changed[fid] = (nl, nh)
            if rounds > 30:
                changed = {x: (-INF, INF) for x in changed}
            B.inv.update(changed)
            todo = (B.invalidate(set(changed)) | self.redo) & set(self.writers)

    def tighten(self):
        """members set by every constructor of their class: exactly what the writers establish, without the initial zero"""
        B, p = self.B, self.p
        rel = set()
        for f in p.fns.values():
            if lib(f) and f.blocks and not f.impl and self.sites(f):
                rel |= {n["d"] for n in f.nodes if n and n["k"] == "Member" and n["d"] in self.fields}
        ctors = {}
        for f in p.fns.values():
            if f.raw.get("ctor") and not f.impl and f.blocks:
                ctors.setdefault(f.cls, []).append(f)
        rel = {x for x in rel if x.rsplit("::", 1)[0] in ctors and
               all(x in self.writers.get(g.id, ()) for g in ctors[x.rsplit("::", 1)[0]])}
        got = {}
        self.all = True
        for g in sorted(self.writers):
            if self.writers[g] & rel:
                for fid, a, s, v, node in self.points(p.fns[g]):
                    if fid in rel:
                        lo, hi = got.get(fid, (INF, -INF))
                        got[fid] = (min(lo, a.lo(s, v)), max(hi, a.hi(s, v)))
        self.all = False
        out = {}
        for x, (lo, hi) in got.items():
            l, h = B.inv_of(x)
            if lo <= hi and (lo > l or hi < h):
                out[x] = (max(l, lo), min(h, hi))
        return out

    def points(self, f):
        """(member, analysis, state, value, node) wherever a member the function writes has to be within its bounds: at normal
        returns, and at calls of methods of the same object that use it"""
        B = self.B
        a = B.fa_of(f)
        s = a.exits()
        mine = self.writers.get(f.id, set())
        if s is not None:
            for t, (path, ids, ty) in sorted(a.meta.items()):
                if not ids or path.endswith("@") or t >= s.z.M.shape[0]:
                    continue
                fid = a.last_field(t)
                if fid in mine:
                    yield fid, a, s, (t, 0), -1
        out = []
        loose = [i for i in f.walk() if f.nodes[i]["k"] in ("Assign", "Un") and f.nodes[i].get("c") and
                 f.nodes[f.nodes[i]["c"][0]]["k"] == "Member" and f.nodes[f.nodes[i]["c"][0]]["d"] in mine and
                 a.term(f.nodes[i]["c"][0]) is None]
        loose = {i for i in loose if f.nodes[i]["k"] == "Assign" or f.nodes[i]["op"] in ("++", "--")}
        calls = {}
        for i, n in f.calls():
            if not n.get("m"):
                continue
            gs = self.p.callees(f, i)
            if not gs:
                continue
            rp = a.path(f.recv(i))
            if rp is None:
                continue
            use = set()
            for g in gs:
                use |= self.touch[g.id] & mine
            if use:
                calls[i] = (rp[0], use)
        if not loose and not calls:
            return

        def hook(e, s):
            if s is None:
                return
            if e in loose:
                n = f.nodes[e]
                fid = f.nodes[n["c"][0]]["d"]
                if n["k"] == "Assign" and n["op"] == "=":
                    s2 = s.copy()
                    v = a.ev(s2, n["c"][1])
                    if v is not None:
                        v = a.conv(s2, v, f.ty(n["c"][1]), f.ty(n["c"][0]), n["c"][1])
                else:
                    s2 = s.copy()
                    v = a.temp(s2, e, base_type(f.ty(n["c"][0])))
                out.append((fid, a, s2, v if v is not None else a.temp(s2, e), e))
            if e in calls:
                rp, use = calls[e]
                for t, (path, ids, ty) in list(a.meta.items()):
                    if path.startswith(rp + ".") and not path.endswith("@") and t < s.z.M.shape[0]:
                        fid = a.last_field(t)
                        if fid in use:
                            lo, hi = B.inv_of(fid)
                            if self.all or a.lo(s, (t, 0)) < lo or a.hi(s, (t, 0)) > hi:
                                gs = self.p.callees(f, e)
                                if all(self.validator(g, fid) for g in gs):
                                    for g in gs:
                                        if fid in self.touch[g.id] and (g.id, fid) not in B.open:
                                            B.open.add((g.id, fid))
                                            self.opened.add(g.id)
                                else:
                                    out.append((fid, a, s, (t, 0), e))
        a.visit(hook)
        yield from out
        if self.opened:
            for g in self.opened:
                self.redo |= self.drop(g)
            self.opened = set()

    def validator(self, g, fid):
        """g only looks at the member: it writes nothing, accesses no table and hands it to no other method of the object"""
        B = self.B
        if fid not in self.touch[g.id]:
            return True
        own = {g.cls, fid.rsplit("::", 1)[0]}
        if any(x.rsplit("::", 1)[0] in own for x in B.mods[g.id]) or g.impl or not g.blocks or self.sites(g):
            return False
        for i, n in g.calls():
            for h in self.p.callees(g, i):
                if fid in self.touch[h.id]:
                    return False
        return True

    def up(self, v):
        for t in self.thresh:
            if v <= t:
                return t
        return INF

    def down(self, v):
        for t in (0, -1, -2):
            if v >= t:
                return t
        return -INF

    def values(self, f, i, x):
        """(state, value, analysis) of the index expression x at access i"""
        a = self.B.fa_of(f)
        key = id(a)
        c = getattr(a, "_idx", None)
        if c is None:
            want = {j: y for j, y, K in self.sites(f)}
            c = a._idx = {}

            def hook(e, s):
                if e in want and s is not None:
                    s = s.copy()
                    v = a.ev(s, want[e])
                    if v is None:
                        v = a.temp(s, e)
                    c.setdefault(e, []).append((s, v))
            a.visit(hook)
        return [(s, v, a) for s, v in c.get(i, ())]

    # -------------------------------------------------- requirements
    def need(self, a, s, v, side, bound, node, what):
        """[] when value v is on the right side of bound here; else the places where it is not assured"""
        f = a.f
        val = a.hi(s, v) if side == "hi" else a.lo(s, v)
        if (val <= bound) if side == "hi" else (val >= bound):
            return []
        alts = []
        for t, (path, ids, ty) in sorted(a.meta.items()):
            if t >= s.z.M.shape[0] or path.startswith("$"):
                continue
            d = s.z.ub(v[0], t) + v[1] if side == "hi" else -(s.z.ub(t, v[0]) - v[1])
            # hi: value <= t + d ; lo: value >= t + d
            if abs(d) == INF:
                continue
            if path.endswith("@") and not ids:
                if side == "hi" and bound - d < 0 or side == "lo" and bound - d > 1:
                    continue
                alts.append((0, abs(d), ("p", f.id, f.params.index(path[:-1]), side, bound - d)))
            elif ids:
                fid = a.last_field(t)
                if side == "hi" and bound - d < 0 or side == "lo" and bound - d > 1:
                    continue
                if fid in self.fields and (t != v[0] or not what.startswith("member")):
                    alts.append((1, abs(d), ("f", fid, side, bound - d)))
        first = None
        seen = set()
        for _, _, key in sorted(alts, key=lambda x: (x[0], x[1], str(x[2]))):
            if key in seen:
                continue
            seen.add(key)
            r = self.demand(key)
            if not r:
                return []
            if first is None:
                first = r
        if first is not None:
            return first
        return [(f, node, what, side, bound)]

    def demand(self, key):
        if key in self.memo:
            return self.memo[key]
        B = self.B
        if self.depth > 12:
            return [(None, -1, "requirement chain too long", "", 0)]
        mark = len(self.trail)
        self.depth += 1
        if key[0] == "f":
            _, fid, side, bound = key
            old = B.inv_of(fid)
            if (old[1] <= bound) if side == "hi" else (old[0] >= bound):
                self.depth -= 1
                return []
            new = (old[0], bound) if side == "hi" else (bound, old[1])
            B.inv[fid] = new
            self.trail.append((key, "inv", fid, old))
            self.memo[key] = []
            B.invalidate({fid})
            r = []
            for g in sorted(x for x, m in self.writers.items() if fid in m):
                f = self.p.fns[g]
                for fd, a, s, v, node in list(self.points(f)):
                    if fd == fid:
                        r += self.need(a, s, v, side, bound, node, "member '%s'" % short(fid).split("::")[-1])
                        if r:
                            break
        else:
            _, g, k, side, bound = key
            old = B.pre.get((g, k), (-INF, INF))
            if (old[1] <= bound) if side == "hi" else (old[0] >= bound):
                self.depth -= 1
                return []
            B.pre[(g, k)] = (old[0], min(old[1], bound)) if side == "hi" else (max(old[0], bound), old[1])
            self.trail.append((key, "pre", (g, k), old))
            self.memo[key] = []
            self.drop(g)
            r = []
            gf = self.p.fns[g]
            name = gf.params[k].split(".")[-1]
            for f, x in self.p.callers.get(g, ()):
                n = f.nodes[x]
                args = f.args(x) if n["k"] == "Call" else list(n.get("c", ()))
                if k >= len(args) or not f.blocks:
                    continue
                a = B.fa_of(f)
                got = []

                def hook(e, s):
                    if e == x and s is not None:
                        got.append(s.copy())
                if any(x in a.postorder(io["e"]) for io in f.raw["inits"] if io["e"] >= 0):
                    s0 = a.initial()
                    got.append(s0)
                a.visit(hook)
                pt = gf.locals.get(gf.params[k], {}).get("t", "int")
                for s in got:
                    v = a.ev(s, args[k])
                    if v is not None:
                        v = a.conv(s, v, f.ty(args[k]), pt, args[k])
                    if v is None:
                        v = a.temp(s, x)
                    r += self.need(a, s, v, side, bound, x, "argument '%s' of %s" % (name, gf.short))
                    if r:
                        break
        self.depth -= 1
        if r:
            self.rollback(mark)
            self.memo[key] = r
        return r

    def confirm(self, bad):
        """with all requirements assumed every access, writer and call is within them: what is left over"""
        B = self.B
        known = {(g.id, i) for v in bad.values() for g, i in v[3]}
        out = []
        for f in sorted(self.p.fns.values(), key=lambda f: f.id):
            if not f.blocks or f.impl:
                continue
            if lib(f):
                for i, x, K in self.sites(f):
                    if (f.id, i) in known:
                        continue
                    for s, v, a in self.values(f, i, x):
                        if a.lo(s, v) < 0 or a.hi(s, v) >= K:
                            out.append((f, i, "index '%s' is not known to be within %d here" % (f.txt(x), K)))
                            break
            for fid, a, s, v, node in self.points(f) if f.id in self.writers else ():
                lo, hi = B.inv_of(fid)
                if a.lo(s, v) < lo or a.hi(s, v) > hi:
                    out.append((f, node, "member '%s' leaves its bounds %s..%s here" % (short(fid), lo, hi)))
        return out

    def rollback(self, mark):
        B = self.B
        while len(self.trail) > mark:
            k2, kind, ident, old = self.trail.pop()
            self.memo.pop(k2, None)
            if kind == "inv":
                B.inv[ident] = old
                B.invalidate({ident})
            else:
                B.pre[ident] = old
                self.drop(ident[0])

    def joint(self, f, i, x, K):
        """the index is within [0, K) when every integer parameter the function computes it from is"""
        used = {n["d"] for n in f.nodes if n and n["k"] == "Ref"}
        ps = [k for k, pn in enumerate(f.params) if pn in used and is_int(f.locals.get(pn, {}).get("t", "")) and
              base_type(f.locals[pn]["t"]) != "bool"]
        if len(ps) < 2:
            return False
        mark = len(self.trail)
        for k in ps:
            for side, bound in (("lo", 0), ("hi", K - 1)):
                if self.demand(("p", f.id, k, side, bound)):
                    self.rollback(mark)
                    return False
        if all(a.lo(s, v) >= 0 and a.hi(s, v) < K for s, v, a in self.values(f, i, x)):
            return True
        self.rollback(mark)
        return False

    def drop(self, g):
        """forget the analysis of g and of everything that used its summary"""
        B = self.B
        dirty, work = {g}, [g]
        while work:
            y = work.pop()
            for h, a in B.fa.items():
                if y in a.sdeps and h not in dirty:
                    dirty.add(h)
                    work.append(h)
        B.forget(dirty)
        return dirty


def check(prog, res, tier):
    T = Tables(prog).invariants()
    n = const = 0
    bad = {}
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if not lib(f) or not f.blocks or f.impl:
            continue
        want = {i: (x, K) for i, x, K in T.sites(f)}
        if not want:
            continue
        failed = set()
        for side in ("lo", "hi"):
            for i in sorted(want):
                x, K = want[i]
                for s, v, a in T.values(f, i, x):
                    r = T.need(a, s, v, side, 0 if side == "lo" else K - 1, i, "index '%s'" % f.txt(x))
                    if r and not T.joint(f, i, x, K):
                        failed.add(i)
                        g, node, what, sd, bd = r[0]
                        bad.setdefault((g.short if g else "?", what, sd), (g, node, bd, []))[3].append((f, i))
                        break
        n += len(want)
        for i, (x, K) in want.items():
            if i not in failed:
                if isinstance(f.nodes[x].get("cv", f.nodes[x].get("v")), int):
                    const += 1
                else:
                    res.ok("C11.index", f.where(i), "%s: %s within %d" % (f.short, f.txt(i), K))
    for f, i, why in T.confirm(bad):
        res.bad("C11.index", f.short, f.txt(i) if i >= 0 else why, f.where(i) if i >= 0 else f.where(), "%s: %s" % (f.short, why))
    tables = sorted(r["id"] for r in prog.recs.values() if any(dims(x["t"]) is not None for x in r["fields"]))
    for c in tables:
        diff = [x for x in prog.facts["layout"] if x[0] == c]
        r = prog.recs[c]
        if diff:
            res.bad("C11.layout", short(c), "size", "%s:%d" % (r["file"], r["l"]), "the tables of %s do not have one size: %s and %s disagree about %s" % (
                short(c), diff[0][1], diff[0][2], ", ".join(sorted("%s %s" % (t, n.split("::")[-1]) for n, t in diff[0][3]))))
        else:
            res.ok("C11.layout", "%s:%d" % (r["file"], r["l"]), "%s: same tables in %d translation units" % (short(c), r.get("ntu", 1)))
    res.ok("C11.constant", "src", "%d accesses with a constant index" % const)
    if n < 300 or T.rounds < 2:
        raise AnalysisBroken("only %d table accesses found" % n)
    for (gs, what, sd), (g, node, bd, sites) in sorted(bad.items(), key=str):
        f, i = sites[0]
        res.bad("C11.index", gs, what + " " + sd, g.where(node) if g else f.where(i),
                "%s is not known to be %s %d here; %d table access(es) rely on it, e.g. %s in %s (%s)" % (
                    what, "at most" if sd == "hi" else "at least", bd, len(sites), f.txt(i), f.short, f.where(i)))
