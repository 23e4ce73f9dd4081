"""Does a function give an object back unchanged?  Flow-sensitive on the k-space idiom.

States of the tracked object (a root 'this' or 'p<k>' of the function):
  X  data and representation as at entry
  K  switched to k-space; the x-space data is intact in the other buffer (Transform::Forward / IsKspace(true));
     IsKspace(false) swaps it back
  D  data may have been changed
"""
from .effects import Effects, split_params, is_ptr, const_target, EXT_PURE
from .prog import forward

WF = "QDLIB::WaveFunction"


def ids_named(p, cls, name, nparam=None, ptype=None):
    out = set()
    for m in p.recs.get(cls, {"methods": []})["methods"]:
        if m["n"] == name:
            ps = split_params(m["id"])
            if nparam is not None and len(ps) != nparam:
                continue
            if ptype is not None and not all(ptype in t for t in ps):
                continue
            out |= p.impls(m["id"])
    return out


def contract_table(p):
    """slot -> roots that must come back unchanged; every implementation is verified separately"""
    con = {}

    def add(cls, name, n, ptype, roots):
        for i in ids_named(p, cls, name, n, ptype):
            con.setdefault(i, set()).update(roots)
    O = "QDLIB::Operator"
    add(O, "Apply", 2, "WaveFunction *", {"p1"})
    add(O, "ApplyAdd", 2, "WaveFunction *", {"p1"})
    add(O, "ApplyParent", 2, "WaveFunction *", {"p1"})
    add(O, "MatrixElement", 2, "WaveFunction *", {"p0", "p1"})
    add(O, "Expec", 1, "WaveFunction *", {"p0"})
    add(O, "Valid", 1, "WaveFunction *", {"p0"})
    add(WF, "operator=", 1, "WaveFunction *", {"p0"})
    add(WF, "operator=", 1, "WaveFunction &", {"p0"})
    add(WF, "operator*", 1, "WaveFunction *", {"p0", "this"})
    add(WF, "Norm", 0, None, {"this"})
    add(WF, "NewInstance", 0, None, {"this"})
    add(WF, "operator+", 1, "WaveFunction *", {"p0", "this"})
    add(WF, "operator+=", 1, "WaveFunction *", {"p0"})
    add(WF, "operator-=", 1, "WaveFunction *", {"p0"})
    add(WF, "DirectProduct", 1, "WaveFunction *", {"p0"})
    add(WF, "DirectProductConjugate", 1, "WaveFunction *", {"p0"})
    add(WF, "Reduce", 1, None, {"this"})
    add(WF, "Restore", 1, "WaveFunction *", {"p0"})
    return con


class Preserve:
    def __init__(self, p, con=None):
        self.p = p
        self.con = con if con is not None else contract_table(p)
        self.eff = Effects(p, self.con)
        self.fwd, self.bwd = set(), set()
        for c in {"QDLIB::Transform"} | p.all_subs("QDLIB::Transform"):
            self.fwd |= ids_named(p, c, "Forward")
            self.bwd |= ids_named(p, c, "Backward")
        # the transform object of a grid wave function: forward() fills the other buffer
        self.fwd_this = set()
        for c in p.recs:
            if c in ("QDLIB::FFT", "QDLIB::FFTGlobal"):
                self.fwd_this |= ids_named(p, c, "forward")
        self.isk = {i for i in ids_named(p, WF, "IsKspace", 1)}
        self.memo = {}
        self.envs = {}
        self.why = {}

    def env(self, f):
        if f.id not in self.envs:
            self.envs[f.id] = (self.eff.env(f), {v: k for k, v in enumerate(f.params)})
        return self.envs[f.id]

    def roots(self, f, i):
        e, px = self.env(f)
        return self.eff.roots(f, e, px, i)

    def exits(self, f, root, start, use_contract=False):
        """states of `root` at normal exits of f when it enters in state `start`"""
        key = (f.id, root, start)
        if key in self.memo:
            return self.memo[key]
        if root not in self.eff.sum[f.id].writes and not self._touches(f, root):
            self.memo[key] = {start}
            return {start}
        self.memo[key] = {start}      # recursion: optimistic
        why = {}

        def tr(fn, e, s):
            return self.step(fn, e, s, root, why)
        inb, outb = forward(f, frozenset([start]), tr, lambda a, b: a | b)
        res = set()
        for (bi, k) in f.preds[f.exit]:
            if bi in outb and not f.is_abrupt(f.blocks[bi]):
                res |= outb[bi]
        if f.exit in inb and not f.preds[f.exit]:
            res |= inb[f.exit]
        self.memo[key] = res
        self.why[key] = why
        return res

    def _touches(self, f, root):
        return False

    def leaf(self, s):
        return frozenset("K" if x == "K" else "D" for x in s)

    def step(self, f, e, s, root, why):
        n = f.nodes[e]
        k = n["k"]
        if k in ("Assign",) or (k == "Un" and n["op"] in ("++", "--")):
            l = n["c"][0]
            ln = f.nodes[l]
            if ln["k"] == "Ref":
                if not (ln["d"].startswith("%") and f.locals[ln["d"]]["t"].endswith("&")):
                    return s
            if root in self.roots(f, l):
                why.setdefault("D", e)
                return self.leaf(s)
            return s
        if k == "Delete":
            if root in self.roots(f, n["c"][0]):
                why.setdefault("D", e)
                return frozenset("D")
            return s
        if k not in ("Call", "Construct"):
            return s
        return self.call(f, e, s, root, why)

    def call(self, f, e, s, root, why):
        p = self.p
        n = f.nodes[e]
        if n["k"] == "Construct":
            pos = [("p%d" % k, a) for k, a in enumerate(n["c"])]
            gs = [p.fns[n["f"]]] if n["f"] in p.fns else []
            if not gs:
                return s
        else:
            pos = []
            if n.get("m"):
                pos.append(("this", n["c"][0]))
            pos += [("p%d" % k, a) for k, a in enumerate(f.args(e))]
            gs = p.callees(f, e)
        hit = [(q, a) for q, a in pos if a >= 0 and root in self.roots(f, a)]
        if not hit:
            return s
        fid = n.get("f")
        out = s
        for q, a in hit:
            if fid in self.fwd and q == "p0":
                why.setdefault("K", e)
                out = frozenset({"X": "K", "K": "D", "D": "D"}[x] for x in out)
                continue
            if fid in self.fwd_this and q == "this":
                why.setdefault("K", e)
                out = frozenset({"X": "K", "K": "D", "D": "D"}[x] for x in out)
                continue
            if fid in self.bwd and q == "p0":
                why.setdefault("D", e)
                out = frozenset("D")
                continue
            if fid in self.isk and q == "this":
                v = f.nodes[f.args(e)[0]]
                b = v.get("v") if v["k"] == "Bool" else v.get("cv")
                if b in (True, 1):
                    why.setdefault("K", e)
                    out = frozenset({"X": "K"}.get(x, x) for x in out)
                elif b in (False, 0):
                    out = frozenset({"K": "X"}.get(x, x) for x in out)
                else:
                    out = out | frozenset({"K": "X", "X": "K"}.get(x, x) for x in out)
                continue
            if q in self.con.get(fid, ()):
                continue
            if gs:
                new = frozenset()
                for g in gs:
                    for st in out:
                        r = self.exits(g, q, st)
                        new |= r
                for w in new - out:
                    why.setdefault(w, e)
                out = new or out
            else:
                if self.ext_writes(f, e, q):
                    why.setdefault("D", e)
                    out = self.leaf(out)
        return out

    def ext_writes(self, f, e, q):
        n = f.nodes[e]
        fid = n.get("f")
        if fid is None:
            return True
        if q == "this":
            return not fid.split("@")[0].endswith(" const") and (n.get("cls", "").startswith("std::") or n.get("cls") not in self.p.recs) \
                and n.get("fn") not in ("begin", "end", "c_str", "str", "find", "size")
        if EXT_PURE.match(n.get("q", "")) or n.get("q", "") in ("operator<<", "std::operator<<"):
            return False
        pts = split_params(fid)
        k = int(q[1:])
        if k >= len(pts):
            return False
        return is_ptr(pts[k]) and not const_target(pts[k])

    def explain(self, f, root, start, state):
        w = self.why.get((f.id, root, start), {})
        i = w.get(state)
        if i is None:
            return f.where(), "?"
        return f.where(i), f.txt(i)
