"""C13: work memory that is shared between uses is held while it is used.

Slots are wave function members / locals that some method releases with Retire. Every method of every class is interpreted
(qa/held.py: methods of the same object inlined, loops over buffer arrays with symbolic ranges) from the state in which nothing is
held: a slot has to be held at every use, and what Reaquire took has to be given back at every return."""
from collections import defaultdict
from ..core import AnalysisBroken
from ..held import Machine
from ..prog import short

WF = "QDLIB::WaveFunction"
GIVE, TAKE = "Retire", "Reaquire"
QUIET = {"NewInstance", "size", "lsize", "strides", "Name", "Params", "MPIrank", "MPIsize", "Delete", "IsAllocated", "sizeBytes",
         "RetireStorage", "LockStorage", "UnLockStorage", "Register"}


class Client:
    def __init__(self, prog):
        self.p = prog
        self.slots = set()
        self.locals = set()
        self.counts = set()
        self.found = {}
        self.uses = defaultdict(set)
        self.reach_memo = {}
        self.dat = {}
        for f in prog.fns.values():
            if not f.blocks or f.impl or f.file.startswith("src/tests/"):
                continue
            for i, n in enumerate(f.nodes):
                if n and n["k"] == "Call" and n.get("fn") == GIVE and n.get("m") and self.wf(n):
                    self.note(f, f.recv(i))
        # a local or parameter that is given back makes what is handed to it a slot
        for _ in range(3):
            for f in prog.fns.values():
                if not f.blocks or f.impl:
                    continue
                for i, n in enumerate(f.nodes):
                    if n and n["k"] == "Call" and n.get("f") in prog.fns:
                        g = prog.fns[n["f"]]
                        for d, a in zip(g.params, f.args(i)):
                            if (g.id, d) in self.locals:
                                self.note(f, a)
                    elif n and n["k"] == "Assign" and n["op"] == "=":
                        self.alias(f, n["c"][0], n["c"][1])
                    elif n and n["k"] == "Var" and n.get("c"):
                        if self.is_local(f, n):
                            self.note(f, n["c"][0], False)
                        elif self.refers(f, n["c"][0]) and n["t"].rstrip().endswith("*"):
                            self.locals.add((f.id, n["d"]))

        # parameters that are taken: functions that take memory for their callers
        for f in prog.fns.values():
            if not f.blocks or f.impl:
                continue
            for i, n in enumerate(f.nodes):
                if n and n["k"] == "Call" and n.get("fn") == TAKE and n.get("m") and self.wf(n):
                    e = self.base(f, f.recv(i))
                    if e >= 0 and f.nodes[e]["k"] == "Ref" and f.nodes[e]["d"] in f.params and self.ptr(f.nodes[e]):
                        self.locals.add((f.id, f.nodes[e]["d"]))

    def wf(self, n):
        return n.get("cls") and self.p.derives(n["cls"], WF)

    def is_local(self, f, n):
        return (f.id, n["d"]) in self.locals

    def base(self, f, e):
        while e is not None and e >= 0:
            n = f.nodes[e]
            if n["k"] in ("Cast", "Index") and n.get("c") or n["k"] == "Un" and n["op"] in ("*", "&"):
                e = n["c"][0]
            else:
                return e
        return -1

    def note(self, f, e, member=True):
        e = self.base(f, e)
        if e < 0:
            return
        n = f.nodes[e]
        if n["k"] == "Member" and self.ptr(n):
            if not self.p.derives(n["d"].rsplit("::", 1)[0], WF):
                self.slots.add(n["d"])
        elif n["k"] == "Ref" and self.ptr(n):
            self.locals.add((f.id, n["d"]))

    def ptr(self, n):
        t = n.get("t", "")
        for x in ("*", "[", " ", "]"):
            pass
        b = t.split("[")[0].replace("*", "").replace("const", "").strip()
        return ("*" in t) and self.p.derives(b, WF)

    def refers(self, f, e):
        e = self.base(f, e)
        if e < 0:
            return False
        n = f.nodes[e]
        return n["k"] == "Member" and n["d"] in self.slots or n["k"] == "Ref" and (f.id, n.get("d")) in self.locals

    def alias(self, f, l, r):
        x, y = self.base(f, l), self.base(f, r)
        for a, b in ((x, y), (y, x)):
            if a < 0 or b < 0:
                continue
            if self.refers(f, a) and f.nodes[b]["k"] in ("Ref", "Member") and self.ptr(f.nodes[b]) and not (
                    f.nodes[b]["k"] == "Ref" and f.nodes[b]["d"] in f.params):
                self.note(f, b)

    # ---- client interface
    def is_slot(self, M, f, n):
        if n["k"] == "Member":
            return n["d"] in self.slots
        return (f.id, n["d"]) in self.locals

    def switches(self, n):
        return n.get("fn") in (GIVE, TAKE) and n.get("m") and self.wf(n)

    def other(self, n):
        """conversion to a part of the wave function without the data (grid description, parameters)"""
        b = n.get("t", "").replace("*", "").replace("&", "").replace("const", "").strip()
        return b in self.p.recs and not self.data(b)

    def data(self, c):
        r = self.dat.get(c)
        if r is None:
            r = self.dat[c] = any("Vector<" in b for b in [c] + list(self.p.all_bases(c)))
        return r

    def harmless(self, n):
        return n.get("fn") in QUIET

    def outside(self, n):
        return n.get("m") and n.get("cls") in self.p.recs and not self.data(n["cls"])

    def reaches(self, g, depth=0):
        """does g (or what it calls on the same object) touch a slot"""
        if g is None:
            return False
        if g.id in self.reach_memo:
            return self.reach_memo[g.id]
        self.reach_memo[g.id] = False
        r = any(n and (n["k"] == "Member" and n["d"] in self.slots or n["k"] == "Ref" and (g.id, n.get("d")) in self.locals) for n in g.nodes)
        if not r and depth < 8 and not g.impl:
            for i, n in enumerate(g.nodes):
                if n and n["k"] == "Call" and n.get("f"):
                    own = n.get("m") and g.recv(i) is not None and g.nodes[g.recv(i)]["k"] == "This"
                    if not own and n.get("m"):
                        continue
                    ids = [n["f"]]
                    if own and n.get("virt"):
                        ids += self.p.impls(n["f"])
                    if any(self.reaches(self.p.fns.get(x), depth + 1) for x in ids):
                        r = True
                        break
        self.reach_memo[g.id] = r
        return r

    def enter(self, M, f, e, g):
        if not self.p.derives(g.cls, WF) if g.cls else True:
            return self.reaches(g)
        return False

    def call(self, M, f, e, recv, args, sts):
        n = f.nodes[e]
        if not self.switches(n) or recv is None:
            return None
        s = M.slot(f, recv)
        if s is None:
            return None
        dim = M.rng(s[1], M.ranges()) if s[1] is not None else None
        if n["fn"] == TAKE:
            return [M.hold(x, s[0], dim) for x in sts]
        return [M.drop(x, s[0], dim) for x in sts]

    def use(self, M, f, i, slot, dim, st):
        self.uses[(f.id, slot[1] if slot[0] != "l" else slot[2])].add(i)
        if not M.held(st, slot, dim):
            if slot[0] == "l" and not any(x[0] == "T" and x[1] == slot for x in st):
                return
            self.found.setdefault((f.id, slot[1] if slot[0] != "l" else slot[2]), (f, i, slot))


def check(prog, res, tier):
    cl = Client(prog)
    cl.counts = counts(prog, cl)
    if len(cl.slots) < 5:
        raise AnalysisBroken("work wave functions not found: %s" % sorted(map(short, cl.slots)))
    res.count("slots", len(cl.slots))
    owners = {s.rsplit("::", 1)[0] for s in cl.slots}
    done = set()
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if not f.blocks or f.impl or f.file.startswith("src/tests/") or not f.file.startswith("src/"):
            continue
        if f.cls and prog.derives(f.cls, WF):
            continue
        if f.name.startswith("~") or not cl.reaches(f):
            continue
        if helper(prog, cl, f):
            continue
        classes = [None]
        if f.cls:
            classes = [C for C in prog.concrete(f.cls)] or [f.cls]
            own = [o for o in owners if prog.derives(f.cls, o)]
            virt = any(n and n["k"] == "Call" and n.get("virt") and f.recv(i) is not None and f.nodes[f.recv(i)]["k"] == "This" for i, n in enumerate(f.nodes))
            if not virt:
                classes = classes[:1]
        for C in classes:
            if C and f.raw.get("virt") and prog.final_overrider(C, f.id) not in (f.id, None) and False:
                continue
            M = Machine(prog, C, cl)
            M.stack.append(f.id)
            init = frozenset()
            o = M.stmt(f, f.body, [init])
            bad = None
            for s, x in o.ret + [(s, -1) for s in o.fall]:
                left = sorted((y for y in s if y[0] == "M" and y[1][0] == "o"), key=str)
                if left:
                    bad = (x, left[0])
                    break
            key = f.id
            if bad:
                res.bad("C13.return", f.short, short(bad[1][1][1]), f.where(bad[0]) if bad[0] >= 0 else f.where(),
                        "%s may return without giving back %s%s" % (f.short, short(bad[1][1][1]), "" if not C or C == f.cls else " (object of class %s)" % short(C)))
            elif key not in done:
                done.add(key)
                res.ok("C13.return", f.where(), "%s gives back what it took" % f.short)
    for (fid, slot), sites in sorted(cl.uses.items()):
        f = prog.fns[fid]
        if (fid, slot) in cl.found:
            g, i, s = cl.found[(fid, slot)]
            res.bad("C13.use", f.short, short(slot), f.where(i), "%s uses %s, whose memory may have been given back" % (f.short, short(slot)))
        else:
            res.ok("C13.use", f.where(sorted(sites)[0]), "%s: %s held at %d uses" % (f.short, short(slot), len(sites)))
    if len(res.obl) < 15:
        raise AnalysisBroken("only %d obligations" % len(res.obl))


def helper(prog, cl, f):
    """a function only other functions of its class call: interpreted where it is called"""
    if f.raw.get("virt") or prog.callers.get(f.id) is None:
        return False
    cs = prog.callers.get(f.id) or ()
    ok = False
    for c in cs:
        g = c[0] if isinstance(c, tuple) else c
        g = prog.fns.get(g, g) if isinstance(g, str) else g
        if g.file.startswith("src/tests/"):
            continue
        if f.cls and g.cls and (prog.derives(g.cls, f.cls) or prog.derives(f.cls, g.cls)) or not f.cls:
            ok = True
        else:
            return False
    return ok


def counts(prog, cl):
    """members / getters that loops over an array of slots run to"""
    out = set()
    for f in prog.fns.values():
        if not f.cls or not f.blocks or f.impl:
            continue
        M = None
        for i, n in enumerate(f.nodes):
            if not n or n["k"] != "For" or n["cond"] < 0:
                continue
            names = set()
            for x in f.walk(n["body"]):
                m = f.nodes[x]
                if m["k"] == "Index":
                    b = cl.base(f, m["c"][0])
                    if b >= 0 and f.nodes[b]["k"] == "Member" and f.nodes[b]["d"] in cl.slots:
                        names.add(f.nodes[b]["d"])
            if not names:
                continue
            M = M or Machine(prog, f.cls, cl)
            sh = M.shape(f, i, n)
            if sh and sh[2][0] == "m" and sh[2][-1] == 0:
                for x in names:
                    out.add((("o", x), sh[2][1]))
    return out


ID = "C13"
DESC = __doc__
