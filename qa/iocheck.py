"""Outcome analysis for file and stream operations.

Disjunctive forward dataflow over each function's CFG. A configuration holds, per stream access path, the operations whose outcome
has not been examined yet; condition edges on the stream's state discharge them (success edge) or mark them failed (failure edge).
A failed operation must leave the function by raising an error or through a false return value, which the callers must examine in
turn; everything pending on a parameter or member stream is handed to the callers through summaries (fixpoint over the call graph)."""
import re
from collections import defaultdict
from .prog import short
from .extract import AnalysisBroken

PRE = "<pre>"
CAP = 48

# token: (kind, site, status)   site: (fn id, node) or PRE ; status: 'U' unexamined, 'F' known failed
# kinds: R read, W write, O open for output, I open for input (failure may be an expected outcome), B written, possibly still buffered
KINDS = "RWOIB"

STREAM = re.compile(r"\bstd::(basic_)?([io]?f?stream|[io]stream)\b|\bbasic_(i|o|io|f|if|of)stream\b|std::basic_ios\b")


def stream_type(t):
    return bool(STREAM.search(t)) and "stringstream" not in t


def is_file(t):
    return "fstream" in t


class Cfg(tuple):
    """(tokens, caps, facts): tokens frozenset of (path, kind, site, status, target); caps frozenset of (var, key, polarity);
    facts frozenset of (path, bool)"""
    __slots__ = ()


class Summary:
    __slots__ = ("exit", "rep", "pol", "touched")

    def __init__(self):
        self.exit = frozenset()     # {(tokens, facts)}: tokens (path, kind, site, status) alive at normal return, rooted at this/params
        self.rep = frozenset()      # tokens (kind, site) or ('pre', path, kind) reported through the return value
        self.pol = False            # value of the return expression that means failure
        self.touched = frozenset()  # stream paths seeded with PRE tokens

    def key(self):
        return (self.exit, self.rep, self.pol, self.touched)


class IO:
    def __init__(self, p):
        self.p = p
        self.sum = {}
        self.viol = {}       # (fn id, site node, kind) -> (fn where it became lost, why)
        self.ops = {}        # (fn id, node, kind) -> text
        self.merged = set()
        self.used = {}       # use-before-check: (fn id, use node, path) -> op site
        self.assigned = None
        self.run()

    # ---------------------------------------------------------------- classification of nodes
    def spath(self, f, i, al):
        """access path of a stream expression (calls that return their stream are transparent)"""
        while i is not None and i >= 0:
            n = f.nodes[i]
            if n["k"] == "Call" and n.get("c") and (n.get("op") in ("<<", ">>") or n.get("fn") in (
                    "read", "write", "flush", "put", "seekg", "seekp", "getline", "ignore", "get")) and stream_type(f.ty(i)):
                i = n["c"][0]
                continue
            if n["k"] == "Cast" and n.get("c"):
                i = n["c"][0]
                continue
            if n["k"] == "Un" and n["op"] in ("*", "&"):
                i = n["c"][0]
                continue
            break
        if i is None or i < 0:
            return None
        pa = f.path(i)
        if pa is None:
            return None
        root = re.split(r"[.\[]", pa[1:], 1)[0]
        root = pa[0] + root if not pa.startswith("%") else "%" + pa[1:].split(".", 2)[0] + "." + re.split(r"[.\[]", pa[1:].split(".", 1)[1], 1)[0]
        if root in al:
            pa = al[root] + pa[len(root):]
        return pa

    def aliases(self, f):
        """references / pointers initialised from another stream path, never reassigned"""
        al = {}
        if not hasattr(f, "_io_al"):
            cnt = defaultdict(int)
            for x in f.walk():
                n = f.nodes[x]
                if n["k"] == "Assign" and f.nodes[n["c"][0]]["k"] == "Ref":
                    cnt[f.nodes[n["c"][0]]["d"]] += 1
            for x in f.walk():
                n = f.nodes[x]
                if n["k"] == "Var" and n.get("c") and n["c"][0] >= 0 and stream_type(n.get("t", "")) and n["t"].rstrip()[-1:] in "&*" and not cnt[n["d"]]:
                    pa = self.spath(f, n["c"][0], al)
                    if pa and pa != n["d"]:
                        al[n["d"]] = pa
            f._io_al = al
        return f._io_al

    @staticmethod
    def root(path):
        m = re.match(r"%\d+\.\w+|this|[^.\[]+(::[^.\[]+)*", path)
        return m.group(0) if m else path

    def anchored(self, f, path):
        r = self.root(path)
        return r == "this" or r in f.params

    # ---------------------------------------------------------------- fields assigned by a function and its callees
    def assigns(self, fid):
        if self.assigned is None:
            p = self.p
            direct = {}
            for f in p.fns.values():
                s = set()
                for x in range(len(f.nodes)):
                    n = f.nodes[x]
                    if n is not None and n["k"] == "Assign" and f.nodes[n["c"][0]]["k"] == "Member":
                        s.add(f.nodes[n["c"][0]]["n"])
                direct[f.id] = s
            ch = True
            self.assigned = direct
            # fixpoint along callers
            work = [f for f in p.fns.values() if direct[f.id]]
            while work:
                g = work.pop()
                for c, _ in p.callers[g.id]:
                    if not direct[g.id] <= direct[c.id]:
                        direct[c.id] |= direct[g.id]
                        work.append(c)
        return self.assigned.get(fid, ())

    # ---------------------------------------------------------------- transfer
    def op_tokens(self, f, e, al):
        """leaf operations of node e: list of (path, kind, target)"""
        n = f.nodes[e]
        if n["k"] != "Call":
            return None
        fn, q = n.get("fn"), n.get("q", "")
        if q.startswith("std::basic_") and n.get("m") and not n.get("op"):
            r = f.recv(e)
            t = f.ty(r)
            if not stream_type(t) and not stream_type(n.get("cls", "")):
                return None
            if "stringstream" in t or "stringstream" in f.ty(self._base(f, r)):
                return None
            pa = self.spath(f, r, al)
            if fn == "read":
                a = f.args(e)
                tgt = f.path(a[0]) if a else None
                return [(pa, "R", tgt)]
            if fn == "write":
                return [(pa, "W", None), (pa, "B", None)]
            if fn == "put":
                return [(pa, "W", None), (pa, "B", None)]
            if fn == "open":
                return [(pa, "O" if "ofstream" in t + n.get("cls", "") else "I", None)]
            if fn in ("flush", "close"):
                return [(pa, "!flush" if fn == "flush" else "!close", None)]
        if n.get("op") == "<<" and n.get("c") and stream_type(f.ty(n["c"][0])):
            b = self._base(f, n["c"][0])
            if "stringstream" in f.ty(b):
                return None
            pa = self.spath(f, n["c"][0], al)
            fl = any(f.nodes[x]["k"] in ("Ref", "FnRef") and f.nodes[x].get("d", "").split("(")[0].split("<")[0].endswith(("::endl", "::flush")) for x in f.walk(n["c"][1])) if len(n["c"]) > 1 else False
            return [(pa, "W", None)] + ([(pa, "!flush", None)] if fl else [(pa, "B", None)])
        if q.startswith("google::protobuf::") and fn in ("SerializeToOstream", "SerializePartialToOstream"):
            a = f.args(e)
            pa = self.spath(f, a[0], al) if "stringstream" not in f.ty(self._base(f, a[0])) else None
            r = [("ret:%d" % e, "W", None)]
            if pa:
                r += [(pa, "W", None), (pa, "B", None)]
            return r
        if q.startswith("google::protobuf::") and fn and fn.startswith(("ParseFrom", "ParsePartialFrom")):
            return [("ret:%d" % e, "R", None)]
        return None

    def _base(self, f, i):
        while i >= 0:
            n = f.nodes[i]
            if n["k"] == "Call" and n.get("c") and (n.get("op") in ("<<", ">>") or stream_type(f.ty(i))):
                i = n["c"][0]
                continue
            if n["k"] == "Cast" and n.get("c") and n.get("ck") not in ("dynamic",):
                i = n["c"][0]
                continue
            if n["k"] == "Un" and n["op"] in ("*", "&"):
                i = n["c"][0]
                continue
            return i
        return i

    def status_atom(self, f, i, al):
        """(path, meaning when true, kinds it speaks about) for a condition atom"""
        n = f.nodes[i]
        if n["k"] == "Cast" and n.get("c"):
            return self.status_atom(f, n["c"][0], al)
        if n["k"] == "Call":
            fn, op = n.get("fn"), n.get("op")
            c = n.get("c", ())
            if c and (stream_type(f.ty(c[0])) or stream_type(n.get("cls", ""))):
                pa = self.spath(f, c[0], al)
                if pa is None:
                    return None
                if fn == "fail" or op == "!":
                    return (pa, "fail", "RWOI")
                if fn == "good" or (fn and fn.startswith("operator bool")) or (fn and fn.startswith("operator void")):
                    return (pa, "ok", "RWOI")
                if fn == "bad":
                    return (pa, "fail", "W")
                if fn == "eof":
                    return None
                if fn == "is_open":
                    return (pa, "ok", "OI")
            return ("ret:%d" % i, "ok", "RWOI")
        if n["k"] == "Ref":
            return ("cap:" + n["d"], "ok", "RWOI")
        if n["k"] == "Bin" and n["op"] in ("==", "!=", "<", ">", "<=", ">="):
            for a, b, flip in ((n["c"][0], n["c"][1], False), (n["c"][1], n["c"][0], True)):
                bn = f.nodes[self.strip(f, b)]
                if n["op"] in ("==", "!=") and bn["k"] == "Bool":      # comparison with a boolean constant
                    s = self.status_atom(f, a, al)
                    if s:
                        t = bool(bn["v"]) == (n["op"] == "==")
                        return (s[0], s[1] if t else {"ok": "fail", "fail": "ok"}[s[1]], s[2])
                    continue
                g = self.gcount(f, a)
                gv = f.nodes[self.strip(f, a)]
                pa = None
                if g is not None:
                    pa = self.spath(f, f.recv(g), al)
                elif gv["k"] == "Ref":
                    pa = "gc:" + gv["d"]
                if pa is None:
                    continue
                op = n["op"]
                if flip:
                    op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                m = {"==": "ok", "!=": "fail", "<": "fail", ">=": "ok", ">": "ok", "<=": "fail"}[op]
                return (pa, m, "ROI")
        return None

    @staticmethod
    def strip(f, i):
        while f.nodes[i]["k"] == "Cast" and f.nodes[i].get("c"):
            i = f.nodes[i]["c"][0]
        return i

    def gcount(self, f, i):
        i = self.strip(f, i)
        n = f.nodes[i]
        return i if n["k"] == "Call" and n.get("fn") == "gcount" else None

    def atoms(self, f, i, val):
        n = f.nodes[i]
        if n["k"] == "Un" and n["op"] == "!":
            return self.atoms(f, n["c"][0], not val)
        if n["k"] == "Bin" and n["op"] in ("==", "!="):
            for a, b in ((n["c"][0], n["c"][1]), (n["c"][1], n["c"][0])):
                bn = f.nodes[self.strip(f, b)]
                if bn["k"] == "Bool":
                    return self.atoms(f, self.strip(f, a), val == (bool(bn["v"]) == (n["op"] == "==")))
        if n["k"] == "Bin" and n["op"] in ("&&", "||"):
            if val == (n["op"] == "&&"):
                return self.atoms(f, n["c"][0], val) + self.atoms(f, n["c"][1], val)
            return []
        return [(i, val)]

    # ---------------------------------------------------------------- per function
    def seeds(self, f, al):
        """stream paths rooted at this/params touched by operations, checks or callee summaries"""
        out = set()
        for e in range(len(f.nodes)):
            n = f.nodes[e]
            if n is None or n["k"] != "Call":
                continue
            for pa, k, t in (self.op_tokens(f, e, al) or []):
                if pa and not pa.startswith("ret:"):
                    out.add(pa)
            s = self.status_atom(f, e, al)
            if s and not s[0].startswith(("ret:", "cap:", "gc:")):
                out.add(s[0])
            if n.get("fn") == "gcount":
                pa = self.spath(f, f.recv(e), al)
                if pa:
                    out.add(pa)
            for g in self.p.callees(f, e):
                sm = self.sum.get(g.id)
                if sm:
                    for pa in sm.touched:
                        q = self.translate(f, e, g, pa, al)
                        if q:
                            out.add(q)
        return frozenset(x for x in out if self.anchored(f, x))

    def translate(self, f, e, g, path, al):
        r = self.root(path)
        n = f.nodes[e]
        if r == "this":
            rc = f.recv(e)
            if rc is None and n.get("op") and n.get("c"):
                rc = n["c"][0]
            b = self.spath(f, rc, al) if rc is not None else None
        elif r in g.params:
            i = g.params.index(r)
            a = f.args(e)
            if n.get("op") and n.get("m"):
                a = n["c"][1:]
            b = self.spath(f, a[i], al) if i < len(a) else None
        else:
            return path     # global
        return None if b is None else b + path[len(r):]

    def relevant(self, f):
        for n in f.nodes:
            if n is not None and n["k"] == "Construct" and n.get("c") and "fstream" in n.get("cls", ""):
                return True
            if n is None or n["k"] != "Call":
                continue
            q = n.get("q", "")
            if q.startswith("std::basic_") and "stream" in n.get("cls", "") or q.startswith("std::basic_ios"):
                return True
            if n.get("op") == "<<" and n.get("c") and stream_type(f.ty(n["c"][0])):
                return True
            if q.startswith("google::protobuf::") and (n.get("fn", "") or "").startswith(("ParseFrom", "SerializeToOs")):
                return True
        return False

    def run(self):
        p = self.p
        skip = {c for c in p.recs if p.derives(c, "QDLIB::Logger")}
        self.skip = {f.id for f in p.fns.values() if f.cls in skip}
        cand = {f.id for f in p.fns.values() if f.blocks and self.relevant(f) and f.id not in self.skip}
        work = sorted(cand)
        inq = set(work)
        count = defaultdict(int)
        while work:
            fid = work.pop(0)
            inq.discard(fid)
            f = p.fns[fid]
            if not f.blocks or fid in self.skip:
                continue
            count[fid] += 1
            if count[fid] > 60:
                raise AnalysisBroken("I/O summaries do not converge at " + fid)
            old = self.sum.get(fid)
            if count[fid] > 12:
                self.merged.add(fid)
            new = self.analyse(f)
            if count[fid] > 16 and old is not None:        # force growth
                new.exit = frozenset({(frozenset().union(*[x[0] for x in new.exit | old.exit]), frozenset())})
                new.rep |= old.rep
                new.touched |= old.touched
            if old is None or old.key() != new.key():
                self.sum[fid] = new
                for g, _ in p.callers[fid]:
                    if g.id not in inq and (new.rep or new.touched):
                        inq.add(g.id)
                        work.append(g.id)
        # final pass: violations
        self.analysed = sorted(self.sum)
        self.final = True
        for fid in self.analysed:
            self.analyse(p.fns[fid], report=True)

    def analyse(self, f, report=False):
        p = self.p
        al = self.aliases(f)
        seeds = self.seeds(f, al)
        init = (frozenset((s, k, PRE, "U", None) for s in seeds for k in KINDS), frozenset(), frozenset())
        boolret = f.raw.get("ret", "") in ("bool", "int") or f.raw.get("rt", "") == "bool"
        sm = Summary()
        sm.touched = seeds
        inb = {f.entry: {init}}
        work = [f.entry]
        steps = 0
        exits = []
        reps = set()
        pol = [None]
        while work:
            bi = work.pop(0)
            b = f.blocks[bi]
            steps += 1
            if steps > 4000:
                raise AnalysisBroken("I/O analysis does not converge in " + f.id)
            outs = set()
            for cfg in inb[bi]:
                cur = {cfg}
                for e in b["e"]:
                    nxt = set()
                    for c in cur:
                        nxt |= self.step(f, e, c, al, reps, pol, report, b)
                    cur = nxt
                    if not cur:
                        break
                outs |= cur
            if f.is_abrupt(b):
                if b.get("nr") and self.ends_well(f, b):
                    exits += [(frozenset(t for t in c[0] if t[3] != "F"), c[1], c[2]) for c in outs]
                continue
            if bi == f.exit:
                continue
            if self.failure_status(f, b):
                continue
            raised = "t" not in b and len(b["s"]) == 2
            for k, s in enumerate(b["s"]):
                if s < 0:
                    continue
                ns = set()
                if raised and k == 1:   # another error is on its way to the handler
                    outs = {(frozenset(t for t in c[0] if t[3] == "F" or t[2] == PRE), c[1], c[2]) for c in outs}
                for c in outs:
                    r = self.edge(f, b, k, c, al)
                    if r is not None:
                        ns.add(r)
                if s == f.exit:
                    exits += ns
                    continue
                have = inb.setdefault(s, set())
                if not ns <= have:
                    new = group(have | ns)
                    if len(new) > CAP:
                        new = {merge(new)}
                    if new != have:
                        inb[s] = new
                        if s not in work:
                            work.append(s)
        ex = set()
        for tok, caps, facts in exits:
            keep = set()
            for (pa, k, site, st, tgt) in tok:
                if pa.startswith(("ret:", "cap:", "gc:", "dead:")) or not self.anchored(f, pa):
                    # a captured or returned status nobody looks at, or a stream whose life ends here
                    if site != PRE:
                        if k == "B" and "." in pa[len(self.root(pa)):] and not pa.startswith("dead:"):
                            continue        # the owner of a member stream flushes it when it closes it
                        self.lost(f, k, site, st, pa, report)
                    continue
                if st == "F" and site != PRE:
                    self.lost(f, k, site, st, pa, report)
                    continue
                keep.add((pa, k, site, st))
            ex.add((frozenset(keep), frozenset(x for x in facts if self.anchored(f, x[0]) and "." in x[0])))
        by = defaultdict(list)
        for t, fx in ex:
            by[t].append(fx)
        ex = {(t, frozenset.intersection(*fx)) for t, fx in by.items()}
        if len(ex) > 8 or f.id in self.merged:
            self.merged.add(f.id)
            ex = {(frozenset().union(*[x[0] for x in ex]), frozenset.intersection(*[x[1] for x in ex]))}
        sm.exit = frozenset(ex)
        sm.rep = frozenset(reps)
        sm.pol = pol[0] if pol[0] is not None else False
        if report and not self.has_callers(f):
            for toks, _ in ex:
                for (pa, k, site, st) in toks:
                    if site != PRE and self.root(pa) == "this" and k != "B":
                        self.lost(f, k, site, st, pa, report)
        return sm

    def ends_well(self, f, b):
        """the block ends the program with a status which is not a constant failure"""
        for e in reversed(b["e"]):
            n = f.nodes[e]
            if n["k"] == "Throw":
                return False
            if n["k"] == "Call":
                if n.get("fn") not in ("exit", "_exit", "quick_exit"):
                    return False
                a = f.args(e)
                m = f.nodes[self.strip(f, a[0])] if a else {}
                return not (m.get("k") == "Int" and m.get("v") not in (0, "0"))
        return False

    def failure_status(self, f, b):
        """main returns a constant failure status here"""
        if f.name != "main" or f.exit not in b["s"]:
            return False
        for e in b["e"]:
            n = f.nodes[e]
            if n["k"] == "Return" and n.get("c"):
                m = f.nodes[self.strip(f, n["c"][0])]
                return m.get("k") == "Int" and m.get("v") not in (0, "0")
        return False

    def has_callers(self, f):
        return bool(self.p.callers[f.id])

    def lost(self, f, k, site, st, pa, report):
        if report:
            self.viol.setdefault((site[0], site[1], k), {}).setdefault(f.id, (f.id, "known to have failed, but the function returns normally" if st == "F" else "outcome never examined"))

    # ---- element
    def step(self, f, e, cfg, al, reps, pol, report, b):
        tok, caps, facts = cfg
        n = f.nodes[e]
        k = n["k"]
        p = self.p
        # use before check
        if report and k in ("Ref", "Member"):
            pa = f.path(e)
            if pa:
                for t in tok:
                    if t[1] == "R" and t[3] == "U" and t[4] is not None and t[4] == pa and t[2] != PRE:
                        if not self.within_read(f, e) and not self.with_gcount(f, e) and not self.plain_write(f, e):
                            self.used.setdefault((f.id, e, pa), t[2])
        if k == "Var" and n.get("c") and n["c"][0] >= 0 and is_file(n.get("t", "")) and n["t"].rstrip()[-1:] not in "*&":
            # opened by its constructor
            cn = f.nodes[self.strip(f, n["c"][0])]
            if cn["k"] == "Construct" and cn.get("c") and "fstream" in cn.get("cls", "") and not is_file(f.ty(cn["c"][0])):
                kind = "O" if "ofstream" in n["t"] else "I"
                if report:
                    self.ops[(f.id, e, kind)] = f.txt(e)
                return {(tok | {(n["d"], kind, (f.id, e), "U", None)}, caps, facts)}
        if k == "Call":
            ops = self.op_tokens(f, e, al)
            if ops is not None:
                for pa, kind, tgt in ops:
                    if pa is None:
                        continue
                    r0 = self.root(pa) if not pa.startswith("ret:") else ""
                    if not pa.startswith(("ret:", "this", "%")):
                        continue        # std::cout and other globals
                    if kind == "!flush" or kind == "!close":
                        if kind == "!close" and not self.outward(f, f.recv(e)):
                            continue
                        tok = frozenset(((q, "W", s, "B" if s == PRE else st, tg) if q == pa and kk == "B" else (q, kk, s, st, tg)) for (q, kk, s, st, tg) in tok)
                        if any(t[0] == pa and t[1] == "W" for t in tok) and report:
                            self.ops[(f.id, e, "W")] = f.txt(e)
                        continue
                    tok = tok | {(pa, kind, (f.id, e), "U", tgt)}
                    if report:
                        self.ops[(f.id, e, kind)] = f.txt(e)
                return {(tok, caps, facts)}
            if n.get("fn") == "gcount" and not self.in_cond(f, e):
                pa = self.spath(f, f.recv(e), al)
                v = self.var_of(f, e)
                if v:
                    tok = frozenset(("gc:" + v, kk, s, st, None) if q == pa and kk in "ROI" and st == "U" else (q, kk, s, st, tg) for (q, kk, s, st, tg) in tok)
                else:
                    tok = frozenset(t for t in tok if not (t[0] == pa and t[1] == "R" and t[3] == "U"))
                return {(tok, caps, facts)}
            gs = [g for g in p.callees(f, e) if g.id in self.sum]
            if gs:
                res = set()
                for g in gs:
                    if self.sum[g.id].touched or self.sum[g.id].rep:
                        res |= {(t, caps, fx) for t, fx in self.apply(f, e, g, tok, facts, al)}
                    else:
                        res.add((tok, caps, self.kill(facts, g)))
                if len(gs) < len(p.callees(f, e)):
                    res.add((tok, caps, facts))
                return res
            else:
                for g in p.callees(f, e):
                    facts = self.kill(facts, g)
                return {(tok, caps, facts)}
        if k in ("Var", "Assign"):
            if k == "Var":
                dst, src = n["d"], (n["c"][0] if n.get("c") else -1)
            else:
                dst, src = f.path(n["c"][0]), n["c"][1]
            if dst is None:
                return {cfg}
            facts = frozenset(x for x in facts if x[0] != dst)
            if src is not None and src >= 0 and (k == "Var" or n["op"] == "="):
                sn = f.nodes[self.strip(f, src)]
                if sn["k"] == "Bool":
                    facts = facts | {(dst, bool(sn["v"]))}
                t = f.ty(n["c"][0]) if k == "Assign" else n.get("t", "")
                if stream_type(t) and t.rstrip().endswith("*"):
                    sp = self.spath(f, src, al)
                    if sp and sp != dst and dst not in al:
                        tok = frozenset((dst + q[len(sp):], kk, s, st, tg) if (q == sp and s != PRE) else (q, kk, s, st, tg) for (q, kk, s, st, tg) in tok)
                else:
                    v = self.known_failed(f, src, tok, al)
                    if v is not None and sn["k"] != "Bool":
                        facts = facts | {(dst, v)}
                    tok = self.capture(f, src, "cap:" + dst, tok, al)
            return {(tok, caps, facts)}
        if k == "Delete":
            pa = self.spath(f, n["c"][0], al) if n.get("c") else None
            if pa:
                tok = frozenset(("dead:" + q, kk, s, st, tg) if q == pa and s != PRE else (q, kk, s, st, tg) for (q, kk, s, st, tg) in tok)
            return {(tok, caps, facts)}
        if k == "Return":
            if n.get("c") and n["c"][0] is not None and n["c"][0] >= 0:
                src = n["c"][0]
                sn = f.nodes[self.strip(f, src)]
                val = None
                if sn["k"] == "Bool":
                    val = bool(sn["v"])
                elif sn["k"] == "Ref":
                    for (v, bv) in facts:
                        if v == sn["d"]:
                            val = bv
                if val is False:
                    rest = set()
                    for t in tok:
                        if t[3] == "F":
                            reps.add(("pre", t[0], t[1]) if t[2] == PRE else (t[1], t[2]))
                        else:
                            rest.add(t)
                    tok = frozenset(rest)
                    if pol[0] is None:
                        pol[0] = False
                else:
                    # a status expression
                    for v in (True, False):
                        got = []
                        for i, bv in self.atoms(f, src, v):
                            s = self.status_atom(f, i, al)
                            if s is None:
                                continue
                            ok = (s[1] == "ok") == bv
                            got.append((s, ok))
                        hit = [s for s, ok in got if ok]
                        if hit:
                            rest = set()
                            for t in tok:
                                if any(t[0] == s[0] and t[1] in (s[2] or "") for s in hit) and t[3] in "UB":
                                    reps.add(("pre", t[0], t[1]) if t[2] == PRE else (t[1], t[2]))
                                    pol[0] = not v
                                else:
                                    rest.add(t)
                            tok = frozenset(rest)
                            break
            return {(tok, caps, facts)}
        return {cfg}

    def outward(self, f, r):
        t = f.ty(r)
        return "ifstream" not in t and "basic_istream" not in t

    def kill(self, facts, g):
        if not facts:
            return facts
        a = self.assigns(g.id)
        return frozenset(x for x in facts if not ("." in x[0] and x[0].rsplit(".", 1)[-1] in a and not re.match(r"%\d+\.\w+$", x[0])))

    def root_type(self, f, path):
        r = self.root(path)
        if path == r and r in f.locals:
            return f.locals[r].get("t", "")
        return ""

    def apply(self, f, e, g, tok, facts, al):
        """configurations after a call of g: set of (tokens, facts)"""
        sm = self.sum[g.id]
        tmap = {pa: self.translate(f, e, g, pa, al) for pa in sm.touched}
        inv = defaultdict(list)
        for a, b in tmap.items():
            if b:
                inv[b].append(a)
        repre = {(x[1], x[2]) for x in sm.rep if x[0] == "pre"}
        facts0 = self.kill(facts, g)
        res = set()
        for toks, fx in sm.exit:
            nf = set(facts0)
            bad = False
            for (pa, v) in fx:
                q = self.translate(f, e, g, pa, al)
                if q is None:
                    continue
                if (q, not v) in nf:
                    bad = True
                nf.add((q, v))
            if bad:
                continue
            out = set()
            surv = defaultdict(set)
            for (pa, k, site, st) in toks:
                if site == PRE:
                    surv[pa].add((k, st))
            for t in tok:
                q, k, site, st, tgt = t
                if q in inv and st == "U":
                    keep = False
                    for pa in inv[q]:
                        if (k, "U") in surv[pa]:
                            keep = True
                        elif k == "B" and ("W", "B") in surv[pa]:
                            out.add((q, "W", site, "U", tgt))
                        if (pa, k) in repre:
                            out.add(("ret:%d" % e, k, site, "U", None))
                    if keep:
                        out.add(t)
                else:
                    out.add(t)
            for (pa, k, site, st) in toks:
                if site == PRE:
                    continue
                q = self.translate(f, e, g, pa, al)
                if q is None or not q.startswith(("this", "%")) or "stringstream" in self.root_type(f, q):
                    continue      # stream of an unnamed object (log.cout()), a global, or memory
                out.add((q, k, site, "U", None))
            for x in sm.rep:
                if x[0] != "pre":
                    out.add(("ret:%d" % e, x[0], x[1], "U", None))
            res.add((frozenset(out), frozenset(nf)))
        return res

    def known_failed(self, f, src, tok, al):
        """value of a boolean status expression on a path where an operation it speaks about has failed"""
        for v in (True, False):
            for i, bv in self.atoms(f, src, v):
                s = self.status_atom(f, i, al)
                if s and ((s[1] == "ok") == bv) and any(t[0] == s[0] and t[3] == "F" and t[1] in s[2] for t in tok):
                    return not v
        return None

    def capture(self, f, src, key, tok, al):
        for v in (True, False):
            hit = []
            for i, bv in self.atoms(f, src, v):
                s = self.status_atom(f, i, al)
                if s and ((s[1] == "ok") == bv):
                    hit.append(s)
            if hit and any(t[0] == s[0] for t in tok for s in hit):
                key2 = key if v else key + "!"
                return frozenset((key2, kk, s_, st, None) if st in "UB" and any(q == s[0] and kk in s[2] for s in hit) else (q, kk, s_, st, tg)
                                 for (q, kk, s_, st, tg) in tok)
        return tok

    def within_read(self, f, e):
        for a in f.ancestors(e):
            n = f.nodes[a]
            if n["k"] == "Call" and n.get("fn") in ("read", "write"):
                return True
            if n["k"] in ("Compound", "If", "For", "While", "Decl"):
                return False
            if n["k"] == "Delete":
                return True
        return False

    def with_gcount(self, f, e):
        """argument of a call that is also given the number of bytes really read"""
        for a in f.ancestors(e):
            if f.nodes[a]["k"] == "Call":
                return any(self.gcount(f, x) is not None for x in f.args(a))
        return False

    def plain_write(self, f, e):
        pa = f.parent.get(e)
        if pa is None:
            return False
        n = f.nodes[pa]
        return n["k"] == "Assign" and n["op"] == "=" and n["c"][0] == e

    def in_cond(self, f, e):
        cur = e
        for a in f.ancestors(e):
            n = f.nodes[a]
            if n["k"] == "Cast":
                cur = a
                continue
            return n["k"] == "Bin" and n["op"] in ("==", "!=", "<", ">", "<=", ">=")
        return False

    def var_of(self, f, e):
        for a in f.ancestors(e):
            n = f.nodes[a]
            if n["k"] == "Cast":
                continue
            if n["k"] == "Var":
                return n["d"]
            if n["k"] == "Assign" and n["op"] == "=" and f.nodes[n["c"][0]]["k"] == "Ref":
                return f.nodes[n["c"][0]]["d"]
            return None
        return None

    # ---- edges
    def edge(self, f, b, k, cfg, al):
        tc = b.get("tc", -1)
        if tc is None or tc < 0 or len(b["s"]) != 2 or f.nodes[b["t"]]["k"] == "Switch":
            return cfg
        tok, caps, facts = cfg
        val = (k == 0)
        i = tc
        while f.nodes[i]["k"] == "Bin" and f.nodes[i]["op"] in ("&&", "||"):
            i = f.nodes[i]["c"][1]
        for a, v in self.atoms(f, i, val):
            n = f.nodes[self.strip(f, a)]
            # stable boolean facts
            if n["k"] in ("Ref", "Member"):
                pa = f.path(self.strip(f, a))
                if pa and f.ty(self.strip(f, a)).replace("const ", "") == "bool":
                    if (pa, not v) in facts:
                        return None
                    facts = facts | {(pa, v)}
            s = self.status_atom(f, a, al)
            if s is None:
                continue
            if s[0].startswith("cap:"):
                ks = [(s[0], "ok"), (s[0] + "!", "fail")]
            else:
                ks = [(s[0], s[1])]
            for key, mean in ks:
                if key.startswith("ret:"):
                    # polarity of the callee
                    e = int(key[4:])
                    for g in self.p.callees(f, e):
                        sm = self.sum.get(g.id)
                        if sm and sm.rep and sm.pol:
                            mean = "fail"
                ok = (mean == "ok") == v
                new = set()
                if ok:      # a successful second attempt replaces a failed first one (alternative file names)
                    again = {t[2] for t in tok if t[0] == key and t[1] == "I" and t[3] == "U" and "I" in s[2]}
                    tok = frozenset(t for t in tok if not (t[1] == "I" and t[3] == "F" and t[2] in again and t[2] != PRE))
                for t in tok:
                    q, kk, site, st, tg = t
                    if q != key or kk == "B":
                        new.add(t)
                        continue
                    if ok:
                        if kk in s[2] and st in "UB":
                            continue
                        if st == "F":
                            if kk in s[2]:
                                return None      # contradicts an earlier test of the same state
                        new.add(t)
                    else:
                        if st in "UB":
                            new.add((q, kk, site, "F", tg))
                        else:
                            new.add(t)
                # buffered data of a failed stream is part of the failure
                tok = frozenset(new)
        return (tok, caps, facts)


def group(cfgs):
    """join configurations that agree on facts, failed and captured states"""
    by = defaultdict(set)
    for tok, caps, facts in cfgs:
        hard = frozenset(t for t in tok if t[3] == "F" or t[0].startswith(("cap:", "ret:", "gc:", "dead:")))
        by[(hard, caps, facts)] |= tok
    return {(frozenset(t), k[1], k[2]) for k, t in by.items()}


def merge(cfgs):
    tok = frozenset().union(*[c[0] for c in cfgs])
    caps = frozenset().union(*[c[1] for c in cfgs])
    facts = frozenset.intersection(*[c[2] for c in cfgs])
    return (tok, caps, facts)
