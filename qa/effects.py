"""Interprocedural memory-effect summaries.

For every function: which memory it may write, named by root:
  'this'   memory reachable from the receiver
  'p<k>'   memory reachable through pointer/reference parameter k
  'g:<n>'  global / static variable n
plus which roots its returned pointer may designate and which parameters it stores into which root.
Flow-insensitive inside a function, summaries solved to a fixpoint over the resolved call graph;
a virtual call uses every overrider (or a stated contract).
"""
import re
from collections import defaultdict


def is_ptr(t):
    t = t.strip()
    t = re.sub(r"(\s*const|\s*volatile|\s*restrict|\s*__restrict)+$", "", t)
    return t.endswith("*") or t.endswith("&") or t.endswith("]")


def is_ref(t):
    return t.strip().endswith("&")


def const_target(t):
    """pointer/reference to const"""
    t = re.sub(r"(\s*(volatile|restrict|__restrict))+$", "", t.strip())
    m = re.match(r"^(.*?)(\*|&)\s*(const)?$", t)
    if not m:
        return False
    inner = m.group(1).strip()
    return inner.startswith("const ") or inner.endswith(" const") and not inner.endswith("* const") or inner.endswith("*const")


def split_params(fid):
    """parameter type strings of a function id"""
    s = fid.split("@")[0]
    s = s[:-6] if s.endswith(" const") else s
    if not s.endswith(")"):
        return []
    # find matching '(' of last ')'
    d = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == ")":
            d += 1
        elif s[i] == "(":
            d -= 1
            if d == 0:
                break
    inner = s[i + 1:-1]
    out, d, cur = [], 0, ""
    for ch in inner:
        if ch in "(<[":
            d += 1
        elif ch in ")>]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


# external functions that do not write through a (formally) non-const pointer
EXT_PURE = re.compile(r"^(std::)?(abs|fabs|sqrt|pow|exp|log|sin|cos|tan|cexp|strlen|strcmp|strncmp|atoi|atof|strtol|strtod|getenv|"
                      r"printf|fprintf|operator<<|operator==|operator!=|operator<|max|min|floor|ceil|isnan|isinf|omp_.*|"
                      r"fftw_destroy_plan|fclose|free|close|open|opendir|closedir|stat|mkdir|exit|abort|sleep|time|localtime|"
                      r"setprecision|setw|getline)$")


class Summary:
    __slots__ = ("writes", "rets", "stores", "sites")

    def __init__(self):
        self.writes = set()
        self.rets = set()
        self.stores = set()   # (dst_root, src_root)
        self.sites = {}       # root -> (node id, text) first direct write

    def key(self):
        return (len(self.writes), len(self.rets), len(self.stores))


class Effects:
    def __init__(self, prog, contracts=None):
        """contracts: fn id -> set of roots a *virtual* call to it is assumed not to write"""
        self.p = prog
        self.sum = {i: Summary() for i in prog.fns}
        self.contracts = contracts or {}
        self._msg = {}
        self.solve()

    def solve(self):
        changed = True
        rounds = 0
        todo = set(self.p.fns)
        # dependency: callee -> callers
        dep = defaultdict(set)
        for f in self.p.fns.values():
            for x, n in enumerate(f.nodes):
                if n is None:
                    continue
                if n["k"] == "Call":
                    for g in self.p.callees(f, x):
                        dep[g.id].add(f.id)
                elif n["k"] == "Construct":
                    dep[n["f"]].add(f.id)
        while todo and rounds < 60:
            rounds += 1
            nxt = set()
            for i in sorted(todo):
                f = self.p.fns[i]
                old = self.sum[i].key()
                self.analyse(f)
                if self.sum[i].key() != old:
                    nxt |= dep[i]
                    nxt.add(i) if i in dep[i] else None
            todo = nxt
        self.rounds = rounds

    # -------------------------------------------------------------
    def analyse(self, f):
        s = self.sum[f.id]
        env = defaultdict(set)
        pidx = {v: k for k, v in enumerate(f.params)}
        for it in range(6):
            before = sum(len(v) for v in env.values()), s.key()
            self._pass(f, s, env, pidx)
            if (sum(len(v) for v in env.values()), s.key()) == before:
                break
        return env

    def env(self, f):
        return self.analyse(f)

    def roots(self, f, env, pidx, i):
        if i is None or i < 0:
            return set()
        n = f.nodes[i]
        k = n["k"]
        c = n.get("c", ())
        R = lambda j: self.roots(f, env, pidx, j)
        if k == "This":
            return {"this"}
        if k == "Ref":
            d = n["d"]
            if d.startswith("%"):
                L = f.locals[d]
                t = L["t"]
                if d in pidx:
                    if is_ptr(t):
                        return {"p%d" % pidx[d]} | env[d]
                    return {"l:" + d} | env[d]
                if L.get("s"):
                    return {"g:" + f.id + "/" + d} | env[d]
                if is_ptr(t) and not t.strip().endswith("]"):
                    return set(env[d])
                return {"l:" + d} | env[d]
            return {"g:" + d}
        if k == "Member":
            if self.is_message(n.get("t", "")):
                return {"fresh"}     # cached protobuf header: derived bookkeeping, not the object's data
            return R(c[0]) if c else set()
        if k in ("Un", "Index", "Cast"):
            return R(c[0]) if c else set()
        if k == "Cond":
            return R(c[1]) | R(c[2])
        if k == "Assign":
            return R(c[0])
        if k == "Bin":
            if n["op"] == ",":
                return R(c[1])
            o = set()
            for x in c:
                if is_ptr(f.ty(x)):
                    o |= R(x)
            return o
        if k == "New":
            o = {"fresh"}
            for x in c:
                if x >= 0 and f.nodes[x]["k"] == "Construct":
                    o |= {r for r in R(x)}
            return o
        if k == "Construct":
            o = set()
            g = self.sum.get(n["f"])
            if g is None:
                if n.get("copy") or n["cls"].startswith("std::"):
                    return o
                for x in c:
                    if is_ptr(f.ty(x)):
                        o |= R(x)
                return o
            for (d, sr) in g.stores:
                if d == "this" and sr.startswith("p"):
                    kk = int(sr[1:])
                    if kk < len(c):
                        o |= R(c[kk])
            return o
        if k == "Call":
            return self.call_ret(f, env, pidx, i)
        if k == "InitList":
            o = set()
            for x in c:
                o |= R(x)
            return o
        return set()

    def is_message(self, t):
        t = t.replace("const ", "").strip(" &*")
        if t not in self._msg:
            self._msg[t] = t in self.p.messages or t == "QDLIB::ParamContainer"
        return self._msg[t]

    def bind(self, f, env, pidx, i, root):
        """caller roots designated by callee root at call node i"""
        n = f.nodes[i]
        if root == "this":
            if n["k"] == "Construct":
                return {"constructed"}
            if n.get("m"):
                return self.roots(f, env, pidx, n["c"][0])
            return set()
        if root.startswith("p") and root[1:].isdigit():
            a = list(n["c"]) if n["k"] == "Construct" else f.args(i)
            k = int(root[1:])
            return self.roots(f, env, pidx, a[k]) if k < len(a) else set()
        if root.startswith("g:") or root == "fresh":
            return {root}
        return set()

    def call_ret(self, f, env, pidx, i):
        n = f.nodes[i]
        t = n.get("t", "")
        gs = self.p.callees(f, i)
        out = set()
        if gs:
            for g in gs:
                for r in self.sum[g.id].rets:
                    out |= self.bind(f, env, pidx, i, r)
            return out
        # external: pointer/reference results may designate the receiver or the pointer arguments
        if n.get("op") in ("[]", "*", "->", "=", "+=", "-=", "*=", "/=", "<<", ">>", "++", "--"):
            return self.roots(f, env, pidx, n["c"][0]) if n["c"] else set()
        if n.get("m"):
            return self.roots(f, env, pidx, n["c"][0])
        for x in f.args(i):
            if is_ptr(f.ty(x)):
                out |= self.roots(f, env, pidx, x)
        return out

    def write(self, s, roots, f, i):
        for r in roots:
            if r.startswith("l:") or r in ("fresh", "constructed"):
                continue
            if r not in s.writes:
                s.writes.add(r)
                s.sites[r] = i

    def lhs_write(self, f, s, env, pidx, l, at):
        n = f.nodes[l]
        k = n["k"]
        if k == "Ref":
            d = n["d"]
            if d.startswith("%"):
                t = f.locals[d]["t"]
                if is_ref(t):
                    self.write(s, self.roots(f, env, pidx, l), f, at)
                elif f.locals[d].get("s"):
                    self.write(s, {"g:" + f.id + "/" + d}, f, at)
                return
            self.write(s, {"g:" + d}, f, at)
            return
        if k in ("Member", "Index", "Un", "Call", "Cast", "Cond"):
            if k == "Cond":
                for x in n["c"][1:]:
                    self.lhs_write(f, s, env, pidx, x, at)
                return
            self.write(s, self.roots(f, env, pidx, l), f, at)
            return
        if k == "Assign":
            self.lhs_write(f, s, env, pidx, n["c"][0], at)

    def store(self, f, s, env, pidx, l, r):
        """pointer value of expression r stored into lvalue l"""
        n = f.nodes[l]
        rr = self.roots(f, env, pidx, r)
        if n["k"] == "Ref" and n["d"].startswith("%") and not is_ref(f.locals[n["d"]]["t"]):
            env[n["d"]] |= rr
            return
        lr = self.roots(f, env, pidx, l)
        for a in lr:
            if a.startswith("l:"):
                env[a[2:]] |= {x for x in rr if x != a}
                continue
            for b in rr:
                if a != b and b not in ("fresh",) and not b.startswith("l:"):
                    s.stores.add((a, b))

    def _pass(self, f, s, env, pidx):
        for io in f.raw["inits"]:
            if io["e"] < 0:
                continue
            if io.get("field") and is_ptr(f.ty(io["e"])) and not f.ty(io["e"]).endswith("]"):
                for b in self.roots(f, env, pidx, io["e"]):
                    if b not in ("fresh", "this") and not b.startswith("l:"):
                        s.stores.add(("this", b))
            elif f.nodes[io["e"]]["k"] == "Construct":
                for b in self.roots(f, env, pidx, io["e"]):
                    if b.startswith("p") or b.startswith("g:"):
                        s.stores.add(("this", b))
        for i in f.walk():
            n = f.nodes[i]
            k = n["k"]
            c = n.get("c", ())
            if k == "Var":
                if c:
                    t = n.get("t", "")
                    if is_ptr(t):
                        env[n["d"]] |= self.roots(f, env, pidx, c[0])
                    elif f.nodes[c[0]]["k"] in ("Construct", "Call"):
                        env[n["d"]] |= {x for x in self.roots(f, env, pidx, c[0]) if x.startswith(("p", "this", "g:"))} if self.may_hold(t) else set()
            elif k == "Assign":
                self.lhs_write(f, s, env, pidx, c[0], i)
                if is_ptr(f.ty(c[0])) or is_ptr(f.ty(c[1])):
                    self.store(f, s, env, pidx, c[0], c[1])
            elif k == "Un" and n["op"] in ("++", "--"):
                self.lhs_write(f, s, env, pidx, c[0], i)
            elif k == "Delete":
                self.write(s, self.roots(f, env, pidx, c[0]), f, i)
            elif k == "Return":
                if c and (is_ptr(f.raw["ret"])):
                    for r in self.roots(f, env, pidx, c[0]):
                        if not r.startswith("l:"):
                            s.rets.add(r)
            elif k in ("Call", "Construct"):
                self.call(f, s, env, pidx, i)

    def may_hold(self, t):
        return t in self.p.recs

    def call(self, f, s, env, pidx, i):
        n = f.nodes[i]
        if n["k"] == "Construct":
            gs = [self.p.fns[n["f"]]] if n["f"] in self.p.fns else []
        else:
            gs = self.p.callees(f, i)
        con = self.contracts.get(n.get("f"), ())
        if gs:
            for g in gs:
                sg = self.sum[g.id]
                for r in list(sg.writes):
                    if r in con:
                        continue
                    self.write(s, self.bind(f, env, pidx, i, r), f, i)
                for (a, b) in list(sg.stores):
                    ra = self.bind(f, env, pidx, i, a)
                    rb = self.bind(f, env, pidx, i, b)
                    for x in ra:
                        if x == "constructed":
                            continue
                        if x.startswith("l:"):
                            env[x[2:]] |= {y for y in rb if y != x}
                        else:
                            for y in rb:
                                if x != y and y != "fresh" and not y.startswith("l:") and y != "constructed":
                                    s.stores.add((x, y))
            return
        if n["k"] == "Construct":
            return
        fid = n.get("f")
        if fid is None:
            # call through a pointer: assume it may write every non-const pointer argument
            for x in f.args(i):
                t = f.ty(x)
                if is_ptr(t) and not const_target(t):
                    self.write(s, self.roots(f, env, pidx, x), f, i)
            return
        if n.get("m"):
            if not fid.split("@")[0].endswith(" const") and n.get("fn") not in ("begin", "end", "c_str", "str", "find", "size"):
                # external non-const method (std containers, streams, ...) or a pure virtual without definition
                if n.get("cls", "").startswith("std::") or n.get("cls") not in self.p.recs:
                    self.write(s, self.roots(f, env, pidx, n["c"][0]), f, i)
        q = n.get("q", "")
        if EXT_PURE.match(q):
            return
        if q in ("operator<<", "std::operator<<"):
            return
        pts = split_params(fid)
        for x, t in zip(f.args(i), pts):
            if is_ptr(t) and not const_target(t):
                self.write(s, self.roots(f, env, pidx, x), f, i)
