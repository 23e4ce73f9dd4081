"""C10: what is written can be read back: writer and reader agree on layout, header fields, encodings and keys."""
import re
from ..prog import short
from ..extract import AnalysisBroken

ID = "C10"
DESC = ("Symbolic I/O scripts: for every class with Serialize/DeSerialize, and for the intro and header of the container format, the sequence of "
        "stream operations of each normal path (loops taken zero or once, helpers that take the stream inlined) is extracted from the CFG with "
        "the width and origin of each value written and the width and use of each value read; each writer sequence must be accepted by a "
        "reader sequence element by element (width, kind, member restored, element count used to allocate, byte counts) and vice versa. "
        "Header fields consulted when reading must be set on every path before the header is encoded. For each compression method the "
        "functions are partially evaluated to compare the encoding applied, the tag stored and the decoding chosen. Keys read from metadata "
        "must be keys written.")

STREAM = re.compile(r"std::basic_(io|i|o|if|of|string|f|istring|ostring)?stream<char>|std::basic_ios")
COUNTS = {"size", "lsize", "rows", "cols", "dims", "Size"}


def strip(f, x):
    while x is not None and x >= 0 and f.nodes[x]["k"] == "Cast" and f.nodes[x].get("c"):
        x = f.nodes[x]["c"][0]
    return x


class Frame:
    """a function under a call string: parameters resolve to the caller's argument expressions"""
    def __init__(self, f, args=None, up=None):
        self.f, self.args, self.up = f, args or {}, up
        self.defs = {}
        for i, n in enumerate(f.nodes):
            if n is None:
                continue
            if n["k"] == "Var" and n.get("c"):
                self.defs.setdefault(n["d"], []).append(n["c"][0])
            elif n["k"] == "Assign" and n["op"] == "=":
                l = strip(f, n["c"][0])
                if f.nodes[l]["k"] == "Ref":
                    self.defs.setdefault(f.nodes[l]["d"], []).append(n["c"][1])

    def resolve(self, x, depth=0):
        """follow parameters, references and single definitions: (frame, node)"""
        x = strip(self.f, x)
        n = self.f.nodes[x]
        if n["k"] == "Ref" and depth < 8:
            d = n["d"]
            if d in self.args and self.up:
                return self.up.resolve(self.args[d], depth + 1)
            if d.startswith("%") and d not in self.f.params and len(self.defs.get(d, ())) == 1:
                g = self.defs[d][0]
                m = self.f.nodes[strip(self.f, g)]
                if m["k"] in ("Call", "Member", "Ref", "Bin", "Sizeof", "Int", "New", "Un", "Str") or "v" in m or (
                        m["k"] == "Construct" and "basic_string<" in m.get("cls", "") and m.get("c")):
                    return self.resolve(g, depth + 1)
        return self, x

    def text(self, x, depth=0):
        """canonical text with locals and parameters replaced by what they stand for"""
        fr, y = self.resolve(x)
        f = fr.f
        n = f.nodes[y]
        c = n.get("c", ())
        if depth > 10:
            return "..."
        if n["k"] == "Call":
            nm = n.get("fn") or n.get("op") or "?"
            b = ""
            args = list(c)
            if n.get("m") and c:
                b = fr.text(c[0], depth + 1)
                args = c[1:]
            b = "" if b == "this" else b + "."
            return b + nm + "(" + ",".join(fr.text(a, depth + 1) for a in args) + ")"
        if n["k"] == "Member":
            b = fr.text(c[0], depth + 1) if c else ""
            return n["n"] if b == "this" else b + "." + n["n"]
        if n["k"] == "Un" and n["op"] in ("&", "*"):
            return fr.text(c[0], depth + 1)
        if n["k"] == "Bin":
            return fr.text(c[0], depth + 1) + n["op"] + fr.text(c[1], depth + 1)
        if n["k"] == "Sizeof":
            return str(n.get("v", "sizeof"))
        if n["k"] == "This":
            return "this"
        return f.txt(y)


class Op:
    def __init__(self, kind, fr, node, **kw):
        self.kind, self.fr, self.node = kind, fr, node
        self.__dict__.update(kw)

    def where(self):
        return self.fr.f.where(self.node)

    def __repr__(self):
        return "%s%s" % (self.kind, {k: v for k, v in self.__dict__.items() if k not in ("kind", "fr", "node")})


class Scripts:
    def __init__(self, prog):
        self.p = prog

    def width(self, fr, lenx, ptr):
        """(bytes or None, text)"""
        f2, y = fr.resolve(lenx)
        n = f2.f.nodes[y]
        if "cv" in n:
            return n["cv"], str(n["cv"])
        if n["k"] == "Int" or n["k"] == "Sizeof":
            return n.get("v"), str(n.get("v"))
        return None, f2.text(y)

    def op(self, fr, e):
        """the stream operation of call e, if it is one"""
        f = fr.f
        n = f.nodes[e]
        fn = n.get("fn")
        args = f.args(e)
        if n.get("m") and fn in ("write", "read") and STREAM.search(n.get("cls", "")) and len(args) == 2:
            rd = fn == "read"
            w, wt = self.width(fr, args[1], args[0])
            f2, y = fr.resolve(args[0])
            m = f2.f.nodes[y]
            if m["k"] == "Un" and m["op"] == "&":
                t = strip(f2.f, m["c"][0])
                tn = f2.f.nodes[t]
                if tn["k"] == "Ref" or tn["k"] == "Member":
                    return Op("scalar", f2, e, at=fr, rd=rd, width=w, wtext=wt, var=t, ty=f2.f.ty(t))
            if m["k"] == "Call" and m.get("fn") == "begin":
                return Op("data", fr, e, rd=rd, at=fr, base=f2.text(y), width=w, wtext=wt, lenx=args[1])
            msg = None if rd else self.encoded(f2, y)
            if msg is not None:
                return Op("message", fr, e, rd=False, at=fr, base=msg)
            return Op("bytes", fr, e, rd=rd, at=fr, base=f2.text(y), width=w, wtext=wt, lenx=args[1], ptr=args[0])
        if n.get("m") and fn in ("SerializeToOstream", "SerializePartialToOstream"):
            return Op("message", fr, e, rd=False, at=fr, base=fr.text(f.recv(e)))
        if n.get("m") and fn in ("ParseFromArray", "ParseFromIstream", "ParseFromString"):
            return Op("message", fr, e, rd=True, at=fr, base=fr.text(f.recv(e)), arr=fn != "ParseFromIstream", lenx=args[1] if len(args) > 1 else None)
        return None

    def encoded(self, fr, y):
        """the message whose encoding the text at y holds, if it is one"""
        f = fr.f
        n = f.nodes[y]
        if n["k"] == "Call" and n.get("fn") in ("data", "c_str") and n.get("c"):
            fr, y = fr.resolve(n["c"][0])
            f = fr.f
            n = f.nodes[y]
            if n["k"] == "Call" and n.get("fn") == "SerializeAsString":
                return fr.text(f.recv(y))
            if n["k"] == "Ref":
                for x, m in f.calls():
                    if m.get("fn") == "SerializeToString" and any(f.nodes[z].get("d") == n["d"] for a in f.args(x) for z in f.walk(a)):
                        return fr.text(f.recv(x))
        return None

    def paths(self, fr, depth=0):
        """set of op tuples over the normal paths of fr.f"""
        f = fr.f
        if depth > 6:
            return [()]
        memo = {}

        def block_ops(b):
            """list of alternatives"""
            alts = [()]
            for e in b["e"]:
                n = f.nodes[e]
                if n["k"] not in ("Call",):
                    continue
                o = self.op(fr, e)
                if o is not None:
                    alts = [a + (o,) for a in alts]
                    continue
                for g in self.p.callees(f, e):
                    if not g.blocks or g.impl:
                        continue
                    args = f.args(e)
                    if any(STREAM.search(f.ty(a) or "") for a in args) or (n.get("m") and f.recv(e) is not None and f.nodes[f.recv(e)]["k"] == "This"
                                                                          and self.does_io(g)):
                        if not self.does_io(g):
                            continue
                        if g.name in ("Serialize", "DeSerialize") and g.cls != f.cls:
                            alts = [a + (Op("object", fr, e, at=fr, rd=g.name == "DeSerialize"),) for a in alts]
                            break
                        env = {g.params[j]: args[j] for j in range(min(len(args), len(g.params)))}
                        sub = self.paths(Frame(g, env, fr), depth + 1)
                        alts = [a + s for a in alts for s in sub][:200]
                        break
            return alts

        out = set()
        res = []
        stack = [(f.entry, (), {})]
        n = 0
        while stack:
            bi, ops, seen = stack.pop()
            n += 1
            if n > 6000:
                raise AnalysisBroken("too many paths in " + f.id)
            if bi == f.exit:
                k = tuple((id(o.fr.f), o.node, tuple(sorted(o.at.args.items()))) for o in ops)
                if k not in out:
                    out.add(k)
                    res.append(ops)
                continue
            b = f.blocks[bi]
            if f.is_abrupt(b):
                continue
            if bi not in memo:
                memo[bi] = block_ops(b)
            for a in memo[bi]:
                for s in b["s"]:
                    if s is None or s < 0 or seen.get(s, 0) >= 2:
                        continue
                    stack.append((s, ops + a, {**seen, s: seen.get(s, 0) + 1}))
        return res

    def does_io(self, g, seen=None):
        if not hasattr(self, "_io"):
            self._io = {}
        if g.id in self._io:
            return self._io[g.id]
        self._io[g.id] = False
        r = False
        for x, n in g.calls():
            if n.get("m") and n.get("fn") in ("write", "read") and STREAM.search(n.get("cls", "")):
                r = True
                break
            if n.get("fn") in ("SerializeToOstream", "ParseFromArray", "ParseFromIstream", "ParseFromString"):
                r = True
                break
            if any(self.does_io(h) for h in self.p.callees(g, x) if h.blocks and h.file.startswith("src/")):
                r = True
                break
        self._io[g.id] = r
        return r

    # ---- what happens to a value read into a local
    def sinks(self, o):
        """members assigned, and roles: 'alloc' (newsize argument), 'len' (length of a later read)"""
        fr = o.fr
        f = fr.f
        tn = f.nodes[o.var]
        if tn["k"] == "Member":
            return {fr.text(o.var)}, set()
        v = tn["d"]
        mem, roles = set(), set()
        vs = {v}
        for _ in range(3):
            for i, n in enumerate(f.nodes):
                if n is not None and n["k"] == "Var" and n.get("c") and any(
                        f.nodes[y]["k"] == "Ref" and f.nodes[y]["d"] in vs for y in [strip(f, n["c"][0])]):
                    vs.add(n["d"])
        for i, n in enumerate(f.nodes):
            if n is None:
                continue
            uses = lambda x: mentions(f, x, vs)
            if n["k"] == "Assign" and n["op"] == "=" and uses(n["c"][1]):
                l = strip(f, n["c"][0])
                if f.nodes[l]["k"] == "Member":
                    mem.add(fr.text(l))
            if n["k"] == "Call" and n.get("fn") in ("newsize", "resize") and any(uses(a) for a in f.args(i)):
                roles.add("alloc")
                for a in f.args(i):
                    if uses(a) and f.nodes[strip(f, a)]["k"] != "Ref":
                        roles.add("alloc-inexact")
            if n["k"] == "Call" and n.get("fn") in ("read", "ParseFromArray") and len(f.args(i)) == 2 and uses(f.args(i)[1]):
                roles.add("len")
            if n["k"] == "Call" and f.args(i) and n.get("m") and n.get("fn") not in ("read", "newsize", "resize") and any(uses(a) for a in f.args(i)):
                mem.add("call:" + (n.get("fn") or n.get("op") or "?"))
        return mem, roles


def mentions(f, x, vs):
    n = f.nodes[x]
    if n["k"] == "Sizeof":
        return False
    if n["k"] == "Ref" and n["d"] in vs:
        return True
    return any(y >= 0 and mentions(f, y, vs) for y in n.get("c", ()))


def kindof(t):
    t = (t or "").replace("const ", "").strip()
    return "floating point" if t in ("double", "float", "long double") else "integer" if re.fullmatch(r"(unsigned |signed )?(int|long|long long|short|char|bool)|unsigned|u?int\d+(_t)?|size_t", t) else None


def merge(W, R):
    """a block of fixed size on one side stands for several fixed size items on the other"""
    def one(A, B):
        out, i, j = [], 0, 0
        while j < len(B):
            b = B[j]
            if i < len(A) and b.kind == "bytes" and b.width is not None:
                k, t = i, 0
                while k < len(A) and A[k].kind in ("scalar", "bytes") and A[k].width is not None and t < b.width:
                    t += A[k].width
                    k += 1
                if t == b.width and k > i:
                    for q in range(i, k):
                        o = Op("bytes", A[q].at, A[q].node, rd=A[q].rd, at=A[q].at, base=None, width=A[q].width, wtext=A[q].wtext, lenx=None, ptr=None)
                        out.append((q, o))
                    i = k
                    j += 1
                    continue
            out.append((i, b))
            i += 1
            j += 1
        return out
    W2 = one(R, W)
    A = [o for _, o in W2]
    # the items of the other side covered by a block are compared by width only
    cov = {q for q, o in W2 if o.kind == "bytes" and o.base is None}
    B = [Op("bytes", r.at, r.node, rd=r.rd, at=r.at, base=None, width=r.width, wtext=r.wtext, lenx=None, ptr=None) if i in cov else r for i, r in enumerate(R)]
    B2 = one(A, B)
    cov2 = {q for q, o in B2 if o.kind == "bytes" and o.base is None}
    A = [Op("bytes", w.at, w.node, rd=w.rd, at=w.at, base=None, width=w.width, wtext=w.wtext, lenx=None, ptr=None)
         if i in cov2 and w.kind == "scalar" else w for i, w in enumerate(A)]
    return tuple(A), tuple(o for _, o in B2)


def match(S, W, R):
    """compare a writer's and a reader's script; returns list of (op, key, message)"""
    bad = []
    W, R = merge(W, R)
    if len(W) != len(R):
        return [(R[-1] if R else W[-1], "count", "the writer produces %d items, the reader consumes %d" % (len(W), len(R)))]
    written = {}
    for k, (w, r) in enumerate(zip(W, R)):
        if w.kind != r.kind:
            bad.append((r, "kind%d" % k, "item %d is written as %s but read as %s" % (k + 1, w.kind, r.kind)))
            continue
        if w.kind == "scalar":
            if w.width != r.width or w.width is None:
                bad.append((r, "width%d" % k, "item %d is written with %s bytes but read with %s" % (k + 1, w.wtext, r.wtext)))
                continue
            a, b = kindof(w.ty), kindof(r.ty)
            if a and b and a != b:
                bad.append((r, "type%d" % k, "item %d is written as %s but read as %s" % (k + 1, a, b)))
            of, oy = w.fr.resolve(w.var)
            org = of.text(oy)
            on = of.f.nodes[oy]
            written[k] = org
            mem, roles = S.sinks(r)
            wid = {"float": 4, "double": 8, "long double": 16}
            if wid.get((of.f.ty(oy) or "").replace("const ", ""), 0) > wid.get((w.ty or "").replace("const ", ""), 99):
                bad.append((w, "narrow%d" % k, "item %d, %s, is stored with less precision than it has" % (k + 1, org)))
            if on["k"] == "Member" and mem and not any(m.split(".")[-1] == org.split(".")[-1] for m in mem):
                bad.append((r, "member%d" % k, "item %d is the member %s but is restored into %s" % (k + 1, org, ", ".join(sorted(mem)))))
            if on["k"] == "Member" and not mem and not roles:
                bad.append((r, "dropped%d" % k, "item %d is the member %s but the reader drops it" % (k + 1, org)))
            if "alloc" in roles and on["k"] == "Call" and on.get("fn") not in COUNTS:
                bad.append((r, "alloc%d" % k, "item %d is %s but the reader allocates that many elements" % (k + 1, org)))
            if "alloc-inexact" in roles:
                bad.append((r, "allocx%d" % k, "the number of elements allocated is not the one written"))
            if "len" in roles and on["k"] == "Call" and on.get("fn") not in ("sizeBytes", "ByteSizeLong", "ByteSize", "size"):
                bad.append((r, "len%d" % k, "item %d is %s but the reader uses it as a byte count" % (k + 1, org)))
        elif w.kind in ("message",):
            if w.base.split(".")[-1] != r.base.split(".")[-1]:
                bad.append((r, "msg%d" % k, "message %s is read into %s" % (w.base, r.base)))
        elif w.kind == "bytes" and w.base is None or r.kind == "bytes" and r.base is None:
            if w.width != r.width:
                bad.append((r, "width%d" % k, "item %d is written with %s bytes but read with %s" % (k + 1, w.wtext, r.wtext)))
        elif w.kind == "data":
            if w.base != r.base:
                bad.append((r, "base%d" % k, "data written from %s is read into %s" % (w.base, r.base)))
            wl = w.at.text(w.lenx)
            rl = rlen(S, R[:k], W[:k], r)
            if wl != rl:
                bad.append((r, "dlen%d" % k, "%s bytes are written but %s bytes are read" % (wl, rl)))
    return bad


def rlen(S, before, wbefore, r):
    """length of a read; a length read from the stream stands for what the writer put there"""
    fr, y = r.at.resolve(r.lenx)
    n = fr.f.nodes[y]
    if n["k"] == "Ref":
        for b, w in zip(reversed(before), reversed(wbefore)):
            if b.kind == "scalar" and fr.f.nodes[b.var]["k"] == "Ref" and fr.f.nodes[b.var]["d"] == n["d"] and w.kind == "scalar":
                g, z = w.fr.resolve(w.var)
                return g.text(z)
    return fr.text(y)


def absorb(ops):
    """reader: bytes into a buffer followed by parsing it = message; the length must be that of the buffer"""
    out = []
    for o in ops:
        if o.kind == "message" and o.rd and getattr(o, "arr", False) and out and out[-1].kind == "bytes" and out[-1].rd:
            out.pop()
        out.append(o)
    return out


def compare(res, S, rule, name, wf, rf):
    Ws = [absorb(p) for p in S.paths(Frame(wf))]
    Rs = [absorb(p) for p in S.paths(Frame(rf))]
    Ws = [w for w in Ws if w]
    Rs = [r for r in Rs if r]
    if not Ws and not Rs:
        return 0
    if not Ws or not Rs:
        f = wf if Ws else rf
        res.bad(rule, f.short, "one-sided", f.where(), "%s: one of %s / %s transfers nothing" % (name, wf.short, rf.short))
        return 1
    n = 0
    for A, B, swap in ((Ws, Rs, False), (Rs, Ws, True)):
        for a in A:
            best = None
            for b in B:
                m = match(S, b, a) if swap else match(S, a, b)
                if best is None or len(m) < len(best):
                    best = m
            n += len(a)
            for o, key, msg in best:
                res.bad(rule, o.at.f.short, "%s:%s" % (name, key), o.where(), "%s: %s (written by %s, read by %s)" % (name, msg, wf.short, rf.short))
            if not best:
                res.ok(rule, rf.where(), "%s: %s" % (name, ", ".join(o.kind for o in a)))
    return n


def allocation(res, S, prog, f):
    """before data is read into begin() the storage has been sized in this call"""
    dom_new = [x for x, n in f.calls() if n.get("fn") in ("newsize", "resize")]
    for p in S.paths(Frame(f)):
        for o in p:
            if o.kind == "data" and o.rd:
                at = o.at.f
                # some allocation call precedes on the path
                ok = precedes(at, o.node) or (at is not f and dom_new)
                if ok:
                    res.ok("C10.allocated", o.where(), "%s: storage sized before the data is read" % f.short)
                else:
                    res.bad("C10.allocated", f.short, "newsize", o.where(), "data is read into storage that was not sized for it on some path")
    return


def precedes(f, node):
    """on every path to node a newsize/resize call has been made"""
    from ..prog import forward

    def tr(f_, e, s):
        n = f.nodes[e]
        if n["k"] == "Call" and n.get("fn") in ("newsize", "resize", "Init"):
            return True
        return s
    inb, _ = forward(f, False, tr, lambda a, b: a and b)
    for b in f.blocks.values():
        if node in b["e"] and b["i"] in inb:
            s = inb[b["i"]]
            for e in b["e"]:
                if e == node:
                    return s
                s = tr(f, e, s)
    return False


class Partial:
    """walks a function with some inputs fixed: the compression method of the writer, the tag in the header, the outcome of comparing with a literal"""
    def __init__(self, prog, env, pick):
        self.p, self.env, self.pick = prog, env, pick

    def value(self, fr, x, depth=0):
        fr, x = fr.resolve(x)
        f = fr.f
        n = f.nodes[x]
        c = n.get("c", ())
        if "cv" in n:
            return n["cv"]
        if n["k"] in ("Int", "Bool", "Enum", "Sizeof"):
            return n.get("v")
        if n["k"] == "Member":
            return self.env.get("." + n["n"])
        if n["k"] == "Call":
            k = "%s()" % n.get("fn")
            if k in self.env and n.get("cls", "").endswith("FileSingleHeader"):
                return self.env[k]
            lits = [self.literal(fr, a) for a in f.args(x)]
            lits = [l for l in lits if l is not None]
            if n.get("fn") in ("strncmp", "strcmp", "memcmp", "compare") and lits and "literal" in self.env:
                return 0 if self.env["literal"] == lits[0] else 1
            if n.get("op") in ("==", "!=") and lits and "literal" in self.env:
                return int((self.env["literal"] == lits[0]) == (n["op"] == "=="))
            if depth < 4:
                vs = set()
                for g in self.p.callees(f, x):
                    if not g.blocks:
                        return None
                    fr2 = Frame(g, {g.params[j]: a for j, a in enumerate(f.args(x)[:len(g.params)])}, fr)
                    for _, rv in self.run(fr2, depth + 1):
                        vs.add(rv)
                if len(vs) == 1:
                    return vs.pop()
            return None
        if n["k"] == "Un" and n["op"] == "!":
            v = self.value(fr, c[0], depth)
            return None if v is None else int(not v)
        if n["k"] == "Bin":
            a = self.value(fr, c[0], depth)
            if n["op"] == "&&" and a is not None and not a:
                return 0
            if n["op"] == "||" and a:
                return 1
            b = self.value(fr, c[1], depth)
            if a is None or b is None:
                return None
            try:
                return {"==": lambda: int(a == b), "!=": lambda: int(a != b), "<": lambda: int(a < b), ">": lambda: int(a > b), "<=": lambda: int(a <= b),
                        ">=": lambda: int(a >= b), "&&": lambda: int(bool(a and b)), "||": lambda: int(bool(a or b)), "+": lambda: a + b,
                        "-": lambda: a - b}[n["op"]]()
            except KeyError:
                return None
        if n["k"] == "Cond":
            v = self.value(fr, c[0], depth)
            if v is not None:
                return self.value(fr, c[1] if v else c[2], depth)
        return None

    def literal(self, fr, x):
        fr, x = fr.resolve(x)
        n = fr.f.nodes[x]
        if n["k"] == "Str":
            return n["v"]
        if n["k"] in ("Call", "Construct") and n.get("c"):
            if n["k"] == "Construct" and len(n["c"]) <= 2 or n.get("fn") in ("c_str", "data"):
                return self.literal(fr, n["c"][0])
        return None

    def run(self, fr, depth=0):
        """[(events, return value)] over the normal paths; an event is (what, frame, node)"""
        f = fr.f
        raw = {b["i"]: b for b in f.raw["cfg"]["blocks"]}
        out = {}
        seen = set()
        st = [(f.entry, (), None)]
        memo = {}
        while st:
            bi, ev, ret = st.pop()
            key = (bi, tuple((w, id(g.f), x) for w, g, x in ev), ret)
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 4000:
                raise AnalysisBroken("too many paths in " + f.id)
            b = f.blocks[bi]
            if bi == f.exit:
                out[(tuple((w, id(g.f), x) for w, g, x in ev), ret)] = (ev, ret)
                continue
            if f.is_abrupt(b):
                continue
            if bi not in memo:
                memo[bi] = self.block(fr, b, depth)
            for ev2 in memo[bi]:
                e2 = ev + tuple(x for x in ev2 if x not in ev)
                r2 = ret
                for x in b["e"]:
                    if f.nodes[x]["k"] == "Return" and f.nodes[x].get("c"):
                        r2 = self.value(fr, f.nodes[x]["c"][0], depth)
                t = b.get("t", -1)
                tk = f.nodes[t]["k"] if t is not None and t >= 0 and f.nodes[t] else None
                succs = [s for s in b["s"] if s is not None and s >= 0]
                if tk == "Switch":
                    v = self.value(fr, f.nodes[t]["cond"], depth)
                    if v is not None:
                        case, dflt = [], []
                        for s in succs:
                            l = raw[s].get("label") if s in raw else None
                            if l is not None and f.nodes[l]["k"] == "Case":
                                if f.nodes[l]["v"] == v:
                                    case.append(s)
                            else:
                                dflt.append(s)
                        succs = case or dflt
                elif "tc" in b and len(b["s"]) == 2:
                    c = b["tc"]
                    while f.nodes[c]["k"] == "Bin" and f.nodes[c]["op"] in ("&&", "||") and b["e"] and b["e"][-1] in set(f.walk(f.nodes[c]["c"][1])):
                        c = f.nodes[c]["c"][1]
                    if f.nodes[c]["k"] == "Bin" and f.nodes[c]["op"] in ("&&", "||"):
                        v = self.value(fr, f.nodes[c]["c"][0], depth)
                    else:
                        v = self.value(fr, c, depth)
                    if v is not None:
                        succs = [b["s"][0 if v else 1]]
                        succs = [s for s in succs if s is not None and s >= 0]
                for s in succs:
                    st.append((s, e2, r2))
        return list(out.values())

    def block(self, fr, b, depth):
        f = fr.f
        alts = [()]
        for e in b["e"]:
            n = f.nodes[e]
            w = self.pick(fr, e)
            if w is not None:
                alts = [a + ((w, fr, e),) for a in alts]
                continue
            if n["k"] == "Call" and depth < 4:
                for g in self.p.callees(f, e):
                    if g.blocks and (g.cls == f.cls or (not g.cls and g.file == f.file) or g.cls == "QDLIB::FileSingleHeaderPm") and g.id != f.id:
                        fr2 = Frame(g, {g.params[j]: a for j, a in enumerate(f.args(e)[:len(g.params)])}, fr)
                        sub = [ev for ev, _ in self.run(fr2, depth + 1)]
                        uniq = {tuple((w, id(q.f), x) for w, q, x in ev): ev for ev in sub}
                        alts = [a + s for a in alts for s in uniq.values()][:100]
                        break
        return alts


CODEC = {"deflate": "zlib", "BZ2_bzCompress": "bzip2", "inflate": "zlib", "BZ2_bzDecompress": "bzip2", "compress": "zlib", "uncompress": "zlib"}


def codec(fr, e):
    n = fr.f.nodes[e]
    if n["k"] == "Construct" and re.search(r"::Gzip(Out|In)putStream$", n.get("cls", "")):
        return "gz"
    if n["k"] == "Call" and n.get("fn") in CODEC:
        return CODEC[n["fn"]]
    if n["k"] == "Call" and n.get("fn") == "set_compression":
        return "tag"
    if n["k"] == "Call" and n.get("m") and n.get("fn") == "write" and STREAM.search(n.get("cls", "")):
        return "write"
    if n["k"] == "Call" and n.get("m") and n.get("fn") == "read" and STREAM.search(n.get("cls", "")):
        return "read"
    if n["k"] == "Call" and n.get("m") and n.get("fn") in ("Serialize", "DeSerialize"):
        return n["fn"]
    if any(fr.f.nodes[y]["k"] == "Str" for y in fr.f.nodes[e].get("c", ()) if y >= 0) and (n["k"] == "Call" and n.get("op") == "=" or n["k"] == "Construct"
                                                                                         and "basic_string" in n.get("cls", "")):
        return "literal"
    return None


def scheme(ev):
    s = {w for w, _, _ in ev if w in ("gz", "zlib", "bzip2")}
    return "+".join(sorted(s)) or "plain"


def enumerators(prog, cls):
    for k, e in prog.enums.items():
        if k.startswith(cls + "::compMethod_t"):
            return {c["n"]: c["v"] for c in e["consts"]}
    return {}


def compression(res, prog, cls, ms, anyms):
    """encoding applied / tag or mark stored / decoding chosen, per compression method"""
    enums = enumerators(prog, cls)
    hdr = {}
    for f in prog.fns.values():
        for n in f.nodes:
            if n is None:
                continue
            if n["k"] == "Enum" and n["d"].startswith("QDLIB::FileSingleHeader_Compression_"):
                hdr[n["v"]] = n["d"].split("_")[-1]
    n = 0
    get = lambda nm: ms.get(nm) or anyms.get(nm)

    def tags(f, env):
        out = set()
        for ev, _ in Partial(prog, env, codec).run(Frame(f)):
            t = [(fr, x) for w, fr, x in ev if w == "tag"]
            if t:
                fr, x = t[-1]
                out.add(Partial(prog, env, codec).value(fr, fr.f.args(x)[0]))
        return out

    for name, v in sorted(enums.items()):
        env = {"._compMethod": v}
        # stream format
        a, b, c = get("PrepareStreamPayload"), get("WriteMetaToStream"), get("ReadDataFromStream")
        if a and b and c:
            enc = {scheme(ev) for ev, _ in Partial(prog, env, codec).run(Frame(a))}
            tg = tags(b, env)
            if enc and tg and None not in tg and len(enc) == 1:
                e = enc.pop()
                for t in tg:
                    # a payload exists, so size checks are true
                    dec = {scheme(ev) for ev, _ in Partial(prog, {"compression()": t, "payload_size()": 1}, codec).run(Frame(c))}
                    n += 1
                    if dec == {e}:
                        res.ok("C10.compression", b.where(), "%s stream %s: %s payload, tag %s, read as %s" % (short(cls), name, e, hdr.get(t, t), e))
                    else:
                        res.bad("C10.compression", b.short, "stream:" + name, b.where(), "with method %s the payload is written as %s and tagged %s, "
                                "which is read as %s" % (name, e, hdr.get(t, t), "/".join(sorted(dec)) or "nothing"))
            elif enc and len(enc) > 1:
                res.bad("C10.compression", a.short, "stream:" + name, a.where(), "with method %s the payload is encoded differently on different paths (%s)"
                        % (name, ", ".join(sorted(enc))))
        # raw format
        a, b, d, r = get("PrepareData"), get("WriteDataToRaw"), get("DetectCompressionInPayload"), get("ReadDataFromRaw")
        if a and b and d and r:
            enc = {scheme(ev) for ev, _ in Partial(prog, env, codec).run(Frame(a))}
            if len(enc) != 1:
                if enc:
                    res.bad("C10.compression", a.short, "raw:" + name, a.where(), "with method %s the data is encoded differently on different paths (%s)"
                            % (name, ", ".join(sorted(enc))))
                continue
            e = enc.pop()
            marks = set()
            for ev, _ in Partial(prog, env, codec).run(Frame(b)):
                marks.add(mark(prog, env, ev))
            cmp_ = [(x, lit) for x, lit in compared(prog, d)]
            width = {fr_w for fr_w in readwidth(prog, d)}
            for m in marks:
                lit, ln = m if m else (None, None)
                tg = tags(d, {"literal": lit})
                for t in tg:
                    if t is None:
                        continue
                    dec = {scheme(ev) for ev, _ in Partial(prog, {"compression()": t}, codec).run(Frame(r))}
                    n += 1
                    if dec != {e}:
                        res.bad("C10.compression", b.short, "raw:" + name, b.where(), "with method %s the data is written as %s with %s, which is read as %s"
                                % (name, e, "the mark '%s'" % lit if lit else "no mark", "/".join(sorted(dec)) or "nothing"))
                    elif lit and ln is not None and len(width) == 1 and ln != list(width)[0]:
                        res.bad("C10.compression", b.short, "rawlen:" + name, b.where(), "the mark '%s' is written with %d bytes but %d are read back"
                                % (lit, ln, list(width)[0]))
                    else:
                        res.ok("C10.compression", b.where(), "%s raw %s: %s, %s, tag %s" % (short(cls), name, e, "mark '%s'" % lit if lit else "no mark", hdr.get(t, t)))
    return n


def compared(prog, d):
    P = Partial(prog, {"literal": None}, codec)
    out = []
    for x, n in d.calls():
        if n.get("fn") in ("strncmp", "strcmp", "memcmp", "compare") or n.get("op") == "==":
            for a in d.args(x):
                l = P.literal(Frame(d), a)
                if l is not None:
                    out.append((x, l))
    return out


def readwidth(prog, d):
    out = set()
    P = Partial(prog, {"literal": None}, codec)
    for ev, _ in P.run(Frame(d)):
        for w, fr, x in ev:
            if w == "read":
                v = P.value(fr, fr.f.args(x)[1])
                if v is not None:
                    out.add(v)
    return out


def mark(prog, env, ev):
    """(literal, bytes written) of the mark appended to the data on this path"""
    P = Partial(prog, env, codec)
    cur = {}
    last = None
    for w, fr, x in ev:
        f = fr.f
        n = f.nodes[x]
        if w == "literal":
            lit = [f.nodes[y]["v"] for y in n["c"] if f.nodes[y]["k"] == "Str"][0]
            if n["k"] == "Call":
                d = f.nodes[strip(f, n["c"][0])].get("d")
            else:
                d = next((m["d"] for m in f.nodes if m is not None and m["k"] == "Var" and x in m.get("c", ())), None)
            cur[d] = lit
        elif w == "write":
            a = f.args(x)
            lit = P.literal(fr, a[0])
            g, y = fr.resolve(a[0])
            if lit is None:
                for z in g.f.walk(y):
                    if g.f.nodes[z].get("d") in cur:
                        lit = cur[g.f.nodes[z]["d"]]
            if lit is not None:
                last = (lit, length(P, fr, a[1], lit))
    return last


def length(P, fr, x, lit):
    fr, x = fr.resolve(x)
    f = fr.f
    n = f.nodes[x]
    if n["k"] == "Bin" and n["op"] in ("+", "-"):
        a, b = length(P, fr, n["c"][0], lit), length(P, fr, n["c"][1], lit)
        return None if a is None or b is None else a + b if n["op"] == "+" else a - b
    if n["k"] == "Call" and n.get("fn") in ("size", "length", "strlen"):
        return len(lit)
    return P.value(fr, x)


def header(res, prog, cls, ms):
    """every header field consulted when reading is set on every path before the header is encoded; payload size is that of what is written"""
    wm = ms.get("WriteMetaToStream")
    if wm is None:
        return 0
    need = {}
    setters = set()
    for f in prog.fns.values():
        for x, n in f.calls():
            if n.get("cls") == "QDLIB::FileSingleHeader" and f.cls != "QDLIB::FileSingleHeader" and not f.file.endswith((".pb.h", ".pb.cc")):
                fn = n.get("fn", "")
                if fn.startswith("set_"):
                    setters.add(fn[4:])
                elif f.name != "WriteMetaToStream" and (f.cls or "").startswith(("QDLIB::FileSingle", "QDLIB::FileWF")):
                    need.setdefault(re.sub(r"^has_", "", fn), f.where(x))
    need = {k: v for k, v in need.items() if k in setters}

    def pick(fr, e):
        n = fr.f.nodes[e]
        if n["k"] == "Call" and n.get("m"):
            if n.get("cls") == "QDLIB::FileSingleHeader" and (n["fn"].startswith("set_") or n["fn"] == "Clear"):
                return n["fn"]
            if n.get("fn", "").startswith("Serialize") and (fr.f.ty(fr.f.recv(e)) or "").replace("const ", "").startswith("QDLIB::FileSingleHeader"):
                return "encode"
        return None
    n = 0
    missing = {}
    methods = enumerators(prog, cls)
    for v in sorted(methods.values()) or [None]:
      for ev, _ in Partial(prog, {"._compMethod": v} if v is not None else {}, pick).run(Frame(wm)):
        have = set()
        for w, fr, x in ev:
            if w == "Clear":
                have = set()
            elif w == "encode":
                for k in need:
                    if k not in have:
                        missing[k] = fr.f.where(x)
            else:
                have.add(w[4:])
    for k in sorted(need):
        n += 1
        if k in missing:
            res.bad("C10.header", wm.short, k, missing[k], "the header field %s, consulted at %s, is not set on every path before the header is encoded" % (k, need[k]))
        else:
            res.ok("C10.header", wm.where(), "%s: field %s set before the header is encoded" % (short(cls), k))
    # payload size
    for f in [g for g in prog.fns.values() if g.cls == cls and g.blocks]:
        fr = Frame(f)
        szs = [(x, f.args(x)) for x, m in f.calls() if m.get("fn") == "WriteMetaToStream"]
        dat = [(x, f.args(x)) for x, m in f.calls() if m.get("fn") == "WriteDataToStream"]
        if not szs or not dat:
            continue
        for x, a in szs:
            want = {fr.text(d[0]) + s for _, d in dat for s in (".size()", ".length()")}
            got = fr.text(a[1])
            n += 1
            if got in want:
                res.ok("C10.header", f.where(x), "%s: payload size announced is that of the data written" % f.short)
            else:
                res.bad("C10.header", f.short, "payload", f.where(x), "the payload size announced (%s) is not the size of the data written (%s)"
                        % (got, ", ".join(fr.text(d[0]) for _, d in dat)))
    return n


PC = "QDLIB::ParamContainer"


def keytext(fr, x, depth=0):
    """a key: the literal text, with anything computed replaced by *"""
    fr, x = fr.resolve(x)
    f = fr.f
    n = f.nodes[x]
    c = n.get("c", ())
    if n["k"] == "Str":
        return n["v"]
    if depth < 6:
        if n["k"] == "Construct" and c and "basic_string" in n.get("cls", ""):
            return keytext(fr, c[0], depth + 1)
        if n["k"] == "Call" and n.get("op") == "+" and len(c) == 2:
            return re.sub(r"\*+", "*", keytext(fr, c[0], depth + 1) + keytext(fr, c[1], depth + 1))
        if n["k"] == "Call" and n.get("fn") in ("c_str", "str") and c:
            return keytext(fr, c[0], depth + 1)
    return "*"


def root(fr, x):
    """the container an expression stands for: a member, or (frame, local)"""
    fr, x = fr.resolve(x)
    f = fr.f
    n = f.nodes[x]
    while n["k"] == "Un" and n["op"] in ("*", "&") and n.get("c"):
        x = strip(f, n["c"][0])
        n = f.nodes[x]
    if n["k"] == "Member":
        return "." + n["n"]
    if n["k"] == "Call" and n.get("fn") in ("Params", "params"):
        return "." + "_params"
    if n["k"] == "Ref":
        return (f.id, n["d"])
    return None


class Keys:
    def __init__(self, prog):
        self.p = prog

    def uses(self, fr, depth=0):
        """[(op, container, key, frame, node, optional)]"""
        f = fr.f
        out = []
        for x, n in f.calls():
            a = f.args(x)
            if n.get("cls") == PC and n.get("m"):
                r = root(fr, f.recv(x)) if f.recv(x) is not None else None
                if n["fn"] in ("GetValue", "SetValue", "isPresent", "GetArray", "SetArray") and a:
                    opt = n["fn"] == "GetValue" and len(a) == 3 and not (f.nodes[strip(f, a[2])]["k"] == "Default")
                    out.append((n["fn"], r, keytext(fr, a[0]), fr, x, opt))
                if n["fn"] in ("ReadFromFile", "WriteToFile") and a:
                    out.append((n["fn"], r, "".join(sorted(self.lits(fr, a[0]))), fr, x, False))
                continue
            if depth < 3:
                for g in self.p.callees(f, x):
                    if not g.blocks or g.id == f.id or not g.file.startswith("src/"):
                        continue
                    if any("ParamContainer" in (f.ty(y) or "") for y in a) or (n.get("m") and g.cls == f.cls and not g.params):
                        out += self.uses(Frame(g, {g.params[j]: y for j, y in enumerate(a[:len(g.params)])}, fr), depth + 1)
                        break
        return out

    def lits(self, fr, x, depth=0):
        fr, x = fr.resolve(x)
        f = fr.f
        n = f.nodes[x]
        if n["k"] == "Str":
            return {n["v"].strip("/")}
        out = set()
        if depth < 8 and n["k"] in ("Call", "Construct"):
            for y in n.get("c", ()):
                if y >= 0:
                    out |= self.lits(fr, y, depth + 1)
        return out


def covers(keys, k):
    if k in keys:
        return True
    return any("*" in q and re.fullmatch(re.escape(q).replace("\\*", ".*"), k.replace("*", "0")) for q in keys)


def metadata(res, prog):
    K = Keys(prog)
    n = 0
    # files: a container read from the file a program writes
    written, readers = {}, []
    for f in prog.fns.values():
        if not f.blocks or not any(m.get("cls") == PC and m.get("fn") in ("ReadFromFile", "WriteToFile") for _, m in f.calls()):
            continue
        us = K.uses(Frame(f))
        for op, r, name, fr, x, _ in us:
            m = re.search(r"Propagation", name)
            if not m:
                continue
            if op == "WriteToFile":
                ks = {k for o, r2, k, _, _, _ in us if o == "SetValue" and r2 == r}
                written.setdefault(m.group(0), []).append((f, ks))
            elif op == "ReadFromFile":
                readers.append((m.group(0), f, r, us))
    for what, f, r, us in readers:
        if what not in written:
            continue
        common = set.intersection(*[ks for _, ks in written[what]])
        guarded = {k for o, r2, k, fr, x, _ in us if o == "isPresent" and r2 == r and not required(fr.f, x)}
        need = [(k, fr, x) for o, r2, k, fr, x, opt in us if r2 == r and k not in guarded and (o == "GetValue" and not opt or o == "isPresent")]
        for k, fr, x in need:
            if k == "*":
                continue
            n += 1
            if covers(common, k):
                res.ok("C10.keys", fr.f.where(x), "%s: key '%s' is written with every %s file" % (f.short, k, what))
            else:
                miss = [g.short for g, ks in written[what] if not covers(ks, k)]
                res.bad("C10.keys", f.short, k, fr.f.where(x), "reads the key '%s' from the %s file, which %s does not write" % (k, what, ", ".join(sorted(miss))))
    # objects: parameters read when an object is initialised from its own parameters
    wr = {}
    for f in prog.fns.values():
        if not f.cls or not f.blocks:
            continue
        if f.cls.startswith("QDLIB::FileSingle"):
            for op, r, k, fr, x, opt in K.uses(Frame(f)):
                if op == "SetValue":
                    wr.setdefault("*file*", set()).add(k)
            continue
        for op, r, k, fr, x, opt in K.uses(Frame(f)):
            if op == "SetValue" and r == "._params" and not (f.name == "Init" and fr.f is f and False):
                wr.setdefault(f.cls, set()).add(k)
    roots = [c for c in prog.recs if c == "QDLIB::Laser" or (prog.derives(c, "QDLIB::WaveFunction") and c != "QDLIB::WaveFunction")]
    done = set()
    for c in sorted(roots):
        fam = [c] + sorted(prog.all_bases(c))
        W = set().union(*[wr.get(x, set()) for x in fam])
        for f in prog.fns.values():
            if f.cls not in fam or f.name != "Init" or not f.blocks or not f.params or "ParamContainer" not in f.locals[f.params[0]]["t"]:
                continue
            us = K.uses(Frame(f))
            guarded = {k for o, r2, k, fr, x, _ in us if o == "isPresent" and not required(fr.f, x)}
            for o, r, k, fr, x, opt in us:
                if o != "GetValue" or opt or k in guarded or k == "*" or not (r == "._params" or (isinstance(r, tuple) and r[1] in f.params)):
                    continue
                if (f.id, k) in done and covers(W, k):
                    continue
                done.add((f.id, k))
                n += 1
                if covers(W, k):
                    res.ok("C10.keys", fr.f.where(x), "%s: parameter '%s' is maintained by %s" % (f.short, k, short(c)))
                else:
                    res.bad("C10.keys", f.short, "%s:%s" % (short(c), k), fr.f.where(x), "%s is initialised from the parameter '%s', which it never stores with itself"
                            % (short(c), k))
    # keys the file classes themselves look up
    allw = set().union(*wr.values())
    for f in prog.fns.values():
        if not f.blocks or not (f.cls or "").startswith(("QDLIB::FileSingle", "QDLIB::FileWF")) or "~" in f.name or f.name == "FileWF":
            continue
        for o, r, k, fr, x, opt in K.uses(Frame(f)):
            if o == "GetValue" and fr.f is f and not opt and k != "*":
                n += 1
                if covers(allw, k):
                    res.ok("C10.keys", f.where(x), "%s: key '%s' is written" % (f.short, k))
                else:
                    res.bad("C10.keys", f.short, k, f.where(x), "reads the key '%s' from the stored parameters, which nothing writes" % k)
    return n


def required(f, x):
    """isPresent at x guards an error: absence is not accepted"""
    for b in f.blocks.values():
        if "tc" not in b or len(b["s"]) != 2:
            continue
        from ..prog import cond_atoms
        for k in (0, 1):
            for y, v in cond_atoms(f, b["tc"], k == 0):
                if y == x and not v:
                    s = b["s"][k]
                    if s is not None and s >= 0 and f.is_abrupt(f.blocks[s]):
                        return True
    return False


def texts(res, prog):
    """the text form of parameters: type tags invert, numbers keep their value, tags are cut out where they were put, reading ends"""
    n = 0
    by = {f.name: f for f in prog.fns.values() if f.cls == PC and f.blocks}
    a, b = by.get("Type2String"), by.get("String2Type")
    en = {}
    for k, e in prog.enums.items():
        if k.startswith(PC + "::datatype"):
            en = {c["n"]: c["v"] for c in e["consts"]}
    if a and b:
        for nm, v in sorted(en.items()):
            class P1(Partial):
                def value(self, fr, x, depth=0):
                    g, y = fr.resolve(x)
                    m = g.f.nodes[y]
                    if m["k"] == "Ref" and m["d"] == a.params[0]:
                        return v
                    if m["k"] == "Construct" and "basic_string" in m.get("cls", ""):
                        return ("lit", "") if not m.get("c") else ("lit", self.literal(g, y)) if self.literal(g, y) is not None else None
                    if m["k"] == "Str":
                        return ("lit", m["v"])
                    return Partial.value(self, fr, x, depth)
            out = {r for _, r in P1(prog, {}, lambda fr, e: None).run(Frame(a))}
            for r in out:
                if not isinstance(r, tuple):
                    continue
                back = {q for _, q in Partial(prog, {"literal": r[1]}, lambda fr, e: None).run(Frame(b))}
                if back and None not in back:
                    n += 1
                    if back == {v}:
                        res.ok("C10.types", a.where(), "%s <-> '%s'" % (nm, r[1]))
                    else:
                        res.bad("C10.types", b.short, nm, b.where(), "the tag '%s' written for %s is not read back as that type" % (r[1], nm))
                elif not back:
                    res.bad("C10.types", b.short, nm, b.where(), "the tag '%s' written for %s is rejected when read back" % (r[1], nm))
    # numbers: a double inserted into a string stream that becomes a stored value
    for f in prog.fns.values():
        if f.cls != PC or f.name not in ("SetValue", "SetArray") or not f.blocks:
            continue
        dbl = [x for x, m in f.calls() if m.get("op") == "<<" and m.get("c") and "double" in (f.ty(m["c"][-1]) or "") and "stream" in (f.ty(m["c"][0]) or "")]
        for x in dbl:
            n += 1
            if precise(f, x):
                res.ok("C10.precision", f.where(x), "%s stores all significant digits" % f.short)
            else:
                res.bad("C10.precision", f.id.split("(")[0] + "(double)", f.name, f.where(x), "a floating point value is turned into text with fewer digits than it needs to be read back")
    return n


def precise(f, x):
    from ..prog import forward

    def tr(f_, e, s):
        m = f.nodes[e]
        if m["k"] == "Call" and m.get("fn") in ("precision", "setprecision"):
            a = f.args(e)
            if a:
                y = strip(f, a[0])
                v = f.nodes[y].get("cv", f.nodes[y].get("v"))
                return isinstance(v, int) and v >= 17
        return s
    inb, _ = forward(f, False, tr, lambda a, b: a and b)
    for b in f.blocks.values():
        if x in b["e"] and b["i"] in inb:
            s = inb[b["i"]]
            for e in b["e"]:
                if e == x:
                    return s
                s = tr(f, e, s)
    return False


def cutting(res, prog):
    """a position found in a text is not a length: substr(p, q) with p > 0 needs a difference"""
    n = 0
    for f in prog.fns.values():
        if not f.blocks or not f.file.startswith("src/"):
            continue
        fr = None
        for x, m in f.calls():
            if m.get("fn") != "substr" or not m.get("m"):
                continue
            a = f.args(x)
            if len(a) < 2:
                continue
            fr = fr or Frame(f)
            k0, k1 = unit(fr, a[0]), unit(fr, a[1])
            if k1 is None or k0 is None:
                continue
            n += 1
            if k0 == "pos" and k1 == "pos":
                res.bad("C10.cut", f.short, "substr", f.where(x), "the length passed to substr is a position: text up to a delimiter is cut at the wrong place")
            else:
                res.ok("C10.cut", f.where(x), "%s: cut with a length" % f.short)
    # loops that read until eof only
    for f in prog.fns.values():
        if not f.blocks or not f.file.startswith("src/"):
            continue
        for i, m in enumerate(f.nodes):
            if m is None or m["k"] not in ("While", "For", "Do"):
                continue
            c = m.get("cond", -1)
            if c is None or c < 0:
                continue
            eof = [y for y in f.walk(c) if f.nodes[y]["k"] == "Call" and f.nodes[y].get("fn") == "eof"]
            if not eof:
                continue
            other = [y for y in f.walk(i) if f.nodes[y]["k"] == "Call" and f.nodes[y].get("fn") in ("fail", "good", "operator bool", "bad", "clear", "gcount", "operator!")]
            gl = [y for y in f.walk(i) if f.nodes[y]["k"] == "Call" and f.nodes[y].get("fn") in ("getline", "read", "get") or f.nodes[y].get("op") == ">>"]
            n += 1
            if gl and not other:
                res.bad("C10.ends", f.short, "eof", f.where(i), "the loop reads until end of file only: a failed read (too long a line) never ends it")
            else:
                res.ok("C10.ends", f.where(i), "%s: reading ends on failure" % f.short)
    return n


def unit(fr, x, depth=0):
    fr, x = fr.resolve(x)
    f = fr.f
    n = f.nodes[x]
    c = n.get("c", ())
    if n["k"] in ("Int",) or "cv" in n:
        return "int"
    if n["k"] == "Call" and n.get("fn", "").startswith(("find", "rfind")):
        return "pos"
    if n["k"] == "Call" and n.get("fn") in ("size", "length"):
        return "len"
    if n["k"] == "Ref" and depth < 6:
        ds = fr.defs.get(n["d"], ())
        us = {unit(fr, d, depth + 1) for d in ds}
        return us.pop() if len(us) == 1 else ("pos" if us == {"pos", "int"} else None)
    if n["k"] == "Bin" and n["op"] in ("+", "-") and depth < 6:
        a, b = unit(fr, c[0], depth + 1), unit(fr, c[1], depth + 1)
        if a is None or b is None:
            return None
        if n["op"] == "-" and a == "pos" and b == "pos":
            return "len"
        if "pos" in (a, b):
            return "pos" if b in ("int", "pos") or a == "int" else "len" if n["op"] == "-" else "pos"
        return "len" if "len" in (a, b) else "int"
    return None


def check(prog, res, tier):
    S = Scripts(prog)
    n = 0
    by = {}
    for f in prog.fns.values():
        if f.cls and f.blocks and f.name in ("Serialize", "DeSerialize"):
            by.setdefault(f.cls, {})[f.name] = f
    for cls, d in sorted(by.items()):
        if len(d) == 2:
            n += compare(res, S, "C10.layout", short(cls), d["Serialize"], d["DeSerialize"])
            allocation(res, S, prog, d["DeSerialize"])
        else:
            f = list(d.values())[0]
            other = "DeSerialize" if "Serialize" in d else "Serialize"
            res.bad("C10.layout", f.short, "pair", f.where(), "%s has its own %s but inherits %s" % (short(cls), f.name, other))
    res.count("classes_with_stream_layout", len(by))
    for cls in sorted({f.cls for f in prog.fns.values() if f.cls and f.cls.startswith("QDLIB::FileSingle<")}):
        ms = {f.name: f for f in prog.fns.values() if f.cls == cls and f.blocks}
        for a, b in (("WriteIntroToStream", "CheckIntroFromStream"), ("WriteMetaToStream", "ReadMetaFromStream")):
            if a in ms and b in ms:
                n += compare(res, S, "C10.container", short(cls), ms[a], ms[b])
    res.floor("stream_items_compared", n, 30)
    fs = sorted({f.cls for f in prog.fns.values() if f.cls and f.cls.startswith("QDLIB::FileSingle<")})
    anyms = {}
    for cls in fs:
        for f in prog.fns.values():
            if f.cls == cls and f.blocks:
                anyms.setdefault(f.name, f)
    nc = nh = 0
    for cls in fs:
        ms = {f.name: f for f in prog.fns.values() if f.cls == cls and f.blocks}
        nc += compression(res, prog, cls, ms, anyms)
        nh += header(res, prog, cls, ms)
    res.floor("compression_mappings", nc, 6)
    res.floor("header_fields", nh, 4)
    nk = metadata(res, prog)
    res.floor("metadata_keys", nk, 8)
    res.count("text_forms", texts(res, prog) + cutting(res, prog))
