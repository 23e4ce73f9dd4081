"""Program model over the extracted facts: resolved calls, class hierarchy, CFGs, access paths."""
import os, re
from collections import defaultdict
from . import extract
from .extract import AnalysisBroken


def short(q):
    """QDLIB::Foo::Bar(int) -> Foo::Bar"""
    q = q.split("@")[0]
    q = re.sub(r"\(.*$", "", q)
    return q.replace("QDLIB::", "")


class Fn:
    def __init__(self, prog, raw):
        self.p = prog
        self.raw = raw
        self.id = raw["id"]
        self.name = raw["name"]
        self.q = raw["q"]
        self.cls = raw.get("cls")
        self.file = raw["file"]
        self.line = raw["l"]
        self.nodes = raw["nodes"]
        self.params = raw["params"]
        self.locals = raw["locals"]
        self.body = raw["body"]
        self.virt = raw.get("virt", False)
        self.impl = raw.get("impl", False)
        self._parent = None
        self._blocks = None
        self._pred = None

    def __repr__(self):
        return "<Fn %s>" % self.id

    @property
    def short(self):
        return short(self.id)

    def n(self, i):
        return self.nodes[i]

    def kids(self, i):
        return self.nodes[i].get("c", ())

    def walk(self, i=None):
        """pre-order node ids below i (inclusive); i=None: body and constructor initialisers"""
        if i is None:
            for io in self.raw["inits"]:
                if io["e"] >= 0:
                    yield from self.walk(io["e"])
            i = self.body
        if i < 0:
            return
        st = [i]
        while st:
            x = st.pop()
            if x < 0:
                continue
            yield x
            st.extend(reversed(self.nodes[x].get("c", ())))

    @property
    def parent(self):
        if self._parent is None:
            pa = {}
            for i, n in enumerate(self.nodes):
                if n is None:
                    continue
                for c in n.get("c", ()):
                    if c >= 0 and c not in pa:
                        pa[c] = i
            self._parent = pa
        return self._parent

    def ancestors(self, i):
        pa = self.parent
        while i in pa:
            i = pa[i]
            yield i

    # --- CFG
    @property
    def blocks(self):
        if self._blocks is None:
            g = self.raw.get("cfg")
            self._blocks = {b["i"]: b for b in g["blocks"]} if g else {}
            if g and any(n and n["k"] == "Try" for n in self.nodes):
                self._blocks = self._exceptional(self._blocks, g["exit"])
        return self._blocks

    def _exceptional(self, blocks, ex):
        """add the edges of exceptions thrown by calls inside try blocks to their handlers (a handler sees the state before the call)"""
        disp = {}
        for b in blocks.values():
            if not b["e"] and any(x >= 0 and self.nodes[x] and self.nodes[x]["k"] == "Try" for x in [b.get("t", -1)]):
                disp[b["t"]] = b["i"]
        nxt = max(blocks) + 1
        out = {}
        unc = None
        for t, d in disp.items():
            if ex in blocks[d]["s"]:
                if unc is None:
                    unc = nxt
                    nxt += 1
                    out[unc] = {"i": unc, "e": [], "s": [ex], "nr": True}
                b = dict(blocks[d])
                b["s"] = [unc if x == ex else x for x in b["s"]]
                out[d] = b

        inner = {}
        for t in disp:
            for x in self.walk(self.nodes[t]["c"][0]):
                if x not in inner or self.nodes[inner[x]]["l"] <= self.nodes[t]["l"]:
                    inner[x] = t    # the innermost try statement is the last one starting before x
        for i, b in blocks.items():
            if i in out:
                continue
            cur, part = i, []
            for k, e in enumerate(b["e"]):
                if e in inner and self._may_raise(e):
                    nb, nxt = nxt, nxt + 1
                    out[cur] = {"i": cur, "e": part, "s": [nb, disp[inner[e]]]}
                    if cur == i and "label" in b:
                        out[cur]["label"] = b["label"]
                    cur, part = nb, [e]
                else:
                    part.append(e)
            if cur == i:
                out[i] = b
            else:
                last = {k: v for k, v in b.items() if k != "label"}
                last.update(i=cur, e=part)
                out[cur] = last
        return out

    def _may_raise(self, e):
        n = self.nodes[e]
        if n["k"] not in ("Call", "Construct", "New") or not n.get("f"):
            return False
        return bool(n.get("virt")) or n["f"] in self.p.fns

    @property
    def entry(self):
        return self.raw["cfg"]["entry"]

    @property
    def exit(self):
        return self.raw["cfg"]["exit"]

    @property
    def preds(self):
        if self._pred is None:
            self._pred = defaultdict(list)
            for b in self.blocks.values():
                for k, s in enumerate(b["s"]):
                    if s >= 0:
                        self._pred[s].append((b["i"], k))
        return self._pred

    def is_abrupt(self, b):
        """block leaves the function by throw / noreturn call rather than by returning"""
        if b.get("nr"):
            return True
        if b["s"] and self.exit not in b["s"]:
            return False
        for e in reversed(b["e"]):
            k = self.nodes[e]["k"]
            if k == "Throw":
                return True
            break
        return any(self.nodes[e]["k"] == "Throw" for e in b["e"])

    # --- text
    def txt(self, i, depth=0):
        if i is None or i < 0:
            return "?"
        n = self.nodes[i]
        if n is None or depth > 12:
            return "..."
        k = n["k"]
        c = n.get("c", ())
        t = lambda j: self.txt(j, depth + 1)
        if k in ("Ref",):
            d = n["d"]
            return d.split(".", 1)[1] if d.startswith("%") else d.replace("QDLIB::", "")
        if k == "This":
            return "this"
        if k == "Member":
            b = t(c[0]) if c else ""
            if b == "this":
                return n["n"]
            return b + ("->" if n.get("arrow") else ".") + n["n"]
        if k == "Call":
            if n.get("op"):
                if len(c) == 1:
                    return n["op"] + t(c[0])
                if n["op"] in ("[]", "()"):
                    return t(c[0]) + n["op"][0] + ", ".join(t(x) for x in c[1:]) + n["op"][1]
                return " ".join([t(c[0]), n["op"], t(c[1])]) if len(c) > 1 else n["op"]
            args = c
            pre = ""
            if n.get("m") and c:
                args = c[1:]
                b = t(c[0])
                pre = "" if b == "this" else b + ("->" if n.get("arrow") else ".")
            nm = n.get("fn")
            if nm is None:
                return "(%s)(%s)" % (t(c[0]) if c else "", ", ".join(t(x) for x in c[1:]))
            return pre + nm + "(" + ", ".join(t(x) for x in args) + ")"
        if k == "Construct":
            return short(n["cls"]) + "(" + ", ".join(t(x) for x in c) + ")"
        if k in ("Bin", "Assign"):
            return t(c[0]) + " " + n["op"] + " " + t(c[1])
        if k == "Un":
            return t(c[0]) + n["op"] if n.get("post") else n["op"] + t(c[0])
        if k == "Index":
            return t(c[0]) + "[" + t(c[1]) + "]"
        if k in ("Int", "Float", "Bool", "Char"):
            return str(n["v"])
        if k == "Str":
            return '"' + n["v"] + '"'
        if k == "Enum":
            return short(n["d"])
        if k == "Null":
            return "NULL"
        if k == "New":
            return "new " + short(n["ty"])
        if k == "Delete":
            return "delete " + t(c[0])
        if k == "Cast":
            return "(" + n.get("t", "") + ")" + (t(c[0]) if c else "")
        if k == "Var":
            return n["d"].split(".", 1)[-1] + (" = " + t(c[0]) if c else "")
        if k == "Throw":
            return "throw " + (t(c[0]) if c else "")
        if k == "Return":
            return "return " + (t(c[0]) if c else "")
        if k == "Sizeof":
            return "sizeof(%s)" % n["ty"]
        if k == "Cond":
            return "%s ? %s : %s" % (t(c[0]), t(c[1]), t(c[2]))
        return k

    def where(self, i=None):
        return "%s:%d" % (self.file, self.nodes[i]["l"] if i is not None and i >= 0 else self.line)

    # --- access paths
    def path(self, i):
        """canonical access path of an expression: root plus .field / * / [] steps, or None.
        Roots: 'this', local id, global name; pointers and references are transparent to '->' vs '.'"""
        if i is None or i < 0:
            return None
        n = self.nodes[i]
        k = n["k"]
        c = n.get("c", ())
        if k == "This":
            return "this"
        if k == "Ref":
            return n["d"]
        if k == "Member":
            b = self.path(c[0]) if c else None
            if b is None:
                return None
            return b + "." + n["n"]
        if k == "Un" and n["op"] in ("*", "&"):
            return self.path(c[0])
        if k == "Index":
            b = self.path(c[0])
            return None if b is None else b + "[]"
        if k == "Call" and n.get("op") in ("[]",) and c:
            b = self.path(c[0])
            return None if b is None else b + "[]"
        if k == "Call" and n.get("op") in ("*", "->") and len(c) == 1:
            return self.path(c[0])
        if k == "Cast":
            return self.path(c[0]) if c else None
        return None

    def calls(self, i=None):
        for x in self.walk(i):
            n = self.nodes[x]
            if n["k"] == "Call":
                yield x, n

    def args(self, x):
        """explicit arguments of a call node"""
        n = self.nodes[x]
        c = n.get("c", ())
        if n.get("m") or n.get("ind"):
            return list(c[1:])
        return list(c)

    def recv(self, x):
        n = self.nodes[x]
        if n.get("m") and n.get("c"):
            return n["c"][0]
        return None

    def ty(self, i):
        return self.nodes[i].get("t", "") if i is not None and i >= 0 else ""


class Prog:
    def __init__(self, facts):
        self.facts = facts
        self.fns = {i: Fn(self, r) for i, r in facts["fns"].items()}
        self.recs = facts["recs"]
        self.enums = facts["enums"]
        self.vars = facts["vars"]
        self.subs = defaultdict(set)
        for r in self.recs.values():
            for b in r["bases"]:
                self.subs[b].add(r["id"])
        # methods overriding a declaration (transitively), declared anywhere in the program
        self.over = defaultdict(set)
        self.decl_cls = {}
        self.method_decl = {}
        for r in self.recs.values():
            for m in r["methods"]:
                self.decl_cls[m["id"]] = r["id"]
                self.method_decl[m["id"]] = m
                for b in m["over"]:
                    self.over[b].add(m["id"])
        self._impl_cache = {}
        self._callers = None
        # protobuf message classes, from the .proto sources
        self.messages = set()
        for root, _, files in os.walk(os.path.join(facts["repo"], "src")):
            for f in files:
                if f.endswith(".proto"):
                    t = open(os.path.join(root, f)).read()
                    self.messages |= {"QDLIB::" + m for m in re.findall(r"^\s*message\s+(\w+)", t, re.M)}

    # --- hierarchy
    def all_subs(self, cls):
        out, st = set(), [cls]
        while st:
            c = st.pop()
            for s in self.subs.get(c, ()):
                if s not in out:
                    out.add(s)
                    st.append(s)
        return out

    def all_bases(self, cls):
        out, st = [], [cls]
        while st:
            c = st.pop(0)
            r = self.recs.get(c)
            if not r:
                continue
            for b in r["bases"]:
                if b not in out:
                    out.append(b)
                    st.append(b)
        return out

    def derives(self, cls, base):
        return cls == base or base in self.all_bases(cls)

    def concrete(self, base):
        """non-abstract classes deriving from base (inclusive)"""
        return sorted(c for c in ({base} | self.all_subs(base)) if c in self.recs and not self.recs[c].get("abstract"))

    def fields(self, cls, inherited=True):
        out = []
        r = self.recs.get(cls)
        if not r:
            return out
        if inherited:
            for b in r["bases"]:
                out += self.fields(b)
        return out + r["fields"]

    def methods_named(self, cls, name):
        """method declarations with this name visible in cls (most derived class that declares any)"""
        seen = []
        st = [cls]
        while st:
            c = st.pop(0)
            r = self.recs.get(c)
            if not r:
                continue
            ms = [m for m in r["methods"] if m["n"] == name]
            if ms:
                return ms
            st += r["bases"]
        return seen

    def final_overrider(self, cls, mid):
        """declaration id that a virtual call of mid reaches on dynamic type cls"""
        # methods of cls overriding mid (transitively)
        targets = {mid}
        st = [mid]
        while st:
            x = st.pop()
            for o in self.over.get(x, ()):
                if o not in targets:
                    targets.add(o)
                    st.append(o)
        order = [cls] + self.all_bases(cls)
        best = None
        for c in order:
            r = self.recs.get(c)
            if not r:
                continue
            for m in r["methods"]:
                if m["id"] in targets:
                    # most derived first in BFS order is good enough for single inheritance chains;
                    # for diamonds prefer a class deriving from the current best
                    if best is None:
                        best = m["id"]
                    elif self.derives(c, self.decl_cls[best]) and c != self.decl_cls[best]:
                        best = m["id"]
        return best

    def impls(self, mid):
        """all definitions a virtual call naming mid may reach (any dynamic type)"""
        if mid in self._impl_cache:
            return self._impl_cache[mid]
        out, st = {mid}, [mid]
        while st:
            x = st.pop()
            for o in self.over.get(x, ()):
                if o not in out:
                    out.add(o)
                    st.append(o)
        self._impl_cache[mid] = out
        return out

    def callees(self, fn, x):
        """program functions (Fn) a call node may reach"""
        n = fn.nodes[x]
        f = n.get("f")
        if f is None:
            return []
        ids = self.impls(f) if n.get("virt") else {f}
        return [self.fns[i] for i in sorted(ids) if i in self.fns]

    @property
    def callers(self):
        if self._callers is None:
            self._callers = defaultdict(list)
            for fn in self.fns.values():
                for x in range(len(fn.nodes)):
                    n = fn.nodes[x]
                    if n is None:
                        continue
                    if n["k"] == "Call":
                        for g in self.callees(fn, x):
                            self._callers[g.id].append((fn, x))
                    elif n["k"] == "Construct" and n["f"] in self.fns:
                        self._callers[n["f"]].append((fn, x))
        return self._callers

    def by_short(self, s):
        """functions whose qualified name without QDLIB:: is s"""
        return [f for f in self.fns.values() if f.short == s]

    def find(self, pred):
        return [f for f in self.fns.values() if pred(f)]

    def need(self, s, minimum=1):
        r = self.by_short(s)
        if len(r) < minimum:
            raise AnalysisBroken("anchor vanished: %s" % s)
        return r

    def reach(self, roots):
        seen = {f.id for f in roots}
        st = list(roots)
        while st:
            f = st.pop()
            for x, n in enumerate(f.nodes):
                if n is None:
                    continue
                if n["k"] == "Call":
                    for g in self.callees(f, x):
                        if g.id not in seen:
                            seen.add(g.id)
                            st.append(g)
                elif n["k"] == "Construct" and n["f"] in self.fns and n["f"] not in seen:
                    seen.add(n["f"])
                    st.append(self.fns[n["f"]])
        return seen


def load(repo=None, **kw):
    return Prog(extract.run(repo, **kw))


# ---------------------------------------------------------------- dataflow
def forward(fn, init, transfer, join, edge=None, bottom=None, max_iter=10000):
    """forward dataflow. transfer(fn, node, state)->state ; edge(fn, block, succ_index, state)->state|None
    returns (in_states per block, state_at(block) after elements)"""
    inb = {fn.entry: init}
    work = [fn.entry]
    outb = {}
    it = 0
    while work:
        it += 1
        if it > max_iter:
            raise AnalysisBroken("dataflow did not converge in " + fn.id)
        bi = work.pop(0)
        b = fn.blocks[bi]
        s = inb[bi]
        for e in b["e"]:
            s = transfer(fn, e, s)
        outb[bi] = s
        for k, succ in enumerate(b["s"]):
            if succ < 0:
                continue
            ns = edge(fn, b, k, s) if edge else s
            if ns is None:
                continue
            if succ not in inb:
                inb[succ] = ns
                if succ not in work:
                    work.append(succ)
            else:
                j = join(inb[succ], ns)
                if j != inb[succ]:
                    inb[succ] = j
                    if succ not in work:
                        work.append(succ)
    return inb, outb


def cond_atoms(fn, i, val):
    """facts implied by condition node i being `val`: list of (node, bool) atoms (conjunctive)"""
    n = fn.nodes[i]
    k = n["k"]
    if k == "Un" and n["op"] == "!":
        return cond_atoms(fn, n["c"][0], not val)
    if k == "Bin" and n["op"] == "&&":
        if val:
            return cond_atoms(fn, n["c"][0], True) + cond_atoms(fn, n["c"][1], True)
        return []
    if k == "Bin" and n["op"] == "||":
        if not val:
            return cond_atoms(fn, n["c"][0], False) + cond_atoms(fn, n["c"][1], False)
        return []
    return [(i, val)]
