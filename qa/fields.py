"""Which fields of its own object a member function reads and writes (directly and through calls on itself)."""
from .effects import split_params, is_ptr, const_target


def unwrap(f, i):
    while i is not None and i >= 0 and (f.nodes[i]["k"] == "Cast" or f.nodes[i]["k"] == "Un" and f.nodes[i]["op"] in ("*", "&")) and f.nodes[i].get("c"):
        i = f.nodes[i]["c"][0]
    return i


def on_this(f, i):
    i = unwrap(f, i)
    return i is not None and i >= 0 and f.nodes[i]["k"] == "This"


class Fields:
    def __init__(self, p):
        self.p = p
        self._acc = {}
        self._cl = {}

    def own_root(self, f, i):
        """field id when node i designates memory held in (or behind) a field of this"""
        while True:
            i = unwrap(f, i)
            if i is None or i < 0:
                return None
            n = f.nodes[i]
            if n["k"] == "Member":
                if n.get("c") and on_this(f, n["c"][0]):
                    return n.get("d")
                i = n["c"][0] if n.get("c") else None
            elif n["k"] == "Index" or n["k"] == "Call" and n.get("op") in ("[]", "()", "->", "*"):
                i = n["c"][0] if n.get("c") else None
            else:
                return None

    def acc(self, f):
        """{field id: set of 'R' (read), 'W' (assigned), 'M' (changed by a call on it)} accessed directly in f"""
        if f.id in self._acc:
            return self._acc[f.id]
        out = {}
        for i, n in enumerate(f.nodes):
            if not n or n["k"] != "Member" or not n.get("c") or not on_this(f, n["c"][0]) or "d" not in n:
                continue
            out.setdefault(n["d"], set()).update(self.use(f, i))
        self._acc[f.id] = out
        return out

    def use(self, f, i):
        p, par = self.p, f.parent
        x = i
        while True:
            y = par.get(x) if isinstance(par, dict) else par[x]
            if y is None or y < 0:
                return {"R"}
            m = f.nodes[y]
            k = m["k"]
            if k == "Cast" or k == "Un" and m["op"] in ("*", "&") or k == "Index" and m["c"][0] == x or k == "Member":
                x = y
                continue
            if k == "Un" and m["op"] in ("++", "--"):
                return {"R", "W"}
            if k == "Assign":
                if m["c"][0] == x:
                    return {"W"} if m.get("op") == "=" else {"R", "W"}
                return {"R"}
            if k == "Delete":
                return set()
            if k == "Call":
                c = list(m.get("c", ()))
                pos = c.index(x) if x in c else -1
                decl = m.get("f") or ""
                if m.get("m") and pos == 0:
                    if m.get("op") in ("[]", "()", "->", "*"):
                        x = y
                        continue
                    if decl.split("@")[0].endswith(" const"):
                        return {"R"}
                    if m.get("op") == "=" or m.get("fn") == "newsize":
                        return {"W"}
                    return {"R", "M"}
                ps = split_params(decl)
                off = pos - (1 if m.get("m") else 0)
                if m.get("op") and not m.get("m"):
                    off = pos
                if 0 <= off < len(ps) and is_ptr(ps[off]) and not const_target(ps[off]):
                    return {"R", "M"}
                return {"R"}
            return {"R"}

    def closure(self, f, cls):
        """accesses of f and of everything it calls on the same object, for an object of class cls"""
        key = (f.id, cls)
        if key in self._cl:
            return self._cl[key]
        p = self.p
        out, seen, work = {}, {f.id}, [f]
        while work:
            g = work.pop()
            for d, s in self.acc(g).items():
                out.setdefault(d, set()).update(s)
            for i, n in enumerate(g.nodes):
                if not n or n["k"] != "Call" or not n.get("m") or not n.get("f") or not n.get("c"):
                    continue
                if not on_this(g, n["c"][0]):
                    continue
                t = n["f"]
                if n.get("virt"):
                    o = p.final_overrider(cls, t)
                    t = o or t
                h = p.fns.get(t)
                if h is not None and h.id not in seen:
                    seen.add(h.id)
                    work.append(h)
        self._cl[key] = (out, seen)
        return out, seen
