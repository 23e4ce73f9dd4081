"""Numeric bounds: difference constraints between integer variables, members and getters (a zone domain over the CFG),
member invariants established by every writer, and entry requirements handed on to every call site.

State: a closed matrix M, M[i, j] an upper bound of term_i - term_j; term 0 is the constant zero. Terms are access paths of
integer variables and members, argument-free accessors of protobuf messages ('path.$name'), the values on entry ('path@') and
temporaries for the value of an expression. Integers are mathematical: an addition does not wrap (documented); a subtraction of
unsigned values and a conversion keep the value only where the analysis can show that they do."""
import functools
import re
import numpy as np
from .prog import forward, cond_atoms, short
from .extract import AnalysisBroken

INF = np.inf
INTS = {"int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False), "short": (16, True),
        "unsigned short": (16, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
        "long long": (64, True), "unsigned long long": (64, False), "bool": (1, False)}


@functools.lru_cache(None)
def base_type(t):
    t = re.sub(r"^const ", "", t or "").strip()
    return re.sub(r"( const)? ?&$", "", t)


@functools.lru_cache(None)
def is_int(t):
    return base_type(t) in INTS


@functools.lru_cache(None)
def obj_type(t):
    return re.sub(r"[ *&]+$", "", re.sub(r"\bconst\b ?", "", t or "")).strip()


class Zone:
    __slots__ = ("M",)

    def __init__(self, M):
        self.M = M

    def copy(self):
        return Zone(self.M.copy())

    def grow(self, n):
        k = self.M.shape[0]
        if k < n:
            M = np.full((n, n), INF)
            M[:k, :k] = self.M
            for i in range(k, n):
                M[i, i] = 0
            self.M = M

    def ub(self, i, j):
        n = self.M.shape[0]
        if i == j:
            return 0
        if i >= n or j >= n:
            return INF
        return self.M[i, j]

    def add(self, i, j, c):
        """term_i - term_j <= c; False when contradictory"""
        if c == INF:
            return True
        if i == j:
            return c >= 0
        self.grow(max(i, j) + 1)
        M = self.M
        if M[i, j] <= c:
            return True
        if M[j, i] + c < 0:
            return False
        self.M = np.minimum(M, (M[:, i] + c)[:, None] + M[j, :][None, :])
        return True

    def kill(self, i):
        if i < self.M.shape[0]:
            self.M = self.M.copy()
            self.M[i, :] = INF
            self.M[:, i] = INF
            self.M[i, i] = 0

    def shift(self, i, c):
        """term_i := term_i + c"""
        self.grow(i + 1)
        M = self.M.copy()
        M[i, :] += c
        M[:, i] -= c
        M[i, i] = 0
        self.M = M


class State:
    """zone plus the boolean variables known to equal a condition"""
    __slots__ = ("z", "b")

    def __init__(self, z, b=frozenset()):
        self.z = z
        self.b = b

    def __eq__(self, o):
        return self.b == o.b and self.z.M.shape == o.z.M.shape and np.array_equal(self.z.M, o.z.M)

    def copy(self):
        return State(self.z.copy(), self.b)


class Summary:
    """relations between result, arguments (on entry and, for references, on exit) and members of the object on normal return"""

    def __init__(self, names, M):
        self.names = names      # list of keys; index 0 is the constant
        self.M = M


BOTTOM = Summary(["0"], np.zeros((1, 1)))     # does not return


class FA:
    """analysis of one function under the current assumptions"""

    def __init__(self, B, fn):
        self.B = B
        self.f = fn
        self.names = ["0"]
        self.index = {"0": 0}
        self.meta = {}          # term index -> (path, set of field ids, type)
        self.alias = {}
        self.msites = {}
        self.inb = None
        self.thresh = None
        self.mcache = {}
        self.deps = set()       # members whose bounds were used
        self.sdeps = set()      # functions whose summaries were used
        self._find_alias()

    # ------------------------------------------------ terms
    def tid(self, name, ids=frozenset(), ty="int"):
        if name not in self.index:
            self.index[name] = len(self.names)
            self.names.append(name)
            self.meta[self.index[name]] = (name, frozenset(ids), ty)
        return self.index[name]

    def _find_alias(self):
        """references to integers or objects bound once"""
        f = self.f
        for i in f.walk():
            n = f.nodes[i]
            if n["k"] == "Var" and n.get("c") and n["t"].rstrip().endswith("&") and n["d"].startswith("%"):
                self.alias[n["d"]] = n["c"][0]

    def path(self, i, depth=0):
        """(path, field ids) of a stable access path, or None"""
        f = self.f
        if i is None or i < 0 or depth > 10:
            return None
        n = f.nodes[i]
        k, c = n["k"], n.get("c", ())
        if k == "This":
            return "this", frozenset()
        if k == "Ref":
            d = n["d"]
            if d in self.alias:
                return self.path(self.alias[d], depth + 1)
            return d, frozenset()
        if k == "Member":
            b = self.path(c[0], depth + 1) if c else None
            if b is None:
                return None
            return b[0] + "." + n["n"], b[1] | {n["d"]}
        if k == "Un" and n["op"] in ("*", "&"):
            return self.path(c[0], depth + 1)
        if k == "Cast" and c:
            if n.get("ck") == "dynamic" or "dynamic" in str(n.get("ck", "")):
                return None
            return self.path(c[0], depth + 1) if not is_int(n.get("t")) else None
        if k == "Call" and n.get("op") in ("*", "->") and len(c) == 1:
            return self.path(c[0], depth + 1)
        if k == "Call" and n.get("m") and not f.args(i) and c:
            T = obj_type(f.ty(c[0]))
            if T in self.B.messages and n.get("f", "").endswith(") const"):
                b = self.path(c[0], depth + 1)
                if b is not None:
                    return b[0] + ".$" + n["fn"], b[1] | {T + "::" + n["fn"]}
        return None

    def term(self, i):
        """term index of an integer l-value (or message accessor), or None"""
        f = self.f
        if not is_int(f.ty(i)):
            return None
        p = self.path(i)
        if p is None:
            return None
        root = p[0].split(".")[0]
        if not (root == "this" or root.startswith("%") or root.startswith("$")) or "[]" in p[0]:
            return None
        return self.tid(p[0], p[1], base_type(f.ty(i)))

    # ------------------------------------------------ assumptions
    def assume_inv(self, s, t):
        """member invariants of a term whose object is in a consistent state"""
        path, ids, ty = self.meta[t]
        if not ids or path.endswith("@"):
            return True
        fid = self.last_field(t)
        ok = True
        self.deps.add(fid)
        lo, hi = self.B.inv_of(fid)
        if lo != -INF:
            ok = s.z.add(0, t, -lo) and ok
        if hi != INF:
            ok = s.z.add(t, 0, hi) and ok
        return ok

    def last_field(self, t):
        path, ids, ty = self.meta[t]
        last = path.split(".")[-1]
        if last.startswith("$"):
            for x in ids:
                if x.split("::")[-1] == last[1:] and x.rsplit("::", 1)[0] in self.B.messages:
                    return x
        for x in ids:
            if x.split("::")[-1] == last:
                return x
        return None

    def fresh(self, s, t, inv=True):
        """forget t; keep what its type (and, with inv, the invariant of the member) says"""
        s.z.kill(t)
        s.z.grow(t + 1)
        ty = self.meta[t][2]
        w = INTS.get(ty)
        if w and not w[1]:
            s.z.add(0, t, 0)
        if w == (1, False):
            s.z.add(t, 0, 1)
        elif w and w[0] == 8:
            s.z.add(t, 0, 255 if not w[1] else 127)
            s.z.add(0, t, 0 if not w[1] else 128)
        if inv:
            self.assume_inv(s, t)
        self.unbool(s, t)

    def unbool(self, s, t):
        if s.b:
            s.b = frozenset(x for x in s.b if t not in x[3] and x[0] != t)

    # ------------------------------------------------ evaluation
    def known(self, s, t):
        """a term about to be read"""
        s.z.grow(t + 1)
        w = INTS.get(self.meta[t][2])
        if w and not w[1]:
            s.z.add(0, t, 0)
        return t

    def lo(self, s, v):
        t, c = v
        return c if t == 0 else -s.z.ub(0, t) + c

    def hi(self, s, v):
        t, c = v
        return c if t == 0 else s.z.ub(t, 0) + c

    def temp(self, s, i, ty="int", lo=-INF, hi=INF):
        t = self.tid("$n%d" % i, (), ty if ty in INTS else "int")
        s.z.kill(t)
        s.z.grow(t + 1)
        w = INTS.get(ty)
        if w and not w[1]:
            lo = max(lo, 0)
        if w and w[0] == 1:
            hi = min(hi, 1)
        if lo > hi:
            lo, hi = -INF, INF
        if lo != -INF:
            s.z.add(0, t, -lo)
        if hi != INF:
            s.z.add(t, 0, hi)
        return (t, 0)

    def conv(self, s, v, frm, to, i):
        """value v of type frm converted to type to"""
        a, b = INTS.get(base_type(frm)), INTS.get(base_type(to))
        if b is None or v is None:
            return None
        if a is None:
            return self.temp(s, i, base_type(to))
        if a == b or b[0] == 1:
            return v if a == b else self.temp(s, i, "bool")
        if a[1] and not b[1]:
            if self.lo(s, v) >= 0 and (b[0] >= a[0] or self.hi(s, v) < 2 ** b[0]):
                return v
            return self.temp(s, i, base_type(to))
        if not a[1] and b[1]:
            if b[0] > a[0] or self.hi(s, v) < 2 ** (b[0] - 1):
                return v
            return self.temp(s, i, base_type(to))
        if b[0] >= a[0]:
            return v
        m = 2 ** (b[0] - (1 if b[1] else 0))
        if self.hi(s, v) < m and self.lo(s, v) >= (-m if b[1] else 0):
            return v
        return self.temp(s, i, base_type(to))

    def ev(self, s, i, depth=0):
        """value of an integer expression: (term, offset); None when it is not an integer"""
        f = self.f
        if i is None or i < 0:
            return None
        n = f.nodes[i]
        ty = base_type(n.get("t"))
        if "cv" in n and isinstance(n["cv"], int) and n["k"] != "Un":
            return (0, n["cv"])
        k, c = n["k"], n.get("c", ())
        if k in ("Int", "Char", "Enum", "Sizeof", "Bool") and "v" in n:
            try:
                return (0, int(n["v"]))
            except (TypeError, ValueError):
                return self.temp(s, i, ty)
        if ty not in INTS:
            return None
        if depth > 30:
            return self.temp(s, i, ty)
        t = self.term(i)
        if t is not None:
            return (self.known(s, t), 0)
        d = depth + 1
        if k == "Cast" and c:
            v = self.ev(s, c[0], d)
            if v is None:
                return self.temp(s, i, ty)
            return self.conv(s, v, f.ty(c[0]), ty, i)
        if k == "Un":
            op = n["op"]
            if op in ("++", "--"):
                v = self.ev(s, c[0], d)
                if v is None:
                    return self.temp(s, i, ty)
                t0 = self.term(c[0])
                if t0 is None:
                    return self.temp(s, i, ty)
                if n.get("post"):
                    return (v[0], v[1] - (1 if op == "++" else -1))
                return v
            v = self.ev(s, c[0], d)
            if op == "+" and v is not None:
                return self.conv(s, v, f.ty(c[0]), ty, i)
            if op == "-" and v is not None:
                if v[0] == 0:
                    return (0, -v[1])
                return self.temp(s, i, ty, -self.hi(s, v), -self.lo(s, v))
            return self.temp(s, i, ty)
        if k == "Assign":
            t0 = self.term(c[0])
            if t0 is not None:
                return (self.known(s, t0), 0)
            return self.temp(s, i, ty)
        if k == "Cond":
            a, b = self.ev(s, c[1], d), self.ev(s, c[2], d)
            if a is None or b is None:
                return self.temp(s, i, ty)
            if a == b:
                return a
            lo, hi = min(self.lo(s, a), self.lo(s, b)), max(self.hi(s, a), self.hi(s, b))
            r = self.temp(s, i, ty, lo, hi)
            for (cond, val, x) in ((c[0], True, a), (c[0], False, b)):
                pass
            # x < y ? x : y and the like
            cn = f.nodes[self.strip(c[0])]
            if cn["k"] == "Bin" and cn["op"] in ("<", "<=", ">", ">="):
                l, q = self.ev(s, cn["c"][0], d), self.ev(s, cn["c"][1], d)
                mn = None
                if l is not None and q is not None:
                    lt = cn["op"] in ("<", "<=")
                    if (l, q) == (a, b):
                        mn = lt
                    elif (l, q) == (b, a):
                        mn = not lt
                if mn is True:
                    for x in (a, b):
                        s.z.add(r[0], x[0], x[1])
                elif mn is False:
                    for x in (a, b):
                        s.z.add(x[0], r[0], -x[1])
            return r
        if k == "Bin":
            return self.binop(s, i, n["op"], c[0], c[1], ty, d)
        if k == "Call":
            if f.nodes[i].get("q") in ("std::min", "std::max") and len(f.args(i)) == 2:
                a, b = [self.ev(s, x, d) for x in f.args(i)]
                if a is not None and b is not None:
                    mn = n["q"] == "std::min"
                    fnc = min if mn else max
                    r = self.temp(s, i, ty, fnc(self.lo(s, a), self.lo(s, b)), fnc(self.hi(s, a), self.hi(s, b)))
                    for x in (a, b):
                        if mn:
                            s.z.add(r[0], x[0], x[1])
                        else:
                            s.z.add(x[0], r[0], -x[1])
                    return r
            r = self.tid("$c%d" % i, (), ty)
            s.z.grow(r + 1)
            if not INTS[ty][1]:
                s.z.add(0, r, 0)
            return (r, 0)
        if k == "Index":
            return self.temp(s, i, ty)
        return self.temp(s, i, ty)

    def strip(self, i):
        f = self.f
        while f.nodes[i]["k"] == "Cast" and f.nodes[i].get("c"):
            i = f.nodes[i]["c"][0]
        return i

    def binop(self, s, i, op, x, y, ty, d):
        f = self.f
        if op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"):
            return self.temp(s, i, "bool")
        if op == ",":
            return self.ev(s, y, d)
        a, b = self.ev(s, x, d), self.ev(s, y, d)
        if a is None or b is None:
            return self.temp(s, i, ty)
        if op not in ("<<", ">>"):
            a, b = self.conv(s, a, f.ty(x), ty, x), self.conv(s, b, f.ty(y), ty, y)
        elif not is_int(f.ty(x)):
            return self.temp(s, i, ty)
        if a is None or b is None:
            return self.temp(s, i, ty)
        return self.arith(s, i, op, a, b, ty)

    def arith(self, s, i, op, a, b, ty):
        uns = not INTS[ty][1]
        la, ha, lb, hb = self.lo(s, a), self.hi(s, a), self.lo(s, b), self.hi(s, b)
        if op == "+":
            if b[0] == 0:
                return (a[0], a[1] + b[1])
            if a[0] == 0:
                return (b[0], a[1] + b[1])
            r = self.temp(s, i, ty, la + lb, ha + hb)
            z = s.z
            for p, q, lq, hq in ((a, b, lb, hb), (b, a, la, ha)):
                z.add(r[0], p[0], p[1] + hq)      # r - p <= hi(q)
                z.add(p[0], r[0], -p[1] - lq)     # p - r <= -lo(q)
            return r
        if op == "-":
            # difference a - b
            dhi = s.z.ub(a[0], b[0]) + a[1] - b[1]
            dlo = -(s.z.ub(b[0], a[0]) + b[1] - a[1])
            if a[0] == 0 and b[0] == 0:
                dhi = dlo = a[1] - b[1]
            if uns and dlo < 0:
                return self.temp(s, i, ty)
            if b[0] == 0:
                return (a[0], a[1] - b[1])
            r = self.temp(s, i, ty, max(dlo, la - hb), min(dhi, ha - lb))
            s.z.add(r[0], a[0], a[1] - lb)
            s.z.add(a[0], r[0], hb - a[1])
            return r
        if op == "*":
            if a[0] == 0 and b[0] == 0:
                return (0, a[1] * b[1])
            if a == (0, 1):
                return b
            if b == (0, 1):
                return a
            ps = [p * q if not (np.isinf(p) and q == 0 or np.isinf(q) and p == 0) else 0 for p in (la, ha) for q in (lb, hb)]
            r = self.temp(s, i, ty, min(ps), max(ps))
            for p, lp, q, lq in ((a, la, b, lb), (b, lb, a, la)):
                if lp >= 0 and lq >= 1:
                    s.z.add(p[0], r[0], -p[1])     # p <= r
            return r
        if op == "/":
            if b[0] == 0 and b[1] > 0:
                if a[0] == 0:
                    return (0, int(a[1] / b[1]))
                r = self.temp(s, i, ty, -INF if la == -INF else int(la / b[1]) if la < 0 else la // b[1], INF if ha == INF else ha // b[1] if ha >= 0 else 0)
                if la >= 0:
                    s.z.add(r[0], a[0], a[1])
                return r
            if lb >= 1 and la >= 0:
                r = self.temp(s, i, ty, 0, ha)
                s.z.add(r[0], a[0], a[1])
                return r
            return self.temp(s, i, ty)
        if op == "%":
            if lb >= 1:
                r = self.temp(s, i, ty, 0 if la >= 0 else 1 - hb, hb - 1)
                s.z.add(r[0], b[0], b[1] - 1)
                if la >= 0:
                    s.z.add(r[0], a[0], a[1])
                return r
            return self.temp(s, i, ty)
        if op == "&":
            his = [h for l, h in ((la, ha), (lb, hb)) if l >= 0]
            if his:
                return self.temp(s, i, ty, 0, min(his))
            return self.temp(s, i, ty)
        if op == ">>" and la >= 0:
            r = self.temp(s, i, ty, 0, ha)
            s.z.add(r[0], a[0], a[1])
            return r
        if op == "<<" and a[0] == 0 and b[0] == 0 and 0 <= b[1] < 62:
            return (0, a[1] << b[1])
        return self.temp(s, i, ty)

    # ------------------------------------------------ transfer
    def assign(self, s, t, v, node, inv=False):
        """t := v"""
        path, ids, ty = self.meta[t]
        if v is None:
            self.fresh(s, t, inv)
        elif v[0] == t:
            if v[1]:
                if not INTS.get(ty, (32, True))[1] and self.lo(s, v) < 0:
                    self.fresh(s, t, False)
                else:
                    s.z.shift(t, v[1])
                    self.unbool(s, t)
        else:
            s.z.grow(max(t, v[0]) + 1)
            s.z.kill(t)
            s.z.add(t, v[0], v[1])
            s.z.add(v[0], t, -v[1])
            self.unbool(s, t)
        self.weak(s, t)

    def weak(self, s, t):
        """another object of the same class may be the same one"""
        path, ids, ty = self.meta[t]
        if not ids:
            return
        fid = self.last_field(t)
        for u in list(self.meta):
            if u != t and u < s.z.M.shape[0]:
                p2, i2, t2 = self.meta[u]
                if "." in p2 and not p2.endswith("@") and fid in i2 and p2 != path and self.last_field(u) == fid:
                    self.fresh(s, u)

    def kill_prefix(self, s, path, inv=True):
        for u in list(self.meta):
            p2 = self.meta[u][0]
            if p2.endswith("@"):
                continue
            if p2 == path or p2.startswith(path + "."):
                s.z.grow(u + 1)
                self.fresh(s, u, inv)

    def transfer(self, fn, e, s):
        f = self.f
        n = f.nodes[e]
        k = n["k"]
        if k not in ("Assign", "Un", "Var", "Call", "Construct", "Return", "Decl"):
            return s
        if s is None:
            return None
        s = s.copy()
        c = n.get("c", ())
        if k == "Decl":
            for x in c:
                if x >= 0 and f.nodes[x]["k"] == "Var":
                    s = self.do_var(s, x)
        elif k == "Var":
            s = self.do_var(s, e)
        elif k == "Assign":
            self.do_assign(s, e, n, c)
        elif k == "Un" and n["op"] in ("++", "--"):
            t = self.term(c[0])
            if t is not None:
                self.known(s, t)
                self.assign(s, t, (t, 1 if n["op"] == "++" else -1), e)
        elif k in ("Call", "Construct"):
            if not self.do_call(s, e, n):
                return None
        elif k == "Return" and c and is_int(f.ty(c[0])):
            rt = self.B.ret_type(f)
            v = self.ev(s, c[0])
            v = self.conv(s, v, f.ty(c[0]), rt, c[0]) if v is not None and rt in INTS else v
            t = self.tid("$ret", (), rt if rt in INTS else "int")
            s.z.grow(t + 1)
            if v is not None:
                self.assign(s, t, v, e)
        return s

    def do_var(self, s, x):
        f = self.f
        n = f.nodes[x]
        c = n.get("c", ())
        if n["d"] in self.alias:
            return s
        if is_int(n["t"]):
            t = self.tid(n["d"], (), base_type(n["t"]))
            s.z.grow(t + 1)
            if c:
                v = self.ev(s, c[0])
                if v is not None:
                    v = self.conv(s, v, f.ty(c[0]), n["t"], c[0])
                if v is not None and base_type(n["t"]) == "bool":
                    v = None
                if v is None:
                    self.fresh(s, t)
                else:
                    self.assign(s, t, v, x)
                if base_type(n["t"]) == "bool":
                    self.setbool(s, t, c[0])
            else:
                self.fresh(s, t)
        else:
            self.kill_prefix(s, n["d"])
            if c:
                self.copy_obj(s, n["d"], c[0])
        return s

    def copy_obj(self, s, path, src):
        """the object at path is a copy of, or a pointer to, the one at src: members agree"""
        p = self.path(src)
        if p is None:
            sn = self.f.nodes[src]
            if sn["k"] == "Construct" and sn.get("copy") and sn.get("c"):
                p = self.path(sn["c"][0])
            elif sn["k"] == "Cast" and sn.get("c"):
                p = self.path(sn["c"][0])
        if p is None or "[]" in p[0]:
            return
        for u in list(self.meta):
            p2, ids, ty = self.meta[u]
            if p2.startswith(p[0] + ".") and not p2.endswith("@") and u < s.z.M.shape[0]:
                w = self.tid(path + p2[len(p[0]):], ids, ty)
                s.z.grow(w + 1)
                s.z.add(u, w, 0)
                s.z.add(w, u, 0)

    def setbool(self, s, t, cond):
        ts = set()
        for x in self.f.walk(cond):
            if is_int(self.f.ty(x)):
                u = self.term(x)
                if u is not None:
                    ts.add(u)
            if self.f.nodes[x]["k"] in ("Assign", "Call") or (self.f.nodes[x]["k"] == "Un" and self.f.nodes[x]["op"] in ("++", "--")):
                if self.term(x) is None:
                    return
        if t in ts:
            return
        s.b = frozenset(x for x in s.b if x[0] != t) | {(t, cond, True, frozenset(ts))}

    def do_assign(self, s, e, n, c):
        f = self.f
        t = self.term(c[0])
        if t is None:
            p = self.path(c[0])
            if p is not None and "[]" not in p[0]:
                self.kill_prefix(s, p[0])
                if n["op"] == "=":
                    self.copy_obj(s, p[0], c[1])
            return
        self.known(s, t)
        if n["op"] == "=":
            v = self.ev(s, c[1])
            if v is not None:
                v = self.conv(s, v, f.ty(c[1]), f.ty(c[0]), c[1])
            isb = base_type(f.ty(c[0])) == "bool"
            self.assign(s, t, None if isb and (v is None or v[0]) else v, e)
            if isb:
                self.setbool(s, t, c[1])
        else:
            ty = base_type(f.ty(c[0]))
            op = n["op"][:-1]
            a, b = (t, 0), self.ev(s, c[1])
            if b is None:
                self.assign(s, t, None, e)
                return
            bt = base_type(f.ty(c[1]))
            if bt in INTS and INTS[bt][0] <= INTS[ty][0]:
                b = self.conv(s, b, bt, ty, c[1])
            v = self.arith(s, e, op, a, b, ty) if b is not None else None
            self.assign(s, t, v, e)

    # ------------------------------------------------ calls
    def do_call(self, s, e, n):
        f, B = self.f, self.B
        callee = n.get("f") or ""
        fns = B.p.callees(f, e) if n["k"] == "Call" else ([B.p.fns[callee]] if callee in B.p.fns else [])
        args = f.args(e) if n["k"] == "Call" else list(n.get("c", ()))
        recv = f.recv(e) if n["k"] == "Call" else None
        rp = self.path(recv) if recv is not None else None
        # values of the arguments before the call
        av = []
        for x in args:
            v = self.ev(s, x)
            av.append(v)
        pre = {}
        for k, v in enumerate(av):
            if v is not None and v[0]:
                t = self.tid("$a%d.%d" % (e, k), (), "int")
                s.z.kill(t)
                s.z.grow(max(t, v[0]) + 1)
                s.z.add(t, v[0], v[1])
                s.z.add(v[0], t, -v[1])
                pre[k] = (t, 0)
            else:
                pre[k] = v
        # message accessors that change the message
        T = obj_type(f.ty(recv)) if recv is not None and recv >= 0 else None
        nc = not callee.endswith(") const")
        if T in B.messages and rp is not None:
            fn = n.get("fn", "")
            if nc:
                if fn.startswith("set_") and len(args) == 1:
                    self.msg_set(s, rp, T, fn[4:], av[0], f.ty(args[0]), args[0], e)
                elif fn.startswith("add_"):
                    self.msg_size(s, rp, T, fn[4:], 1)
                elif fn.startswith("clear_"):
                    self.msg_size(s, rp, T, fn[6:], None)
                elif fn == "Clear":
                    self.kill_prefix(s, rp[0], inv=False)
                    self.msg_clear(s, rp, T)
                elif fn.startswith("mutable_"):
                    pass
                elif fn == "operator=":
                    self.kill_prefix(s, rp[0])
                    if args:
                        self.copy_obj(s, rp[0], args[0])
                elif fn.startswith(("ParseFrom", "ParsePartial", "MergeFrom", "CopyFrom")):
                    self.kill_prefix(s, rp[0], inv=False)
        elif n.get("op") == "=" and recv is not None and rp is not None and "[]" not in rp[0] and (not fns or all(g.impl for g in fns)):
            self.kill_prefix(s, rp[0])
            if args:
                self.copy_obj(s, rp[0], args[0])
        # by-reference arguments
        par = B.param_types(n, fns)
        for k, x in enumerate(args):
            pt = par[k] if k < len(par) else None
            ax = x
            an = f.nodes[ax]
            byref = (pt is None and an["k"] == "Un" and an["op"] == "&") or (pt is not None and (pt.endswith("&") or pt.endswith("*")) and not pt.startswith("const "))
            if not byref:
                continue
            p = self.path(ax)
            if p is None or "[]" in p[0]:
                continue
            if is_int(f.ty(self.deref(ax))):
                u = self.index.get(p[0])
                if u is not None:
                    s.z.grow(u + 1)
                    self.fresh(s, u, inv=False)
                    self.weak(s, u)
            elif pt is None or pt.endswith("*") or pt.endswith("&"):
                if not fns:
                    self.kill_prefix(s, p[0])
        # members the callees may write
        if fns:
            for u in self.modified(e, fns):
                if u < s.z.M.shape[0]:
                    self.fresh(s, u)
        ret = None
        if is_int(n.get("t", "")) and n["k"] == "Call" and self.term(e) is None:
            ret = self.tid("$c%d" % e, (), base_type(n["t"]))
            s.z.kill(ret)
            s.z.grow(ret + 1)
            if not INTS[base_type(n["t"])][1]:
                s.z.add(0, ret, 0)
            q = n.get("q", "")
            if q in B.ext_ret:
                lo, hi = B.ext_ret[q]
                if lo is not None:
                    s.z.add(0, ret, -lo)
                if hi is not None:
                    s.z.add(ret, 0, hi)
        if fns and len(fns) <= 40:
            self.sdeps |= {g.id for g in fns}
            sm = B.summary(fns)
            if sm is BOTTOM:
                return False
            if sm is not None:
                self.apply_summary(s, e, sm, pre, args, rp, ret)
        return True

    def modified(self, e, fns):
        """terms of members the callees of e may write"""
        n0, got = self.mcache.get(e, (0, []))
        if n0 < len(self.names):
            mods = self.B.mods_of(fns)
            got = list(got)
            for u in range(max(n0, 1), len(self.names)):
                p2, ids, ty = self.meta[u]
                if ids and not p2.endswith("@") and any(x in mods or (x.rsplit("::", 1)[0] + "::*") in mods for x in ids):
                    got.append(u)
            self.mcache[e] = (len(self.names), got)
        return got

    def deref(self, x):
        n = self.f.nodes[x]
        if n["k"] == "Un" and n["op"] == "&" and n.get("c"):
            return n["c"][0]
        return x

    def msg_term(self, rp, T, field, ty="unsigned int"):
        return self.tid(rp[0] + ".$" + field, rp[1] | {T + "::" + field}, self.B.msg_type(T, field))

    def msg_set(self, s, rp, T, field, v, vt, arg, e):
        t = self.msg_term(rp, T, field)
        s.z.grow(t + 1)
        if v is not None:
            v = self.conv(s, v, vt, self.B.msg_type(T, field), arg)
        self.assign(s, t, v, e)

    def msg_size(self, s, rp, T, field, inc):
        t = self.msg_term(rp, T, field + "_size") if inc is not None else None
        if inc is not None:
            self.known(s, t)
            self.assign(s, t, (t, 1), 0)
        else:
            for nm in (field, field + "_size"):
                p = rp[0] + ".$" + nm
                if p in self.index:
                    self.assign(s, self.index[p], (0, 0), 0)

    def msg_clear(self, s, rp, T):
        for field in self.B.msg_fields.get(T, ()):
            t = self.msg_term(rp, T, field)
            s.z.grow(t + 1)
            self.assign(s, t, (0, 0), 0)

    def apply_summary(self, s, e, sm, pre, args, rp, ret):
        idx = {}
        for j, nm in enumerate(sm.names):
            if nm == "0":
                idx[j] = (0, 0)
            elif nm == "ret":
                if ret is not None:
                    idx[j] = (ret, 0)
            elif nm[0] == "pin":
                v = pre.get(nm[1])
                if v is not None:
                    idx[j] = v
            elif nm[0] == "pout":
                if nm[1] < len(args):
                    p = self.path(args[nm[1]])
                    if p is not None and "[]" not in p[0]:
                        t = self.tid(p[0], p[1], base_type(self.f.ty(self.deref(args[nm[1]]))))
                        s.z.grow(t + 1)
                        idx[j] = (t, 0)
            elif nm[0] == "this" and rp is not None and "[]" not in rp[0]:
                root = rp[0].split(".")[0]
                if root == "this" or root.startswith("%"):
                    new = rp[0] + nm[1] not in self.index
                    t = self.tid(rp[0] + nm[1], rp[1] | nm[2], nm[3])
                    s.z.grow(t + 1)
                    if new:
                        self.fresh(s, t)
                    idx[j] = (t, 0)
        ks = sorted(idx)
        ok = True
        for a in ks:
            for b in ks:
                if a != b and sm.M[a, b] != INF:
                    (ta, ca), (tb, cb) = idx[a], idx[b]
                    # (ta+ca) - (tb+cb) <= c
                    if ta or tb:
                        ok = s.z.add(ta, tb, sm.M[a, b] - ca + cb) and ok
        return ok

    # ------------------------------------------------ branches
    def edge(self, fn, b, k, s):
        f = self.f
        if s is None:
            return None
        tc = b.get("tc", -1)
        if tc is None or tc < 0 or len(b["s"]) != 2:
            if b.get("t", -1) is not None and b.get("t", -1) >= 0 and f.nodes[b["t"]]["k"] == "Switch":
                return self.switch(b, k, s)
            return s
        if f.nodes[b["t"]]["k"] == "Switch":
            return self.switch(b, k, s)
        val = (k == 0)
        i = tc
        while f.nodes[i]["k"] == "Bin" and f.nodes[i]["op"] in ("&&", "||"):
            i = f.nodes[i]["c"][1]
        s = s.copy()
        return s if self.assume(s, i, val) else None

    def switch(self, b, k, s):
        return s

    def assume(self, s, i, val, depth=0):
        f = self.f
        for a, v in cond_atoms(f, i, val):
            n = f.nodes[a]
            if n["k"] == "Bool":
                if bool(n["v"]) != v:
                    return False
                continue
            if n["k"] == "Bin" and n["op"] in ("<", ">", "<=", ">=", "==", "!="):
                if not self.compare(s, n["op"], n["c"][0], n["c"][1], v):
                    return False
                continue
            if n["k"] == "Call" and base_type(n.get("t")) == "bool" and depth < 4:
                if not self.predicate(s, a, v):
                    return False
                continue
            if is_int(n.get("t")) or n["k"] == "Ref":
                t = self.term(a) if is_int(n.get("t")) else None
                if t is not None and base_type(n["t"]) == "bool" and depth < 4:
                    for x in s.b:
                        if x[0] == t and not self.assume(s, x[1], v, depth + 1):
                            return False
                elif is_int(n.get("t")):
                    x = self.ev(s, a)
                    if x is not None and base_type(n["t"]) != "bool":
                        if not v:
                            if not (s.z.add(x[0], 0, -x[1]) and s.z.add(0, x[0], x[1])):
                                return False
                        elif self.lo(s, x) >= 0:
                            if not s.z.add(0, x[0], x[1] - 1):
                                return False
                    elif x is not None and x[0] and base_type(n["t"]) == "bool":
                        # a predicate: relations of its result with its arguments
                        ok = s.z.add(0, x[0], -1) if v else s.z.add(x[0], 0, 0)
                        if not ok:
                            return False
        return True

    def predicate(self, s, e, v):
        """a call known to have answered v: what its arguments and the object then satisfy (members it may change are left out)"""
        f, B = self.f, self.B
        n = f.nodes[e]
        fns = B.p.callees(f, e)
        if not fns or len(fns) > 8 or self.term(e) is not None:
            return True
        mods = B.mods_of(fns)
        args = f.args(e)
        recv = f.recv(e)
        self.sdeps |= {g.id for g in fns}
        sm = B.summary(fns, v)
        if sm is BOTTOM:
            return False
        if sm is None:
            return True
        pre = {}
        par = B.param_types(n, fns)
        for k, x in enumerate(args):
            t = par[k] if k < len(par) else ""
            if not (t.endswith("&") and not t.startswith("const ")) and not any(f.nodes[z]["k"] in ("Assign", "Call") or f.nodes[z]["k"] == "Un" and f.nodes[z]["op"] in ("++", "--")
                       for z in f.walk(x)):
                pre[k] = self.ev(s, x)
        keep = [j for j, nm in enumerate(sm.names) if nm == "0" or nm[0] == "pin" or nm[0] == "this" and not nm[2] & mods]
        sm = Summary([sm.names[j] for j in keep], sm.M[np.ix_(keep, keep)])
        return self.apply_summary(s, e, sm, pre, args, self.path(recv) if recv is not None else None, None)

    def compare(self, s, op, x, y, v):
        f = self.f
        NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}
        if not v:
            op = NEG[op]
        tx, ty = base_type(f.ty(x)), base_type(f.ty(y))
        if tx not in INTS or ty not in INTS:
            return True
        a, b = self.ev(s, x), self.ev(s, y)
        if a is None or b is None:
            return True
        (wx, sx), (wy, sy) = INTS[tx], INTS[ty]
        wx2, sx2 = (32, True) if wx < 32 else (wx, sx)
        wy2, sy2 = (32, True) if wy < 32 else (wy, sy)
        if sx2 != sy2:
            # the signed side is converted when the unsigned one is at least as wide
            sgn, uns = (a, b) if sx2 else (b, a)
            wide = (wy2 >= wx2) if sx2 else (wx2 >= wy2)
            if wide and self.lo(s, sgn) < 0:
                # a negative value turns into a huge one
                big = 2 ** 31
                o = op if sx2 else {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[op]
                if o in ("<", "<=", "==") and self.hi(s, uns) <= big:
                    if not s.z.add(0, sgn[0], sgn[1]):      # sgn >= 0
                        return False
                else:
                    return True
        z = s.z
        def le(p, q, c):
            # p - q <= c
            return z.add(p[0], q[0], c - p[1] + q[1]) if p[0] or q[0] else p[1] - q[1] <= c
        if op == "<":
            return le(a, b, -1)
        if op == "<=":
            return le(a, b, 0)
        if op == ">":
            return le(b, a, -1)
        if op == ">=":
            return le(b, a, 0)
        if op == "==":
            return le(a, b, 0) and le(b, a, 0)
        # !=
        dhi = z.ub(a[0], b[0]) + a[1] - b[1] if a[0] or b[0] else a[1] - b[1]
        dlo = -(z.ub(b[0], a[0]) + b[1] - a[1]) if a[0] or b[0] else a[1] - b[1]
        if dhi == 0 and dlo == 0:
            return False
        if dhi == 0:
            return le(a, b, -1)
        if dlo == 0:
            return le(b, a, -1)
        return True

    # ------------------------------------------------ fixpoint
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        a.z.grow(len(self.names))
        b.z.grow(len(self.names))
        return State(Zone(np.maximum(a.z.M, b.z.M)), a.b & b.b)

    def initial(self):
        f = self.f
        z = Zone(np.zeros((1, 1)))
        s = State(z)
        for p in f.params:
            ty = f.locals.get(p, {}).get("t", "")
            if is_int(ty):
                t = self.tid(p, (), base_type(ty))
                g = self.tid(p + "@", (), base_type(ty))
                s.z.grow(len(self.names))
                self.fresh(s, t)
                lo, hi = self.B.pre.get((f.id, f.params.index(p)), (-INF, INF))
                if lo != -INF:
                    s.z.add(0, t, -lo)
                if hi != INF:
                    s.z.add(t, 0, hi)
                s.z.add(t, g, 0)
                s.z.add(g, t, 0)
        # every member path the function mentions, with its value on entry
        for i in f.walk():
            n = f.nodes[i]
            if n["k"] in ("Member", "Call") and is_int(n.get("t")):
                t = self.term(i)
                if t is not None and self.meta[t][1]:
                    self.entry_term(s, t)
        for t, (path, ids, ty) in sorted(self.meta.items()):
            if ids and not path.endswith("@") and path + "@" not in self.index:
                self.entry_term(s, t)
        return s

    def entry_term(self, s, t):
        f = self.f
        path, ids, ty = self.meta[t]
        g = self.tid(path + "@", ids, ty)
        s.z.grow(len(self.names))
        fid = self.last_field(t)
        own = f.raw.get("ctor") or f.name == short(f.cls or "").split("::")[-1]
        if own and path.startswith("this.") and fid and fid.rsplit("::", 1)[0] == f.cls:
            self.fresh(s, t, inv=False)
            return
        self.fresh(s, t, inv=not (path.startswith("this.") and (f.id, fid) in self.B.open))
        s.z.add(t, g, 0)
        s.z.add(g, t, 0)

    def run(self):
        """members that only come up on the way are part of the state from the start: analyse again once they are known"""
        if self.inb is None:
            for _ in range(3):
                self.run1()
                if all(path.endswith("@") or not ids or path + "@" in self.index for path, ids, ty in self.meta.values()):
                    break
                self.thresh = None
        return self

    def run1(self):
        f = self.f
        s = self.initial()
        for io in f.raw["inits"]:
            if io["e"] < 0:
                continue
            for x in self.postorder(io["e"]):
                s = self.transfer(f, x, s)
            if "field" in io:
                fl = self.B.field_type.get(io["field"])
                name = "this." + io["field"].split("::")[-1]
                if fl and is_int(fl):
                    t = self.tid(name, {io["field"]}, base_type(fl))
                    s.z.grow(t + 1)
                    v = self.ev(s, io["e"])
                    if v is not None:
                        v = self.conv(s, v, f.ty(io["e"]), fl, io["e"])
                    self.assign(s, t, v, io["e"])
                elif f.nodes[io["e"]]["k"] == "Construct":
                    self.kill_prefix(s, name)
        blocks = f.blocks
        order = self.rpo()
        pos = {b: k for k, b in enumerate(order)}
        inb = {f.entry: s}
        visits = {}
        work = {f.entry}
        outs = {}
        n = 0
        heads = {t for b in order for t in blocks[b]["s"] if t in pos and pos[t] <= pos[b]}
        while work:
            n += 1
            if n > 4000:
                raise AnalysisBroken("bounds did not converge in " + f.id)
            b = min(work, key=lambda x: pos.get(x, 0))
            work.discard(b)
            st = inb[b]
            for e in blocks[b]["e"]:
                st = self.transfer(f, e, st)
            for k, t in enumerate(blocks[b]["s"]):
                if t < 0:
                    continue
                ns = self.edge(f, blocks[b], k, st)
                if ns is None:
                    continue
                if t not in inb:
                    inb[t] = ns.copy()
                    work.add(t)
                    continue
                old = inb[t]
                j = self.join(old, ns)
                if t in heads:
                    visits[t] = visits.get(t, 0) + 1
                    if visits[t] > 2:
                        old.z.grow(len(self.names))
                        W = np.where(j.z.M > old.z.M, INF, old.z.M)
                        if visits[t] <= 60:     # bounds by a constant of the function
                            W[:, 0] = np.where(j.z.M[:, 0] > old.z.M[:, 0], self.up(j.z.M[:, 0]), old.z.M[:, 0])
                            W[0, :] = np.where(j.z.M[0, :] > old.z.M[0, :], self.up(j.z.M[0, :]), old.z.M[0, :])
                        j = State(Zone(W), j.b)
                old.z.grow(j.z.M.shape[0])
                if not (j == old):
                    inb[t] = j
                    work.add(t)
        # descending: recompute once with the joins of the predecessors
        for _ in range(2 if heads else 0):
            new = {f.entry: inb[f.entry]}
            for b in order:
                if b != f.entry:
                    acc = None
                    for (q, k) in f.preds[b]:
                        if q in inb:
                            st = inb[q] if q not in new or pos[q] >= pos[b] else new[q]
                            key = (q, id(st))
                            if key not in outs:
                                x = st
                                for e in blocks[q]["e"]:
                                    x = self.transfer(f, e, x)
                                outs[key] = (st, x)
                            ns = self.edge(f, blocks[q], k, outs[key][1])
                            if ns is not None:
                                acc = ns.copy() if acc is None else self.join(acc, ns)
                    if acc is None:
                        continue
                    new[b] = acc
            outs = {}
            inb = new
        self.inb = inb
        return self

    def up(self, M):
        """next larger constant that occurs in the function (or as a bound of a member)"""
        if self.thresh is None:
            ts = {-1, 0, 1}
            for i in self.f.walk():
                n = self.f.nodes[i]
                if n["k"] == "Bin" and n["op"] in ("<", ">", "<=", ">=", "==", "!="):
                    for x in n["c"]:
                        m = self.f.nodes[x]
                        v = m.get("cv", m.get("v"))
                        if isinstance(v, int) and abs(v) < 2 ** 32:
                            ts |= {v - 1, v, v + 1, -v, -v + 1, -v - 1}
                if n["k"] == "Index":
                    m = re.search(r"\[(\d+)\]", self.f.ty(n["c"][0]))
                    if m:
                        ts |= {int(m.group(1)), int(m.group(1)) - 1}
            for t in self.meta:
                lo, hi = self.B.inv_of(self.last_field(t)) if self.meta[t][1] else (INF, INF)
                for v in (-lo, -lo - 1, -lo + 1, hi, hi - 1, hi + 1):
                    if abs(v) != INF:
                        ts.add(v)
            self.thresh = sorted(ts)
        a = np.array(self.thresh + [INF])
        return a[np.minimum(np.searchsorted(a, M), len(a) - 1)]

    def rpo(self):
        f = self.f
        seen, out = set(), []
        st = [(f.entry, iter([x for x in f.blocks[f.entry]["s"] if x >= 0]))]
        seen.add(f.entry)
        while st:
            b, it = st[-1]
            for t in it:
                if t not in seen:
                    seen.add(t)
                    st.append((t, iter([x for x in f.blocks[t]["s"] if x >= 0])))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    def postorder(self, i):
        out = []
        for c in self.f.nodes[i].get("c", ()):
            if c >= 0:
                out += self.postorder(c)
        return out + [i]

    def visit(self, hook):
        """replay with the final states: hook(node id, state before the node)"""
        f = self.f
        self.run()
        for b, s in sorted(self.inb.items()):
            for e in f.blocks[b]["e"]:
                hook(e, s)
                s = self.transfer(f, e, s)
        return

    def exits(self, when=None):
        """join of the states at normal returns (where a predicate answers `when`), or None"""
        f = self.f
        self.run()
        acc = None
        for q, k in f.preds[f.exit]:
            b = f.blocks[q]
            if q not in self.inb or f.is_abrupt(b):
                continue
            s = self.inb[q]
            for e in b["e"]:
                s = self.transfer(f, e, s)
                if s is not None and when is not None and f.nodes[e]["k"] == "Return" and f.nodes[e].get("c"):
                    s = s.copy()
                    if not self.assume(s, f.nodes[e]["c"][0], when):
                        s = None
            s = self.edge(f, b, k, s)
            if s is not None:
                acc = s.copy() if acc is None else self.join(acc, s)
        return acc


class Bounds:
    ext_ret = {"strlen": (0, None), "strtol": (None, None), "omp_get_num_threads": (1, None), "omp_get_thread_num": (0, None),
               "omp_get_max_threads": (1, None)}

    def __init__(self, prog):
        self.p = prog
        self.inv = {}
        self.pre = {}
        self.fa = {}
        self.sums = {}
        self.active = set()
        self.stack = []
        self.approx = {}
        self.selfrec = set()
        self.open = set()       # (function, member): called where the member may be outside its bounds
        self.messages = set()
        for f in prog.fns.values():
            for n in f.nodes:
                if n and n["k"] == "Call" and n.get("m") and n.get("c"):
                    T = obj_type(f.ty(n["c"][0]))
                    if T in prog.messages:
                        self.messages.add(T)
        self.msg_fields = {}
        self.msg_ty = {}
        for f in prog.fns.values():
            for i, n in enumerate(f.nodes):
                if n and n["k"] == "Call" and n.get("m") and n.get("c") and n.get("f"):
                    T = obj_type(f.ty(n["c"][0]))
                    if T in self.messages and n["f"].endswith(") const") and not f.args(i) and is_int(n.get("t")):
                        self.msg_fields.setdefault(T, set()).add(n["fn"])
                        self.msg_ty[(T, n["fn"])] = base_type(n["t"])
        self.field_type = {}
        for r in prog.recs.values():
            for x in r["fields"]:
                self.field_type[x["id"]] = x["t"]
        self._mods()

    def msg_type(self, T, field):
        return self.msg_ty.get((T, field), "int" if field.endswith("_size") else "unsigned int")

    def ret_type(self, f):
        return base_type(f.raw.get("ret", "") or "int")

    def inv_of(self, fid):
        return self.inv.get(fid, (-INF, INF))

    def param_types(self, n, fns):
        if fns:
            g = fns[0]
            return [g.locals.get(p, {}).get("t", "") for p in g.params]
        sig = n.get("f") or ""
        m = re.search(r"\((.*)\)( const)?$", sig)
        if not m:
            return []
        out, depth, cur = [], 0, ""
        for ch in m.group(1):
            if ch in "<(":
                depth += 1
            elif ch in ">)":
                depth -= 1
            if ch == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
            else:
                cur += ch
        if cur.strip():
            out.append(cur.strip())
        return out

    # ------------------------------------------------ effects
    def all_ints(self, T, seen=None):
        """ids of everything inside an object of type T"""
        seen = seen if seen is not None else set()
        T = obj_type(T)
        if T in seen:
            return set()
        seen.add(T)
        if T in self.messages:
            return {T + "::*"}
        out = set()
        if T in self.p.recs:
            for x in self.p.fields(T):
                out.add(x["id"])
                out |= self.all_ints(x["t"], seen) if not x["t"].rstrip().endswith("*") else set()
        return out

    def _mods(self):
        p = self.p
        direct = {}
        self.writes = {}       # field id -> set of function ids writing it directly
        for f in p.fns.values():
            m = set()
            for i, n in enumerate(f.nodes):
                if n is None:
                    continue
                k, c = n["k"], n.get("c", ())
                if k == "Assign" or (k == "Un" and n["op"] in ("++", "--")):
                    m |= self._lv(f, c[0])
                elif k == "Un" and n["op"] == "&":
                    if self._escapes(f, i):
                        m |= self._lv(f, c[0])
                elif k in ("Call", "Construct"):
                    fns = p.callees(f, i) if k == "Call" else []
                    args = f.args(i) if k == "Call" else list(c)
                    pt = self.param_types(n, fns)
                    for j, x in enumerate(args):
                        t = pt[j] if j < len(pt) else ""
                        if t.endswith("&") and not t.startswith("const "):
                            m |= self._lv(f, x)
                    recv = f.recv(i) if k == "Call" else None
                    if recv is not None and recv >= 0:
                        T = obj_type(f.ty(recv))
                        if T in self.messages and not (n.get("f") or "").endswith(") const"):
                            fn = n.get("fn", "")
                            if fn.startswith("set_"):
                                m.add(T + "::" + fn[4:])
                            elif fn.startswith("add_"):
                                m.add(T + "::" + fn[4:] + "_size")
                            elif fn.startswith("mutable_"):
                                m.add(T + "::" + fn[8:] + "_size")
                            else:
                                m.add(T + "::*")
                        elif n.get("op") == "=" and (not fns or all(g.impl for g in fns)):
                            m |= self._lv(f, recv) | (self.all_ints(f.ty(recv)) if not f.ty(recv).endswith("*") else set())
            for io in f.raw["inits"]:
                if "field" in io:
                    m.add(io["field"])
            direct[f.id] = m
            for x in m:
                self.writes.setdefault(x, set()).add(f.id)
        self.direct = direct
        mods = {k: set(v) for k, v in direct.items()}
        callees = {}
        callers = {}
        for f in p.fns.values():
            cs = set()
            for i, n in enumerate(f.nodes):
                if n is None:
                    continue
                if n["k"] == "Call":
                    cs |= {g.id for g in p.callees(f, i)}
                elif n["k"] == "Construct" and n.get("f") in p.fns:
                    cs.add(n["f"])
                elif n["k"] == "Delete":
                    pass
            callees[f.id] = cs
            for g in cs:
                callers.setdefault(g, set()).add(f.id)
        work = set(mods)
        while work:
            x = work.pop()
            for q in callers.get(x, ()):
                if not mods[x] <= mods[q]:
                    mods[q] |= mods[x]
                    work.add(q)
        self.mods = mods
        self.callees_of = callees

    def _lv(self, f, i):
        n = f.nodes[i] if i is not None and i >= 0 else None
        if n is None:
            return set()
        if n["k"] == "Member":
            return {n["d"]}
        if n["k"] in ("Cast",) and n.get("c"):
            return self._lv(f, n["c"][0])
        if n["k"] == "Un" and n["op"] in ("&", "*") and n.get("c"):
            return self._lv(f, n["c"][0])
        return set()

    def _escapes(self, f, i):
        return True

    def mods_of(self, fns):
        out = set()
        for g in fns:
            out |= self.mods[g.id]
        return out

    # ------------------------------------------------ summaries
    def fa_of(self, f):
        a = self.fa.get(f.id)
        if a is None:
            a = self.fa[f.id] = FA(self, f)
        return a

    def summary(self, fns, when=None):
        ss = []
        for g in fns:
            ss.append(self.summary1(g, when))
        if BOTTOM in ss:
            ss = [x for x in ss if x is not BOTTOM] or [BOTTOM]
            if ss == [BOTTOM]:
                return BOTTOM
        if not ss or any(x is None for x in ss):
            return None
        if len(ss) == 1:
            return ss[0]
        common = [n for n in ss[0].names if all(n in x.names for x in ss[1:])]
        M = None
        for x in ss:
            ix = [x.names.index(n) for n in common]
            sub = x.M[np.ix_(ix, ix)]
            M = sub if M is None else np.maximum(M, sub)
        return Summary(common, M)

    def summary1(self, g, when=None):
        key = g.id if when is None else (g.id, when)
        if key in self.sums:
            return self.sums[key]
        if g.id in self.active:
            if g.id == self.stack[-1] and when is None and g.id in self.approx:
                self.selfrec.add(g.id)
                return self.approx[g.id]
            return None
        if not g.blocks or g.impl or len(self.active) > 60 or len(g.nodes) > 4000 or not self.worth(g):
            self.sums[key] = None
            return None
        if when is not None and g.raw.get("ret") != "bool":
            self.sums[key] = None
            return None
        direct = any(n and n["k"] == "Call" and n.get("f") == g.id for n in g.nodes)
        if direct and when is None:
            self.approx[g.id] = BOTTOM
        rounds = 0
        while True:
            rounds += 1
            self.active.add(g.id)
            self.stack.append(g.id)
            try:
                a = self.fa_of(g)
                s = a.exits(when)
            finally:
                self.active.discard(g.id)
                self.stack.pop()
            sm = self.make(g, a, s) if s is not None else BOTTOM if direct or when is not None else None
            if g.id not in self.selfrec or when is not None:
                break
            # a function that calls itself: start from "does not return" and grow until stable
            old = self.approx[g.id]
            if old is BOTTOM and sm is BOTTOM or old is None:
                break
            if old is not BOTTOM and sm is not None and sm is not BOTTOM and sm.names == old.names and (sm.M <= old.M).all():
                break
            if old is not BOTTOM and sm is not None and sm is not BOTTOM:
                if sm.names == old.names and rounds < 6:
                    sm = Summary(sm.names, np.where(sm.M > old.M, INF, old.M))
                else:
                    sm = None
            self.approx[g.id] = sm
            self.fa.pop(g.id, None)
        self.approx.pop(g.id, None)
        self.selfrec.discard(g.id)
        if sm is not None and sm is not BOTTOM:
            off = sm.M[~np.eye(len(sm.names), dtype=bool)]
            if not np.isfinite(off).any():
                sm = None
        self.sums[key] = sm
        return sm

    def make(self, g, a, s):
        names, ix = ["0"], [0]
        s.z.grow(len(a.names))
        rt = "$ret"
        if rt in a.index and is_int(g.raw.get("ret", "int")):
            names.append("ret")
            ix.append(a.index[rt])
        for k, pn in enumerate(g.params):
            ty = g.locals.get(pn, {}).get("t", "")
            if is_int(ty) and pn + "@" in a.index:
                names.append(("pin", k))
                ix.append(a.index[pn + "@"])
                if ty.endswith("&") and not ty.startswith("const "):
                    names.append(("pout", k))
                    ix.append(a.index[pn])
        for t, (path, ids, ty) in sorted(a.meta.items()):
            if path.startswith("this.") and not path.endswith("@") and t < s.z.M.shape[0]:
                names.append(("this", path[4:], ids, ty))
                ix.append(t)
        return Summary(names, s.z.M[np.ix_(ix, ix)].copy())

    def worth(self, g):
        """does a summary of g say anything about integers?"""
        if is_int(g.raw.get("ret", "")):
            return True
        if any(is_int(g.locals.get(x, {}).get("t", "")) for x in g.params):
            return True
        if g.cls is None:
            return False
        if any(n and n["k"] == "Throw" for n in g.nodes):
            return True
        return any(is_int(self.field_type.get(x, "")) or x.rsplit("::", 1)[0] in self.messages for x in self.mods[g.id])

    def invalidate(self, fields):
        """forget every analysis that used the bounds of these members, directly or through a summary"""
        dirty = {g for g, a in self.fa.items() if a.deps & fields or (a.thresh is not None and any(set(m[1]) & fields for m in a.meta.values()))}
        rev = {}
        for g, a in self.fa.items():
            for h in a.sdeps:
                rev.setdefault(h, set()).add(g)
        work = list(dirty)
        while work:
            g = work.pop()
            for h in rev.get(g, ()):
                if h not in dirty:
                    dirty.add(h)
                    work.append(h)
        self.forget(dirty)
        return dirty

    def forget(self, dirty):
        for g in dirty:
            self.fa.pop(g, None)
            for key in (g, (g, True), (g, False)):
                self.sums.pop(key, None)
