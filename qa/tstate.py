"""Path-sensitive interprocedural typestate exploration over abstract states (finite, disjunctive; no solver).

A state is (env, g): env maps access paths of the current frame to abstract values, g is the client's protocol state.
Values: ("c", constant) | ("nn",) non-null pointer | ("s", key) the (unknown) value stored under key | ("ne", consts).
Functions that reach no primitive of the client are not entered: they only may raise."""
from .extract import AnalysisBroken

NN = ("nn",)


class Explorer:
    def __init__(self, p, client, relevant, raises, nonnull=lambda f, x: False, cap=6000):
        self.p, self.client, self.relevant, self.raises, self.nonnull, self.cap = p, client, relevant, raises, nonnull, cap
        self.memo = {}
        self.active = set()
        self.visited = set()
        self.states = 0

    # ---- paths
    def path(self, f, i, env):
        q = f.path(i)
        return None if q is None else self.canon(q, env)

    def canon(self, q, env):
        for _ in range(6):
            cut = len(q)
            for ch in ".#[":
                j = q.find(ch, 3 if q.startswith("%") else 0)
                if q.startswith("%") and ch == ".":
                    # local ids look like %3.name
                    j = q.find(".", q.find(".") + 1) if "." in q else -1
                if j >= 0:
                    cut = min(cut, j)
            a = env.get("&" + q[:cut])
            if a is None:
                return q
            q = a + q[cut:]
        return q

    # ---- values
    def val(self, f, i, env, tmp):
        if i is None or i < 0:
            return None
        if i in tmp:
            return tmp[i]
        n = f.nodes[i]
        k = n["k"]
        if k == "Null":
            return ("c", 0)
        if "cv" in n and k != "Ref":
            return ("c", int(n["cv"]))
        if k in ("Bool", "Int", "Enum") and "v" in n:
            return ("c", int(n["v"]))
        if k == "New" or k == "This" or (k == "Un" and n["op"] == "&"):
            return NN
        if k == "Cast" and n.get("ck") != "dynamic" and n.get("c"):
            return self.val(f, n["c"][0], env, tmp)
        if k == "Un" and n["op"] == "!":
            v = self.val(f, n["c"][0], env, tmp)
            if v == NN:
                return ("c", 0)
            return ("c", int(not v[1])) if v and v[0] == "c" else None
        if k == "Bin" and n["op"] in ("==", "!="):
            a, b = (self.val(f, c, env, tmp) for c in n["c"])
            r = self.same(a, b, env)
            return None if r is None else ("c", int(r == (n["op"] == "==")))
        if k in ("Ref", "Member"):
            q = self.path(f, i, env)
            if q is None:
                return None
            v = env.get(q)
            if v is None and "cv" in n:
                return ("c", int(n["cv"]))
            return v if v is not None else ("s", q)
        return None

    def look(self, v, env):
        if v and v[0] == "s":
            return env.get(v[1], v)
        return v

    def same(self, a, b, env):
        a, b = self.look(a, env), self.look(b, env)
        if a is None or b is None:
            return None
        if a[0] == "c" and b[0] == "c":
            return a[1] == b[1]
        for u, v in ((a, b), (b, a)):
            if u == NN and v == ("c", 0):
                return False
            if u[0] == "ne" and v[0] == "c" and v[1] in u[1]:
                return False
        return None

    def refine(self, f, i, val, st):
        """states in which condition i has truth value val"""
        env, g, tmp = st
        if i is None or i < 0:
            return [st]
        n = f.nodes[i]
        k = n["k"]
        if k == "Un" and n["op"] == "!":
            return self.refine(f, n["c"][0], not val, st)
        if k == "Bin" and n["op"] in ("&&", "||"):
            if val == (n["op"] == "&&"):
                out = self.refine(f, n["c"][0], val, st)
                return [y for x in out for y in self.refine(f, n["c"][1], val, x)]
            return [st]
        g2 = self.client.assume(self, f, i, val, env, g)
        if g2 is None:
            return []
        g = g2
        v = self.val(f, i, env, tmp)
        v = self.look(v, env)
        if v is not None and v[0] == "c":
            return [(env, g, tmp)] if bool(v[1]) == val else []
        if v == NN:
            return [(env, g, tmp)] if val else []
        if k == "Bin" and n["op"] in ("==", "!="):
            eq = val == (n["op"] == "==")
            a, b = n["c"]
            va, vb = (self.val(f, c, env, tmp) for c in (a, b))
            for (u, uv), (w, wv) in (((a, va), (b, vb)), ((b, vb), (a, va))):
                wv = self.look(wv, env)
                if wv is None or wv[0] != "c":
                    continue
                env, tmp = self.learn(f, u, uv, wv[1], eq, env, tmp)
                break
            return [(env, g, tmp)]
        t = f.ty(i)
        if v is None or v[0] in ("s", "ne"):
            if t == "bool":
                env, tmp = self.learn(f, i, self.val(f, i, env, tmp), int(val), True, env, tmp)
            else:
                env, tmp = self.learn(f, i, self.val(f, i, env, tmp), 0, not val, env, tmp)
        return [(env, g, tmp)]

    def learn(self, f, i, v, c, eq, env, tmp):
        t = f.ty(i)
        if eq:
            nv = ("c", c)
        elif c == 0 and t.rstrip().endswith("*"):
            nv = NN
        else:
            old = self.look(v, env)
            nv = ("ne", (old[1] if old and old[0] == "ne" else frozenset()) | {c})
        j = i
        while j >= 0 and f.nodes[j]["k"] == "Cast" and f.nodes[j].get("c"):
            j = f.nodes[j]["c"][0]
        key = None
        if v and v[0] == "s":
            key = v[1]
        elif f.nodes[j]["k"] in ("Ref", "Member"):
            key = self.path(f, j, env)
        elif f.nodes[j]["k"] == "Assign":
            key = self.path(f, f.nodes[j]["c"][0], env)
        if key is not None:
            env = dict(env)
            env[key] = nv
        tmp = dict(tmp)
        tmp[i] = nv
        return env, tmp

    # ---- elements
    def kill(self, env, pre):
        return {k: v for k, v in env.items() if not (k == pre or k.startswith((pre + ".", pre + "#", pre + "[")))
                and not (v and v[0] == "s" and (v[1] == pre or v[1].startswith((pre + ".", pre + "#"))))}

    def step(self, f, e, st):
        """-> (list of normal states, list of (env, g, exception type or None) raised)"""
        env, g, tmp = st
        n = f.nodes[e]
        k = n["k"]
        if k == "Var":
            env = self.kill(env, n["d"])
            t = n.get("t", "")
            if n.get("c"):
                if t.endswith("&"):
                    q = self.path(f, n["c"][0], env)
                    if q is not None and not q.startswith(n["d"]):
                        env = dict(env)
                        env["&" + n["d"]] = q
                    return [(env, g, tmp)], []
                v = self.val(f, n["c"][0], env, tmp)
                v = self.look(v, env)
                if v is not None:
                    env = dict(env)
                    env[n["d"]] = v
            env, g = self.client.decl(self, f, e, env, g)
            return [(env, g, tmp)], []
        if k == "Assign":
            q = self.path(f, n["c"][0], env)
            if q is not None:
                v = self.look(self.val(f, n["c"][1], env, tmp), env) if n["op"] == "=" else None
                env = self.kill(env, q)
                if v is not None and "[]" not in q:
                    env[q] = v
                if v is not None:
                    tmp = dict(tmp)
                    tmp[e] = v
            return [(env, g, tmp)], []
        if k == "Un" and n["op"] in ("++", "--"):
            q = self.path(f, n["c"][0], env)
            if q is not None:
                env = self.kill(env, q)
            return [(env, g, tmp)], []
        if k == "Throw":
            return [], [(env, g, n.get("ty") if n.get("c") else "rethrow")]
        if k in ("Call", "Construct"):
            r = self.client.event(self, f, e, env, g, tmp)
            if r is not None:
                norm, exc = r
                out = []
                for env2, g2, v in norm:
                    t2 = dict(tmp)
                    if v is not None:
                        t2[e] = v
                    out.append((env2, g2, t2))
                return out, [(a, b, None) for a, b in exc]
            return self.call(f, e, env, g, tmp)
        return [st], []

    def targets(self, f, e):
        n = f.nodes[e]
        if n["k"] == "Construct":
            return [self.p.fns[n["f"]]] if n.get("f") in self.p.fns else []
        return self.p.callees(f, e)

    def call(self, f, e, env, g, tmp):
        n = f.nodes[e]
        gs = self.targets(f, e)
        rel = [h for h in gs if h.id in self.relevant]
        out, exc = [], []
        args = f.args(e) if n["k"] == "Call" else list(n.get("c", ()))
        if len(rel) < len(gs) or not gs:
            env2 = env
            from .effects import split_params, const_target
            ps = split_params(n["f"]) if n.get("f") else []
            for j, a in enumerate(args):
                q = self.path(f, a, env)
                t = ps[j] if j < len(ps) else ""
                if q is not None and (t.endswith("&") or t.endswith("*")) and not const_target(t):
                    env2 = self.kill(env2, q)
            t2 = tmp
            if n["k"] == "Call" and f.ty(e).endswith("*") and gs and self.nonnull(f, e):
                t2 = dict(tmp)
                t2[e] = NN
            out.append((env2, g, t2))
            if any(h.id in self.raises for h in gs):
                exc.append((env2, g, None))
        for h in rel:
            no, ex = self.enter(f, e, h, args, env, g, tmp)
            for env2, g2, v in no:
                t2 = dict(tmp)
                if v is not None:
                    t2[e] = v
                out.append((env2, g2, t2))
            exc += [(a, b, None) for a, b in ex]
        return self.dedup(out), list({self.fz(x[0], x[1]): x for x in exc}.values())

    def fz(self, env, g):
        return (tuple(sorted((k, v if not (v and v[0] == "ne") else ("ne", tuple(sorted(v[1])))) for k, v in env.items())), g)

    def dedup(self, sts):
        return list({(self.fz(s[0], s[1]), tuple(sorted((k, str(v)) for k, v in s[2].items()))): s for s in sts}.values())

    def enter(self, f, e, h, args, env, g, tmp):
        n = f.nodes[e]
        pre = []     # (caller prefix, callee prefix)
        if n.get("m") and n.get("c"):
            r = self.path(f, n["c"][0], env)
            if r is not None:
                pre.append((r, "this"))
        byval = {}
        for j, a in enumerate(args):
            if j >= len(h.params):
                break
            pid = h.params[j]
            t = h.locals[pid]["t"] if pid in h.locals else ""
            q = self.path(f, a, env)
            if t.endswith("&") and q is not None:
                pre.append((q, pid))
            v = self.look(self.val(f, a, env, tmp), env)
            if v is not None and v[0] != "s":
                byval[pid] = v
        cenv, rest = dict(byval), dict(env)
        for k, v in env.items():
            for cp, pp in pre:
                if k == cp or (k.startswith(cp) and k[len(cp):len(cp) + 1] in (".", "#")):
                    cenv[pp + k[len(cp):]] = v
                    rest.pop(k, None)
                    break
        key = (h.id, self.fz(cenv, g))
        if key not in self.memo:
            if h.id in self.active:
                return [(env, g, None)], []
            self.memo[key] = self.run(h, cenv, g)
        no, ex = self.memo[key]

        def back(e2):
            o = dict(rest)
            for k, v in e2.items():
                for cp, pp in pre:
                    if k == pp or (k.startswith(pp) and k[len(pp):len(pp) + 1] in (".", "#")):
                        if v and v[0] == "s":
                            continue
                        o[cp + k[len(pp):]] = v
                        break
            return o
        return [(back(e2), g2, v if v is None or v[0] != "s" else None) for e2, g2, v in no], [(back(e2), g2) for e2, g2 in ex]

    # ---- functions
    def handlers(self, f, x, ty):
        """(list of Catch nodes the exception may reach, may leave the function)"""
        out = []
        cur = x
        pa = f.parent
        while cur in pa:
            par = pa[cur]
            if f.nodes[par]["k"] == "Try" and f.nodes[par]["c"][0] == cur:
                for c in f.nodes[par]["c"][1:]:
                    t = f.nodes[c].get("ty") or ""
                    t = t.replace("const ", "").rstrip(" &*")
                    if t in ("", "..."):
                        return out + [c], False
                    if ty and ty != "rethrow":
                        if self.p.derives(ty, t):
                            return out + [c], False
                        continue
                    if t == self.client.EXC:
                        return out + [c], False
                    if self.p.derives(t, self.client.EXC):
                        out.append(c)
            cur = par
        return out, True

    def run(self, f, env, g):
        if not f.raw.get("cfg"):
            return [(env, g, None)], []
        self.active.add(f.id)
        self.visited.add(f.id)
        raw = {b["i"]: b for b in f.raw["cfg"]["blocks"]}
        lab = {b["label"]: b["i"] for b in raw.values() if "label" in b}
        normals, excs = {}, {}
        seen = set()
        work = []
        pa = f.parent

        def push(bi, e, g_):
            kk = (bi, self.fz(e, g_))
            if kk not in seen:
                seen.add(kk)
                self.states += 1
                if len(seen) > self.cap:
                    raise AnalysisBroken("too many states in " + f.id)
                work.append((bi, e, g_))

        def throw(x, e, g_, ty):
            hs, out = self.handlers(f, x, ty)
            for c in hs:
                if c not in lab:
                    raise AnalysisBroken("no block for handler at " + f.where(c))
                push(lab[c], e, self.client.caught(self, f, c, g_))
            if out:
                excs[self.fz(e, g_)] = (e, g_)
        push(f.entry, env, g)
        while work:
            bi, e0, g0 = work.pop()
            b = raw[bi]
            sts = [(e0, g0, {})]
            for x in b["e"]:
                nxt = []
                for s in sts:
                    no, ex = self.step(f, x, s)
                    nxt += no
                    for e2, g2, ty in ex:
                        throw(x, e2, g2, ty)
                sts = self.dedup(nxt) if len(nxt) > 1 else nxt
            if not sts:
                continue
            if bi == f.exit:
                for e2, g2, _ in sts:
                    e2 = dict(e2)
                    r = e2.pop("$ret", None)
                    normals[(self.fz(e2, g2), str(r))] = (e2, g2, r)
                continue
            ret = [x for x in b["e"] if f.nodes[x]["k"] == "Return"]
            t = b.get("t", -1)
            tk = f.nodes[t]["k"] if t is not None and t >= 0 and f.nodes[t] else None
            for s in sts:
                e2, g2, tmp = s
                if ret:
                    rn = f.nodes[ret[-1]]
                    if rn.get("c"):
                        v = self.look(self.val(f, rn["c"][0], e2, tmp), e2)
                        if v is not None and v[0] != "s":
                            e2 = dict(e2)
                            e2["$ret"] = v
                            s = (e2, g2, tmp)
                for k, succ in enumerate(b["s"]):
                    if succ < 0:
                        continue
                    if tk == "Switch":
                        c = f.nodes[t]["cond"]
                        v = self.val(f, c, e2, tmp)
                        l = raw[succ].get("label")
                        if l is not None and f.nodes[l]["k"] == "Case":
                            cvs = self.case_values(f, l, raw, succ)
                            for cv in cvs:
                                if self.same(v, ("c", cv), e2) is False:
                                    continue
                                e3, _ = self.learn(f, c, v, cv, True, e2, tmp)
                                push(succ, e3, g2)
                        else:
                            vals = [f.nodes[y]["v"] for y in f.walk(f.nodes[t]["body"]) if f.nodes[y]["k"] == "Case"]
                            lv = self.look(v, e2)
                            if lv and lv[0] == "c" and lv[1] in vals:
                                continue
                            e3 = e2
                            for cv in vals:
                                e3, _ = self.learn(f, c, v, cv, False, e3, tmp)
                                v = self.val(f, c, e3, tmp) if c not in tmp else v
                            push(succ, e3, g2)
                        continue
                    if "tc" in b and len([y for y in b["s"]]) == 2:
                        c = b["tc"]
                        while f.nodes[c]["k"] == "Bin" and f.nodes[c]["op"] in ("&&", "||") and b["e"] and b["e"][-1] in set(f.walk(f.nodes[c]["c"][1])):
                            c = f.nodes[c]["c"][1]      # the left operand was decided on the way here
                        for e3, g3, _ in self.refine(f, c, k == 0, s):
                            push(succ, e3, g3)
                    else:
                        push(succ, e2, g2)
        self.active.discard(f.id)
        return list(normals.values()), list(excs.values())

    def case_values(self, f, l, raw, succ):
        return [f.nodes[l]["v"]]


def reaching(p, prim):
    """functions from which a call satisfying prim(f, x) is reachable"""
    base = set()
    for f in p.fns.values():
        for x, n in enumerate(f.nodes):
            if n is not None and n["k"] in ("Call", "Construct") and prim(f, x):
                base.add(f.id)
                break
    st = list(base)
    while st:
        i = st.pop()
        for g, _ in p.callers[i]:
            if g.id not in base:
                base.add(g.id)
                st.append(g.id)
    return base
