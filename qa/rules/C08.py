"""C08: the command server answers every command, in step with the client."""
import os, re
from collections import namedtuple
from ..prog import short
from ..extract import AnalysisBroken
from ..tstate import Explorer, reaching, NN
from ..nulls import Nulls
from ..effects import split_params
from . import C03

ID = "C08"
DESC = ("Interprocedural path-sensitive typestate exploration (qa/tstate.py) of the command loop: every path through the functions that "
        "reach a Command being parsed or a Response being sent is followed, with exceptions routed to their handlers and return values, "
        "null results, flags and the command code tracked as abstract constants. The protocol automaton has the phases idle, command "
        "received, data promised, answered, error sent, connection failed. Violations: the next command is read (or the loop left) while "
        "the last one is unanswered or its promised data was not sent; anything is sent after an error response; a command whose processing "
        "raised is answered with success or not at all; a second success response or data without the client having sent data in between; a Response goes out without a required field of the .proto, an error without "
        "its text; an answer is not framed by its length or not flushed before the client's next message is awaited.")

CMD, RESP = "QDLIB::Command", "QDLIB::Response"
G = namedtuple("G", "phase failed unflushed framed")
IDLE, RECV, DATA, DONE, ERR, DEAD = "idle", "received", "data promised", "answered", "error sent", "connection failed"


def proto(p):
    """required fields and enum constants of the messages"""
    req, enums = {}, {}
    for root, _, files in os.walk(os.path.join(p.facts["repo"], "src")):
        for f in files:
            if not f.endswith(".proto"):
                continue
            t = re.sub(r"//.*", "", open(os.path.join(root, f)).read())
            for m in re.finditer(r"\bmessage\s+(\w+)\s*\{", t):
                d, j = 1, m.end()
                while d and j < len(t):
                    d += {"{": 1, "}": -1}.get(t[j], 0)
                    j += 1
                body = t[m.end():j]
                req["QDLIB::" + m.group(1)] = [x.lower() for x in re.findall(r"\brequired\s+\w+\s+(\w+)", body)]
                enums["QDLIB::" + m.group(1)] = {a: int(b) for a, b in re.findall(r"\b(\w+)\s*=\s*(\d+)\s*;", re.sub(
                    r"\b(required|optional|repeated)[^;]*;", "", body))}
    return req, enums


class Client:
    EXC = C03.EXC

    def __init__(self, p):
        self.p = p
        self.req, self.enums = proto(p)
        if RESP not in self.req or CMD not in self.req:
            raise AnalysisBroken("messages Command / Response not found in the .proto files")
        self.ok = self.enums[RESP].get("OK")
        self.quit = self.enums[CMD].get("QUIT")
        self.bad = {}
        self.sites = {"parse": set(), "send": set(), "data": set(), "recv": set(), "flush": set(), "handler": set()}
        self.wr = reaching(p, lambda f, x: f.nodes[x]["k"] == "Call" and (
            "basic_ostream" in f.nodes[x].get("cls", "") and f.nodes[x]["fn"] in ("write", "put")
            or f.nodes[x].get("fn") in ("SerializeToOstream", "SerializePartialToOstream")))
        self.rd = reaching(p, lambda f, x: f.nodes[x]["k"] == "Call" and (
            "basic_istream" in f.nodes[x].get("cls", "") and f.nodes[x]["fn"] in ("read", "get", "getline")
            or f.nodes[x].get("fn") in ("ParseFromIstream", "ParsePartialFromIstream")))

    # primitives that make a function worth entering
    def prim(self, f, x):
        n = f.nodes[x]
        if n["k"] != "Call" or not n.get("m"):
            return False
        t = self.rtype(f, x)
        return t == CMD and n["fn"].startswith(("ParseFrom", "MergeFrom")) or t == RESP and n["fn"].startswith("Serialize")

    def rtype(self, f, x):
        r = f.recv(x)
        if r is None:
            return ""
        while f.nodes[r]["k"] == "Cast" and f.nodes[r].get("c"):
            r = f.nodes[r]["c"][0]
        return f.ty(r).replace("const ", "").rstrip(" *&")

    def outside(self, f, q):
        """the stream at path q belongs to the handler or was handed in: the connection"""
        return bool(q) and (q.startswith("this.") or q in f.params)

    def flag(self, rule, f, x, what, msg):
        self.bad.setdefault((rule, f.short, what), (f.where(x), msg))

    # ---- protocol
    def decl(self, ex, f, e, env, g):
        return env, g

    def caught(self, ex, f, c, g):
        self.sites["handler"].add((f.id, c))
        return g._replace(failed=True) if g.phase in (RECV, DATA, DONE) else g

    def assume(self, ex, f, i, val, env, g):
        n = f.nodes[i]
        if n["k"] == "Call" and n.get("m"):
            t = self.rtype(f, i)
            bad = (n["fn"] in ("fail", "bad") and val) or (n["fn"] == "good" and not val)
            if bad and "ostream" in t and self.outside(f, ex.path(f, n["c"][0], env)):
                return g._replace(phase=DEAD)
            if t == RESP and n["fn"].startswith("Serialize") and not val:
                return g._replace(phase=DEAD)
        return g

    def unanswered(self, f, x, g, how):
        if g.phase == RECV:
            self.flag("C08.answered", f, x, "unanswered " + how, "a path reaches this point (%s) without a response to the last command" % how)
        elif g.phase == DATA:
            self.flag("C08.data-sent", f, x, "data " + how, "the response promised data, but this point (%s) is reached without sending them or an error" % how)
        elif g.failed and g.phase == DONE:
            self.flag("C08.error-answer", f, x, "failed " + how, "processing the command raised an error, but it was answered with success (%s)" % how)

    def flushed(self, f, x, g, what):
        if g.unflushed and g.phase != DEAD:
            self.flag("C08.flushed", f, x, "flush " + what, "the client's %s is awaited while the last answer may still be in the buffer" % what)

    def event(self, ex, f, e, env, g, tmp):
        n = f.nodes[e]
        if n["k"] != "Call" or not n.get("m"):
            return None
        t = self.rtype(f, e)
        fn = n["fn"]
        q = ex.path(f, n["c"][0], env)
        args = f.args(e)
        if t == CMD:
            if fn.startswith(("ParseFrom", "MergeFrom")):
                self.sites["parse"].add((f.id, e))
                self.unanswered(f, e, g, "next command")
                env = ex.kill(env, q) if q else env
                return [(env, G(RECV, False, g.unflushed, False), ("c", 1)), (env, g._replace(phase=IDLE, failed=False), ("c", 0))], []
            if not args and q is not None:
                k = q + "#" + fn
                return [(env, g, env.get(k, ("s", k)))], []
            return None
        if t == RESP:
            if q is None:
                return None
            if fn.startswith(("set_", "add_", "mutable_")):
                fld = fn.split("_", 1)[1]
                env = dict(env)
                v = ex.look(ex.val(f, args[0], env, tmp), env) if args else None
                env[q + "#" + fld] = v if v and v[0] == "c" else ("nn",)
                return [(env, g, None)], []
            if fn in ("Clear",) or fn.startswith("clear_"):
                return [(ex.kill(env, q) if fn == "Clear" else {k: v for k, v in env.items() if k != q + "#" + fn[6:]}, g, None)], []
            if fn.startswith("Serialize"):
                return self.send(f, e, env, g, q), []
            return [(env, g, None)], []
        if ("ostream" in t or "ofstream" in t) and self.outside(f, q) and "stringstream" not in t:
            if fn == "write":
                return [(env, g._replace(framed=True), None)], []
            if fn == "flush":
                self.sites["flush"].add((f.id, e))
                return [(env, g._replace(unflushed=False), None)], []
            return None
        if "istream" in t and fn in ("read", "get", "getline"):
            self.flushed(f, e, g, "next message")
            if g.phase in (DONE, ERR) and not (g.failed and g.phase == DONE):
                g = g._replace(phase=IDLE, failed=False)
            ps = split_params(n["f"])
            for a in args:
                r = ex.path(f, a, env)
                if r:
                    env = ex.kill(env, r)
            return [(env, g, None)], []
        # file objects attached to the connection
        ps = split_params(n.get("f", ""))
        if q is not None and len(ps) == 1 and ps[0].endswith("&") and "stream<" in ps[0] and fn.startswith("Set"):
            r = ex.path(f, args[0], env)
            if self.outside(f, r):
                env = dict(env)
                env[q + ("#out" if "ostream" in ps[0] else "#in")] = ("c", 1)
                return [(env, g, None)], []
        if q is not None and (q + "#out" in env or q + "#in" in env):
            ids = {h.id for h in self.p.callees(f, e)}
            w, r = ids & self.wr, ids & self.rd
            if w and r:
                w, r = (w, ()) if re.match(r"(?i)(write|put|send|save)", fn) else ((), r)
            exc = [(env, g)] if any(i in ex.raises for i in ids) else []
            v = NN if f.ty(e).endswith("*") and ex.nonnull(f, e) else None
            if w and q + "#out" in env:
                self.sites["data"].add((f.id, e))
                if g.phase == ERR:
                    self.flag("C08.error-final", f, e, "data", "data are sent although the command was already answered with an error")
                if g.phase == DONE:
                    self.flag("C08.surplus", f, e, "data", "data are sent although the command was already completely answered")
                ph = DONE if g.phase in (RECV, DATA, IDLE) else g.phase
                if g.failed and g.phase in (RECV, DATA, DONE):
                    self.flag("C08.error-answer", f, e, "data", "data are sent as the answer although processing the command raised an error")
                return [(env, g._replace(phase=ph, unflushed=True), v)], exc
            if r and q + "#in" in env:
                self.sites["recv"].add((f.id, e))
                self.flushed(f, e, g, "data")
                if g.phase == DONE and not g.failed:
                    g = g._replace(phase=RECV)      # the client sent data for this command: another answer is due
                    exc = [(env, g)] if exc else exc
                return [(env, g, v)], exc
        return None

    def send(self, f, e, env, g, q):
        self.sites["send"].add((f.id, e))
        kind = env.get(q + "#response")
        ok = kind is not None and kind == ("c", self.ok)
        err = kind is not None and kind[0] == "c" and not ok
        if g.phase == DEAD:
            return [(env, g, ("c", 1)), (env, g, ("c", 0))]
        for r in self.req[RESP]:
            if q + "#" + r not in env:
                self.flag("C08.complete", f, e, "field " + r, "a Response is sent without its required field '%s' (the client can not parse it)" % r)
        if err and q + "#msg" not in env:
            self.flag("C08.complete", f, e, "error text", "an error response is sent without its message")
        if not g.framed:
            self.flag("C08.framed", f, e, "frame", "a Response is sent without the preceding length")
        if g.phase == ERR:
            self.flag("C08.error-final", f, e, "response", "a response is sent although the command was already answered with an error")
        if g.failed and not err:
            self.flag("C08.error-answer", f, e, "response", "a success response is sent although processing the command raised an error")
        if not err and g.phase in (DONE, DATA):
            self.flag("C08.surplus", f, e, "response", "a second success response is sent although the last one was not followed by %s" % (
                "the data it promised" if g.phase == DATA else "data from the client"))
        df = env.get(q + "#data_follows")
        ph = ERR if err else DATA if df == ("c", 1) else DONE
        return [(env, g._replace(phase=ph, unflushed=True, framed=False), ("c", 1)), (env, g._replace(phase=DEAD), ("c", 0))]


def check(p, res, tier):
    cl = Client(p)
    rel = reaching(p, cl.prim)
    classes = {p.fns[i].cls for i in rel if p.fns[i].cls}
    # methods of the classes that talk to the client (they may touch its flags), but not what they reach outside
    own = {c for c in classes if any(cl.prim(p.fns[i], x) for i in rel for x, n in enumerate(p.fns[i].nodes) if n is not None and p.fns[i].cls == c)}
    parse = reaching(p, lambda f, x: cl.prim(f, x) and cl.rtype(f, x) == CMD)
    send = reaching(p, lambda f, x: cl.prim(f, x) and cl.rtype(f, x) == RESP)
    both = parse & send
    roots = [p.fns[i] for i in sorted(both) if not any(g in both for g in [h.id for h in called(p, p.fns[i])])]
    if not roots:
        raise AnalysisBroken("no command loop found (a function that parses a Command and reaches the sending of a Response)")
    esc = C03.escapes(p)
    nl = Nulls(p)
    files = {p.fns[i].file for i in both}

    def touches(f):
        for x, n in enumerate(f.nodes):
            if n is not None and n["k"] == "Call" and n.get("m"):
                t = cl.rtype(f, x)
                if t == RESP or f.file in files and ("basic_istream" in t or "basic_ostream" in t) and n["fn"] in ("read", "write", "flush"):
                    return True
        return False
    touch = {f.id for f in p.fns.values() if f.cls not in (RESP, CMD) and f.file.startswith("src/") and touches(f)}
    st = [i for i in touch if p.fns[i].file in files]
    while st:
        i = st.pop()
        for g, _ in p.callers[i]:
            if g.id not in touch and g.file in files:
                touch.add(g.id)
                st.append(g.id)
    inside = set(rel) | touch | {f.id for f in p.fns.values() if f.cls in own and not f.raw.get("static")}

    def nonnull(f, x):
        gs = p.callees(f, x)
        return bool(gs) and all(h.id not in nl.maynull and local_result(h) for h in gs)
    ex = Explorer(p, cl, inside, esc, nonnull)
    for f in roots:
        no, exc = ex.run(f, {}, G(IDLE, False, False, False))
        end = f.nodes[f.body]
        for env, g, _ in no:
            if g.phase == RECV and any(k.endswith("#cmd") and v == ("c", cl.quit) for k, v in env.items()):
                continue
            cl.unanswered(f, f.body, g, "end of the command loop")
        for env, g in exc:
            if g.phase in (RECV, DATA, DONE):
                cl.flag("C08.error-answer", f, f.body, "exception " + g.phase,
                        "an error leaves the command loop in phase '%s': the client gets no error response" % g.phase)
    sites = {"parse": "C08.answered", "send": "C08.complete", "data": "C08.data-sent", "recv": "C08.flushed", "handler": "C08.error-answer"}
    for kind, rule in sites.items():
        for fid, e in sorted(cl.sites[kind]):
            f = p.fns[fid]
            res.ok(rule, f.where(e), "%s in %s: all paths through it explored" % (kind, f.short))
    for (rule, fn, what), (where, msg) in sorted(cl.bad.items()):
        res.bad(rule, fn, what, where, msg)
    # every command code of the protocol is dispatched or refused (falls out of the exploration); count what was covered
    res.count("functions_explored", len(ex.visited))
    res.count("abstract_states", ex.states)
    for k, v in cl.sites.items():
        res.count(k + "_sites", len(v))
    res.floor("send_sites", len(cl.sites["send"]), 1)
    res.floor("parse_sites", len(cl.sites["parse"]), 1)
    res.assumptions += ["a response that could not be written ends the conversation (nothing further is required on that path)",
                        "standard-library exceptions (out of memory) are not followed"]


def local_result(h):
    """what the function returns was made or looked up by itself (not read from a field that may never have been set)"""
    for x, n in enumerate(h.nodes):
        if n is not None and n["k"] == "Return" and n.get("c"):
            i = n["c"][0]
            while h.nodes[i]["k"] == "Cast" and h.nodes[i].get("c"):
                i = h.nodes[i]["c"][0]
            if h.nodes[i]["k"] not in ("New", "Call") and not (h.nodes[i]["k"] == "Ref" and h.nodes[i]["d"].startswith("%")):
                return False
    return True


def called(p, f):
    out = []
    for x, n in enumerate(f.nodes):
        if n is not None and n["k"] == "Call":
            out += [h for h in p.callees(f, x) if h.id != f.id]
    return out
