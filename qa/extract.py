"""Run the fact extractor over every translation unit the repository's build compiles."""
import os, re, subprocess, sys, tempfile, shutil, json, hashlib, pickle
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QD_REPO", "/repo")
CLANG_RES = "/usr/lib/llvm-18/lib/clang/18"


class AnalysisBroken(Exception):
    """The analysis itself cannot run or lost its anchors: error exit, never a verdict."""


def makefile_sources(repo):
    """Sources named by *_SOURCES in the automake files (src/tests, src/matlab and nodist excluded)."""
    out = []
    skip = {"tests", "matlab", "slatec", "bin"}
    src = os.path.join(repo, "src")
    for root, dirs, files in os.walk(src):
        rel = os.path.relpath(root, src)
        if rel.split(os.sep)[0] in skip:
            continue
        if "Makefile.am" not in files:
            continue
        txt = open(os.path.join(root, "Makefile.am")).read()
        txt = re.sub(r"#[^\n]*", "", txt).replace("\\\n", " ")
        for m in re.finditer(r"^\s*(\w+_SOURCES)\s*\+?=\s*(.*)$", txt, re.M):
            for w in m.group(2).split():
                if "$" in w:
                    continue
                p = os.path.join(root, w)
                if w.endswith((".cpp", ".yy", ".ll")) and os.path.exists(p):
                    out.append(os.path.normpath(p))
    return sorted(set(out))


def build_tool():
    d = os.path.join(VERIF, "tool", "bin")
    exe = os.path.join(d, "qdfacts")
    if not os.access(exe, os.X_OK) or os.path.getmtime(exe) < os.path.getmtime(os.path.join(VERIF, "tool", "qdfacts.cpp")):
        try:
            r = subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh")], capture_output=True, text=True)
            if r.returncode != 0:
                raise AnalysisBroken("cannot build qdfacts: " + r.stderr[-2000:])
        except OSError as e:
            raise AnalysisBroken("cannot build qdfacts: %s" % e)
    return exe


def generate(repo, gen):
    """protobuf and bison/flex output of the current tree, in a scratch directory laid out like src/."""
    for sub in ("", "tools", "qdlib", "simpleXml"):
        os.makedirs(os.path.join(gen, sub), exist_ok=True)
    src = os.path.join(repo, "src")
    for sub in ("", "tools", "qdlib"):
        d = os.path.join(src, sub)
        for f in sorted(os.listdir(d)):
            if f.endswith(".proto"):
                subprocess.run(["protoc", "--proto_path=" + d, "--cpp_out=" + os.path.join(gen, sub), os.path.join(d, f)],
                               check=True, capture_output=True)
    extra = []
    g = os.path.join(src, "simpleXml", "grammar.yy")
    l = os.path.join(src, "simpleXml", "simpleXml.ll")
    o = os.path.join(gen, "simpleXml")
    if os.path.exists(g):
        subprocess.run(["bison", "-y", "-d", "-o", os.path.join(o, "grammar.cc"), g], check=True, capture_output=True)
        extra.append(os.path.join(o, "grammar.cc"))
    if os.path.exists(l):
        subprocess.run(["flex", "-o", os.path.join(o, "simpleXml.cc"), l], check=True, capture_output=True)
        extra.append(os.path.join(o, "simpleXml.cc"))
    cfg = os.path.join(repo, "_build", "src", "config.h")
    if not os.path.exists(cfg):
        cfg = os.path.join(VERIF, "tool", "config.h")
    shutil.copy(cfg, os.path.join(gen, "config.h"))
    return extra


def flags_for(repo, gen, path, extra_defs=()):
    d = os.path.dirname(path)
    return ["-xc++", "-std=gnu++17", "-fopenmp", "-DHAVE_CONFIG_H", "-I" + gen, "-I" + os.path.join(gen, "qdlib"),
            "-I" + os.path.join(gen, "tools"), "-I" + os.path.join(gen, "simpleXml"),
            "-I" + d, "-I" + os.path.join(repo, "src"), "-I" + os.path.join(repo, "src", "simpleXml"),
            '-DQD_SYS_MOD_PATH="/usr/local/lib/qdng/"', '-DQDNG_BUILD_DATE="d"', '-DQDNG_BUILD_HOST="h"',
            '-DQDNG_BUILD_MACH="m"', '-DQDNG_REV="r"', "-w", "-resource-dir", CLANG_RES,
            "-I/usr/include/libxml2", "-I" + os.path.join(VERIF, "tool", "stubs")] + list(extra_defs)


def run(repo=None, jobs=8, files=None, extra_defs=()):
    """-> dict(tus, fns, recs, enums, vars)"""
    repo = os.path.realpath(repo or REPO)
    exe = build_tool()
    cache = os.environ.get("QD_CACHE")
    srcs = files or makefile_sources(repo)
    if not srcs:
        raise AnalysisBroken("no sources found")
    key = None
    if cache:
        h = hashlib.sha256()
        h.update(open(os.path.join(VERIF, "tool", "qdfacts.cpp"), "rb").read())
        h.update(open(os.path.abspath(__file__), "rb").read())
        h.update(repr((repo, srcs, extra_defs)).encode())
        for root, dirs, fs in sorted(os.walk(os.path.join(repo, "src"))):
            dirs.sort()
            for f in sorted(fs):
                if f.endswith((".cpp", ".h", ".proto", ".yy", ".ll", ".am")) and ".pb." not in f:
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
        key = os.path.join(cache, h.hexdigest() + ".pkl")
        if os.path.exists(key):
            facts = pickle.load(open(key, "rb"))
            facts["repo"] = repo
            return facts
    gen = tempfile.mkdtemp(prefix="qdgen.")
    try:
        try:
            extra = generate(repo, gen)
        except subprocess.CalledProcessError as e:
            raise AnalysisBroken("code generation failed: %s" % (e.stderr or b"")[-800:])
        if files is None:
            cpp = [s for s in srcs if s.endswith(".cpp")] + extra
        else:
            cpp = list(files)
        roots = os.path.join(repo, "src") + "/," + os.path.join(gen, "simpleXml") + "/"
        # biggest first, spread
        cpp.sort(key=lambda p: -os.path.getsize(p))

        tukey = None
        if os.environ.get("QD_TUCACHE"):        # developer runs over many edited copies only: facts per translation unit
            tc = os.environ["QD_TUCACHE"]
            os.makedirs(tc, exist_ok=True)
            hh = hashlib.sha256(open(os.path.join(VERIF, "tool", "qdfacts.cpp"), "rb").read() + repr(extra_defs).encode())
            for root, dirs, fs in sorted(os.walk(os.path.join(repo, "src"))):
                dirs.sort()
                for f in sorted(fs):
                    if f.endswith((".h", ".proto", ".yy", ".ll", ".am")) and ".pb." not in f:
                        pp = os.path.join(root, f)
                        hh.update(os.path.relpath(pp, repo).encode()); hh.update(open(pp, "rb").read())

            def tukey(p):
                h2 = hh.copy()
                h2.update(p.replace(gen, "@gen").replace(repo, "@").encode()); h2.update(open(p, "rb").read())
                return os.path.join(tc, h2.hexdigest())

        def one(i_p):
            i, p = i_p
            out = os.path.join(gen, "f%d.jsonl" % i)
            hit = tukey and tukey(p)
            if hit and os.path.exists(hit):
                open(out, "w").write(open(hit).read().replace("\x01R\x01", repo).replace("\x01G\x01", gen))
                return p, out, subprocess.CompletedProcess([], 0, "", "")
            r = subprocess.run([exe, out, roots, p, "--"] + flags_for(repo, gen, p, extra_defs), capture_output=True, text=True, cwd=gen)
            if hit and r.returncode == 0:
                t = open(out).read().replace(gen, "\x01G\x01").replace(repo, "\x01R\x01")
                open(hit + ".%d" % os.getpid(), "w").write(t)
                os.replace(hit + ".%d" % os.getpid(), hit)
            return p, out, r
        res = {}
        with ThreadPoolExecutor(jobs) as ex:
            for p, out, r in ex.map(one, list(enumerate(cpp))):
                if r.returncode != 0:
                    raise AnalysisBroken("cannot parse %s: %s" % (p, r.stderr[-1500:]))
                res[p] = out
        facts = {"repo": repo, "tus": [], "fns": {}, "recs": {}, "enums": {}, "vars": {}, "layout": []}

        def fix(f):
            if f.startswith(gen):
                return "gen" + f[len(gen):]
            if f.startswith(repo + "/"):
                return f[len(repo) + 1:]
            return f
        for p in cpp:
            for line in open(res[p]):
                o = json.loads(line.replace("@" + repo + "/", "@").replace("@" + gen, "@gen"))
                k = o["kind"]
                if "file" in o:
                    o["file"] = fix(o["file"])
                if k == "tu":
                    o["files"] = [fix(x) for x in o["files"]]
                    if o["errors"]:
                        raise AnalysisBroken("parse errors in " + p)
                    facts["tus"].append(o)
                elif k == "fn":
                    i = o["id"]
                    # the program entry points share a name
                    if o["name"] == "main":
                        o["id"] = i = "main()@" + o["file"]
                    facts["fns"].setdefault(i, o)
                elif k == "rec":
                    first = facts["recs"].setdefault(o["id"], o)
                    first.setdefault("tu", fix(p))
                    first["ntu"] = first.get("ntu", 0) + 1
                    if first is not o:
                        a, b = ([(x["n"], x["t"]) for x in y["fields"]] for y in (first, o))
                        if a != b:
                            facts["layout"].append((o["id"], first["tu"], fix(p), [list(x) for x in set(a) ^ set(b)]))
                elif k == "enum":
                    facts["enums"].setdefault(o["id"], o)
                elif k == "var":
                    i = o["id"]
                    if i in facts["vars"] and "init" in facts["vars"][i]:
                        continue
                    facts["vars"][i] = o
        if cache:
            os.makedirs(cache, exist_ok=True)
            tmp = key + ".%d" % os.getpid()
            pickle.dump(facts, open(tmp, "wb"), protocol=4)
            os.replace(tmp, key)
        return facts
    finally:
        shutil.rmtree(gen, ignore_errors=True)
