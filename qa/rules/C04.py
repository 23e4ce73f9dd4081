"""C04: every read from a file or stream is examined before its data is used and before the function's caller can go on."""
from ..iocheck import IO
from ..prog import short

ID = "C04"
DESC = ("Disjunctive outcome dataflow over every function that touches a stream (qa/iocheck.py): tokens for opens, binary reads and protobuf "
        "parses, discharged on the success edge of a test of the stream's state / gcount / parse result (also through captured flags and "
        "functions returning the outcome), failed ones must leave by an exception or a false result the caller examines. Obligation: one per "
        "operation site; violation: the operation whose outcome is lost, or a use of the buffer before the test.")
OPTIONAL = {"GlobalParams::Instance": "the three parameter default files are optional by documentation"}


def io(prog):
    if not hasattr(prog, "_io"):
        prog._io = IO(prog)
    return prog._io


def report(prog, res, kinds, names):
    a = io(prog)
    res.count("functions_with_stream_operations", len(a.analysed))
    sites = {}
    for (fid, node, k), txt in a.ops.items():
        if k in kinds:
            sites[(fid, node, k)] = txt
    bad = {}
    for (fid, node, k), v in a.viol.items():
        if k not in kinds:
            continue
        bad.setdefault((fid, node, k), v)
        sites.setdefault((fid, node, k), prog.fns[fid].txt(node))
    for (fid, node, k), txt in sorted(sites.items()):
        f = prog.fns[fid]
        vs = bad.get((fid, node, k), {})
        real = [v for v in vs.values() if not (k == "I" and short(v[0]) in OPTIONAL)]
        if not real:
            res.ok(names[k], f.where(node), txt[:80] + ("" if not vs else "; " + OPTIONAL[short(sorted(vs)[0])]))
        for v in real:
            at = short(v[0])
            res.bad(names[k], f.short, "%s lost in %s" % (txt[:60], at), f.where(node),
                    "`%s`: %s (lost in %s)" % (txt[:70], v[1], at))
    return a


def check(prog, res, tier):
    a = report(prog, res, "RI", {"R": "C04.read-outcome", "I": "C04.open-outcome"})
    for (fid, node, pa), site in sorted(a.used.items()):
        f = prog.fns[fid]
        sf, sn = site
        res.bad("C04.use-before-check", f.short, "%s after %s" % (f.txt(node), prog.fns[sf].txt(sn)[:60]), f.where(node),
                "`%s` is used before the outcome of `%s` is examined" % (f.txt(node), prog.fns[sf].txt(sn)[:70]))
    res.floor("read_and_open_sites", sum(1 for k in a.ops if k[2] in "RI"), 20)
    res.assumptions += ["text streams and cin are read through the same rules; std::cout/cerr are not files",
                        "an input stream handed over by the caller is opened by the caller"]
