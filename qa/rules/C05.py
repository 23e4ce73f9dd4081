"""C05: no failed write of a result file goes unnoticed."""
from .C04 import report

ID = "C05"
DESC = ("Disjunctive outcome dataflow over every function that touches a stream (qa/iocheck.py): tokens for opens for output, writes and data "
        "still buffered at close, discharged only by a test of the stream's state after the write (for the last writes: after flush/close); "
        "failed ones must leave by an exception or a false result the caller examines. Obligation: one per operation site; violation: the "
        "write, open or close whose outcome no path examines before the data is taken for stored. The Logger classes are excluded.")


def check(prog, res, tier):
    a = report(prog, res, "WO", {"W": "C05.write-outcome", "O": "C05.open-outcome"})
    res.floor("write_and_open_sites", sum(1 for k in a.ops if k[2] in "WO"), 20)
    res.assumptions += ["output of the Logger classes (screen, log file) is not result data",
                        "a successful flush/close means the data reached the operating system"]
