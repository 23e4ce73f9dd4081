"""Property texts and check registration; `python3 spec/gen.py` writes properties.jsonl and MANIFEST.json."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or [], state=state or []))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason,
                  observe=[], state=[]))


SOUND = "Decided on clang's resolved AST/CFG of every translation unit of the build (OpenMP on), on every path; no execution. "

prop("C01", "Operations leave their source operands unchanged",
     "Applying an operator to a wave function, computing a matrix element, expectation value, inner product or norm, assigning, "
     "accumulating, multiplying element-wise, reducing, serialising or copying an operator leaves every source operand as it was: "
     "same data and same (x-space or k-space) representation after the call returns normally. Only the destination object may change.",
     ["inputs", "programs"], "all implementations of these operations, all operands, all control-flow paths that return normally",
     "tests compare final observables of a few propagations; a source left transformed or scaled only shows when the caller uses it "
     "again, which depends on operator composition and call order the tests do not enumerate",
     ["src/qdlib/Operator.h", "src/qdlib/WaveFunction.h", "src/qdlib/WFGridSystem.cpp", "src/qdlib/OGridNablaSq.cpp"],
     [("k-space switch and restore around diagonal application", "src/qdlib/OKSpace.h, OGridNablaSq.cpp"),
      ("const-free in/out convention Apply(dest, src)", "src/qdlib/Operator.h")],
     "interprocedural effect summaries + typestate (X/K/D) dataflow over the CFG",
     SOUND + "Assumes source and destination objects of a call are distinct; wave-function paging (C12) and FFT planning are trusted here.")

prop("C02", "Parallel regions are free of data races",
     "Whatever the number of threads and their schedule, no two threads of a parallel region access the same memory without "
     "synchronisation when one of them writes it: every location written inside a region is private, a reduction, written under mutual "
     "exclusion, or at an address that differs between threads. Work-sharing constructs are entered by all threads of the team or by none.",
     ["schedules"], "all OpenMP parallel regions of the library and programs, all thread counts and schedules",
     "a race changes results only under particular interleavings and grid shapes; tests run one schedule",
     ["src/qdlib/HOFD.cpp", "src/qdlib/OCheby.cpp", "src/math/Vector.h", "src/qdlib/WFGridSystem.cpp"],
     [("OpenMP data-sharing clauses and loop partition", "src/math/Vector.h, src/qdlib/*.cpp")],
     "OpenMP data-sharing + affine iteration-disjointness analysis over the AST and callee effect summaries",
     SOUND + "Distinct arrays of distinct objects are assumed not to overlap; external calls listed as thread-safe are trusted.")

prop("C03", "Every raised error reaches the user and fails the program",
     "Every error the library raises is of the library's error type, is never built without being raised, and is never caught and "
     "dropped: a handler raises it again, reports it or ends the program. Each command-line program prints the error and ends with a "
     "non-zero exit status when any of its steps raises one; no error leaves a parallel region. The only silent handlers are the "
     "end-of-file-series and file-format probes, which guard reads (a failed write is never taken for the end of a series), the log-only "
     "end-of-run tables and the error replies of the server mode.",
     ["inputs", "fault_sequences"], "all functions, all error sites, all paths through handlers, all programs' entry points",
     "tests exercise successful runs; error paths need a malformed input or failing resource at each of several hundred sites",
     ["src/tools/Exception.h", "src/qdng.cpp", "src/qdz.cpp", "src/qdng_info.cpp", "src/simpleXml/qds2qdi.cpp"],
     [("exception class", "src/tools/Exception.h"), ("top-level handlers", "src/qdng.cpp, src/qdz.cpp")],
     "exception-flow analysis: throw types, discarded error objects, handler must-analysis, exit-status constant propagation",
     SOUND + "Errors of the C++ runtime (bad_alloc, stream exceptions) are outside the property.")

prop("C04", "Unreadable or truncated input is never used",
     "Whenever the library or a program opens a file for reading or reads a wave function, operator, laser field, header, meta file, "
     "command or XML input from a file or stream, a failed open, a failed or short read and a failed decoding of a message end in an "
     "error on every path: an exception, or a false result on which the caller raises one. Data read is not used before the outcome of "
     "the read was examined. The only input that may be absent without an error are the optional files with parameter defaults.",
     ["inputs", "fault_sequences"], "every file/stream read, open for reading and message decoding in the library and programs; every path to their callers",
     "tests read complete files; a truncated or missing file at each of the read sites, with each caller above it, is not enumerated by tests",
     ["src/tools/FileSingle.h", "src/qdlib/WFGridSystem.cpp", "src/qdlib/Laser.cpp", "src/CmdHandler.cpp", "src/tools/ParamContainer.cpp", "src/qdng_info.cpp"],
     [("stream state checks after each read", "src/tools/FileSingle.h, src/qdlib/*.cpp"), ("ReadFromFile returns the outcome", "src/tools/ParamContainer.cpp")],
     "interprocedural disjunctive outcome (unexamined / failed) dataflow over the CFG with call summaries",
     SOUND + "Trusts the stream library's state bits; sizes read from files are not judged here.")

prop("C05", "A failed write is never taken for success",
     "Whenever the library or a program writes a result, meta or temporary file or sends a response or object over a stream, a failed "
     "open, write, flush or close ends in an error on every path: an exception, or a false result on which the caller raises one. The "
     "outcome of the last, possibly buffered data is examined after the flush or close and before the data is taken for stored. Log "
     "output is excluded.",
     ["inputs", "fault_sequences"], "every file/stream write, open for writing, flush and close in the library and programs; every path to their callers",
     "a full disk or vanished directory at a particular write is not something the tests produce",
     ["src/tools/FileSingle.h", "src/qdlib/WFBuffer.cpp", "src/FiltersList.cpp", "src/Reporter.cpp", "src/ProgEigen.cpp", "src/CmdHandler.cpp"],
     [("stream state checks after write/close", "src/tools/FileSingle.h, src/qdlib/WFBuffer.cpp"), ("WriteToFile returns the outcome", "src/tools/ParamContainer.cpp")],
     "interprocedural disjunctive outcome (unexamined / buffered / failed) dataflow over the CFG with call summaries",
     SOUND + "A successful flush or close is taken to mean that the operating system has the data.")

prop("C06", "Missing objects and unsuitable types are rejected, never used",
     "Wherever a look-up can come back empty (an XML section or child node, a matrix element, an operator search, a wave function in a "
     "buffer, an environment variable) or an operator, wave function or stream can turn out to be of another dynamic type than needed, the "
     "result is tested on every path before it is dereferenced or handed to code that dereferences it. No input, configuration or "
     "combination of operators and wave functions makes the library use the null result of such a look-up or checked cast.",
     ["inputs", "programs"], "every checked pointer cast and every call of a function that can return NULL; every path from it to a use",
     "tests use complete inputs and matching operator/wave-function types; the crash needs a missing section, an empty element or a "
     "combination of types that is not in the examples",
     ["src/ChainLoader.cpp", "src/tools/XmlNode.cpp", "src/qdlib/ODMultistate.cpp", "src/qdlib/WFBuffer.cpp", "src/FiltersList.cpp", "src/Reporter.cpp"],
     [("EIncompatible / EParamProblem raised on a failed dynamic_cast or missing node", "src/ChainLoader.cpp, src/qdlib/*.cpp")],
     "interprocedural null/type-state dataflow (may-return-null and dereferenced-parameter summaries) over the CFG",
     SOUND + "A test stays valid for a repeated call of the same accessor with the same arguments. Pointers in containers and plain "
     "members that are merely uninitialised are not tracked.")

prop("C07", "A copy behaves like its original",
     "Copying an operator (Copy, operator=) or a laser field gives the copy the complete configuration of the source: every setting, "
     "parameter, flag, dimension, mass, scale, field, sub-operator and external reference that was given to the source and that its "
     "operations use is taken over from the same setting of the source, whatever was configured, in all dimensions and states. A copy "
     "that counts as initialised has all state the initialisation provides. A copy an operator class does not support ends in an error. "
     "Assigning a wave function takes over values, grid and basis; NewInstance yields an object of the same class.",
     ["inputs", "programs"], "every concrete operator class, wave function class and Laser; every copy function; every configuration field",
     "copies are made inside compositions, propagators and OCT; a lost field shows only for the class and the setting concerned",
     ["src/qdlib/OList.cpp", "src/qdlib/OMultistate.cpp", "src/qdlib/ODMultistate.cpp", "src/qdlib/OGobbler.cpp", "src/qdlib/OCheby.cpp", "src/qdlib/Laser.cpp", "src/qdlib/OGridDipole.cpp"],
     [("Copy / operator= of every Operator", "src/qdlib/O*.cpp"), ("Laser::operator=", "src/qdlib/Laser.cpp")],
     "field effect analysis (configuration = fields set outside and read by the operations) and source-to-field transfer analysis of copy functions with must-order dataflow",
     SOUND + "State that Init(WaveFunction) or an operation recomputes is not configuration; arrays and vectors are taken as a whole; "
     "deep and shared copies of sub-objects are not distinguished.")

prop("C08", "The command server answers every command, in step with its client",
     "In interactive mode every received command except QUIT is answered before the next one is read: by a complete, length-framed response "
     "(with all required fields; errors carry their message), plus the data a response promised. A command whose processing fails or "
     "that is malformed, unknown or lacks a parameter is answered with an error response and never with success; after an error "
     "response nothing more is sent for that command; a further success response follows only on data received from the client. An answer is flushed before the client's next message is awaited.",
     ["inputs", "fault_sequences", "histories"], "every command code, every parameter combination, every point of a command at which an error can be raised",
     "the tests never start the server; each command has many failure points, and a missing or surplus response desynchronises all later commands",
     ["src/CmdHandler.cpp", "src/CmdHandler.h", "src/IACmds.proto"],
     [("command loop", "src/CmdHandler.cpp: RunInteractive"), ("responses", "src/CmdHandler.cpp: send_response, send_OK, send_error_message"),
      ("message definitions", "src/IACmds.proto")],
     "interprocedural path-sensitive typestate exploration (protocol automaton) over the CFG with exception routing",
     SOUND + "A response that can not be written ends the conversation. Standard-library exceptions are not followed.")

prop("C09", "No variable or member is read before it was given a value",
     "On every path through the library and the programs a scalar, enumeration, pointer or complex variable is assigned before it is read; a "
     "function that reports a number through an output argument has set it by the time its caller uses it, also when a parameter or "
     "option is missing or its text is not a number. An object is fully set up by its constructor: no operation (including its destructor) "
     "reads a scalar or pointer member that was never set, whichever optional parameters are absent and whichever error interrupted its setup.",
     ["inputs", "histories"], "all functions and paths, all constructors, all sequences of operations on a fresh object",
     "fresh memory usually is zero in a test process and the optional parameters are usually given, so an unset value shows up only later, "
     "in longer runs and other parameter combinations",
     ["src/tools/ParamContainer.cpp", "src/qdlib/Operator.h", "src/ProgOCT.cpp", "src/qdlib/OCheby.cpp"],
     [("constructor initialiser lists", "src/qdlib/Operator.h and every class"), ("output arguments set on every return", "src/tools/ParamContainer.cpp: GetValue")],
     "definite-assignment dataflow with interprocedural out-parameter and member-exposure summaries",
     SOUND + "Elements of arrays and heap buffers are not tracked.")

prop("C10", "What is written can be read back",
     "Everything the library stores it can also load. For wave functions, multi-state containers, laser fields and operators, and for the intro "
     "and header of the container format, the reader consumes exactly the sequence of items the writer produced - same widths, same members, "
     "storage sized by the stored count, as many bytes as were written. Every header field that reading depends on is set before the header is "
     "written and announces the data that follows. For each compression method the encoding applied, the tag or mark stored and the decoding "
     "chosen agree, in the container and in the raw format. Parameters keep their value and type through their text form, and every "
     "mandatory key that is looked up in a propagation or object meta data set is one that is written with it.",
     ["inputs", "programs"], "all serialisable classes, file formats and compression methods; all paths of their writers and readers; all meta data keys",
     "tests round-trip one small object per format; layouts of the other classes, optional fields, type tags, values needing many digits and "
     "keys used by other programs are not sampled",
     ["src/tools/FileSingle.h", "src/tools/ParamContainer.cpp", "src/qdlib/WFLevel.cpp", "src/qdlib/WFGridSystem.cpp", "src/qdlib/Laser.cpp", "src/ProgPropa.cpp", "src/ProgCfun.cpp"],
     [("Serialize / DeSerialize pairs", "src/qdlib/*.cpp"), ("header and payload of a container file", "src/tools/FileSingle.h"),
      ("parameter text form", "src/tools/ParamContainer.cpp: Write, Parse, SetValue")],
     "symbolic I/O script extraction and matching of writer/reader pairs; partial evaluation over enumerators; key-set inclusion",
     SOUND + "Loops in transfer code are taken zero or one time when scripts are compared; the codecs of zlib, bzip2 and protobuf are trusted.")

prop("C11", "Fixed tables are never accessed outside their bounds",
     "The library keeps dimensions, states, operators, filters, targets, laser fields and finite-difference coefficients in tables of fixed "
     "size (per-dimension tables of a grid, matrix of a multi state operator, operator lists and sums, ...). No access reads or writes outside its "
     "table, for whatever number of dimensions, states, operators, filters, targets or couplings a program file, a parameter set, a stored file or a "
     "caller asks for: a request that does not fit, or an index that is negative or past the end, is rejected with an error before the table is touched.",
     ["inputs", "histories"], "all accesses to members, locals and statics of constant-size array type; all callers, all orders of calls",
     "tests use one to three dimensions, states and operators; the tables have 16 to 128 slots and their neighbours absorb a small overrun silently",
     ["src/qdlib/GridSystem.cpp", "src/qdlib/OMultistate.cpp", "src/qdlib/OList.cpp", "src/FiltersList.cpp", "src/ProgOCT.cpp", "src/qdlib/HOFD.h"],
     [("grid dimensions", "src/qdlib/GridSystem.cpp: Dim, CheckDims"), ("multi state matrix", "src/qdlib/OMultistate.cpp: Add"),
      ("operator lists", "src/qdlib/OList.cpp: Add"), ("coupling search", "src/ChainLoader.h: FindOperatorType")],
     "abstract interpretation with difference bounds (zones), inferred member invariants and caller obligations",
     SOUND + "Arrays allocated at run time and standard containers are not covered; integer overflow in index arithmetic is not modelled.")

prop("C12", "Composite operators and wave functions reach all of their parts",
     "Operators are composed of others (operator lists, sums, products, jump/flux/friction combinations, multi state matrices, grid sums, propagators with "
     "their Hamiltonian and operator list) and multi state wave functions of single states. Every request that changes the state of an operator - setting "
     "the clock, moving to a new time step, complex conjugation, switching the recalculation of internal values, initialisation with a wave function, the "
     "validity check - given to a composite is passed on to every one of its parts, whatever their number and arrangement (for a symmetric matrix: every element "
     "of the lower triangle suffices). Applying a composite, its spectral bounds, its copies, and the norm, normalisation, scalar product, assignment, release and reacquisition "
     "of a multi state wave function take every part into account, none is left out.",
     ["inputs", "histories"], "all composite classes and requests; any number of parts, any position in lists and matrices",
     "tests build composites of one or two parts and rarely change their state after they are composed",
     ["src/qdlib/OList.cpp", "src/qdlib/OMultistate.cpp", "src/qdlib/OGridSum.cpp", "src/qdlib/OPropagator.h", "src/qdlib/WFMultistate.cpp"],
     [("lists", "src/qdlib/OList.cpp: Clock, UpdateTime, RecalcInternals"), ("multi state matrix", "src/qdlib/OMultistate.cpp: UpdateTime, Apply"),
      ("grid sums", "src/qdlib/OGridSum.cpp"), ("states", "src/qdlib/WFMultistate.cpp: Norm, Retire, Reaquire")],
     "interprocedural must-reach analysis of part tables (symbolic index ranges, rows and triangles) over the syntax tree",
     SOUND + "What a part does with the request is that part's own matter; MPI ranks together are assumed to cover the ranks' shares.")
prop("C13", "Shared work memory is held while it is used",
     "Operators and propagators keep work wave functions whose memory they give back (Retire) between applications, so that the memory can serve others. "
     "Whenever an operator reads, writes or hands on such a work wave function, it holds its memory: the memory was reacquired (Reaquire) or newly created after the last time it was given back, "
     "on every path, for every entry of an array of work wave functions, also when the operation calls other methods of the same operator which use or give back the same work wave function. "
     "An operation that takes work memory back gives it up again on every path on which it returns normally.",
     ["inputs", "histories"], "all work wave functions that some method gives back; all paths and all sequences of operations on one operator",
     "memory that was given back is usually reused late, so a use after the release reads plausible values; leaks show up only in long runs with many operators",
     ["src/qdlib/Operator.h", "src/qdlib/OMultistate.cpp", "src/qdlib/OCheby.cpp", "src/qdlib/OSIL.cpp", "src/qdlib/OGridGMat.cpp", "src/qdlib/OProjection.cpp"],
     [("default operations", "src/qdlib/Operator.h: MatrixElement, Apply, ApplyAdd"), ("propagators", "src/qdlib/OCheby.cpp: Apply"),
      ("multi state", "src/qdlib/OMultistate.cpp: Apply, ApplyParent"), ("release", "src/math/Vector.h: RetireStorage")],
     "typestate analysis (abstract interpretation of the syntax tree with inlined methods of the same object)",
     SOUND + "Whether an operator is initialised before it is applied is C06's matter; paths that end in an exception are exempt from giving memory back.")

prop("C14", "Objects are released the way they were created, once, and not used afterwards",
     "Objects created with new are released with delete, arrays created with new[] with delete[], and operators and wave functions, which register themselves when they are created, "
     "through their Collector (never with a plain delete); a base class through whose pointer objects are deleted has a virtual destructor. "
     "After an object was released through a local variable, a parameter, a member or a table entry, it is not used, called, returned, handed on or released again through that place, "
     "on any path of the operation that released it, nor by any later operation on the same owner, unless the place was set to something else (or is known to be empty) first. "
     "Copying or assigning an object does not leave two objects with one part that the destructor of each of them releases, unless the part was registered once more with its Collector; "
     "destructors of a class and its bases do not release the same member twice.",
     ["inputs", "histories"], "all release sites (delete, Collector, Memory, free) and all paths after them; all copies of owning classes; all sequences of operations on one owner",
     "memory that was released usually keeps its contents for a while, and the second release of a registered object passes silently until the address is used again",
     ["src/tools/Collector.h", "src/qdlib/Diff.cpp", "src/qdlib/OGridHOFD.cpp", "src/qdlib/Laser.cpp", "src/qdlib/WFBuffer.cpp", "src/tools/FileSingle.h", "src/ChainLoader.h"],
     [("registration", "src/qdlib/Operator.h: operator new; src/qdlib/WaveFunction.h: operator new"), ("copies", "src/qdlib/OGridHOFD.cpp: Copy"),
      ("buffers", "src/qdlib/WFBuffer.cpp: _MoveToDisk, Clear"), ("streams", "src/tools/FileSingle.h: ReadDataFromStream")],
     "forward dataflow of released access paths over control flow graphs with aliases and call summaries; creation/release matching; copy-ownership rules",
     SOUND + "That every object is released at all (leaks) is not claimed; places reached through different owners at once (an object known to two lists) and standard containers of owning pointers are not tracked; "
     "exceptional exits are covered only for the release sites themselves.")

prop("C15", "Every loop comes to an end",
     "No operation of the library or of its programs runs forever: every loop is left after finitely many rounds for every input. On every way round a loop something advances "
     "by at least one step towards a limit that the loop itself does not move away - a counter towards its bound, an iterator towards the end of its container, a container towards being empty, "
     "a pointer along its chain (the nodes of the XML input), a search along its text, an input towards its end - and the loop is left when the limit is reached. "
     "Iterations until convergence are also bounded by a number of rounds. Reading loops stop when reading fails, not only at a clean end of the input. "
     "Counters running downwards do not wrap past zero, steps are never zero or of the wrong sign, counters are wide enough for what they count, "
     "and limits are not computed in a way that makes them huge (a negative number without sign, a quotient by zero).",
     ["inputs", "histories"], "all loops of the library and its programs, all ways round them, for all inputs, file contents and option combinations",
     "a loop that hangs does so only for an unusual input: a truncated file, an element of another kind, an empty buffer, a step of zero, no convergence",
     ["src/tools/XmlNode.cpp", "src/qdlib/FileWF.cpp", "src/tools/FileSingle.h", "src/qdlib/WFBuffer.cpp", "src/ProgEigen.cpp", "src/ProgOCT.cpp", "src/tools/helpers.cpp", "src/qdng.cpp"],
     [("XML input", "src/tools/XmlNode.cpp: NextNode, EndNode; src/CmdHandler.cpp: RunXML"), ("reading", "src/qdng.cpp: CheckInput; src/qdz.cpp; src/qdlib/WFBuffer.cpp: ReadFromFiles"),
      ("iterations", "src/ProgEigen.cpp: ImagTimeEF; src/ProgOCT.cpp: Run"), ("buffers", "src/qdlib/WFBuffer.cpp: ResizeBuffer; src/tools/Memory.cpp: Cleanup")],
     "ranking search over the natural loops of the control flow graphs: exit tests on every cycle, progress by block removal, events of called functions by summaries",
     SOUND + "Recursion (operator chains nested in the input) is not covered; a command or message that never arrives on an open connection is waiting, not a loop; "
     "external functions are taken to return, and an input to be finite.")

# ---- not addressed by static analysis
na("N01", "Propagation conserves norm and energy", "For a Hermitian time-independent Hamiltonian and a suitable time step every propagator "
   "keeps the norm of the wave function and the expectation value of the energy, up to the tolerance of the method.",
   ["inputs"], "all Hamiltonians, wave functions, time steps", "a few systems are sampled", ["src/qdlib/OCheby.cpp", "src/qdlib/OSIL.cpp", "src/qdlib/OSPO.cpp"],
   [("propagators", "src/qdlib/OCheby.cpp")],
   "quantifies over floating-point values produced at run time (spectral range, step size, rounding); no sound static bound is in reach")
na("N02", "Propagators agree with the exact evolution and with each other", "Chebychev, SIL, Arnoldi, SOD, split operator and RK4 converge to "
   "exp(-iHt) psi with the time step / expansion order, within their documented tolerance.",
   ["inputs"], "all Hamiltonians, wave functions, time steps", "a few systems are compared", ["src/qdlib/OCheby.cpp", "src/qdlib/OArnoldi.cpp", "src/qdlib/OSIL.cpp"],
   [("propagators", "src/qdlib/OCheby.cpp")], "numerical convergence is a run-time quantity; deciding it needs numerical evaluation, not source analysis")
na("N03", "Eigenvalues and relaxed states are correct", "Eigenstates found by imaginary time relaxation, filter diagonalisation and direct "
   "diagonalisation are eigenstates of the Hamiltonian within tolerance, sorted and orthonormal.",
   ["inputs"], "all Hamiltonians and start functions", "a few potentials are sampled", ["src/ProgEigen.cpp", "src/linalg/LapackDiag.cpp"],
   [("relaxation and diagonalisation", "src/ProgEigen.cpp")], "residuals and orthogonality are run-time floating-point quantities")
na("N04", "Optimal control increases its objective", "Krotov/Rabitz iterations increase the target functional monotonically and stop at the "
   "requested convergence.", ["inputs"], "all targets, penalties, start fields", "a few optimisations are sampled", ["src/ProgOCT.cpp"],
   [("iteration", "src/ProgOCT.cpp")], "a convergence statement about floating-point iterates")
na("N05", "Lossy compression stays within its tolerance", "A wave function reduced, stored and restored differs from the original by no more "
   "than the compression tolerance.", ["inputs"], "all wave functions, tolerances", "one grid is sampled", ["src/qdlib/WFGridSystem.cpp", "src/qdlib/WFLevel.cpp"],
   [("Reduce / Restore", "src/qdlib/WFGridSystem.cpp")], "the error bound is numerical; that errors of the codec are reported is covered by C04/C05")
na("N06", "Memory stays within the configured limit", "The bytes held in wave function buffers never exceed the configured maximum.",
   ["inputs", "histories"], "all buffer sizes and access sequences", "tests use small buffers", ["src/qdlib/WFBuffer.cpp", "src/tools/Memory.cpp"],
   [("buffer limit", "src/qdlib/WFBuffer.cpp")], "a sum of run-time object sizes over an unbounded access history; not bounded by any source-level argument in reach")
