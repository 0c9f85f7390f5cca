#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = [observe]
    if hook is not None: a["hook_needed"] = "collection points forced by the simulator (guarded hook in lib/gc.cpp)" if hook else None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PROC = "include/minizinc/process.hh"
S2O = "lib/solns2out.cpp"
FZN = "solvers/fzn/fzn_solverinstance.cpp"

p("P01", "Printed result depends on the solver's bytes, not on how they arrive",
  "For every text stream (without NUL bytes) a solver process writes, what the driver prints is a function of that stream and the options alone: not of how the bytes are split over reads, of delays and stalls between them, of interleaving with the solver's error output, or of interrupted and short system calls. Nothing the solver wrote before it ended is lost, duplicated or reordered, and its error output is forwarded completely. The same holds when the solution stream is read from standard input.",
  ["schedules", "inputs", "fault_sequences"],
  "every solver output stream x every partition of it into writes and reads x every delivery time x every interleaving of stdout and stderr x spurious EINTR/short read at any call",
  "Tests run real solvers whose small outputs nearly always arrive in one or two reads, so line reassembly, separators split over reads, 999-byte buffer boundaries and interrupted calls are never exercised on purpose.",
  [PROC, S2O, FZN, "lib/solver.cpp"],
  [("read loop over the solver's two pipes", PROC + ": Process::run"), ("partial-line reassembly and line dispatch", S2O + ": feedRawDataChunk"), ("standalone stream mode", "lib/solver.cpp: MznSolver::run")],
  [("partial line", "bytes after the last newline, carried to the next chunk", S2O)],
  "standard output and error of the driver", False)

p("P02", "Every complete solution is printed exactly once, in order; no partial one ever",
  "Whatever happens to the solver (normal end, crash, kill, time-out, output cut off at any byte), the driver prints each solution whose terminating separator it received exactly once and in order of arrival, and never prints anything for a solution that was cut off before its separator. Duplicates are suppressed exactly when uniqueness is requested, and the canonical mode prints exactly the set of received solutions in sorted order, independent of arrival order. Every variable shown in a solution has the value that very solution assigned to it.",
  ["inputs", "crash_points", "schedules", "configurations"],
  "every solution stream, cut at every byte position, ended by every kind of process end, under every combination of uniqueness, canonical, separator, comma, comment and file-output options",
  "Tests use solvers that terminate normally, so truncation in the middle of a solution, state left over from one solution to the next and termination races are not sampled.",
  [S2O, PROC, "lib/solver.cpp"],
  [("solution accumulation until separator", S2O + ": feedRawDataChunk/parseAssignments/evalOutput"), ("reset of output model between solutions", S2O + ": restoreDefaults"), ("unique/canonical set", S2O + ": evalOutput/evalOutputFinalInternal")],
  None, "standard output of the driver", False)

p("P03", "Reported status and exit code never claim more than the solver established",
  "Completeness, optimality, unsatisfiability or unboundedness is reported only if the solver reported it. A solver that cannot be started, exits with a failure code or dies from a signal makes the driver end with a failure exit code and, unless a status was already printed, an error status; a solver that ends normally without any solution and without status yields 'unknown', and exactly one final status is printed per run.",
  ["crash_points", "fault_sequences", "schedules", "inputs"],
  "every solver behaviour (exit code, signal, failed start, early close of its streams, output truncated at any byte) x every moment at which it happens",
  "Real test solvers never crash, are never missing at run time and never close their streams early; these paths are unreached by the suite.",
  [PROC, FZN, "solvers/mzn/mzn_solverinstance.cpp", "lib/solver.cpp", S2O, "minizinc.cpp"],
  [("exit status evaluation", PROC + ": waitpid/WEXITSTATUS"), ("status mapping", FZN + ": FZNSolverInstance::solve"), ("final status in scope guard", "lib/solver.cpp: MznSolver::solve"), ("process exit code", "minizinc.cpp: run")],
  None, "standard output and exit code of the driver", False)

p("P04", "Time limits are enforced on the solver within the clean-up grace period",
  "With a solver or overall time limit of T ms and a clean-up grace period of C ms, an external solver still running at the limit (limit plus grace if the solver accepts time limits itself) is first asked to stop with an interrupt or termination signal, then escalated at most once per grace period up to a kill, so the driver ends within T + 4*C ms of solving time no matter how the solver behaves (as long as the driver itself is not suspended). A solver that ends earlier is never signalled, time spent compiling is deducted from an overall limit and never turns into an unlimited run, and everything received before the stop is still printed.",
  ["schedules", "configurations", "fault_sequences"],
  "every time limit, grace period, compile duration and solver behaviour (obeys, ignores some signals, keeps writing, closes streams, leaves helpers holding the pipes), with interrupted calls and clock granularity at any point",
  "Tests with real clocks can only try a couple of seconds-long limits against a cooperative solver and must tolerate slack larger than the errors of interest.",
  [PROC, "lib/solver.cpp", FZN, "solvers/mzn/mzn_solverinstance.cpp"],
  [("remaining time computation", "lib/solver.cpp: MznSolver::run"), ("limit passed to solver and to the supervisor", FZN + ": solve"), ("select timeout and signal escalation", PROC + ": Process::run")],
  [("remaining timeout", "time until the next signal is due", PROC)],
  "signals received by the solver, end time of the driver", False)

p("P05", "Interrupting the driver stops the solver, keeps results, re-raises the signal",
  "When the driver receives an interrupt or termination request at any moment while it supervises an external solver, it promptly forwards that signal to the solver, escalates to stronger signals if the solver does not stop within the grace period, and prints every solution received up to the end. Then it terminates by that same signal, with the solver ended and collected; repeated signals never cause a hang, a crash or loss of received solutions.",
  ["schedules", "fault_sequences"],
  "every arrival time of one or more SIGINT/SIGTERM relative to every system call of the driver and every action of the solver, with and without time limits",
  "The suite never signals the driver; the outcome depends on the exact interleaving of signal, data and process end.",
  [PROC, "minizinc.cpp", "lib/exception.cpp", "lib/solver.cpp"],
  [("signal flags checked in the supervision loop", PROC + ": handleInterrupt/run"), ("re-raise", "minizinc.cpp: run")],
  [("pending interrupt flags", "signal received but not yet acted on", PROC)],
  "solver-side signal log, driver termination status, standard output", False)

p("P06", "No process, temporary file or foreign process is left harmed after any run",
  "On every way the driver itself ends a run (success, error, time-out, interrupt during supervision, exception while processing output), the external solver has been ended and collected and all temporary files and directories created for it have been removed. Signals are only ever sent to the solver process or its process group, never to any other process. Temporary files stay intact as long as the solver may still read them.",
  ["schedules", "crash_points", "fault_sequences"],
  "every end of run x every failing system call (process creation, pipe, program start) x every solver behaviour",
  "Resource leaks and stray signals are invisible to tests that compare output, and the failing system calls never fail there.",
  [PROC, "lib/file_utils.cpp", FZN, "solvers/nl/nl_solverinstance.cpp"],
  [("kill and reap", PROC + ": Process::run"), ("RAII temporary files", "lib/file_utils.cpp: TmpFile/TmpDir")],
  None, "simulated process table, scratch directory", False)

p("P07", "A failing system call while talking to a solver yields a clean error",
  "If creating pipes or the process, starting the program, waiting for or reading from the solver fails at any point, the driver neither crashes nor hangs nor fabricates output: it ends with a failure exit code and an error message, or, for failures that are transient, with the same result as without the failure. Results received before the failure stay correct.",
  ["fault_sequences"],
  "every system call made for the solver process x every error code it may return x every position in the run",
  "Nothing in the test environment makes these calls fail.",
  [PROC, FZN, "minizinc.cpp"],
  [("error handling of pipe/fork/exec/select/read/waitpid", PROC + ": Process::run")],
  None, "exit code, standard output and error of the driver", False)

p("P08", "In JSON-stream mode every output line is one valid JSON message, always",
  "When compiling or solving with JSON streaming on (for solvers whose output the driver itself formats), whatever the solver writes and however the run ends (including errors, time-outs, interrupts and solver crashes), every line on the driver's standard output is one complete JSON object with a known message type. The solutions, statistics, comments, checker reports and final status carried by those messages are the same as in plain-text mode.",
  ["inputs", "schedules", "crash_points"],
  "every solver byte stream (including quotes, control characters and invalid text in comments), every chunking, every failure point",
  "The suite's JSON-stream cases use well-behaved solvers and fixed text.",
  [S2O, "lib/solver.cpp", "lib/statistics.cpp", "lib/exception.cpp", "minizinc.cpp", "lib/prettyprinter.cpp"],
  [("message encapsulation", S2O + ": printSolution/evalStatusMsg/parseStatistics"), ("error messages", "minizinc.cpp: run"), ("string escaping", "lib/prettyprinter.cpp: escapeStringLit")],
  None, "standard output of the driver", False)

p("P09", "What a model means and prints does not depend on when garbage is collected",
  "For every model and data, the outcome of the driver is the same no matter at which of the permitted points the garbage collector runs, from never to always: the same exit status and the same warnings and errors, the same output specification, well-formed FlatZinc declaring the same variables of the model, and, when solved, the same set of solutions, optimum and final status. (The FlatZinc text itself may differ, because entries of the table of common subexpressions do not keep values alive.) No value still in use is ever reclaimed or altered by a collection.",
  ["schedules", "programs"],
  "every subset of permitted collection points in every compilation",
  "Collections depend on allocation volume; small test models trigger none or few, at fixed points, and freed memory usually still holds its old content.",
  ["lib/gc.cpp", "include/minizinc/gc.hh", "lib/flatten.cpp", "lib/eval_par.cpp", "lib/builtins.cpp", "lib/optimize.cpp", "lib/copy.cpp"],
  [("GC locks, rooted and weak references", "include/minizinc/gc.hh"), ("mark and sweep", "lib/gc.cpp")],
  [("roots", "values registered with the collector", "lib/gc.cpp")],
  "generated FlatZinc and output model", True)

p("P10", "Compilation is reproducible: same input and options, same output",
  "Compiling the same model, data and options (with a fixed random seed where random functions are used) yields byte-identical FlatZinc and output specification and the same messages, independent of memory addresses, of the order in which freed memory is reused, of clock readings, of the process id and temporary names, and of directory listing order.",
  ["schedules", "programs", "configurations"],
  "every memory layout, allocation reuse order, clock behaviour, system entropy value and directory order, for every model",
  "A test run sees one heap layout; order dependence on pointer values or uninitialised data shows up rarely and is then dismissed as flaky.",
  ["lib/flatten.cpp", "lib/optimize.cpp", "lib/MIPdomains.cpp", "lib/chain_compressor.cpp", "lib/typecheck.cpp", "include/minizinc/hash.hh", "lib/solver_config.cpp"],
  [("ordering by identifier instead of address", "include/minizinc/ast.hh, hash.hh"), ("seeded random generator", "include/minizinc/flatten.hh")],
  None, "generated FlatZinc and output model", False)

p("P11", "A failed write is reported: success means the output file is complete",
  "If the driver exits successfully, every output file it was asked to write (FlatZinc, output specification, symbol paths, compiled checker, solution output) contains exactly the bytes a fault-free run writes. When writing such a file or handing the model to a solver through a temporary file fails at any byte (disk full, I/O error, failing open or close), the driver reports an error and exits with a failure code, and no answer computed from an incompletely written model is reported; short and interrupted writes are completed. For the two side copies of the solution stream (raw and non-canonical) a failure is reported on the error output but does not make the run fail.",
  ["fault_sequences", "crash_points"],
  "every byte position and every error code (ENOSPC, EIO, EDQUOT, EINTR, short write, failing open or close) on every output file",
  "Tests never fill the disk; output fits into one buffered write whose failure only appears at close.",
  ["lib/flattener.cpp", S2O, FZN, "solvers/nl/nl_solverinstance.cpp", "include/minizinc/utils.hh"],
  [("stream state checks", "include/minizinc/utils.hh: check_io_status"), ("writing of compiled output", "lib/flattener.cpp"), ("solver temporary files", FZN + ": solve")],
  None, "output files and exit code", False)

p("P12", "A failed or short read of an input never silently changes the problem",
  "When reading a model, included library file, data file, JSON data, solver configuration or parameter file fails or is interrupted at any byte, or reading standard input is interrupted or comes in pieces, the driver either produces exactly the result of the fault-free run or stops with an error and failure exit code. It never compiles or solves a truncated or otherwise altered version of the input.",
  ["fault_sequences"],
  "every read call on every input file x every error (EIO, EINTR, short read, file shrinking between size query and read, failing open)",
  "Files in the tests are always readable in one go.",
  ["lib/parser.cpp", "lib/json_parser.cpp", "lib/flattener.cpp", "lib/param_config.cpp", "lib/solver_config.cpp", "lib/file_utils.cpp"],
  [("whole-file reading", "lib/parser.cpp: get_file_contents"), ("JSON input", "lib/json_parser.cpp")],
  None, "exit code and output of the driver", False)

p("P13", "Running out of memory never yields a wrong result or hidden failure",
  "If any single memory allocation fails at any point of compiling, solving or printing, the driver either still produces exactly the normal result or ends with a failure (error message, failure exit code or abnormal termination); a failure of the solution checker is reported in place of its report. It never exits successfully with otherwise different, missing or partial output, and never hangs.",
  ["fault_sequences"],
  "every allocation point of a run, single and repeated failure",
  "Allocation never fails in tests.",
  ["lib/gc.cpp", "lib/flattener.cpp", S2O, "minizinc.cpp", "lib/solver.cpp"],
  [("error propagation to the exit code", "minizinc.cpp: run"), ("heap page allocation", "lib/gc.cpp")],
  None, "exit code and output of the driver", False)

p("P14", "An overall time limit stops compilation promptly, cleanly and truthfully",
  "When the overall time limit expires at any moment of compilation, including every pass of multi-pass compilation, the driver stops after a bounded amount of further work without crash or hang, reports 'unknown' (never unsatisfiable, never a solution, never a truncated compiled file as success), and no solver is started afterwards without a limit. When the limit does not expire, the result is the same as without a limit.",
  ["schedules", "configurations"],
  "every expiry instant relative to every step of the compilation (parsing, type checking, first and later passes, optimisation, output), every interleaving of timer and compiler threads",
  "A wall-clock test hits one or two instants; the interesting windows (before the first pass exists, between passes, during hand-over to the solver) are microseconds wide.",
  ["lib/solver.cpp", "include/minizinc/flattener.hh", "include/minizinc/flatten_internal.hh", "lib/flattener.cpp", "lib/flatten.cpp"],
  [("timer thread", "lib/solver.cpp: MznSolver::flatten"), ("cancellation flag", "include/minizinc/flatten_internal.hh: checkCancel"), ("cancel entry point", "include/minizinc/flattener.hh: cancel")],
  [("cancellation flag", "set by the timer, polled by the compiler", "include/minizinc/flatten_internal.hh")],
  "exit, output, solver start", False)

p("P15", "Interactive sessions separate text and solutions exactly, in any chunking",
  "For an interactive solver, text outside the solution markers is echoed byte for byte (a last line without line end may be ended), text between the markers is processed as a normal solution, and marker lines are never shown, independent of how the stream is split over reads and of delays. An unterminated prompt is shown as soon as it has arrived (except for a tail that could still become a marker), and interrupting the session is left to the solver.",
  ["schedules", "inputs"],
  "every dialogue stream x every partition into reads x every signal time",
  "The terminal dialogue is exercised, if at all, with one fixed chunking.",
  [S2O, PROC, FZN],
  [("marker filter", S2O + ": Solns2OutInteractive"), ("interactive supervision loop", PROC + ": Process::run")],
  [("echoed prefix", "part of the current line already shown", S2O)],
  "standard output of the driver over simulated time", False)

p("P16", "A missing, torn or inconsistent NL solution file never becomes a solution",
  "For a non-linear solver that hands its result back in a file, the driver prints a solution only if the file is complete and consistent with the model, with exactly the values in it (integers rounded to the nearest); if the solver crashes, or the file is missing, empty, truncated at any byte, unreadable, or has too few values, the driver reports an error or unknown status and prints no solution. The status printed is the one the file states, and the model file handed to the solver is complete before the solver starts.",
  ["crash_points", "fault_sequences", "inputs"],
  "every truncation point, read error and result code of the solution file, every solver end",
  "No NL solver is installed in the test environment; torn files need a crash between two writes.",
  ["solvers/nl/nl_solreader.cpp", "solvers/nl/nl_solverinstance.cpp", "solvers/nl/nl_file.cpp"],
  [("solution file parser", "solvers/nl/nl_solreader.cpp: NLSol::parseSolution"), ("status mapping", "solvers/nl/nl_solreader.cpp: NLSolns2Out::parseSolution")],
  None, "standard output and exit code of the driver", False)

p("P17", "A time limit only truncates a built-in solver's answer, never changes it",
  "For solvers linked into the driver (searching with one thread), running with a time limit that expires at any moment yields a prefix of the solutions of the unlimited run (for the mixed-integer solver, whose stopping point within a node is its own, correct solutions of the problem), followed by the same final status only if the search really finished, and otherwise by none or 'unknown'. Search stops within a bounded amount of work after expiry, and without expiry the output equals that of the unlimited run.",
  ["schedules", "configurations"],
  "every expiry instant of the solver clock and every clock rate, for satisfaction, all-solutions and optimisation problems",
  "Wall-clock limits in tests either never expire or expire at one uncontrolled point.",
  ["solvers/gecode/gecode_solverinstance.cpp", "solvers/MIP/MIP_solverinstance.cpp", "solvers/MIP/MIP_osicbc_wrap.cpp", "lib/solver.cpp"],
  [("Gecode stop object and engine loop", "solvers/gecode/gecode_solverinstance.cpp"), ("CBC time limit and solution callbacks", "solvers/MIP/MIP_osicbc_wrap.cpp")],
  None, "standard output of the driver", False)

p("P18", "Each solution is checked exactly once, against its own values",
  "With a solution checker attached, every distinct solution is followed or accompanied by exactly one checker verdict, computed from that solution's own values, regardless of how the solver's output is chunked, delayed or cut off; a checker that fails or times out never removes, changes or reorders solutions or the final status.",
  ["schedules", "inputs", "crash_points"],
  "every solution stream and delivery schedule, checker accepting or rejecting each solution",
  "Tests check a single well-formed solution from a solver that finishes normally.",
  [S2O, "lib/flattener.cpp"],
  [("checker run per solution", S2O + ": checkSolution/evalOutput"), ("checker embedding in the output model", "lib/flattener.cpp")],
  None, "standard output of the driver", False)

p("P19", "Solver selection follows tags and defaults despite listing order or broken files",
  "A request by name, id, tag or version starts a solver that answers to every part of the request (upper or lower case alike), in the requested version if there is one, and the default solver of a requested tag (or of the system, if no solver is requested) is preferred; a request fails only if no solver answers to it. Which solver is started, its command line and the list of available solvers are the same for every order in which the operating system lists configuration directories. A configuration file that is malformed, truncated or cannot be read is reported or skipped without affecting the selection of other solvers, and the same holds for an unreadable directory; a preference file that cannot be read is reported.",
  ["configurations", "fault_sequences", "schedules"],
  "every set of solver configurations and preferences, every request, every directory enumeration order, every read fault on a configuration file",
  "On a given machine the directory order is fixed, so tests see one order only, and tests sample few sets of configurations.",
  ["lib/solver_config.cpp", "lib/file_utils.cpp"],
  [("configuration loading and selection", "lib/solver_config.cpp: SolverConfigs"), ("directory listing", "lib/file_utils.cpp: directory_list")],
  None, "solver command executed, solver list printed", False)

p("P20", "Solvers that take MiniZinc input or print their own output pass through intact",
  "For solvers that consume MiniZinc directly or whose output is passed through, the driver forwards every byte of the solver's standard output and error unchanged and in order (NUL bytes excepted; a last line without line end may be ended, and after a failed or interrupted solver the driver may add its own status line), under every chunking, delay, signal and failure, passes on the options and files meant for the solver unchanged, applies time limits and interrupts as for other solvers, and reports failure of the solver through its exit code.",
  ["schedules", "fault_sequences", "configurations"],
  "every byte stream, chunking, solver end and time limit",
  "No such solver is installed in the test environment.",
  ["solvers/mzn/mzn_solverinstance.cpp", FZN, PROC, "lib/solver.cpp"],
  [("pass-through stream", "include/minizinc/solns2out.hh: Solns2Log"), ("driver", "solvers/mzn/mzn_solverinstance.cpp: solve")],
  None, "standard output, error and exit code of the driver", False)

p("P21", "Unsatisfiable cores are reported in terms of the model's assumptions",
  "A model may state assumptions; when the solver reports an unsatisfiable core over the FlatZinc variables they were compiled to, the driver prints for every variable named in it exactly the expression of the model it stands for (or an element of the array expression it came from), once per variable and in the solver's order, for every optimisation level, however the solver's output is split or delayed, and also when the stream is read separately with the output specification. Names that stand for no assumption are printed as they are, and assumptions never tighten the rest of the problem passed to the solver.",
  ["inputs", "schedules", "configurations"],
  "models with assumptions of every form (inline, named arrays, function results, comprehensions, several calls, shared and fixed elements) x every core the solver may report x every chunking and delay x optimisation levels and passes",
  "No real solver of the test environment reports cores; the mapping is only exercised for one fixed stream.",
  [S2O, "lib/flatten/flatten_call.cpp", "lib/flattener.cpp", "lib/optimize.cpp", "share/minizinc/std/experimental/assume.mzn"],
  [("recording of assumptions", "lib/flatten/flatten_call.cpp: flatten_call"), ("assumption map in the output specification", "lib/flattener.cpp: Flattener::flatten"), ("unification keeps the map", "lib/optimize.cpp"), ("translation of core lines", S2O + ": resolveAssumptionCore")],
  [("assumption map", "FlatZinc variable -> expression of the model", "include/minizinc/flatten_internal.hh: assumptionExprs")],
  "standard output of the driver, FlatZinc and output specification", False)

# ---------------------------------------------------------------- not applicable
p("N01", "Compilation preserves the set of solutions",
  "For every model and data, the solutions of the compiled FlatZinc, read through the output specification, are exactly the solutions of the model.",
  ["programs", "inputs"], "every MiniZinc model and data set",
  "Unbounded input space; tests sample about a thousand models.",
  ["lib/flatten.cpp", "lib/flatten", "lib/optimize.cpp", "share/minizinc/std"], [("flattening", "lib/flatten.cpp")])
p("N02", "The type checker accepts exactly well-typed models and infers correct types",
  "Every model that passes type checking evaluates without type confusion, and every rejected model violates the documented typing rules.",
  ["programs"], "every model text", "Unbounded input space.",
  ["lib/typecheck.cpp", "lib/type.cpp"], [("type checking", "lib/typecheck.cpp")])
p("N03", "Evaluation of parameter expressions follows the language definition",
  "Every parameter expression evaluates to the value the language reference defines, or to undefined/an error where it says so, including overflow.",
  ["programs", "inputs"], "every expression and value", "Unbounded input space.",
  ["lib/eval_par.cpp", "lib/builtins.cpp", "include/minizinc/values.hh"], [("evaluation", "lib/eval_par.cpp")])
p("N04", "Printing and re-parsing a model or FlatZinc gives the same model",
  "Text produced by the pretty printer parses back to an equivalent model.",
  ["programs"], "every model", "Unbounded input space.",
  ["lib/prettyprinter.cpp", "lib/parser.yxx"], [("printing", "lib/prettyprinter.cpp")])
p("N05", "Optimisation passes and multi-pass compilation are equivalence preserving",
  "For every model, each optimisation level yields FlatZinc with the same solutions.",
  ["programs", "configurations"], "every model x optimisation level", "Unbounded input space.",
  ["lib/optimize.cpp", "lib/passes", "lib/chain_compressor.cpp"], [("optimisation", "lib/optimize.cpp")])
p("N06", "Library decompositions of global constraints are correct",
  "Every decomposition in the standard library accepts exactly the assignments its documentation defines.",
  ["inputs"], "every argument of every global constraint", "Unbounded input space.",
  ["share/minizinc/std"], [("decompositions", "share/minizinc/std")])
p("N07", "Every malformed input is rejected with a diagnostic, never a crash",
  "No model, data or FlatZinc text makes the driver crash or hang; malformed input is rejected with a located error.",
  ["inputs"], "every byte string", "Unbounded input space.",
  ["lib/parser.yxx", "lib/lexer.lxx", "lib/json_parser.cpp"], [("parsers", "lib/parser.yxx")])
p("N08", "Linearisation for MIP solvers preserves optimal values",
  "For every model within the supported fragment, MIP backends report the same optimal objective as finite-domain backends.",
  ["programs"], "every model", "Unbounded input space.",
  ["lib/MIPdomains.cpp", "share/minizinc/linear", "solvers/MIP"], [("linear library", "share/minizinc/linear")])

NOT_APPLICABLE = {
    "N01": "A property of a pure function of the input program: no schedule, fault, clock or I/O takes part, so simulated faults and schedules add nothing; it needs a reference semantics of MiniZinc, i.e. another technique.",
    "N02": "Pure function of the program text; nothing a simulator controls takes part in it.",
    "N03": "Pure function of the expression and the data; nothing a simulator controls takes part in it.",
    "N04": "Pure function of the program text; nothing a simulator controls takes part in it.",
    "N05": "Equivalence of two pure transformations; needs enumeration of models and a reference semantics, not schedules or faults. (That time limits and collections during the passes do not change the result is claimed under P09 and P14.)",
    "N06": "A statement about library text for all arguments; no schedule, fault, clock or I/O takes part.",
    "N07": "A property of input text alone (fuzzing of the parsers); the part that depends on failing reads is claimed under P12.",
    "N08": "A statement about the linear library for all models; no schedule, fault, clock or I/O takes part.",
}

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
    print(len(P))
