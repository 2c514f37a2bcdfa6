#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the list stays easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mechanism, observe_at, hook=False):
    assert len(title) <= 80, (id, len(title))
    over = [o.replace("all ", "") for o in over]
    state = [dict(name=state, meaning=state, where=files[0])]
    mechanism = [dict(name=mechanism, where=files[0])]
    observe_at = [observe_at]
    hook = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state, mechanism=mechanism,
                               observe_at=observe_at, hook_needed=hook)))

W = "src/vfcwrapper/main.c.in"
FI = "src/vfcwrapper/funcinstr.c"
PASS = "src/libvfcinstrument/libVFCInstrument.cpp"
FPASS = "src/libvfcfuncinstrument/libVFCFuncInstrument.cpp"
BK = "src/backends/interflop-backend-"
VP = BK + "vprec/interflop_vprec.c"
VPT = BK + "vprec/common/vprec_tools.c"
VPF = BK + "vprec/interflop_vprec_function_instrumentation.c"
SL = "src/interflop-stdlib/"

p("P01", "Every loaded backend sees each operation once, in order, with true operands",
  "For any list of loaded backends, each executed instrumented operation (add, sub, mul, div, fma, comparison, double-to-float cast; float and double; scalar or vector of 2, 4, 8 or 16 lanes) calls each backend that implements it exactly once, in load order, passing the program's original operands, and the program receives the value written by the last of them. A vector operation is the scalar operation applied to each lane independently, lane i of the result coming from lane i of the operands. A user call from the program reaches every backend that accepts user calls, once, in load order and with the same arguments.",
  ["all inputs", "all configurations", "all histories"], "every backend list up to the supported maximum, every subset of implemented operations per backend, every operation kind/type/lane count, and every sequence of operations",
  "The tests load one or two stock backends and look only at final numbers; they never observe which backend was called, how often, with what operands, or what a backend without some operation does to the chain.",
  [W], "table of loaded backends and their contexts; the result variable of an operation in flight", "per-operation wrapper loops over the loaded backends; vector wrappers loop over lanes", "calls received by recorder backends loaded next to each other, and the value returned to the program")

p("P02", "Backend configuration is honoured exactly or the program stops before main",
  "The backend list comes from the environment variable naming it, or when that is unset from the first line of the file named by the alternative variable; it is split at semicolons into backends and at spaces into that backend's arguments, and each backend is initialised in order with exactly its own arguments and finalised in order at exit, the program's exit status and environment being left as they are. If there is no backend, a backend cannot be loaded, more than 16 backends or more than 256 words for one backend are given, a backend rejects its options, or some required operation is implemented by no loaded backend, the process exits with an error before the program's own code runs.",
  ["all inputs", "all configurations"], "every configuration string, file content and combination of the two variables, and every set of operations the loaded backends implement",
  "Tests use a handful of well-formed strings; malformed lists, boundary counts, missing operations and the precedence rules are never exercised.",
  [W, SL + "interflop_stdlib.c", SL + "iostream/logger.c"], "environment, configuration file, table of loaded backends", "constructor that parses, loads, checks and initialises; destructor that finalises", "process exit status, recorder-backend log of initialisation arguments and order, whether main ran")

p("P03", "Exactly the floating-point operations asked for are instrumented",
  "In a program compiled with the tool, every executed float or double add, sub, mul and div of an instrumented function, scalar or on a vector of 2, 4, 8 or 16 lanes (lane by lane), is handed to the backends exactly once, with that operation's own operand values, and its result is what the rest of the program uses; scalar fused multiply-adds, comparisons and scalar double-to-float casts are handed over exactly when the matching option is given and otherwise behave natively. Everything else (integer code, other types and vector shapes, control flow, order of effects, code before and after main, other threads) is unchanged, and this holds at every optimisation level and for several source files or separate compile and link steps.",
  ["all programs", "all configurations"], "every program and every combination of the instrumentation options, optimisation levels and compilation modes",
  "Tests compile a few fixed programs and compare final printed values or count substrings in the IR; a dropped, duplicated, reordered or mis-wired operation on another shape of code is invisible to them.",
  [PASS, "verificarlo.in.in", W], "module under instrumentation", "module pass replacing instructions by calls; driver building clang/opt command lines", "sequence of operations and operands received by a recorder backend versus the program's own semantics")

p("P04", "Only the selected functions are instrumented",
  "A function is instrumented if it matches the inclusion list; otherwise it is not if it matches the exclusion list; otherwise it is unless an inclusion list alone was given. A list line matches a function when its module part matches the path of the source file (relative names match any directory, a missing extension matches any extension, a star matches any text, a dot only itself) and its function part matches the whole function name; comments and blank lines are ignored and a malformed line or unreadable list stops the compilation; selecting a single function by option instruments that function and nothing else, and cannot be combined with the lists.",
  ["all configurations", "all inputs"], "every pair of inclusion and exclusion lists over every set of modules and functions",
  "Tests try a few lists; the precedence and wildcard rules range over all pairs of lists and names.",
  [PASS, "verificarlo.in.in"], "inclusion and exclusion lists, module path, function name", "pattern translation and the select loop of the instrumentation pass", "which functions' operations reach a recorder backend")

p("P05", "Delta-debug filters instrument exactly the listed call sites",
  "In a program built for delta debugging, an arithmetic or fused multiply-add operation at a call site in the exclusion list runs natively; otherwise, if an inclusion list is given, it goes to the backends exactly when its site is in that list; otherwise it goes to the backends. Generation mode leaves behaviour unchanged and writes a list holding exactly the sites executed and not excluded, and nothing else, whatever the file held before; feeding that list back as inclusion or exclusion selects exactly those sites, so splitting it into two parts partitions the instrumented operations. Giving inclusion and generation together, or an unparsable list, is an error.",
  ["all inputs", "all configurations", "all histories"], "every pair of site lists, every executed subset of sites, every previous content of the generated file",
  "Tests use one program and one or two lists; the filter must be right for every subset, which is what the delta-debugging search relies on.",
  [W, SL + "hashmap/vfc_hashmap.c"], "include / exclude address maps, generated list file", "return-address lookup before each operation; list reader and writer", "per-site calls received by a recorder backend, generated file content, exit status")

p("P06", "The IEEE backend leaves results bit-identical to native execution",
  "With the IEEE backend, every operation returns exactly the IEEE-754 result: round-to-nearest-even add, sub, mul, div, fused multiply-add and double-to-float cast, and for each of the sixteen comparison predicates the truth value that predicate has, for all operands including zeros, subnormals, infinities and NaNs, with any combination of its printing options. With operation counting enabled the counts reported at exit equal the numbers of operations executed, whatever the number of threads.",
  ["all inputs", "all configurations", "all schedules"], "every operand tuple, operation, predicate, option combination, and every interleaving of threads for the counters",
  "Tests check a few operand values and a few predicates, single-threaded.",
  [BK + "ieee/interflop_ieee.c", SL + "fma/interflop_fma.c", BK + "ieee/common/printf_specifier.c"], "backend context with options and counters", "per-operation functions, predicate switch, atomic counters", "operation results and the counts printed at exit")

p("P07", "VPREC rounds every value correctly to the emulated format",
  "A value VPREC rounds to a format of p fraction bits and r exponent bits becomes the nearest value of that format, ties to even: magnitudes beyond the largest finite value become infinity, values below the smallest normal round on the subnormal grid, and only below half the smallest subnormal do they become positive zero, a magnitude of exactly half of it becoming the smallest subnormal. Otherwise the sign is kept; zeros of either sign, NaN, infinities and values already in the format are unchanged.",
  ["all inputs", "all configurations"], "every float or double value and every p in 1..23/52 and r in 2..8/11",
  "The rounding must be right for 2^64 values in hundreds of formats, and the errors hide at binade, overflow and subnormal boundaries.",
  [VPT, VP, SL + "common/float_utils.h"], "virtual precision and range", "bit-level rounding of normals and subnormals, overflow and underflow handling", "result of operations under the backend in output-rounding mode with an identity operand, compared with the specification's rounding")

p("P08", "VPREC applies the configured rounding steps at the configured points",
  "With VPREC, an operation returns the native result unrounded in mode ieee, of rounded inputs in mode ib, rounded on output in mode ob, and both in mode full, using the precision and range in force for its type: those given on the command line, by a preset or by default until a user call changes them for the following operations of that type. With daz, inputs that are subnormal in the emulated format become zero of the same sign and with ftz such results do; a double-to-float cast and a fused multiply-add follow the same rule; and option or user-call values outside the documented ranges are rejected.",
  ["all inputs", "all configurations", "all histories"], "every mode, precision, range, preset, flag combination, operation and operand, and every sequence of user calls",
  "Tests fix a mode and a few precisions; interactions of modes, flags, presets, types and user calls over time are not covered.",
  [VP, VPT, VPF, BK + "vprec/interflop_vprec.h"], "mode, per-type precision and range, daz/ftz flags", "option parser, user-call handler, operation pipeline", "operation results versus the specification's state machine")

p("P09", "Function instrumentation applies each call site's precision and restores it",
  "In a single-threaded program with function instrumentation, while a call made at an instrumented call site runs, its own operations use the precision and range configured for that site (full precision for a site without configuration) and, after the call returns, operations use again exactly what was in force before, for any nesting and recursion of calls. When argument instrumentation is on, float and double arguments (and the elements of local arrays passed by address) are rounded to the input formats configured for that site before the callee sees them and the returned value to its output format before the caller sees it, as the mode says, and they are unchanged otherwise; library and intrinsic calls never change the precision of operations. Every backend accepting function notifications gets the same balanced enter and exit events with the same arguments.",
  ["all histories", "all configurations"], "every call tree, every assignment of formats to call sites, every instrumentation mode",
  "Tests run one or two call trees with one configuration file.",
  [VPF, VP, FI, FPASS], "call stack, per-site records, current precision", "enter/exit hooks around every call and the per-site tables", "operands, arguments and results observed in the program under nested calls")

p("P10", "VPREC profile files record what ran and round-trip as configuration",
  "The profile written at exit has exactly one record per instrumented call site that was executed and handles floating point (plus the records it was given as configuration), with the number of times it was called (added to the count given), its kind, its argument list in order, and for each argument and returned value the smallest integer bounds, clamped to the range of int, that enclose all finite values seen. Feeding a profile back as input configuration unmodified reproduces the program's results, and each precision or range edited in it is the one applied to exactly that site or argument.",
  ["all histories", "all inputs"], "every call history and every set of argument values, and every edit of the file",
  "Tests compare one profile of one program.",
  [VPF, SL + "hashmap/vfc_hashmap.c", SL + "common/float_utils.h"], "per-site table with counters and bounds; profile file", "table update at enter/exit, table dump, table read", "profile file content versus the executed call history")

p("P11", "MCA results stay within the noise bound of mode and virtual precision",
  "With Monte Carlo arithmetic (either engine) at virtual precision t, the noise added to a value x is at most half a unit in the t-th significant binary digit of x in relative mode (t being the type's full precision for the integer engine), at most 2^(e-1) for a maximum absolute error exponent e in absolute mode, and the sum of both when both are active: random rounding adds it to the exact result of the operation, precision bounding to the operands, full MCA to both, and the ieee mode adds none. The final result is that perturbed value rounded to the operation's type, so its distance to the exact result never exceeds what the mode allows; and the noise is uniform over its interval, centred on zero. A user call marking a value inexact adds such noise to it, and a user call changing the virtual precision takes effect from the next operation on.",
  ["all inputs", "all configurations", "all schedules"], "every operand pair, operation, mode, error mode, virtual precision and random draw",
  "Tests inspect a few summary statistics of a few sums; an out-of-bound or biased perturbation for particular exponents, signs, precisions or operations is not seen.",
  [BK + "mcaquad/interflop_mca.c", BK + "mcaint/interflop_mca_int.c", SL + "rng/vfc_rng.c", SL + "common/float_utils.h"], "mode, error mode, virtual precision per type, random state", "noise generation and injection at inputs/outputs", "operation results compared with the exact result")

p("P12", "MCA leaves special and exactly representable values untouched",
  "MCA never perturbs a zero, an infinity or a NaN: an operation whose operands and exact result are such values gives the IEEE result in every mode. In random-rounding mode, a result exactly representable at the virtual precision is returned exactly, so chains of exact operations stay exact. A NaN or infinity is never produced from finite operands unless the IEEE operation or the perturbation itself overflows.",
  ["all inputs", "all configurations"], "every operand pair with exact or special results, each mode and virtual precision",
  "Tests check a few exact sums.",
  [BK + "mcaquad/interflop_mca.c", BK + "mcaint/interflop_mca_int.c", SL + "common/float_utils.h"], "mode, virtual precision", "representability and special-value tests before noise injection", "operation results versus exact results")

p("P13", "A fixed seed reproduces runs and gives threads independent streams",
  "For the randomised backends, two runs with the same seed, options and sequence of operations give bit-identical results, whatever other backends are loaded; different seeds give different perturbations. With several threads, each thread's results depend only on the seed, on the rank at which it first drew a random number and on its own operations, not on how the threads interleave afterwards, and no two threads draw the same stream, even when all of them start at the same instant. Without a seed, different runs and different threads draw different streams.",
  ["all schedules", "all histories", "all configurations"], "every interleaving of thread operations, every seed and backend",
  "Tests run one single-threaded program twice; independence from the schedule needs all interleavings.",
  [SL + "rng/vfc_rng.c", SL + "rng/xoroshiro128.c", SL + "rng/splitmix64.c", BK + "mcaquad/interflop_mca.c", BK + "mcaint/interflop_mca_int.c", BK + "bitmask/interflop_bitmask.c", BK + "cancellation/interflop_cancellation.c"], "per-thread random state, thread-rank counter, seed", "lazy per-thread seeding, atomic thread rank", "results per thread under controlled schedules")

p("P14", "Sparsity, denormals-are-zero and flush-to-zero act as documented",
  "With sparsity s, each perturbation happens with probability s and the value is otherwise left as it is, an operation without perturbation returning the IEEE result; the default perturbs every time and a sparsity that is not positive is rejected. With daz every subnormal operand is taken as a zero before the operation and with ftz every subnormal result, of a cast too, becomes a zero; without them subnormals are kept, and the flags never affect other values.",
  ["all inputs", "all configurations"], "every operand pair, flag combination and sparsity, in each randomised backend",
  "Tests check one value per flag and one average.",
  [BK + "mcaquad/interflop_mca.c", BK + "mcaint/interflop_mca_int.c", BK + "bitmask/interflop_bitmask.c"], "daz/ftz flags, sparsity", "operand/result filters and skip test around each operation", "operation results")

p("P15", "Bitmask changes only the bits below the virtual precision",
  "The bitmask backend alters only fraction bits below the virtual precision: in mode ib those of the operands, in mode ob those of the result (unless it needs no more digits than the virtual precision), in mode full both, in mode ieee none; with the zero operator they are cleared, with the one operator set, with the random operator combined with random bits. Sign, exponent and the leading bits are those of the unmodified value, in random mode every masked bit position varies, and zeros, infinities and NaNs are left alone.",
  ["all inputs", "all configurations"], "every value, virtual precision, mode and operator",
  "Tests compare a few averages with references.",
  [BK + "bitmask/interflop_bitmask.c", SL + "common/float_utils.h"], "mode, operator, masks", "mask application at inputs and outputs", "bits of operation results")

p("P16", "Cancellation backend perturbs exactly the cancelled digits",
  "The cancellation backend perturbs an addition or subtraction exactly when at least the tolerance of leading bits cancelled, that is when the larger operand exponent exceeds the result's exponent by at least the tolerance (stored exponents, zero and subnormal values having the lowest one). When c bits cancelled the noise is uniform and at most 2^(e-c) in magnitude for a result of exponent e; otherwise, and for every other operation, the result is the IEEE result. With warnings enabled one warning stating the number of cancelled bits is issued per cancellation, in order, and none otherwise.",
  ["all inputs", "all configurations"], "every operand pair and tolerance",
  "Tests check a few values at one or two tolerances.",
  [BK + "cancellation/interflop_cancellation.c", SL + "common/float_utils.h"], "tolerance, warning flag, seed", "exponent comparison and noise injection after add/sub", "operation results and warnings")

p("P17", "The runtime hash map behaves as a map for every history",
  "After any sequence of insertions, look-ups and removals (values other than the reserved 0 and 1, a key being inserted again only with the same value or after its removal), looking a key up gives the value most recently inserted for it and not since removed, membership answers agree with look-ups, the item count equals the number of present keys, and this is unaffected by collisions, growth of the table or the number of removals. No operation loses, duplicates or corrupts another key's entry.",
  ["all histories", "all inputs"], "every sequence of operations on every set of keys, including colliding ones and table growth",
  "The map has no tests of its own; the components relying on it only exercise insert and look-up of a few keys.",
  [SL + "hashmap/vfc_hashmap.c"], "open-addressing table of key/value pairs", "probing, tombstones, rehash", "results of the map's operations")

p("P18", "Probes are recorded once each and dumped without loss",
  "For any sequence of probes with distinct (test, variable) names, the dumped file has one line per probe with exactly the given names, value, accuracy threshold and check mode, values being preserved bit for bit. A repeated (test, variable) pair or a name containing a comma stops the program with an error and an unset or unwritable output path never corrupts a file silently; the probe count is the number of probes placed so far.",
  ["all histories", "all inputs"], "every sequence of probes, names and values, including colliding hash values and table growth",
  "Tests place a few probes and check that a file exists.",
  ["src/common/vfc_probes.c", "src/common/vfc_probes.h", SL + "hashmap/vfc_hashmap.c"], "probe table", "insert with duplicate detection, dump", "CSV file content and exit status")

p("P19", "Delta debugging returns failing, 1-minimal, complete answers",
  "For any program and comparison script whose verdict depends only on the set of enabled sites, with the empty set passing and the full set failing, every reported minimal set fails, none of its elements can be removed without making it pass, reported sets are disjoint, and with all of them removed the rest passes; the reported maximal set passes and adding any other single site makes it fail. This holds for all search variants and sample-count settings, sequential or parallel, and verdicts remembered from earlier samples are never changed or misattributed to another set.",
  ["all inputs", "all histories", "all schedules"], "every failure predicate over the set of sites, every algorithm variant, sample-count and thread setting, including resuming on existing results",
  "The tests run one program whose faulty line is known; the guarantee is over all failure predicates.",
  ["src/tools/ddebug/DD.py", "src/tools/ddebug/DD_stoch.py", "src/tools/ddebug/dd_config.py", "src/tools/ddebug/main.py"], "candidate set, granularity, result directories with sample verdicts", "ddmin / rddmin / ddmax loops, dichotomic split, sample cache on disk", "configurations tested, reported sets and their links")

p("P20", "vfc_ci reports each probe's true statistics and check verdicts",
  "For every test run, each (test, variable, backend) gets one result built from exactly the values its runs dumped: the number of samples, minimum, maximum, mean, standard deviation and quartiles are those of the values; a check passes exactly when the standard deviation (absolute) or its ratio to the mean (relative), or for deterministic backends the distance to the IEEE reference (absolute or relative), is below the threshold, and probes without a check pass. Each repetition runs with the requested backend, and runs that produce no data are listed as warnings without affecting the results of others.",
  ["all inputs", "all configurations", "all histories"], "every configuration of executables, backends and repetitions, and every set of dumped values",
  "Tests run one example and check that files appear.",
  ["src/tools/ci/test.py", "src/tools/ci/test_data_processing.py"], "result tables of a test run", "run loops, CSV reading, grouping, statistics and check evaluation", "result tables")

p("P21", "Precision search ends with passing, locally minimal precisions",
  "For any comparison verdict that, in each explored field with the others fixed, accepts every value above some threshold, the precision search ends with a configuration that the comparison accepts and in which no explored precision or range can be lowered any further (all others kept); records and fields that are not explored keep their values. A run that fails or that exceeds --maxTimeout counts as rejected; the scripts may print anything. The search always terminates, even if no value is accepted, in which case the explored fields are left at full precision and range.",
  ["all inputs", "all histories"], "every threshold assignment over the fields and every profile",
  "No test runs the search.",
  ["src/tools/optimize/precexp.py", "src/tools/vfc_precexp"], "configuration tables, current search interval", "dichotomic search writing a configuration, running and comparing", "sequence of configurations written and the final tables")

p("P22", "Runtime messages obey the logger settings and never change results",
  "Debug, informational and warning messages appear only when logging is enabled and the level setting permits them, and then they do appear; errors are always reported, once, and stop the program with a failing status. Debug and informational messages go to standard error or, when a log file is configured, to that file (one per process); warnings and errors go to standard error. Quiet loading suppresses the load notices and configuration summaries of every backend, and nothing else. No logger setting changes an operation's result or the program's own output.",
  ["all configurations"], "every combination of logger variables, backends and options",
  "Tests try two settings with one backend.",
  [SL + "iostream/logger.c", W], "logger switches, level, output stream", "environment parsing at initialisation, level filter per message", "standard error, log file, exit status")

p("P23", "The verbose output of the IEEE backend is a faithful trace of the operations",
  "With --debug or --debug-binary the IEEE backend writes to standard error exactly one record for each operation it executes (arithmetic, fused multiply-add, comparison, conversion), in the order of execution, and none otherwise. A record carries the operator or the name of the predicate executed, the operands and the result: in binary form the texts denote exactly these values (subnormal numbers with leading bit 0 and the smallest exponent, or normalised when --print-subnormal-normalized is given), in decimal form their values rounded to six significant digits; infinities, NaNs and signed zeros appear as such. --print-new-line and --no-backend-name change only the layout. No result of an operation depends on these options.",
  ["all operand bit patterns", "all operation sequences"], "every operation, type, operand pattern and option combination",
  "Tests compare a few printed constants.",
  [BK + "ieee/interflop_ieee.c", BK + "ieee/common/printf_specifier.c"], "output options, operations not yet written", "operation executed, record written", "standard error of the program")

p("P24", "A compiler command has exactly the effects it names, for all names and overlaps",
  "verificarlo, verificarlo-c and verificarlo-c++ accept the commands a C/C++ compiler accepts (link, -c, -S, -E, -o FILE or -oFILE, several sources in C, C++, assembly or LLVM IR, object files, libraries, macro and include options, selection lists, --save-temps). A command succeeds (status 0) exactly when the request is consistent, every input exists and compiles and the program links; it then leaves the files named: an object beside each source (or the -o name), the executable (the -o name or a.out), and no other file unless --save-temps is given. Every executable consists of exactly the units named, each having received the macro texts given on the command line unchanged, and calls the backends for exactly the kinds of operations selected when that unit was compiled: C, C++ and IR units are instrumented, assembly units are not, -S and -E do not instrument. A failing command has a non-zero status, says why, and leaves no new executable and no intermediate file. Directory, file, list and macro texts may hold any printable character (spaces, quotes, $, parentheses...); files of the same name in different directories are kept apart; and commands with different outputs running at the same time in one directory (make -j) have the same effects as one after the other.",
  ["all command lines", "all names and texts", "all histories of commands", "all interleavings of concurrent commands"], "every command line, file tree and overlap of commands",
  "Tests use plain names in one directory, one command at a time.",
  ["verificarlo.in.in", "verificarlo-c", "verificarlo-c++"], "files, commands under way", "command started, command ended, executable run", "file tree, exit status, output of the program, operations received by the backend")

p("P25", "vfc_vtk adds the true accuracy of every floating-point array, nothing else",
  "For any set of VTK outputs (one directory per run, ASCII .vtu files, any number of runs, files, pieces, sections and arrays, equal names in different sections or pieces, arrays in any order, values of any sign and magnitude) vfc_vtk writes one output directory: every file of the reference output (the directory given with -r, otherwise one of the runs) is there with its content, and each floating-point array (Float32 or Float64) of a .vtu file has a companion array NAME_vfc_accuracy with the same attributes in the same section (PointData for Points) holding, for each element, the number of significant decimal digits -log10(sigma/|mu|) of its values across the runs cut to 0..17, or with --std their standard deviation. With --mean the floating-point arrays hold the averages across the runs; every other array, node and file is as in the reference. The runs are never changed, and if there is no run or the output already exists the tool refuses (non-zero status) and changes nothing.",
  ["all sets of outputs", "all options"], "every number of runs, document structure, names and values",
  "There is no test of the tool; the statistics depend on the values of all runs.",
  ["src/tools/vtk/__main__.py"], "files of the runs and of the reference, the merged document", "merge of a set of outputs", "output files, exit status, input files")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
