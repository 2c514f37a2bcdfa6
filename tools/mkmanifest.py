#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present in /verif/checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "trace validation of the real runtime against a TLA+ specification with TLC"
NOTE = {
    "P01": ("TLA+ chain model (Chain) + TLC trace validation with recorder backends", "The chain is model-checked for few backends, lanes and threads against a history statement; real runs with 1 to 16 recorder backends of random capabilities, all operations and lane counts, sequential and concurrent threads, must be behaviours of it."),
    "P02": ("TLA+ life-cycle model (Config) + TLC trace validation of start-up and exit", "Splitting and life cycle model-checked over all short texts and small configurations; hundreds of generated configurations (limits, missing operations, refusals, both sources) are run and the observed life cycle is checked against the model."),
    "P03": ("TLA+ program-graph model (Instr) + TLC trace validation of generated programs", "Hundreds of generated C and C++ programs (all optimisation levels, all option subsets, one or several files, one-step or separate compilation, vectors, threads, constructors) are compiled with the real tool and run on a perturbing recorder; the recorded operations and outputs must be a behaviour of the program's operation graph under the model. The model is checked exhaustively on small programs."),
    "P04": ("TLA+ selection model (Select) + TLC trace validation of compilations", "Pattern matching and precedence are model-checked exhaustively on short texts; generated lists, options and sources are compiled with the real tool and the set of functions whose operations reach a recorder is recomputed by TLC."),
    "P05": ("TLA+ filter model (Ddebug) + TLC trace validation of delta-debug runs", "Filtering, generation and partition are model-checked exhaustively for small site sets and lists; generated programs (scalar and vector operations, several files and optimisation levels) are run under hundreds of inclusion, exclusion and generation configurations and the operations reaching a recorder and the generated files must match the model."),
    "P06": ("TLA+ arithmetic spec (Ieee/FP) + TLC trace validation", "TLC recomputes every recorded operation exactly; counters are checked against the recorded history under sequential and concurrent threads. Inputs are sampled, biased to boundaries."),
    "P07": ("TLA+ rounding spec (Vprec/FP) + TLC trace validation", "Spec rounding is model-checked exhaustively against the definition of nearest on small formats; all 681 real formats are exercised in every run with boundary values, each result recomputed exactly by TLC."),
    "P08": ("TLA+ state machine (Vprec) + TLC trace validation", "Configuration state machine model-checked over short histories; sessions of the real backend over all mode/flag combinations, option boundaries and user calls are checked as behaviours of it."),
    "P09": ("TLA+ call-site model (FuncInst, Notify) + TLC trace validation of call histories", "Nesting, restoration and delivery are model-checked over all short call histories; random histories driven through the real hooks, and generated programs compiled with --inst-func at every optimisation level, must be behaviours of the models: every operation, argument and result is recomputed exactly."),
    "P10": ("TLA+ profile model (FuncInst) + TLC trace validation of profiles and round trips", "Counts and bounds are model-checked over all short call histories; profiles written by random histories and by generated programs must equal the model's table, and each is fed back, unmodified and edited."),
    "P11": ("TLA+ interval specification of MCA (Mca/FP) + TLC trace validation", "The interval semantics is model-checked sound and tight on small formats for all draws; operations of both engines in all modes, error modes, precisions and user calls are recomputed as exact intervals by TLC and each recorded result must lie in its interval; repeated operations must fill and be uniform over it."),
    "P12": ("TLA+ interval specification of MCA (Mca/FP) + TLC trace validation", "Same model, whose intervals are single points for special and exactly representable values; operations with exact, special, boundary and overflowing results in every mode and precision are checked by TLC against it."),
    "P13": ("TLA+ model of per-thread random streams (Rng) + TLC trace validation of schedules", "Seeding under every interleaving is model-checked (and racy or shared variants are shown to fail); over a thousand processes of all randomised backends, under chosen schedules and with threads started at the same instant, must be one behaviour of the model, which remembers every (seed, rank, history) -> result seen."),
    "P14": ("TLA+ interval specifications (Mca, Bitmask) + TLC trace validation", "daz, ftz and sparsity are part of the model-checked interval semantics; subnormal and boundary operands and results in all flag, mode and engine combinations are checked by TLC, and the frequencies of perturbation over repeated operations."),
    "P15": ("TLA+ digit specification (Bitmask/FP) + TLC trace validation", "Masking is model-checked on small formats; all modes, operators and precisions of both types are exercised with boundary values, each result recomputed exactly (or as an interval for drawn digits, whose every position must vary)."),
    "P16": ("TLA+ cancellation specification (Cancel/FP) + TLC trace validation", "The condition and the noise bound are model-checked on small formats; operands with every number of cancelled digits at all tolerances, subnormal and total cancellations included, are checked by TLC, with the warnings and the distribution of the noise."),
    "P17": ("TLA+ map model (HashMap) refined by a table model (HashTable) + TLC trace validation", "The open-addressing table is model-checked as a refinement of a map over all short histories; random long histories of the real map, with collisions, growth and removals, must be behaviours of the map."),
    "P18": ("TLA+ probe model (Probes) + TLC trace validation of probe sessions", "The probe store is model-checked over all short sessions; real sessions with arbitrary names (colliding, empty, non-ASCII, with commas), values bit for bit, duplicates and bad output paths must be behaviours of the model."),
    "P19": ("TLA+ model of the search (Search) + TLC trace validation of searches of the real tool", "All failure predicates on up to 4 sites are model-checked for each algorithm (and broken variants are shown to fail); hundreds of real searches with random failure predicates (monotone or not, stochastic or not), settings, resumptions, and kills at arbitrary points, and of an instrumented program, must be behaviours of the model: samples are never repeated, lost or attributed to another set, and the answers have the stated guarantees."),
    "P20": ("TLA+ model of test runs (Ci) + TLC trace validation of runs of the real tool", "Grouping, statistics and verdicts are model-checked over all small run histories (and broken variants are shown to fail); generated test configurations (crashing, silent and repeated runs, odd names, special values, thresholds at the boundary) are run by the real tool and its result tables must be those the model computes from the values dumped."),
    "P21": ("TLA+ model of the search (Explore) + TLC trace validation of searches of the real tool", "All threshold assignments of small configurations are model-checked (and broken variants are shown to fail); real searches, with scripted verdicts and with an instrumented program, on generated profiles, must be behaviours of the model: every configuration tried, its verdict, and the final tables."),
    "P22": ("TLA+ logger model (Logger) + TLC trace validation of the messages of processes", "All settings are model-checked (and broken variants are shown to fail); hundreds of processes with random logger settings, backends, warnings and errors are run, and every message, its place, header and colour, the status and the output must be a behaviour of the model."),
    "P23": ("TLA+ model of records and number texts (DebugOut) + TLC trace validation of real output", "The printing algorithm is model-checked against the denotation of its texts for all values of small formats (and broken variants are shown to fail); generated operations on boundary, subnormal and special values run through the real wrapper and backend with all option combinations, and every record must denote, by exact arithmetic in TLA+, the operation executed."),
    "P24": ("TLA+ model of the compiler driver and its commands (Driver) + TLC trace validation of command histories", "The stages of the driver on intermediate files, interleaved in every way, are model-checked against the atomic effect of each command (and broken variants are shown to fail); generated histories of commands, alone and side by side, with unusual names, texts and failures run the real driver, and status, files, texts and instrumented operations of every executable must be those of the specification."),
    "P25": ("TLA+ model of the merge and its statistics (Vtk) + TLC trace validation of merges by the real tool", "The loop over a growing document is model-checked for all small documents (lookup by name or position is shown to fail) and the exact statistics for all small samples; generated sets of outputs with equal names, several pieces, odd names, negative and tiny values and all options are merged by the real tool, and every array, number, attribute, file and status must be the one specified, by exact arithmetic in TLA+."),
}
checks, na = [], []
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
REASON = json.load(open(os.path.join(here, "tools", "na.json"))) if os.path.exists(os.path.join(here, "tools", "na.json")) else {}
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")) and i in NOTE:
        t, n = NOTE[i]
        checks.append(dict(property=i, quick_cmd="python3 checks/run.py %s quick" % i, thorough_cmd="python3 checks/run.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason=REASON.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, drivers in harness/, one check per property in checks/ (run.py <id> <tier>).")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
