#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os
TECH = {
 "C01": ("interprocedural alias and escape analysis (deep/shallow copies, element identity, access paths from the design lattice)",
         "Constructor and deep copy per lattice and per part of the object; every write, mutating library call and stored reference of every function of the package."),
 "C02": ("interprocedural alias and effect analysis (access paths through views, shallow copies, containers and loop-carried names) with write-back value numbering",
         "Every attribute, item and in-place write, every library call that changes its argument, in every public function with its callees inlined."),
 "C03": ("interprocedural alias and effect analysis of queries with write-back value numbering",
         "Every write and every mutating library call of every query and plotting function, callees inlined, up to every return."),
 "C05": ("path-sensitive must-call analysis: field writes paired with later update calls (guard implication, element coverage by value numbering)",
         "Every write of a setpoint, error or misalignment field in every public function with callees inlined; update functions compared with the reference."),
 "C06": ("gated value-flow analysis; value-numbering equivalence with a reference definition",
         "Setters analysed for every method, plane and input kind, limits and lengths symbolic; the stored value term is compared with the reference definition."),
 "C07": ("gated value-flow analysis; value-numbering equivalence with a reference definition",
         "Writer, reader, kick angle and model response compared with one reference convention, all lengths/pass methods symbolic."),
 "C11": ("gated value-flow analysis; value-numbering equivalence with a reference definition",
         "Every tracked field written by the update functions compared with the composition formula, all optional properties symbolic."),
 "C14": ("gated value-flow analysis; value-numbering equivalence with a reference definition",
         "Bunch generation, transmission and tracking-mode setter compared with the reference, all settings symbolic."),
 "C19": ("call/return conformity lint over the resolved syntax tree, key-set dataflow of option tables, unbound-name typestate",
         "Every call, unpacking, option read, element subscript, name and attribute of every function of the package."),
 "C20": ("gated value-flow analysis; value-numbering equivalence with a reference definition",
         "Model response, dispersion and model lattice compared with the reference, including ring state at every tracking call."),
 "C10": ("gated value-flow analysis; value-numbering equivalence with a reference definition",
         "Effects of apply_errors on injection, RF cavities, BPMs, magnets, supports and circumference compared with the reference, every registered uncertainty symbolic."),
 "C12": ("gated value-flow analysis; value-numbering equivalence with a reference definition",
         "Support update per switch, element transformation, total support misalignment and interpolation compared with the reference."),
 "C13": ("gated value-flow analysis; value-numbering equivalence with a reference definition",
         "BPM readings per tracking mode compared with the BPM error model, particles, turns and errors symbolic."),
 "C15": ("gated value-flow analysis; value-numbering equivalence with a reference definition",
         "Lattice switches per option combination compared with the reference, pass methods and elements symbolic."),
 "C08": ("typestate analysis of the random generator, call-graph query for random sources, value-numbering equivalence",
         "Every draw in the package must go through the cut-off generator; the generator's loop is analysed as a typestate (drawn / checked / returned)."),
 "C21": ("save/restore typestate analysis over the syntax tree, effect query for process-wide settings and module-level names",
         "All paths of all functions that touch plotting parameters, logger levels/handlers, warnings, numpy error/random state, working directory or module-level names."),
 "C09": ("gated value-flow analysis; value-numbering equivalence with a reference definition",
         "Registration of every element kind analysed for every keyword alone, all together and mixed with unknown ones; ordinates and values symbolic."),
 "C18": ("gated value-flow analysis: raise conditions and effects under invalid options (value numbering), ordering of rejection and writes",
         "Each documented option and length condition, with the remaining arguments symbolic: every path raises and no visible write precedes."),
 "C04": ("reaching-definitions analysis over setter calls with value-numbering of restored values; save/restore value flow of injection settings",
         "Every setter call of every measurement function up to every return, with loops, guards and the reads the restored values come from; injection fields and plot flag at return."),
 "C16": ("gated value-flow analysis: return guards and event order (readings after changes), value-numbering equivalence with reference criteria",
         "Every return of the correction loops with its guards and the readings they depend on; NaN tests of RF/injection fits; discarded exception objects in the whole package."),
 "C17": ("gated value-flow analysis: call terms and their argument/state terms compared with the reference forwarding (value numbering), default comparison",
         "Every MATLAB-style name, all parameters symbolic, per discrete option; defaults against those of the counterpart."),
 "C22": ("gated value-flow analysis; value-numbering equivalence with a reference definition",
         "Each statistic and its NaN-ignoring variant compared with the reference definitions, data symbolic."),
 "C25": ("gated value-flow analysis; value-numbering equivalence with a reference definition",
         "Setter calls of every correction step compared with the reference, readings, responses and selections symbolic; injected coordinates of the injection fits."),
 "C26": ("gated value-flow analysis; value-numbering equivalence with a reference definition",
         "Returned matrices and all setter calls of the measurements per mode and number of steps compared with the reference."),
 "C27": ("gated value-flow analysis; value-numbering equivalence with a reference definition",
         "Trust test and written BPM offsets compared with the reference, offsets, errors and flags symbolic."),
 "C28": ("gated value-flow analysis; value-numbering equivalence with a reference definition",
         "Stored errors of every scaling function and of the entire ramp, update calls and the retry call compared with the reference."),
}
NA = {
 "C23": "convergence of iterative corrections depends on the numerical behaviour of tracking (runtime quantities no static argument bounds)",
 "C24": "accuracy of SVD/pseudo-inverse and aperture search numerics is a floating-point runtime quantity; no sound static bound is in reach",
}
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks = []
for i in ids:
    if i in TECH:
        t, note = TECH[i]
        checks.append({"property": i, "quick_cmd": f"/usr/bin/python3 check.py {i}", "thorough_cmd": f"/usr/bin/python3 check.py {i} --thorough",
                       "technique": "static analysis: " + t, "level": "other", "level_note": note})
na = [{"property": i, "reason": NA.get(i, "not claimed yet: the rule is under construction")} for i in ids if i not in TECH]
m = {"version": 1, "setup_cmd": "/usr/bin/python3 -m compileall -q vsa rules spec check.py", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only; the checks read /repo/pySC source afresh and never import or run it. No hooks in /repo."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
