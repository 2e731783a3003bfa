#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it after editing; the jsonl is what counts)."""
import json, os
SC = "pySC/core/simulated_commissioning.py"
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = state
    if observe: anchors["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": anchors})


p("C01", "The design lattice and the user's lattice are isolated from the machine",
  "Building a commissioning object from a lattice leaves that lattice untouched and shares no lattice element with it, and the object's errored (working) lattice and its ideal (design) lattice share no element with each other; each position of either lattice holds its own element even where the given lattice repeats one object. "
  "A deep copy of a commissioning object shares no mutable state with the original, and its working lattice is a copy of the original's working lattice while its design lattice is a copy of the original's design lattice. "
  "No later operation of the package modifies the design lattice.",
  ["inputs", "histories"],
  "every lattice, every sequence of registration, error, setting, measurement, correction and plotting calls",
  "tests build a few lattices and never compare the design lattice before and after the operations; aliasing only shows after a later mutation through the other name",
  [SC, "pySC/core/lattice_setting.py", "pySC/lattice_properties/response_model.py", "pySC/correction/loco.py", "pySC/plotting/plot_lattice.py"],
  [("constructor copies each element", SC + ":SimulatedCommissioning.__init__"),
   ("deep copy", SC + ":SimulatedCommissioning.very_deep_copy"),
   ("model ring built from a deep copy of the design lattice", "pySC/lattice_properties/response_model.py:SCgetModelRING")])

p("C02", "Arrays, lists and lattices passed by the caller are never modified",
  "No public function or method of the package modifies, in place or through an alias or view, a value that the caller passed as an argument: ordinates, setpoints, multipole tables, response matrices, reference orbits, bunches, search bounds, option values and lattices stay as they were. "
  "The only exceptions are the documented objects of the operation: the commissioning object itself, the lattice given to the lattice switches and to circumference scaling, the element given to the transformation update, plotting axes, the plotted range stored in the lattice that the base plot is given, and the buffers that two internal helpers (support interpolation, aperture bound refinement) exist to fill.",
  ["inputs", "histories"],
  "every argument value (arrays, views, lists, lattices) of every public function",
  "existing side-effect tests cover three setters with two arrays each; a mutated argument is only seen by the next call that reuses it",
  [SC, "pySC/utils/classdef_tools.py", "pySC/utils/at_wrapper.py", "pySC/correction/orbit_trajectory.py", "pySC/correction/bba.py", "pySC/lattice_properties/apertures.py", "pySC/correction/loco.py", "pySC/correction/loco_wrapper.py", "pySC/correction/injection_fit.py", "pySC/plotting/plot_phase_space.py"],
  [("setter input normalisation", "pySC/utils/classdef_tools.py:check_input_and_setpoints"),
   ("tracking shields ring and bunch", "pySC/utils/at_wrapper.py:lattice_track, findorbit4, findorbit6, atlinopt"),
   ("reference orbit in two-turn correction", "pySC/correction/orbit_trajectory.py:stitch, balance")])

p("C03", "Observing the machine does not change it",
  "BPM and all-element readings, beam transmission, bunch generation, setpoint queries, support offset and roll queries, structure verification, model response matrix, model dispersion and model lattice, tune, closed-orbit and phase/energy-error queries and all plotting functions leave the commissioning object as they found it: lattice elements, injection settings, registered ordinates, uncertainties and flags keep their values. "
  "A property changed temporarily inside such a query has its original value again when the query returns.",
  ["inputs", "histories"],
  "every observation function, every argument combination, every machine state",
  "tests check the returned numbers of a few readings, never that the complete machine state is untouched",
  ["pySC/core/beam.py", SC, "pySC/lattice_properties/response_model.py", "pySC/correction/tune.py", "pySC/correction/rf.py", "pySC/lattice_properties/magnet_orbit.py", "pySC/plotting/plot_lattice.py", "pySC/plotting/plot_support.py", "pySC/plotting/plot_phase_space.py", "pySC/plotting/plot_synoptic.py", "pySC/plotting/plot_apertures.py"],
  [("readings", "pySC/core/beam.py:bpm_reading, all_elements_reading, beam_transmission, generate_bunches"),
   ("queries", SC + ":get_cm_setpoints, support_offset_and_roll, verify_structure"),
   ("model responses", "pySC/lattice_properties/response_model.py:SCgetModelRM, SCgetModelDispersion, SCgetModelRING"),
   ("s_range restored", "pySC/plotting/plot_lattice.py:plot_lattice")])

p("C04", "Measurements put the machine settings back",
  "When a measurement or scan finishes, the settings it varied are back at the values they had when it started: injection coordinates, number of turns and particles after beam-based alignment scans and synchronous energy/phase corrections, corrector and cavity setpoints after response-matrix, closed-orbit-response and dispersion measurements, cavity setpoints of every RF phase/frequency scan step before the final correction, the magnet setpoint scanned in trajectory beam-based alignment and the phase-advance quadrupoles it used, and the plot flag after plotting a BPM reading. "
  "This holds on every path on which the measurement returns.",
  ["inputs", "histories", "fault_sequences"],
  "every machine state, corrector limit, lost-beam pattern and step count for which the measurement returns",
  "tests look at the measured result, not at the machine state afterwards, and only for full transmission",
  ["pySC/lattice_properties/response_measurement.py", "pySC/correction/bba.py", "pySC/correction/rf.py", "pySC/correction/loco.py", "pySC/correction/injection_fit.py", "pySC/matlab_index.py"],
  [("response and dispersion measurement", "pySC/lattice_properties/response_measurement.py:response_matrix, dispersion"),
   ("trajectory BBA", "pySC/correction/bba.py:_data_measurement_tbt, _phase_advance_injection_scan, _scale_injection_to_reach_bpms"),
   ("RF scans", "pySC/correction/rf.py:correct_rf_phase, correct_rf_frequency"),
   ("LOCO response", "pySC/correction/loco.py:measure_closed_orbit_response_matrix, generating_quads_response_matrices")])

p("C05", "Every change of setpoints, errors or supports reaches the tracked fields",
  "Whenever the package changes a magnet or cavity setpoint, a registered error or a support misalignment, the fields that tracking uses (polynomials and kick angles, cavity voltage/frequency/time lag, magnet transformations, BPM support offsets) are recomputed for all affected elements before the operation returns. "
  "After setting magnets, correctors or cavities this covers exactly the addressed elements, including the children of a master magnet. (Registration and the multipole-table functions only store values, which take effect with the next such change.)",
  ["inputs", "histories"],
  "every setter call and error application, every set of ordinates, every later history",
  "tests check a handful of setpoint values on one lattice; a stale field only shows for the untested ordinate, method or master/child combination",
  [SC, "pySC/correction/loco_wrapper.py", "pySC/correction/ramp_errors.py"],
  [("setters", SC + ":set_cm_setpoints, set_magnet_setpoints, set_cavity_setpoints"),
   ("error application", SC + ":apply_errors"),
   ("updates", SC + ":update_magnets, update_cavities, update_supports")])

p("C06", "Corrector and skew-quadrupole limits hold for every way of setting them",
  "After setting correctors in absolute, relative or additive mode the stored kick of every corrector equals the requested kick (the given value, the present kick times the factor, or the present kick plus the increment), except that a kick whose magnitude exceeds the corrector limit of its own plane is stored with the limit's magnitude and the requested sign. "
  "Setting magnets stores the requested strength (the value, design strength times factor, or present setpoint plus increment), and clips a skew-quadrupole strength beyond its limit in the same way, leaving all other orders unclipped. "
  "The result does not depend on whether setpoints are given as scalar, list or array or as integers or floats.",
  ["inputs", "histories"],
  "every setpoint value, method, plane, limit, element length and pass method, scalar or vector input",
  "tests clip one value in one plane with method abs",
  [SC, "pySC/utils/classdef_tools.py"],
  [("corrector clipping", SC + ":set_cm_setpoints"), ("skew quadrupole clipping", SC + ":set_magnet_setpoints"),
   ("input normalisation", "pySC/utils/classdef_tools.py:check_input_and_setpoints")])

p("C07", "One sign and length convention for corrector kicks everywhere",
  "A corrector kick written in radians and read back gives the same kick, for horizontal and vertical planes, thick and thin correctors. "
  "Writing a kick, reading it, and the model response matrix use the same convention: horizontal kick theta is dipole strength -theta/length in the normal component, vertical kick theta is +theta/length in the skew component, and thin correctors use the kick itself, with the kick angles ordered horizontal then vertical.",
  ["inputs", "configurations"],
  "every kick, length, plane and corrector pass method",
  "tests use thick correctors of one length; a convention error in only one of the parties cancels in round trips or only shows in closed loop",
  [SC, "pySC/lattice_properties/response_model.py"],
  [("setter", SC + ":set_cm_setpoints"), ("getter", SC + ":get_cm_setpoints"),
   ("kick angle", SC + ":_update_magnets"), ("model", "pySC/lattice_properties/response_model.py:SCgetModelRM")])

p("C08", "All random errors come from the cut-off generator with the right cut-off",
  "Every random number the package draws comes from the truncated normal generator, whose every returned value is redrawn until its magnitude is within the cut-off. "
  "Applying errors uses the per-uncertainty cut-off when one was registered and otherwise the cut-off given to the call, and draws one independent number per component of the uncertainty. "
  "Nothing in the package seeds or replaces the global random state.",
  ["inputs", "configurations"],
  "every cut-off, shape and uncertainty, and every drawn sequence",
  "tests draw a few samples; exceeding a cut-off or losing a registered cut-off is a rare or statistical event",
  ["pySC/utils/sc_tools.py", "pySC/utils/classdef_tools.py", SC, "pySC/core/beam.py", "pySC/correction/bba.py"],
  [("generator", "pySC/utils/sc_tools.py:randnc"), ("cut-off selection", "pySC/utils/classdef_tools.py:randn_cutoff"),
   ("error application", SC + ":apply_errors, _apply_support_alignment_error")])

p("C09", "Registration rejects unknown keys first and initialises every element",
  "Registering BPMs, cavities, magnets or supports with an unknown keyword (or unknown support type or malformed ordinates) raises an error before anything in the commissioning object has changed. "
  "Otherwise every given ordinate is in the corresponding sorted, duplicate-free ordinate list, its uncertainties are stored, the setpoints and design fields start from the element's current values, and every error field starts at zero for every registered element. "
  "Registering never discards uncertainties registered earlier for another element or another kind of device.",
  ["inputs", "histories"],
  "every keyword set, ordinate array and registration order, including repeated and overlapping registrations",
  "tests register each kind once and try one bad keyword",
  [SC, "pySC/core/constants.py", "pySC/utils/classdef_tools.py"],
  [("registration", SC + ":register_bpms, register_cavities, register_magnets, register_supports"),
   ("keyword check", SC + ":_check_kwargs"), ("allowed keys", "pySC/core/constants.py")])

p("C10", "Applying errors realises every registered uncertainty",
  "Applying errors sets, for every registered and ordinate-listed BPM, cavity and magnet, each field for which an uncertainty was registered to uncertainty times a random number on that same element, keeps BPM noise levels as registered, uses a separate field for bending-angle errors, and sets the injected beam from its ideal coordinates plus the static injection error. "
  "Support errors are applied to the start and end point of every registered pair of every support type, and a circumference error scales the working lattice. "
  "Supports, magnets and cavities are updated afterwards, whenever any are registered, so tracking sees the errors.",
  ["inputs", "configurations"],
  "every combination of registered devices and uncertainties",
  "tests apply errors on one configuration and check a few fields",
  [SC, "pySC/utils/classdef_tools.py"],
  [("error application", SC + ":apply_errors, _apply_support_alignment_error")])

p("C11", "Tracked magnet and cavity fields follow the composition formula",
  "After an update each tracked cavity property equals setpoint times (1 + calibration error) plus offset. "
  "Each polynomial of a magnet equals setpoint times (1 + calibration error) plus its random multipole offset plus, for every systematic multipole table registered from either normal or skew component, the main component's calibrated strength times the table; the normal dipole component additionally gets bending-angle error times bending angle over length and, for combined-function magnets, the bend change from the actual-to-design quadrupole ratio. "
  "Children of a master magnet are driven by the master's setpoints and calibration with their own offsets, tables, angle and length, and the maximum order always matches the polynomial length.",
  ["inputs", "configurations"],
  "every setpoint, error value and combination of optional magnet properties",
  "tests check one plain quadrupole configuration",
  [SC, "pySC/utils/classdef_tools.py"],
  [("magnets", SC + ":_update_magnets, update_magnets"), ("cavities", SC + ":update_cavities"),
   ("padded addition", "pySC/utils/classdef_tools.py:add_padded"),
   ("multipole tables", SC + ":set_systematic_multipole_errors, set_random_multipole_errors")])

p("C12", "Support misalignments reach magnets and BPMs consistently",
  "After a support update every registered magnet carries the support offset (three components) and roll (three components) interpolated at its own position, its transformation is recomputed from support plus individual misalignment, and the children of a master share that transformation. "
  "Every registered BPM carries the transverse support offset (two components) and the roll angle at its own position. "
  "The total support offset at a position accumulates the contributions of all support types from section to plinth to girder, and the two update switches disable exactly the BPM or the magnet part.",
  ["inputs", "configurations"],
  "every support layout and misalignment value",
  "tests use one girder layout with one uncertainty",
  [SC, "pySC/utils/sc_tools.py", "pySC/utils/classdef_tools.py"],
  [("update", SC + ":update_supports"), ("accumulation", SC + ":support_offset_and_roll"), ("transformation", "pySC/utils/sc_tools.py:update_transformation")])

p("C13", "BPM readings follow the BPM error model",
  "In every tracking mode a BPM reading equals (rotation by BPM roll plus support roll applied to the beam centroid, minus BPM offset plus support offset) times (1 + calibration error) plus noise, where closed-orbit mode uses the closed-orbit noise level and turn-by-turn modes use the turn-by-turn noise level divided by the transmitted intensity. "
  "The sum signal is the surviving fraction times (1 + sum error), and where it falls below the loss threshold both position and sum read NaN. "
  "Readings requested for a subset of BPMs use exactly those BPMs' positions and errors.",
  ["inputs", "configurations"],
  "every error value, tracking mode, number of particles, turns and shots, BPM subset and loss pattern",
  "tests check array shapes and zero-error readings",
  ["pySC/core/beam.py"],
  [("error model", "pySC/core/beam.py:_real_bpm_reading, _rotation_matrix"), ("subset", "pySC/core/beam.py:bpm_reading, _only_registered_bpms"), ("modes", "pySC/core/beam.py:_tracking")])

p("C14", "Generated bunches and transmission follow the injection settings",
  "A generated bunch is the injection point plus one random-injection jitter common to all particles plus, for more than one particle, a per-particle distribution with the configured beam covariance, passed through the user's post-processing function; a single particle has no distribution. "
  "Beam transmission tracks the requested number of particles and turns (or the configured ones) to the end of the working lattice, reports the surviving fraction per turn, and counts the turns whose surviving fraction exceeds one minus the loss threshold. "
  "Selecting closed-orbit mode sets one turn and one particle, and an unknown tracking mode is rejected without changing the mode.",
  ["inputs", "configurations"],
  "every injection setting, particle and turn number, beam covariance and lattice",
  "tests use zero beam size and check shapes",
  ["pySC/core/beam.py", "pySC/core/classes.py"],
  [("bunches", "pySC/core/beam.py:generate_bunches"), ("transmission", "pySC/core/beam.py:beam_transmission"), ("mode", "pySC/core/classes.py:Injection.trackMode")])

p("C15", "Lattice switches act exactly on the elements they name",
  "Switching radiation changes the pass method of exactly the bending and multipole elements whose present pass method has a radiation (or non-radiation) counterpart, to that counterpart; switching cavities changes exactly the addressed elements that have a frequency, to the cavity or the identity pass method. "
  "An option that is not recognised raises an error before any element changes; when both on and off are given, off wins, radiation and cavity options can be combined, and the given lattice itself is returned.",
  ["inputs", "configurations"],
  "every combination of options, every lattice and pass method",
  "tests call the switch with one option at a time",
  ["pySC/core/lattice_setting.py"],
  [("switches", "pySC/core/lattice_setting.py:switch_cavity_and_radiation, switch_rf")])

p("C16", "A correction returns only after its success criterion, otherwise it raises",
  "First-turn threading, stitching, balancing, orbit correction and wiggling return only if their success criterion was evaluated on readings taken after the last corrector change, and otherwise raise; the number of correction steps never exceeds the given maximum. "
  "RF phase and frequency corrections and injection fits raise instead of applying a correction that is not a number. "
  "Every failure the package detects by constructing an exception is actually raised.",
  ["inputs", "histories", "fault_sequences"],
  "every response matrix, reference, loss pattern and step limit",
  "tests run one converging machine",
  ["pySC/correction/orbit_trajectory.py", "pySC/correction/rf.py", "pySC/correction/injection_fit.py", "pySC/lattice_properties/response_model.py"],
  [("loops", "pySC/correction/orbit_trajectory.py:first_turn, stitch, balance, correct, _wiggling"), ("rf", "pySC/correction/rf.py:correct_rf_phase, correct_rf_frequency")])

p("C17", "MATLAB-style names forward every parameter to their counterpart",
  "Every MATLAB-style function of the index calls its counterpart with each of its documented parameters forwarded to the parameter of the same meaning, with one-based plane, type and order numbers translated to the zero-based conventions, and returns the counterpart's result or the commissioning object. "
  "A one-based plane or type other than 1 or 2 is rejected before anything changes, and defaults agree with those of the counterpart.",
  ["inputs", "programs"],
  "every function of the index, every parameter value",
  "the tests never import this module",
  ["pySC/matlab_index.py"],
  [("forwarders", "pySC/matlab_index.py")])

p("C18", "Invalid options are rejected before anything changes",
  "An unknown setting method, cavity parameter, tracking mode, track method of a model response, circumference scaling mode, support type, lattice switch, BBA mode or fit order, or inconsistent lengths of ordinates, setpoints, response matrix or reference, raises an error before any lattice element, setpoint, injection setting or registration has changed.",
  ["inputs", "fault_sequences"],
  "every unrecognised option and every mismatch of shapes, for every public function that takes them",
  "tests try one bad keyword of one registration function",
  ["pySC/utils/classdef_tools.py", SC, "pySC/utils/sc_tools.py", "pySC/core/lattice_setting.py", "pySC/core/classes.py", "pySC/lattice_properties/response_model.py", "pySC/correction/orbit_trajectory.py", "pySC/correction/rf.py", "pySC/correction/bba.py"],
  [("setpoint inputs", "pySC/utils/classdef_tools.py:check_input_and_setpoints"), ("correction inputs", "pySC/correction/orbit_trajectory.py:_check_ords"), ("rf inputs", "pySC/correction/rf.py:_check_inputs"), ("bba inputs", "pySC/correction/bba.py:_check_input")])

p("C19", "Functions of the package call each other with arguments they accept",
  "Every call between functions of the package passes only parameters the callee has and all the parameters it requires, unpacks as many results as the callee returns, reads only option names that were defined, and uses lattice elements only through attributes. "
  "The result of a function that returns nothing is never stored back as the machine or used.",
  ["programs"],
  "every call site and option access in the package",
  "many modules are never executed by the tests, and a wrong keyword only fails when that path runs",
  ["pySC"],
  [("all call sites", "pySC/**/*.py")])

p("C20", "Model responses have the right columns and a restored ring between columns",
  "Column k of the model response matrix is the change of the BPM coordinates (horizontal BPMs first, then vertical, turn by turn) caused by kicking only the k-th corrector (horizontal list first, then vertical) by the step, divided by that step, every other element being at its model value. "
  "The model dispersion is the change caused by shifting the frequency of all given cavities by the step, divided by that step. "
  "The model lattice takes the current setpoints of every magnet with the dipole components set to zero and the cavity setpoints, and the design or setpoint lattice is chosen as requested.",
  ["inputs", "configurations"],
  "every lattice, corrector set, turn number, mode and step size",
  "tests compare no column against an independently kicked machine",
  ["pySC/lattice_properties/response_model.py"],
  [("model", "pySC/lattice_properties/response_model.py:SCgetModelRM, SCgetModelDispersion, SCgetModelRING, orbpass")])

p("C21", "Process-wide settings are left as they were",
  "No function of the package leaves a changed plotting configuration, random state, warning filter, numpy error state or working directory behind, and a temporary change of the plotting configuration is undone when the function returns. "
  "Debug mode restores the logger level and handlers that were active before it was entered. "
  "No function of the package rebinds or modifies a module-level name (its own constants, tables and defaults included), so one call cannot change what a later call does.",
  ["histories"],
  "every function of the package, every history of calls",
  "tests run each function once in one process and look only at its result",
  ["pySC/plotting/plot_lattice.py", "pySC/plotting/plot_phase_space.py", "pySC/plotting/plot_support.py", "pySC/correction/bba.py", "pySC/correction/loco.py", "pySC/utils/logging_tools.py"],
  [("font size", "pySC/plotting/*.py, pySC/correction/loco.py, pySC/correction/bba.py"), ("debug mode", "pySC/utils/logging_tools.py:DebugMode")])

p("C22", "NaN-aware statistics agree with the plain ones on the remaining data",
  "Every NaN-ignoring statistic equals the plain statistic of the same name computed on the data with the NaN entries masked out of both data and errors, with every other argument (period, axis, correction flag) passed on unchanged. "
  "Weights are one over the squared errors scaled to the period, and are not used when any error is zero or NaN. The effective sample size counts only entries that are not masked.",
  ["inputs"],
  "every data, error, axis and period",
  "tests use a few arrays with default arguments",
  ["pySC/utils/stats.py"],
  [("nan wrappers", "pySC/utils/stats.py:circular_nanmean, circular_nanerror, weighted_nanmean, weighted_nanrms"), ("weights", "pySC/utils/stats.py:weights_from_errors")])

p("C25", "Correction steps apply the inverse of the measured error to the right knobs",
  "Each step of an orbit, trajectory or first-turn correction sets the selected correctors (and, with a dispersion weight, the cavity frequency) to their present setpoint minus the pseudo-inverse of the response times the measured difference to the reference, with unreadable entries counted as zero, the part for each plane going to the correctors of that plane, and stitch and balance using the reading differences they are defined by. "
  "RF phase and frequency corrections, tune and chromaticity fits and LOCO corrections set their knobs to the value their fit found, relative to the setpoints read before the fit, and injection fits subtract the offset and angle they determine from the injected coordinates.",
  ["inputs", "histories"],
  "every machine, response matrix, reading pattern, corrector and BPM selection",
  "tests only see that a few corrections on one lattice end below a tolerance",
  ["pySC/correction/orbit_trajectory.py", "pySC/correction/rf.py", "pySC/correction/tune.py", "pySC/correction/chroma.py", "pySC/correction/loco.py", "pySC/correction/injection_fit.py"],
  [("trajectory and orbit", "pySC/correction/orbit_trajectory.py:first_turn, stitch, balance, correct"), ("RF", "pySC/correction/rf.py:correct_rf_phase, correct_rf_frequency"), ("fits", "pySC/correction/tune.py:fit_tune; pySC/correction/chroma.py:fit_chroma"), ("LOCO", "pySC/correction/loco.py:set_correction"), ("injection", "pySC/correction/injection_fit.py:fit_injection_drift, fit_injection_trajectory")])

p("C26", "Measured responses are reading changes per applied setpoint change",
  "Each column of a measured response matrix, and the measured dispersion, is the change of the BPM readings of the selected BPMs divided by the setpoint change that was really applied to the corrector of that column (or the cavities), after clipping and step reduction, fitted over the requested number of steps; steps are taken around the initial setpoint of that corrector in its own plane, reduced or reversed as the mode requires while beam reach is insufficient, and entries without a measurement are zero.",
  ["inputs", "histories"],
  "every machine, corrector limit, step, mode, number of steps and beam-loss pattern",
  "tests measure one machine without clipped correctors or beam loss",
  ["pySC/lattice_properties/response_measurement.py", "pySC/correction/loco.py"],
  [("response matrix", "pySC/lattice_properties/response_measurement.py:response_matrix"), ("dispersion", "pySC/lattice_properties/response_measurement.py:dispersion"), ("orbit response", "pySC/correction/loco.py:measure_closed_orbit_response_matrix")])

p("C27", "Beam-based alignment changes BPM offsets only by trusted measurements",
  "A measured BPM offset counts as failed exactly when it is NaN, larger than the outlier limit, or smaller than 2.5 times its error. The alignment adds each trusted offset to the Offset of the BPM and plane it was measured for and changes no other BPM or plane; "
  "the substitute alignment sets, exactly for the flagged BPMs and planes, the offset to the magnet centre relative to the BPM support plus the given (or the remaining BPMs' rms) spread times one cut random number, and leaves it when that is NaN.",
  ["inputs"],
  "every set of measured offsets, errors, flags and BPM-magnet pairs, with any NaN pattern",
  "tests align a few BPMs once",
  ["pySC/correction/bba.py"],
  [("trust", "pySC/correction/bba.py:is_bba_errored"), ("apply", "pySC/correction/bba.py:apply_bpm_offsets, fake_bba")])

p("C28", "Ramping scales every error to the same fraction and ends with the full errors",
  "At each ramp step every support, magnet, BPM, RF and injection error and the circumference deviation of the machine is the same fraction of its value in the full machine, for every registered element and nothing else, the magnetic and RF fields are recomputed from them, and the orbit is corrected with the given parameters; the fraction rises in equal steps to one. "
  "When a correction fails, the ramp starts again from the saved full machine with twice as many steps and returns that result.",
  ["inputs", "histories"],
  "every machine, error set, number of steps and pattern of failing corrections",
  "tests ramp one machine whose corrections all succeed",
  ["pySC/correction/ramp_errors.py"],
  [("ramp", "pySC/correction/ramp_errors.py:SCrampUpErrors"), ("scaling", "pySC/correction/ramp_errors.py:scaleSupport, scaleMagnets, scaleBPMs, scaleRF, scaleInjection, scaleCircumference")])

p("C23", "Corrections converge to their targets",
  "Tune, chromaticity, orbit, injection and LOCO corrections bring the machine to the requested target within tolerance whenever the target is reachable, and beam-based alignment finds the magnetic centres within its estimated error.",
  ["inputs", "histories"],
  "every machine, error set and target",
  "tests use one machine each",
  ["pySC/correction/tune.py", "pySC/correction/chroma.py", "pySC/correction/orbit_trajectory.py", "pySC/correction/loco.py", "pySC/correction/bba.py"],
  [("fits", "pySC/correction/*.py")])

p("C24", "Pseudo-inverse and dynamic-aperture numerics are accurate",
  "The regularised pseudo-inverse equals the Moore-Penrose inverse of the retained singular subspace within rounding, and aperture searches bracket the true stability limit within the requested accuracy.",
  ["inputs"],
  "every matrix and lattice",
  "tests compare one random matrix",
  ["pySC/utils/sc_tools.py", "pySC/lattice_properties/apertures.py"],
  [("pinv", "pySC/utils/sc_tools.py:pinv"), ("apertures", "pySC/lattice_properties/apertures.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
