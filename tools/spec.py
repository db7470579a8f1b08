"""The single source of properties.jsonl and MANIFEST.json:  python3 tools/spec.py  rewrites both."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "pySC/core/simulated_commissioning.py"
BEAM = "pySC/core/beam.py"
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=observe, hook_needed=None), _note=note))


def na(id, title, statement, over, text, why, files, mech, observe, reason):
    prop(id, title, statement, over, text, why, files, mech, observe, None)
    NA.append(dict(property=id, reason=reason))


EL = [("element attributes", "set point, calibration error, offset, field of every ring element", "elements of SC.RING")]

prop("C01", "Magnet fields follow set points and errors",
     "After a magnet update or any set-point call, the multipole fields of every addressed registered magnet and of its slave magnets equal: set point times (1 + calibration error), zero-padded, plus the element's multipole offsets, plus for each systematic table the scaled table without its main component, plus the dipole change of a bending-angle error or of a combined-function gradient change; corrector kick angles and field order follow. "
     "Nothing else in the machine changes, a second update changes nothing, and tables handed in by the caller are left unmodified. "
     "Random multipole errors stay within two sigma of the table and accumulate on existing offsets.",
     ["inputs", "histories"], "all values of set points, calibration errors, offsets, tables, lengths and angles; every combination of error kinds; sequences of two set-point calls",
     "The tests register a handful of magnets and compare a few numbers; the law is a polynomial identity over all set points, errors and table shapes, and must survive every call sequence.",
     [SC], [("field composition", f"{SC}:_update_magnets"), ("multipole tables", f"{SC}:set_systematic_multipole_errors, set_random_multipole_errors"), ("padding", "pySC/utils/classdef_tools.py:add_padded")],
     ["PolynomA, PolynomB, KickAngle, MaxOrder of ring elements"],
     "every path of the update code for the listed element kinds and error combinations; magnet values symbolic; sizes (orders, number of tables) enumerated up to the bounds", EL)

prop("C02", "Cavity fields follow set points and errors",
     "After a cavity update or set-point call, voltage, frequency and phase of every addressed cavity equal set point times (1 + calibration error) plus offset. "
     "Absolute, relative and additive requests (scalar or one value per cavity, of integer or float type) produce exactly the requested set point and compose over calls. "
     "Nothing but the addressed property of the addressed cavities changes, and arguments are left unmodified.",
     ["inputs", "histories"], "all values of set points, errors and requests; all three properties; all three methods; sequences of two calls; any ordinate order",
     "The tests set one cavity once with hand-picked values; the law must hold for all reals, methods and histories.",
     [SC], [("field composition", f"{SC}:update_cavities"), ("set points", f"{SC}:set_cavity_setpoints"), ("input normalisation", "pySC/utils/classdef_tools.py:check_input_and_setpoints")],
     ["Voltage, Frequency, TimeLag and their set points"], "ring with two registered cavities and one unregistered; all values symbolic", EL)

prop("C03", "Corrector set points: request, convention, clipping, isolation",
     "A corrector request (absolute, relative or additive; scalar or per corrector; integer or float) sets the integrated strength of each addressed corrector to the requested value clipped to the registered limit of that plane, under the length and sign convention of its element type, and the field follows. "
     "Reading returns what was written, writing back what was read changes nothing. "
     "No other component, plane or element changes, except slave magnets following their master, and arguments are left unmodified.",
     ["inputs", "histories"], "all strengths, limits, lengths and calibration errors; both planes; all methods; mixed corrector types",
     "Existing tests check a few numbers per method; clipping interacts with method, sign convention, length and plane over a continuous range.",
     [SC], [("setting and clipping", f"{SC}:set_cm_setpoints"), ("reading", f"{SC}:get_cm_setpoints")],
     ["get_cm_setpoints result", "SetPointA/B, PolynomA/B, KickAngle"], "up to 2 (thorough: 3) correctors addressed at once", EL)

prop("C04", "Magnet set points: request, skew limit, dipole compensation, isolation",
     "A magnet request of given order and type sets each addressed magnet's set point of that component to the value (absolute), value times the design strength (relative) or value plus the current set point (additive), skew-quadrupole requests clipped to the registered limit, and the field follows. "
     "With dipole compensation a normal gradient change of a bending magnet with a horizontal corrector keeps its dipole field, within the corrector limit. "
     "All other components and elements stay as they were and arguments are left unmodified.",
     ["inputs"], "all requests, design strengths, limits and errors; orders 0..2; normal and skew; all methods; any ordinate order",
     "Tests fix one magnet and value per method; the guarantee quantifies over reals, orders, limits and element mixes.",
     [SC], [("setting", f"{SC}:set_magnet_setpoints"), ("compensation", f"{SC}:_dipole_compensation")],
     ["SetPointA/B, PolynomA/B"], "up to 2 (thorough: 3) magnets addressed at once", EL)

prop("C06", "BPM reading law",
     "Each BPM reading equals the mean position of the surviving particles rotated by the BPM roll plus support roll, minus the BPM offset and support offset, times (1 + calibration error), plus the noise (closed-orbit noise in orbit mode) times its random draw divided by the sum signal. "
     "The sum signal is the surviving fraction times (1 + relative sum error times its draw); where it falls below one minus the beam-loss threshold, or nothing survives, the reading is NaN in both planes. "
     "Only requested registered BPMs are returned, in ring order, one column per BPM and turn, and reading changes nothing in the machine.",
     ["inputs", "fault_sequences", "configurations"], "all beam positions, error values and noise draws; every loss pattern of up to 3 particles; three tracking modes; any request order or subset",
     "Tests track one error-free bunch; beam-loss patterns, roll/offset/calibration composition and noise scaling need all values and all loss patterns.",
     [BEAM], [("reading law", f"{BEAM}:_real_bpm_reading"), ("request filter", f"{BEAM}:_only_registered_bpms"), ("mode dispatch", f"{BEAM}:_tracking")],
     ["bpm_reading and all_elements_reading return values"], "tracking replaced by an arbitrary function (any positions, any losses); sin/cos abstract",
     [("INJ settings", "number of particles, turns, shots, mode", "SC.INJ")])

prop("C07", "Shot and turn averaging of readings",
     "The reading over several shots is, per BPM, plane and turn, the average over the shots that produced a signal weighted by each shot's sum signal, and NaN only if no shot did; the sum signal is averaged over all shots, lost ones counting zero; in pseudo-orbit mode both are then averaged over turns the same way. "
     "Requested error estimates (turn-by-turn mode) equal the sum-weighted rms spread of the shots about the average, NaN where any shot was lost. "
     "Every shot tracks a new beam, columns are ordered turn by turn and BPM by BPM, and the machine is not changed.",
     ["inputs", "fault_sequences"], "all readings, sum signals and loss patterns over up to 3 shots and 2 turns",
     "No test reads with more than one shot and partial beam loss; the average depends on which of the shots were lost.",
     [BEAM, "pySC/utils/stats.py"], [("averaging", f"{BEAM}:bpm_reading"), ("weighted error", "pySC/utils/stats.py:weighted_error")],
     ["bpm_reading return value"], "up to 3 shots, 2 turns, 4 BPMs; every loss pattern forked", ())

prop("C08", "Bunch generation law",
     "A generated bunch has one column of six coordinates per requested particle (by default the configured number): the injected beam position plus one common random jitter of the configured sizes, plus, for more than one particle, an individual spread whose covariance is the configured beam-size matrix, all passed through the user's post-processing. "
     "A single particle sits on the jittered position whatever the beam size. "
     "Generating bunches changes no setting.",
     ["inputs"], "all injection settings and random draws; diagonal and correlated beam-size matrices; 1 to 3 particles",
     "Tests use the default injection; correlated matrices and random-number use need symbolic draws.",
     [BEAM], [("bunch", f"{BEAM}:generate_bunches"), ("cut-off draws", "pySC/utils/sc_tools.py:randnc")],
     ["generate_bunches return value"], "eigen decomposition of the matrix taken as contract, random draws arbitrary", ())

prop("C09", "Beam transmission",
     "The reported surviving fraction of each turn is the share of tracked particles whose position is still defined at the end of that turn, and the reported number of turns is the number of turns whose surviving fraction exceeds one minus the beam-loss threshold, for the requested (by default the configured) numbers of particles and turns. "
     "The call leaves the machine unchanged.",
     ["inputs", "fault_sequences"], "every loss pattern over up to 3 particles and 3 turns; all thresholds",
     "Tests run one loss-free beam; the guarantee is about every loss pattern and threshold.",
     [BEAM], [("transmission", f"{BEAM}:beam_transmission")], ["beam_transmission return value"], "loss patterns forked exhaustively within the bounds", ())

CDT = "pySC/utils/classdef_tools.py"
TOOLS = "pySC/utils/sc_tools.py"

prop("C05", "Malformed requests are rejected without side effects",
     "A request with an unknown setting method, a number of values that is neither one nor the number of elements, an unknown registration keyword or support type, a malformed ordinate or multipole table, an unknown scaling, tracking or switching mode, an unregistered BPM, a response matrix or reference of the wrong shape, or the wrong tracking mode or turn number for a feedback, alignment or RF routine raises an exception. "
     "Nothing in the machine has changed when it does, and the arguments handed in are unmodified.",
     ["inputs", "fault_sequences"], "all machine states and values; every combination of 1 to 3 elements and 0 to 6 values per setting call; the listed kinds of malformed argument",
     "Tests provoke one or two of these errors and never look at the machine afterwards.",
     [SC, CDT, TOOLS, "pySC/core/lattice_setting.py", "pySC/core/classes.py"], [("setting requests", f"{CDT}:check_input_and_setpoints"), ("registration keywords", f"{SC}:_check_kwargs, register_supports"), ("feedback arguments", "pySC/correction/orbit_trajectory.py:_check_ords")],
     ["exception raised by the call", "state of SC.RING, IDEALRING, INJ, SIG, ORD afterwards"], "one ring with all kinds of registered elements, symbolic set points and errors", EL)

prop("C10", "Registration bookkeeping",
     "Registering elements lists exactly the requested ones of that kind, sorted and once, whatever the order and repetition of requests: BPMs, cavities, magnets, correctors per plane, skew quadrupoles, and structures as start/end pairs. "
     "A newly registered element has its present values as design values and set points and carries no errors; its limits, combined-function flag and slaves are as given; its uncertainties are those given, merged with earlier ones for elements and replacing the type's earlier ones for structures. "
     "Other elements, other lists and the ideal ring stay as they were; a new machine shares nothing with the given ring or between its elements.",
     ["inputs", "histories"], "every choice and order of up to two ordinates in each of up to two (thorough: three) calls; all strengths, limits and uncertainties",
     "Tests register each kind once; repetition, overlap, order and shared end points are unbounded.",
     [SC, CDT], [("registration", f"{SC}:register_bpms, register_cavities, register_magnets, register_supports, _optional_magnet_fields"), ("pair list", f"{CDT}:update_double_ordinates"), ("copying", f"{SC}:__init__")],
     ["SC.ORD, SC.SIG, attributes of SC.RING elements"], "up to four candidate elements per kind; ordinates forked, values symbolic", [("registrations", "ordinates per kind", "SC.ORD"), ("uncertainties", "per ordinate and field", "SC.SIG")])

prop("C11", "Errors are drawn from the registered uncertainties",
     "Applying errors gives every registered uncertainty an error within its cut-off (its own if given, else the call's) that is the uncertainty times a random number of its own; BPM noise levels are taken over as they are. "
     "Magnet and cavity fields follow; the injection offset is drawn around the design, the circumference error scales drifts only. "
     "Elements, fields and settings without uncertainties keep their values, and applying again draws anew without accumulating (other than the circumference).",
     ["inputs", "histories"], "all uncertainties and random numbers, including up to two (thorough: six) rejected draws; all error kinds",
     "Tests compare a seed against stored numbers; that errors are bounded, independent and complete is a statement about every draw.",
     [SC, TOOLS, CDT], [("application", f"{SC}:apply_errors"), ("truncated draws", f"{TOOLS}:randnc"), ("cut-offs", f"{CDT}:randn_cutoff")],
     ["error attributes of SC.RING elements", "SC.INJ"], "up to two elements per kind; random numbers arbitrary reals", EL)

prop("C12", "Elements move with their support structures",
     "The support offset of every magnet and BPM lies on the straight line between the ends of the innermost structure it stands on, each end carrying its own offset plus that of the enclosing structures at that point. "
     "Its roll is the sum of the rolls of the structures it stands on, its pitch and yaw are the slope of that innermost line; BPMs get the two transverse offsets and the roll. "
     "Structures across the injection point are handled alike, elements on no structure are not displaced, slave magnets move with their master, and nothing else changes.",
     ["inputs", "configurations"], "all lengths, offsets and rolls; single, nested, coinciding and wrapped structures of all three types",
     "Tests check one nested layout with fixed numbers; the law quantifies over layouts and positions.",
     [SC, CDT], [("interpolation", f"{SC}:support_offset_and_roll"), ("line between ends", f"{CDT}:s_interpolation"), ("transfer to elements", f"{SC}:update_supports")],
     ["SupportOffset and SupportRoll of elements", "support_offset_and_roll return values"], "rings up to 14 elements with up to 3 structures; element transformation replaced by an arbitrary one",
     [("structure ends", "offset and roll per structure type", "elements of SC.RING")])

prop("C13", "Support errors are consistent rigid-body displacements",
     "Applying errors displaces each end of a structure within the cut-off of its own uncertainty: both ends alike if one uncertainty is given, independently if each end has its own. "
     "Explicitly given tilts turn the structure about its centre; otherwise the stored pitch and yaw are the slope between the ends; explicit tilts together with individual end offsets are rejected. "
     "Every error is its own uncertainty times a random number of its own, also when errors are applied again; elements follow their structures and nothing else gets an error.",
     ["inputs", "histories"], "all uncertainties, lengths and random numbers; one or two applications; single, nested and wrapped structures",
     "Tests apply support errors once with one seed; repeated application and individual end uncertainties were broken unnoticed.",
     [SC], [("support errors", f"{SC}:_apply_support_alignment_error"), ("element offsets", f"{SC}:update_supports")],
     ["offset and roll attributes of structure ends and elements"], "up to 3 structures; up to two draws beyond the cut-off", [("structure ends", "offset and roll per structure type", "elements of SC.RING")])


prop("C14", "Misalignments transform the beam into the element's displaced frame",
     "The entrance and exit transformations stored at a displaced element are, to first order, the change of particle coordinates between the design frame and the frame of the element displaced by its total offset and turned by its total rotation. "
     "At the exit the frames are those at the end of the element's (straight or curved) reference path. "
     "An aligned element gets the identity; a displaced drift is transparent to the beam; nothing else of the element or of other elements changes.",
     ["inputs"], "all three offsets and rotations of magnet and support, all lengths and bending angles",
     "The repository compares the transformation with a few stored matrices; the geometry is a trigonometric identity over all offsets, angles and curvatures.",
     [TOOLS], [("transformation", f"{TOOLS}:update_transformation, rotation"), ("exit frame", f"{TOOLS}:_translation_vector, _r_matrix")],
     ["T1, T2, R1, R2 of elements"], "one element at a time; straight or bent; angles up to 0.2 rad (misalignment) and 0.5 rad (bend)", EL)

prop("C15", "Circumference scaling",
     "Scaling the circumference of a ring, to an absolute length or by a factor, gives a ring of exactly the requested length. "
     "Every drift changes in proportion to its length; all other elements and all other attributes stay as they were, and a request for the present length changes nothing.",
     ["inputs"], "all element lengths and all requested lengths; any layout of drifts and other elements",
     "The tests scale one lattice by one number; the law is an identity over all lengths and layouts.",
     [TOOLS], [("scaling", f"{TOOLS}:scale_circumference")], ["Length of the elements of the returned ring"], "rings of 1 to 6 elements of five kinds", EL)

prop("C16", "Pseudo-inverse of response matrices",
     "The pseudo-inverse used by all corrections is V diag(g) U^T of the decomposition U diag(s) V^T of the given matrix. "
     "g is 1/s, or s/(s^2 + alpha^2) if regularised, times the damping, for the largest singular values, and 0 for as many of the smallest as are to be removed and for vanishing ones. "
     "Without options the inverse of an invertible matrix results; the given matrix is not modified.",
     ["inputs"], "all singular values and vectors, regularisations, dampings and numbers of removed singular values",
     "Tests use one random matrix with one option each; options interact with order, shape and rank.",
     [TOOLS], [("pseudo-inverse", f"{TOOLS}:pinv")], ["result of sc_tools.pinv"], "2x2 to 3x3 matrices with symbolic singular vectors and values; numpy's decomposition by contract")


OT = "pySC/correction/orbit_trajectory.py"
prop("C17", "First-turn threading and second-turn stitching",
     "Every threading step moves the correctors upstream of the last BPM reached by minus the pseudo-inverse of the given response matrix times (reading, 0 where the beam is lost, minus reference) and no others; stitching does so for all correctors with the first-turn reading and its change to the second turn at the first BPMs. "
     "Without progress the last correctors upstream are wiggled within the two radii until more BPMs are reached reproducibly. "
     "The machine is returned exactly when full transmission is reproduced in five readings; missing beam, a setback or exhausted steps are errors. "
     "Nothing but corrector settings changes, and arguments are left unmodified.",
     ["inputs", "fault_sequences", "histories"], "all readings, references and pseudo-inverses; all patterns of beam loss over the steps",
     "Tests run one lattice with one seed; the loop's behaviour depends on the history of losses.",
     [OT], [("threading", f"{OT}:first_turn"), ("stitching", f"{OT}:stitch"), ("wiggling", f"{OT}:_wiggling, _golden_donut_diffs, _get_last_cm")],
     ["corrector set points at every BPM reading", "result or exception"],
     "3 BPMs, 7 corrector planes; BPM reading and pseudo-inverse replaced by arbitrary ones; all loss patterns over up to two steps (thorough: three), longer histories selected")

prop("C18", "Orbit correction and two-turn balancing",
     "Every correction step moves all correctors by minus the pseudo-inverse of the given response matrix times (reading minus reference), and with a dispersion column the radio frequency by minus its component times the given scale; balancing uses the first-turn reading and its change to the second turn at every BPM. "
     "Loss of the beam is an error; a stable orbit ends the loop with the corrected machine, an orbit that keeps changing with an error. "
     "Nothing but the settings of the given correctors (and the frequency) changes, and arguments are left unmodified.",
     ["inputs", "fault_sequences", "histories"], "all readings, references, pseudo-inverses and dispersion scales; loss at any step",
     "Tests run one lattice with one seed; exactly constant orbits and untouched arguments were broken unnoticed.",
     [OT], [("correction", f"{OT}:correct"), ("balancing", f"{OT}:balance"), ("convergence", f"{OT}:_is_stable_or_converged")],
     ["corrector set points and frequency at every BPM reading", "result or exception"],
     "3 BPMs, 7 corrector planes, one cavity; BPM reading and pseudo-inverse replaced by arbitrary ones; one or two steps for arbitrary readings, up to eight for constant or growing ones")


BB = "pySC/correction/bba.py"
prop("C19", "Trajectory-based BPM alignment finds the magnetic centre and restores all",
     "For every BPM the adjacent magnet is set to each requested strength and, at each, the injection is stepped in the plane under study only, scaled down so far that the beam reaches the last BPM for both signs, with the phase quadrupoles where that BPM sees the largest variation. "
     "From readings that respond linearly the offset between BPM and magnetic centre is found exactly (also for skew quadrupoles, sextupoles, combined-function dipoles with and without dipole compensation, and partial beam loss); it is added to the BPM offset in that plane unless the measurement failed or is poor. "
     "Injection, number of turns, magnets and phase quadrupoles are as before; nothing else changes.",
     ["inputs", "fault_sequences", "configurations"], "all magnetic centres, closed orbits and BPM offsets; loss at large kicks, late BPMs, one magnet strength",
     "Unit tests run one lattice with one seed and compare rms values; restoration and the planes are not compared.",
     [BB], [("alignment", f"{BB}:trajectory_bba"), ("measurement", f"{BB}:_data_measurement_tbt"), ("evaluation", f"{BB}:_data_evaluation"), ("scaling", f"{BB}:_scale_injection_to_reach_bpms")],
     ["machine at every BPM reading", "returned offsets and errors", "state afterwards"],
     "4 BPMs, 4 magnets, 1 phase quadrupole; optics, injection and strengths concrete; statistics of several BPMs by contract; 4 to 10 steps, 2 or 3 strengths")


prop("C20", "Poor BPM alignment results are recognised, not applied, and replaced",
     "A measurement is poor exactly when it failed, its offset exceeds 1.5 mm or is less than 2.5 times its uncertainty; only the others are added to the offset of their BPM and plane. "
     "Replaced offsets put the BPM's zero at the magnetic centre (including supports) plus a random number of its own within two, times the given size or, without one, the rms of the good BPMs of that plane; without any it stays. Nothing else changes; neither flags nor size is an error.",
     ["inputs", "configurations"], "all offsets, supports, uncertainties and random numbers; all error patterns",
     "Tests run one seed and only look at the rms.",
     [BB], [("criterion", f"{BB}:is_bba_errored"), ("application", f"{BB}:apply_bpm_offsets"), ("replacement", f"{BB}:fake_bba")],
     ["BPM offsets before and after"], "3 BPMs, up to 2 planes x 3 measurements")
RF = "pySC/correction/rf.py"
prop("C21", "RF corrections step the cavities, restore them and move to the zero crossing",
     "For the correction exactly the given cavities are moved together: evenly over the frequency range, or over one wavelength, and put back after every reading. "
     "The energy slope is the weighted straight-line fit of the mean position change over the surviving turns (at least three). The frequency changes to the zero of the fitted line, the phase to a zero crossing of the fitted sine folded to half a wavelength. "
     "Too few usable steps, no crossing or an undefined result are errors with the machine as before; unclear measurements change nothing; unsuitable settings are rejected before measuring. The static phase error lies within half a turn.",
     ["inputs", "fault_sequences", "configurations"], "all slopes, linear responses, fit results, roots and offsets; beam loss at any step",
     "Tests run one seed and accept the result; error and imprecise paths never run.",
     [RF], [("phase", f"{RF}:correct_rf_phase"), ("frequency", f"{RF}:correct_rf_frequency"), ("slope", f"{RF}:_get_tbt_energy_shift"), ("static error", f"{RF}:phase_and_energy_error")],
     ["cavity set points at every reading", "state afterwards", "exception"], "2 cavities, 3 BPMs, 6 to 8 steps, 3 to 9 turns; curve_fit and fsolve replaced by arbitrary results")
TU = "pySC/correction/tune.py"
prop("C22", "Tune scan applies the grid point with the best transmission",
     "Starting in the middle of the grid of relative set points, the requested number of grid points is measured, or up to the first that reaches the target; at each the two families, and only they, are at that point, with the requested turns and particles. "
     "The result is the point that reached the target, else the one with the largest final transmission, else the one with the most turns; it is applied and the machine is as if only it had been set. Without any transmission it is an error and the machine is as before.",
     ["inputs", "configurations", "histories"], "all transmissions and initial set points; grids with odd and even numbers of points",
     "Tests run one odd grid; the even grids and the failing scan were broken unnoticed.",
     [TU], [("scan", f"{TU}:tune_scan"), ("order", f"{TU}:_golden_donut_inds")],
     ["quadrupole set points at every transmission measurement", "state afterwards"], "grids 1x1 to 5x5, up to 8 points, up to 4 turns; transmission replaced by arbitrary values per grid point")

CO = "pySC/core/classes.py"
prop("C28", "Machines, copies and the lattice they come from are independent",
     "A simulated machine holds its own copies of the lattice, once with errors and once ideal, one element per position even where the lattice repeats an element; a copy of a machine equals it in ring, ideal ring, settings and registers. "
     "Whatever is changed in one of them, in place or anew, the lattice, the ideal ring, other machines and other copies, of any generation, stay as they are. Settings work as attributes and items alike; unknown tracking modes are rejected and leave the mode alone; closed-orbit mode uses one particle and one turn.",
     ["histories", "inputs"], "all lattice and error values; every attribute changed, on either side of a copy, in copies of copies",
     "Tests copy nothing and compare no two machines; ideal rings of copies were overwritten by the ring with errors unnoticed.",
     [SC, CO], [("copy", f"{SC}:SimulatedCommissioning.very_deep_copy"), ("construction", f"{SC}:SimulatedCommissioning.__init__"), ("settings", f"{CO}:DotDict"), ("tracking mode", f"{CO}:Injection.trackMode")],
     ["every attribute of both rings, settings and registers"], "10 elements, copies of copies, two machines of one lattice")

RMD = "pySC/lattice_properties/response_model.py"
prop("C23", "Model ring, model response matrix and model dispersion",
     "Entries of the model response matrix are the changes of the trajectory or closed orbit at the BPMs per kick added to one corrector, those of the dispersion per frequency step of the given cavities, in both planes and all turns in the order of BPM readings, so that on a machine without errors they predict the change of the readings. "
     "The ring tracked is the ideal ring, or on request the model ring: the ideal ring with the machine's magnet and cavity set points and no dipole fields of magnets, apertures on request. Without initial trajectory or orbit it is an error. The machine and its ideal ring stay as they are and share nothing with the model.",
     ["inputs", "configurations"], "all set points, kicks, steps and second-order responses of the beam, any loss of kicked beams",
     "Tests compare nothing with the machine; model rings zeroed set points of the machine unnoticed.",
     [RMD], [("response", f"{RMD}:SCgetModelRM"), ("dispersion", f"{RMD}:SCgetModelDispersion"), ("model", f"{RMD}:SCgetModelRING")],
     ["every entry", "ring at every tracking call", "state afterwards"], "11 elements, 2 or 3 BPMs, up to 3 turns, 6 corrector columns; tracking replaced by an arbitrary second-order response")
RMS = "pySC/lattice_properties/response_measurement.py"
prop("C24", "Measured response matrix and dispersion",
     "One corrector at a time is changed, in the free direction if its limit is in the way, less where beam is lost; entries are the change of each reading per set point change (two steps) or the slope of the fit over all steps with beam (more steps, linear or quadratic), zero for readings without beam, with the rms distance from the fit as error. "
     "Amplitudes are kicks or position changes. The dispersion likewise steps the given cavities together. Afterwards the machine is as before; amplitudes that do not match, unknown modes and missing closed orbits are errors that change nothing.",
     ["inputs", "fault_sequences", "configurations"], "all second-order responses, set points, amplitudes, limits on one side, any pattern of lost beam from the patterns listed",
     "No test calls these functions; every call of the response measurement failed.",
     [RMS], [("response", f"{RMS}:response_matrix"), ("dispersion", f"{RMS}:dispersion"), ("amplitude", f"{RMS}:_kick_amplitude")],
     ["set points at every reading", "every entry", "state afterwards"], "2 BPMs, up to 4 corrector columns, 2 cavities, 2 to 5 steps; BPM readings replaced by an arbitrary second-order response")
STT = "pySC/utils/stats.py"
prop("C25", "Weighted statistics of measurements",
     "Means and root mean squares weight each value with its inverse squared error, or all the same if any error is missing or zero; values that are NaN are left out by the nan variants. The effective sample size is the squared sum of weights over the sum of squared weights, at least two. "
     "The error of the mean combines the weighted spread and the errors, corrected for the effective sample size and, unless disabled, with the t distribution. All act along any axis or axes and leave their arguments alone.",
     ["inputs", "configurations"], "all values and errors, all axes, missing values and missing or zero errors",
     "No test calls these functions.",
     [STT], [("mean", f"{STT}:weighted_mean"), ("error", f"{STT}:weighted_error"), ("weights", f"{STT}:weights_from_errors"), ("sample size", f"{STT}:effective_sample_size"), ("rms", f"{STT}:weighted_rms")],
     ["returned values and shapes"], "up to 4 values or 2x3 tables; one free error in the error formula; circular statistics are not covered")

LS = "pySC/core/lattice_setting.py"
prop("C29", "Switching of cavities and radiation",
     "Switching cavities on or off sets the pass method of every element with a frequency, and of no other, so that the RF field acts or not; switching radiation on or off exchanges the pass methods that come in pairs with and without radiation and leaves all others alone. "
     "Commands may be combined and come in any order, off has priority over on, repeating a command changes nothing and the last of a sequence decides. Nothing but pass methods changes, the given ring is returned, and unknown commands are errors that change nothing.",
     ["configurations", "histories"], "all pass methods of magnets and cavities, all single commands, pairs and sequences of up to three",
     "Tests switch the cavities of one ring on.",
     [LS], [("switching", f"{LS}:switch_cavity_and_radiation"), ("RF", f"{LS}:switch_rf")],
     ["pass method and all attributes of every element"], "9 elements, 9 pass methods of 3 magnets, 3 of 2 cavities")

IF = "pySC/correction/injection_fit.py"
prop("C26", "Injection fits find the trajectory that explains the readings",
     "The drift fit is the straight line through the readings of the last BPM before and the first BPM after the injection point, evaluated there; its negative is returned and the machine stays as it is. "
     "The trajectory fit minimises the rms distance, over both planes and the given BPMs, of the readings from one turn of the ideal ring started on energy with the trial trajectory; the negative of the result is returned and added to the injected beam, and nothing else changes. A failed fit is an error that changes nothing.",
     ["inputs", "configurations"], "all injected and trial trajectories, readings, results of the minimiser and drift lengths",
     "No test checks the fit; it minimised the mean distance, which is zero for many wrong trajectories.",
     [IF], [("drift", f"{IF}:fit_injection_drift"), ("trajectory", f"{IF}:fit_injection_trajectory"), ("merit", f"{IF}:_merit_function")],
     ["returned correction", "merit at two arbitrary points", "state afterwards"], "2 to 4 BPMs, up to 3 turns; tracking replaced by an arbitrary response of second order, the minimiser by any result")
LO = "pySC/correction/loco.py"
prop("C27", "Optics correction from orbit responses",
     "The measured response matrix has one column per corrector, the change of the readings per step of it, and the correctors end as they were, also at their limits. The Jacobian holds the change of the model response (and dispersion) per change of each quadrupole, then the columns scaled by correctors and the rows scaled by BPMs. "
     "Fits use the parameters of the requested kinds and their part of the Jacobian; the squared weighted distance of measurement and model is minimised, and the normal-equation step finds parameters that explain a measurement exactly, for any weights, with cut and damping as defined. "
     "Corrections subtract the found values from the set points. Beta beat is the rms relative deviation. Arguments stay.",
     ["inputs", "configurations"], "all set points, steps, residuals and parameters; all subsets of parameter kinds, kinds of weights, cut and damping",
     "Tests run one seed with the other minimiser and all parameters; the normal-equation step never runs.",
     [LO], [("measurement", f"{LO}:measure_closed_orbit_response_matrix"), ("Jacobian", f"{LO}:calculate_jacobian"), ("fit", f"{LO}:loco_correction_lm"), ("step", f"{LO}:loco_correction_ng"), ("application", f"{LO}:set_correction"), ("beta beat", f"{LO}:model_beta_beat")],
     ["every entry", "objective at an arbitrary point", "result", "set points"], "up to 4 quadrupoles, 4 corrector columns, 5 readings; the Jacobian in the fits is one of a few fixed ones; responses of second order")
CH = "pySC/correction/chroma.py"
prop("C31", "Chromaticity fit moves the sextupole families and ends at the solution",
     "Each trial sets all sextupoles of a family to their own set point before the fit plus the same change, and nothing else is moved; the merit is the distance of the chromaticity from the target, that of the ideal ring by default. "
     "Afterwards the families are at the solution of the fit, whichever point was evaluated last, and everything else is as before. Step sizes and tolerances are the requested ones. Without a proper target nothing changes.",
     ["inputs", "configurations"], "all set points, calibration errors, targets, trial points and solutions",
     "The test uses nominal set points that are whole numbers away from what truncation would break, and a fit that converges.",
     [CH], [("fit", f"{CH}:fit_chroma"), ("merit", f"{CH}:_fit_chroma_fun")],
     ["set points and fields at trial points and afterwards", "merit at two arbitrary points"], "2 or 3 families of 1 to 3 sextupoles, up to 2 trial points; chromaticity replaced by an arbitrary linear response, the minimiser by any result")

MX = "pySC/matlab_index.py"
prop("C30", "MATLAB names act as the Python functions with translated conventions",
     "Each function of the MATLAB index leaves the machine and returns as the function or method of the package it stands for, with every argument given handed on and its own defaults otherwise. Conventions are translated: planes 1 and 2 are horizontal and vertical, orders count from one, type 1 is skew and 2 normal, "
     "multipole tables are skew and normal columns, correction matrices are inverses of response matrices, rotations come as x, y, z. Arguments without a meaning are errors that change nothing; settings changed for one call are put back, also if it fails.",
     ["inputs", "configurations"], "all set points, errors, offsets, tables and optional arguments",
     "No test imports the MATLAB index; the energy correction failed on every call.",
     [MX], [("set points", f"{MX}:SCsetMags2SetPoints"), ("correctors", f"{MX}:SCsetCMs2SetPoints"), ("multipoles", f"{MX}:SCsetMultipoles"), ("transformation", f"{MX}:SCgetTransformation"), ("feedback", f"{MX}:SCfeedbackRun"), ("RF", f"{MX}:SCsynchEnergyCorrection")],
     ["state of the machine", "returned values", "arguments handed on"], "10 elements; wrappers of measurements, corrections and plots against a recorder of arguments; lattice and aperture plots not covered")

VS = "pySC/core/simulated_commissioning.py"
prop("C32", "Verification accepts sound machines, rejects inconsistent ones, changes nothing",
     "The verification of a machine raises an error exactly when plinths or sections are registered without girders, the tables of a registered magnet have differing lengths (fields; set points and calibration errors; offsets), a combined-function magnet has no bending angle, the beam size is not 6x6 or the injection uncertainties are not six values. "
     "Every other machine is accepted, whatever its values, with slave magnets and whichever kinds of element are registered. Nothing changes either way.",
     ["inputs", "configurations"], "all set points, errors, limits, angles and uncertainties; any selection of registered kinds",
     "The tests verify one machine per script; no test verifies a broken one or one with slave magnets.",
     [VS], [("verification", f"{VS}:SimulatedCommissioning.verify_structure")],
     ["whether the verification raises", "state of the machine"], "10 elements, tables of 2 to 6 orders; wording and number of warnings not covered")

TU = "pySC/correction/tune.py"
prop("C33", "Tune fit moves the quadrupole families and ends at the solution",
     "The tune of a machine is the two transverse tunes of its ring or, on request, of the ideal ring, with the integer part on request. Each trial of the fit sets all quadrupoles of a family to their own set point before the fit plus the same change; the merit is the distance of the tune from the target, that of the ideal ring by default. "
     "Afterwards the families are at the solution of the fit, whichever point was evaluated last, and nothing else has changed; combined magnets with a horizontal corrector keep their bending. Step sizes and tolerances are the requested ones.",
     ["inputs", "configurations"], "all set points, calibration errors, targets, trial points and solutions",
     "No test called the tune fit; it failed on every call.",
     [TU], [("tune", f"{TU}:tune"), ("fit", f"{TU}:fit_tune"), ("merit", f"{TU}:_fit_tune_fun")],
     ["set points and fields at trial points and afterwards", "merit at trial points", "returned tune"], "2 families of 1 to 3 quadrupoles, up to 2 trial points; optics replaced by an arbitrary response, the minimiser by any result")

CO = "pySC/lattice_properties/magnet_orbit.py"
prop("C34", "Orbit in magnets is the closed orbit relative to the displaced magnets",
     "The orbit in magnets is, per plane and magnet, the closed orbit of the machine minus the displacement of the magnet there, for the requested magnets, by default all registered ones. Without a closed orbit all values are undefined. Nothing changes.",
     ["inputs", "configurations"], "all closed orbits, displacements and selections of magnets",
     "No test called the function; it failed on every call.",
     [CO], [("orbit", f"{CO}:SCgetCOD")],
     ["returned table", "state of the machine"], "ring of 8 elements with 3 magnets; closed orbit arbitrary or missing; the plot is not covered")

LW = "pySC/correction/loco_wrapper.py"
prop("C35", "LOCO data hold the measured response; corrections apply the fitted difference",
     "LOCO measurement gives, per corrector, the response times twice its step in millimetre and the dispersion times the frequency step, and leaves the machine as it was. Model data are those of the ideal ring. Data structures start with unit gains, no coupling and the given steps, and share nothing with the machine or arguments. "
     "The lattice correction sets each quadrupole to its original value plus the damped difference of ideal and fitted value. The diagnostic correction adds one minus the fitted gain (outliers, mean deviation and offsets treated as requested) to the calibration errors and subtracts half the coupling difference from the rolls. Nothing else changes; arguments are left unmodified.",
     ["inputs", "configurations"], "all fitted values, gains, couplings, steps, thresholds, damping and set points",
     "No test used the wrapper; the lattice correction returned nothing and the diagnostic correction failed on every call.",
     [LW], [("measurement", f"{LW}:loco_measurement"), ("structures", f"{LW}:loco_cm_structure"), ("lattice correction", f"{LW}:apply_lattice_correction"), ("diagnostic correction", f"{LW}:applyDiagnosticCorrection")],
     ["measured data", "set points, calibration errors and rolls", "arguments"], "2 readings, up to 2 correctors per plane, up to 3 quadrupoles in 2 groups; readings linear in the set points; loco_fit_parameters not covered (cannot run)")



def write():
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            d = {k: v for k, v in p.items() if not k.startswith("_")}
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    checks = []
    skip = {n["property"] for n in NA}
    for p in P:
        if p["id"] in skip:
            continue
        checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough",
                           technique="bounded symbolic execution of the real Python functions with z3 deciding every branch and obligation; counterexamples replayed on the real code",
                           level="model_checking",
                           level_note="Exhaustive within the stated bounds: " + p["_note"] + ". Reals instead of floats; numpy modelled by sx/snp.py and validated by replaying path models on the real numpy."))
    m = dict(version=1, setup_cmd="python3 check.py --selftest", checks=checks, not_applicable=NA,
             notes="No hooks in /repo: the code is imported unmodified with numpy/math/at proxied by the engine. See DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)


if __name__ == "__main__":
    write()
