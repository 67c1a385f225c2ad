#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "qcd-sme/src/"
LG = S + "low_level/oneloop/gluon.rs"
LH = S + "low_level/oneloop/ghost.rs"
TG = S + "low_level/oneloop/thermal/gluon.rs"
TH = S + "low_level/oneloop/thermal/ghost.rs"
TM = S + "low_level/oneloop/thermal/mod.rs"
CT = S + "common/thermal.rs"
CM = S + "common/mod.rs"
KC = S + "consts.rs"
QG = S + "qcd/gluon.rs"
QT = S + "qcd/thermal.rs"
QY = S + "qcd/types.rs"
YG = S + "ym/gluon.rs"
YH = S + "ym/ghost.rs"
YT = S + "ym/thermal.rs"
UT = S + "utils.rs"
TY = S + "types.rs"
TL = "tc_long_prop/src/lib.rs"
PT = "tc_long_prop/src/bin/physical_tc.rs"
OM, TM2 = "tc_long_prop/src/bin/one_mass_overall.rs", "tc_long_prop/src/bin/two_masses_overall.rs"

GVN = "global value numbering over gated SSA from the compiler's MIR, congruence by random interpretation"
EFF = "interprocedural effect analysis over the compiler's MIR with gating conditions"
NOTE = ("Static analysis of the current source: MIR of every body is extracted by a rustc driver, turned into value graphs for symbolic "
        "arguments, and the property is decided as congruences of those graphs. Complete over the argument space up to exact "
        "real/complex arithmetic; trusts the summaries of library routines in engine/intrinsics.py and a collision probability below 1e-15.")
INP, CFG, HIS, FLT = "inputs", "configurations", "histories", "fault_sequences"
BND = ("Additionally bounded: ", )

P = {}


def p(i, title, statement, over, quant, why, files, mech, technique=GVN, note=NOTE, extra=""):
    P[i] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique,
                note=note + extra)


p("P01", "Field-configuration results ignore the process-wide field settings",
  "The result of every function that takes a field configuration depends on colours, flavours and quark masses only through that "
  "configuration: changing the process-wide number of colours, number of fermions or default quark mass never changes it.",
  [INP, CFG, HIS], "all arguments, all configurations (any flavour list), all values of the process-wide settings",
  "Tests use the initial settings and 3 colours, where a configured and a process-wide value coincide.",
  [QG, QT, QY, KC], [("configured inverse dressings", QG), ("configured thermal dressings", QT)])
p("P02", "The process-wide settings are coherent under any history of setters",
  "After any sequence of setter calls each getter returns the value set last (initially 3 colours, 1 fermion, mass 0.5, tolerance 1e-10, "
  "50 iterations, regulator 1e-5), no setter disturbs another setting, and every result uses the current number of colours and fermions "
  "exactly as the field configuration made of them would. A non-positive tolerance or regulator is rejected with the settings left "
  "unchanged, and nothing else is rejected.",
  [HIS, INP], "all sequences of setter calls with all argument values",
  "Tests exercise single set/get round trips and rarely any result after a change; histories and derived settings are unbounded.",
  [KC, QG, QT], [("setters, getters and the cached flavour/colour ratio", KC)],
  GVN + " (induction over setter histories on the state graph)")
p("P03", "The chosen integration method and tolerance are the ones used",
  "Every function with a default integration method returns exactly what its explicit-method form returns for the adaptive Gauss-Kronrod rule "
  "at the current tolerance and iteration settings. Only while those settings have their initial values may the Matsubara-limit "
  "gluon polarizations use a different tolerance.",
  [INP, HIS], "all arguments and all values of the tolerance and iteration settings",
  "Tests compare against values at the initial settings; a setting that is ignored changes only digits beyond their tolerance.",
  [TG, TH, QT, KC], [("default-method wrappers", TG), ("default method", KC)])
p("P04", "Every C symbol computes what the Rust function of its name computes",
  "Each exported C symbol keeps its name, calling convention and argument list, and returns for every argument exactly what the corresponding "
  "Rust function returns at those number types.",
  [INP], "all exported symbols, all arguments", "No test calls the C symbols of most functions; a swapped argument or wrong callee is invisible.",
  [S + "low_level/oneloop/mod.rs", LG, LH, TG, TH, QG, QT, YG, YH, YT, CT, CM, KC], [("ffi modules", TG), ("ffi modules", QT)])
p("P05", "Thermal integrals integrate the published integrands over the right domain",
  "Every thermal self energy, polarization and basic thermal integral is the integral, with the given method and arguments, of the public "
  "integrand of the same name over all loop momenta from zero to infinity, and over momenta up to the Fermi momentum (nothing below threshold) for the "
  "zero-temperature quark parts. The Matsubara-limit gluon polarizations integrate the real part of the generic integrand at the frequency regulator.",
  [INP, CFG], "all arguments, all integration methods", "Tests check a few numbers with loose tolerance; argument forwarding and the domain matter for all.",
  [TG, TH, TM], [("quadrature calls and variable changes", TG)])
p("P06", "Dressings are reciprocals; propagators are dressings over squared momentum",
  "For all arguments every dressing function is the reciprocal of its inverse dressing function and every propagator is the dressing function "
  "divided by the squared Euclidean momentum, in vacuum, at finite temperature and in the zero-frequency and zero-momentum limits, for all sectors.",
  [INP, CFG], "all arguments and field configurations", "Tests sample a dozen real points per function, several functions have none.",
  [YG, YH, YT, QG, QT], [("dressings and propagators", YT), ("dressings and propagators", QT)])
p("P07", "Vacuum quark loops enter as a sum over flavours",
  "The inverse gluon dressing with quarks is the pure-glue one plus, for each entry of the flavour list, its flavour number over the number of "
  "colours times the quark-loop function at the momentum in units of that quark's mass. With no quarks it is the pure-glue one, and the one-flavour "
  "functions are the one-entry lists.",
  [INP, CFG], "all arguments and flavour lists of any length", "Tests use one or two fixed lists.",
  [QG, QY], [("flavour sums", QG)])
p("P08", "Thermal inverse dressings are vacuum plus thermal parts",
  "Each finite-temperature inverse dressing is the vacuum one at the same squared momentum in units of the gluon mass squared, minus (gluon; plus for ghosts) 16 pi^2/(3 K) times the thermal "
  "part at the same arguments, K being the squared momentum; with quarks the thermal part is the glue part plus the flavour-weighted quark parts, "
  "and at zero temperature there is no glue part.",
  [INP, CFG], "all arguments and field configurations", "Tests compare a few sums with loose tolerance at one configuration.",
  [YT, QT], [("thermal inverse dressings", QT), ("thermal inverse dressings", YT)])
p("P09", "Gauge dependence is affine and Landau gauge is its zero",
  "For every vacuum function of the gauge parameter the inverse dressing is affine in it and the Landau-gauge function is its value at zero; functions "
  "taking precomputed logarithms agree with those that compute them.",
  [INP, CFG], "all arguments and gauge parameters", "Tests fix one gauge parameter.",
  [LG, LH, YG, YH, QG], [("general-gauge and separated forms", LG)])
p("P10", "Every thermal function scales with its mass dimension",
  "Rescaling all dimensionful arguments (momenta, frequencies, masses, chemical potential, temperature, densities, the frequency regulator) by a common unit "
  "multiplies every function by that unit to the power of the function's mass dimension.",
  [INP, CFG], "all arguments, all unit changes", "Tests never change units; a missing mass factor is invisible at unit masses.",
  [CM, CT, TM, TG, TH, YT, QT], [("integrands and prefactors", TG)])
p("P11", "Frequency and chemical-potential parity",
  "Every self energy, polarization, dressing and propagator is even in the Matsubara frequency and in the chemical potential; the net charge density and the chemical potential "
  "at given density are odd under charge conjugation.",
  [INP, CFG], "all arguments", "Tests use positive frequencies and chemical potentials.",
  [CT, TM, TG, TH, YT, QT], [("distributions and integrands", CT)])
p("P12", "Functions of complex momentum are real-analytic",
  "Every function of a complex momentum or frequency takes conjugate values at conjugate points, hence is real on the real axis inside its domain.",
  [INP], "all complex arguments off the branch cuts, all other arguments real", "Tests sample a handful of complex points.",
  [LG, LH, TG, TH, YG, YH, YT, QG, QT], [("complex-valued functions", TG)])
p("P13", "Mass-specialised functions agree with the generic ones",
  "A thermal function specialised to massless or equal-mass lines equals the generic function at those masses for all other arguments, and the "
  "coincident-mass logarithms equal the generic logarithm there.",
  [INP], "all arguments of every specialised function", "Tests compare against independent numbers, not against the generic function.",
  [CT, TM, TG, TH], [("specialised integrals", TM), ("thermal logarithms", CT)])
p("P14", "Zero-temperature functions are the thermal ones at Fermi-step occupation",
  "Each zero-temperature quark integrand is the thermal integrand divided by its occupation factor times the zero-temperature occupation; the zero-temperature "
  "occupation is a step at the chemical potential, symmetric in its sign; the integrated zero-temperature polarizations vanish exactly where |mu| < |mq|, whatever the sign of mu, and are otherwise the integral up to the Fermi momentum; the charge density at zero temperature is sgn(mu) Nc kF^3/(3 pi^2), and zero below threshold.",
  [INP], "all arguments", "Tests check few values of each side separately.",
  [CT, TG, QT], [("zero-temperature integrands", TG)])
p("P15", "Zero-frequency functions are the limits of the generic ones",
  "Every function specialised to vanishing Matsubara frequency is the limit of the generic function as the frequency goes to zero, for all other arguments, and that limit is finite.",
  [INP], "all remaining arguments", "Tests compare numbers for a few momenta.", [CT, TM, TG, TH, YT, QT], [("zero_matsubara modules", TG)],
  GVN + "; truncated Laurent-series domain")
p("P16", "Zero-momentum functions are the limits of the generic ones",
  "Every function specialised to vanishing spatial momentum is the limit of the generic function as the momentum goes to zero, for all other arguments, "
  "and there the transverse and longitudinal projections agree.",
  [INP], "all remaining arguments", "Tests compare numbers for a few frequencies.", [CT, TM, TG, TH, YT, QT], [("zero_momentum modules", TG)],
  GVN + "; truncated Laurent-series domain")
p("P17", "The root search returns only a root, within its iteration budget",
  "The root search returns the first secant iterate (starting with the second guess) at which the function's absolute value is below the tolerance, together with the function's value there; it returns nothing when "
  "no iterate within the allowed iterations qualifies or the function stops being a number, and it panics exactly for equal guesses or a non-positive tolerance.",
  [INP, "programs"], "all functions, guesses and tolerances, real and complex", "Tests search roots of three functions.",
  [UT], [("secant iteration", UT)], extra=" The iteration loop is unrolled: 0..5 iterations (thorough 0..8), the function searched is uninterpreted.")
p("P18", "Residues and spectral functions are the documented difference quotients",
  "The residue estimate of any function at a point is twice the step over the difference of the reciprocals one step to either side (exact for a simple pole), and the "
  "spectral function is i[f(z+i eps)-f(z-i eps)]/2pi, which on the real axis is -Im f/pi for real-analytic f; the default step is 1e-12.",
  [INP, "programs"], "all functions, points and steps", "Tests use one pole and one step.", [UT], [("difference quotients", UT)])
p("P19", "Nothing panics except as documented",
  "No library function and no C symbol can panic from an assertion, unwrap, index or arithmetic check of its own, except: setting a non-positive tolerance or regulator, the root search on equal guesses "
  "or a non-positive tolerance, and the chemical potential at nonzero density when its root search finds none.",
  [INP, CFG, HIS], "all arguments, configurations and settings", "A panic on one argument set is not met by sampling others.",
  [KC, UT, QT, CT, TM, TG], [("assertions and unwraps", KC), ("assertions", UT), ("unwrap of the root search", QT)], EFF)
p("P20", "Statistical distributions satisfy their defining identities",
  "The Bose and Fermi distributions, their doubled and zero-chemical-potential forms, the one-particle energies and the Fermi momentum equal their definitions for all arguments, "
  "including the sign and threshold conventions at zero temperature.",
  [INP], "all arguments", "Tests sample a few points.", [CM, CT], [("distributions", CT)])
p("P21", "Library functions have no effects besides the six setters",
  "Apart from the six setters no function of the library changes any setting or other process-wide memory, performs input or output, or reads anything but its arguments and the settings, so results are "
  "reproducible and repeated or concurrent calls do not influence one another.",
  [HIS, "schedules", INP], "all functions and all call histories", "Tests never compare a result before and after other calls.",
  [KC, QT, TG, UT], [("all bodies", S + "lib.rs"), ("statics", KC)], EFF)
p("P22", "Generic arithmetic means the same for real and complex numbers",
  "For both supported number types the real part, imaginary part, absolute value, square root, logarithm, exponential and inverse used by generic functions are those of the "
  "number, so a function evaluated at a real number agrees with it at the same complex number.",
  [INP], "all real and complex numbers", "Tests cover these only through the functions using them.", [TY], [("number trait", TY)])
p("P23", "Vacuum one-loop functions match the reference formulas",
  "The vacuum ghost and gluon one-loop functions, dressings and propagators equal the analytic one-loop formulas of the screened massive expansion for all momenta, quark masses, gauge parameters and constants.",
  [INP], "all arguments", "Tests sample four momenta with fixed expected numbers.", [LG, LH, YG, YH, QG, "tests"], [("one-loop functions", LG)])
p("P24", "Thermal integrands match the reference formulas",
  "The thermal logarithms, basic one-loop integrands and the ghost, glue and quark thermal integrands equal the independent reference formulas of the repository's numerical model for all arguments.",
  [INP], "all arguments", "Tests sample a few points with fixed expected numbers.", [CT, TM, TG, TH, "tests"], [("integrands", TG)])
p("P25", "physical_tc writes the renormalised propagator at its labels",
  "Every data file and plot of the physical_tc program holds Re D(p; T, mu) / Re D(p0; T, mu) * m^2/p0^2 (p0 the renormalisation point) at the T, mu and momentum it is labelled "
  "with, of the longitudinal resp. transverse propagator the file is named after, with the flavour data of the deconfined phase exactly for the deconfined points; temperatures, "
  "chemical potentials and momenta are min + k * delta; a setter of the configuration changes its own quantity only; corrected data has its own f0; corrected output "
  "without a complete set of correction data is refused.",
  [INP, HIS], "all parameters and configurations", "There is no test of this program.", [PT, TL],
  [("output functions", PT), ("Config", PT)], extra=" Decided at grids of 3 temperatures, 5 chemical potentials, 2 momenta (thorough: 4, 7, 3) with arbitrary origin and temperature step; momenta and chemical potentials in steps of 1/8.")
p("P26", "A failed write is never silent",
  "When any operation by which the phase-diagram programs and the fit of the phase boundary produce output fails (creating a directory or file, writing, flushing a buffer, saving "
  "a plot), the run ends in a failure (panic, non-zero exit status or error returned from main); in particular every buffered file is flushed, and the outcome examined, before it is closed.",
  [FLT, HIS], "every single output operation failing, all others succeeding", "There is no test of these programs.", [PT, TL, OM, TM2],
  [("output of physical_tc", PT), ("output of one_mass_overall", OM), ("output of two_masses_overall", TM2)],
  "fault injection in an abstract interpreter over MIR (result of one output call replaced by an error) and typestate of buffered writers")
p("P27", "A point is deconfined iff it lies above the phase boundary",
  "The phase-diagram programs take as critical temperature the first temperature maximising the propagator; the reduced boundary is exactly the points before the first "
  "vanishing critical temperature; a point (mu, T) is deconfined iff T is strictly above the piecewise-linear interpolation of the reduced boundary at mu, or mu is beyond its last "
  "chemical potential; boundary points are confined, also where the boundary is flat; mu below the first chemical potential panics; the fit is made to the points of the reduced boundary, with the polynomial of its parameters, and plotted with the fitted ones.",
  [INP], "all boundaries ordered by chemical potential with positive critical temperatures before the end point, all non-negative mu and T", "There is no test of this crate.", [TL],
  [("phase of a point", TL), ("critical temperature", TL)], extra=" Decided at boundaries of up to 4 (thorough: 6) arbitrary points.")
p("P28", "The Python functions are the C functions of their names",
  "Each function of the Python module passes its arguments in order to the exported C symbol of its own name, complex numbers by real and imaginary part, and returns the number it returns.",
  [INP], "all arguments", "No test builds or imports the Python module.", ["python/pyqcd_sme_so.pyx", "python/qcd_sme/ffi.py"], [("wrappers", "python/pyqcd_sme_so.pyx")],
  "abstract interpretation of the Cython syntax tree against the exported symbols found in the compiler's MIR")
p("P29", "A field configuration means the multiset of its flavours",
  "A field configuration keeps the colours, gluon mass and flavour list it was made with, and results do not depend on the order of that list, on splitting a flavour entry "
  "into entries of the same mass, or on entries with no flavours; a clone behaves identically.",
  [CFG, INP], "all configurations and arguments", "Tests use one order of one list.", [QY, QG, QT], [("configuration type", QY)],
  extra=" Checked at literal lists of up to three entries with arbitrary contents.")
p("P30", "Chemical potential inverts the charge density",
  "The chemical potential returned for a charge density solves density(mu) = given density at the same mass, temperature and integration method; at zero temperature it is the "
  "closed-form inverse above threshold, and at zero density it is zero.",
  [INP], "all masses, temperatures and densities", "Tests round-trip a few densities.", [QT, UT], [("quark density functions", QT)])
p("P31", "Mass-derivative integrals are derivatives",
  "The integrals named as mass derivatives are the first and second derivatives with respect to the mass squared of the integrals they derive from, up to total derivatives "
  "in the loop momentum that integrate to zero.",
  [INP], "all arguments", "Tests compare against fixed numbers.", [TM, TG], [("derivative integrands", TM)],
  GVN + "; truncated Taylor (dual-number) domain")
p("P33", "The survey programs plot the propagator at its labels",
  "Every plot and every line of tc.out of one_mass_overall and two_masses_overall is computed from Re D(p; T, mu) / Re D(p0; T, mu) * m^2/p0^2 of the longitudinal gluon propagator "
  "(m = 0.656 GeV, p0 = 4 GeV, f0 = -0.876, Matsubara frequency 1e-5 GeV) at the temperature, chemical potential, quark masses and number of quarks its name, title and legend give; "
  "critical temperatures are looked for over the temperatures plotted.",
  [INP, CFG], "all labels", "There is no test of these programs.", [OM, TM2, TL], [("one_mass_overall", OM), ("two_masses_overall", TM2)])
p("P34", "QCD without quarks is pure Yang-Mills theory",
  "With no fermions (the number of fermions set to zero, or a field configuration without flavours or whose flavours have no quarks) every QCD dressing and propagator is the pure "
  "Yang-Mills one at the remaining arguments, the crossed ones included; at zero temperature it is the one of the vacuum.",
  [INP, CFG], "all arguments", "One test (limits.rs) compares two functions at sampled arguments.", [QG, QT, YG, YT], [("quark sector", QT), ("Yang-Mills", YT)])
p("P35", "Functions of complex momentum are analytic off the negative real axis",
  "As functions of a complex squared momentum s, the vacuum gluon and ghost functions, dressings and propagators (Yang-Mills and QCD, crossed, configured) have no cut, jump or kink "
  "anywhere in the plane except on the negative real axis: no other branch cut and no switch between different expressions; for real positive squared momentum, and for real positive Matsubara frequency "
  "and momentum in the thermal functions, no logarithm or square root is taken at a point on its cut, for any positive masses.",
  [INP], "all s off the negative real axis, all positive masses, all gauge parameters", "The tests sample a handful of complex momenta, all with positive real part.",
  [LG, LH, TG, TM, YG, QG, QT], [("vacuum loops", LG), ("ghost loops", LH), ("thermal logarithms", TM)],
  technique="abstract interpretation of the value graphs in a half-plane (argument interval and sign) domain",
  note="Static analysis of the current source: MIR of every body is extracted by a rustc driver and turned into value graphs; the half-plane domain is sound in exact arithmetic, "
  "so an argument it places off the cut is off the cut for every input; trusts the summaries of library routines in engine/intrinsics.py.")
p("P36", "Thermal functions survive the overflow of their exponentials",
  "However low the temperature and however large the loop momentum (the integrals reach infinity), so that every exponential overflows or underflows, no thermal distribution, integrand, "
  "thermal part, charge density, dressing or propagator becomes NaN or infinite at real arguments; distributions and integrands vanish at large loop momentum, and without chemical potential thermal parts vanish at low temperature.",
  [INP], "all temperatures down to zero, all loop momenta, masses, frequencies and chemical potentials", "The tests stay at temperatures and momenta where nothing overflows; the value printed at T -> 0 is never compared.",
  [CT, TM, TG, TH, QT, YT], [("distributions", CT), ("thermal integrands", TM), ("derivatives with respect to masses", TM)],
  technique="abstract interpretation of the value graphs in a magnitude domain (zero, small, moderate, large, infinite, NaN)",
  note="Static analysis of the current source: MIR of every body is extracted by a rustc driver and turned into value graphs, which are interpreted over IEEE 754 magnitude classes in the "
  "extreme regimes; real arguments only (complex arithmetic on infinities is the num-complex crate's); generic cancellations are taken not to be exact zeros.")
p("P37", "Below the onset chemical potential there is no quark matter",
  "At zero temperature, for a chemical potential below the quark mass in absolute value (each flavour's own mass, whatever signs) quark matter is absent: densities, polarizations, their integrands and occupation "
  "numbers are exactly zero, dressings and propagators are exactly the vacuum ones; so they still are at the onset |mu| = m_q, where matter sets in continuously; no Fermi momentum of an empty sea (the root of a negative number) is ever used.",
  [INP, CFG], "all chemical potentials, masses, momenta, flavour lists", "Tests sample chemical potentials far above or far below the onset.",
  [QT, TG, CT], [("charge density", QT), ("zero-temperature polarizations", TG), ("Fermi step", CT)],
  technique=GVN + "; guards of every root compared with its domain")
p("P38", "Propagators saturate in the IR and run with the one-loop anomalous dimensions",
  "As s -> infinity every vacuum inverse dressing function is a ln s plus a constant, with the anomalous dimension of one-loop perturbation theory (gluon 13/18 - xi/6 - 2/9 nf/nc summed over "
  "flavours, ghost 1/4 - xi/12), and every thermal one has the same logarithm in either direction (frequency or momentum to infinity), every thermal self-energy staying bounded. As s -> 0 the "
  "gluon propagator saturates at 1/(5/8 + xi/4) whatever the quarks and the renormalisation constant, the ghost inverse dressing is 5/24 + g0 - xi/12 ln s, and the quark loops vanish.",
  [INP, CFG], "all gauges, renormalisation constants, colour and flavour numbers, quark masses, temperatures; the limits themselves",
  "Tests evaluate at moderate momenta; limits are not samples.",
  [LG, LH, QG, QT, YT], [("one-loop functions", LG), ("quark sums", QG), ("thermal dressings", QT)],
  technique="truncated Laurent series with a logarithm over value graphs (gated SSA from MIR), decided by random interpretation")
p("P39", "Crossed quark loops are the mass-counterterm insertion of the plain ones",
  "At fixed momentum and for real and complex s, f_q_crossed = (1 - mq d/dmq) f_q; hence every crossed inverse dressing (one flavour, or any flavour list, any gauge) is (1 - mq d/dmq) of the plain one, with all quark masses scaled "
  "together and the glue part unchanged.",
  [INP, CFG], "all momenta, masses, gauges, flavour lists", "Tests compare samples with the same formula retyped.",
  [LG, QG], [("f_q_crossed", LG), ("crossed dressings", QG)],
  technique="exact first-order Taylor arithmetic on value graphs (gated SSA from MIR), decided by random interpretation")
p("P40", "At rest, transverse and longitudinal are the same",
  "At zero spatial momentum and non-zero frequency there is no direction to distinguish: the transverse and longitudinal polarizations, dressings, propagators and their integrands coincide, exactly in the zero-momentum "
  "functions, and as p -> 0 in the generic ones, at any temperature (zero included), density and flavour content.",
  [INP, CFG], "all frequencies, temperatures, chemical potentials, masses, flavour lists; the limit itself", "Tests never compare the two.",
  [TG, QT, YT, TM], [("polarizations", TG), ("dressings", QT), ("projected integrals", TM)],
  technique="truncated Laurent series over value graphs (gated SSA from MIR), decided by random interpretation")
p("P41", "Parallel use of the library is free of data races",
  "Computing from many threads at once is safe as long as nobody changes the settings meanwhile: the process-wide settings are the only mutable shared state of the library, nothing but the six setters writes them, "
  "no other code is unsafe (no raw pointer, unchecked access or transmutation), no thread outlives the call that started it, and nothing the survey programs run in parallel ever reaches a setter.",
  ["schedules", HIS], "all interleavings of library calls, all iterations of the parallel loops", "Tests run serially; a race shows on no fixed schedule.",
  [KC, PT, OM, TM2], [("process-wide settings", KC), ("parallel maps", PT), ("parallel maps", OM)],
  technique="call-graph reachability from parallel closures and per-body points-to of static pointers over the compiler's MIR; unsafe-surface query")
p("P42", "At high temperature or density, hard thermal loops emerge",
  "When frequency, momentum and masses are small against temperature or chemical potential, the thermal gluon polarization has the hard-thermal-loop form: the universal longitudinal and transverse functions of "
  "frequency and momentum, with the Debye mass of gluons and ghosts, and of quarks at finite or zero temperature; static and zero-momentum functions have its limits (full screening, no magnetic mass, one third each); "
  "the ghost self-energy has no hard thermal loop.",
  [INP, CFG], "all frequencies, momenta, masses (ratios fixed), temperatures, chemical potentials", "The example comparing with the limit is no test; no test goes to high temperature.",
  [TG, TM, TH], [("thermal gluon integrands", TG), ("thermal ghost integrands", TH), ("momentum integrals", TM)],
  technique="truncated Laurent series over value graphs (gated SSA from MIR), decided by random interpretation")
p("P32", "The saved config.yml determines the phase-diagram run",
  "The phase-diagram program saves the configuration it uses, field by field and under the names it reads it from, whether it was read from a file or built in; running it on the "
  "configuration it saved runs the same stages on the same configuration; a configuration file that cannot be understood or lacks a field is refused, not replaced by defaults; the shipped default_config.yml is the built-in configuration.",
  [CFG, HIS], "all configurations", "There is no test of this program.", [PT, TL], [("main", PT), ("InputData", TL)])

NA = []

if os.path.exists(os.path.join(HERE, "tools", "more_meta.py")):
    exec(open(os.path.join(HERE, "tools", "more_meta.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for i in sorted(P):
            d = P[i]
            assert len(d["title"]) <= 80, i
            f.write(json.dumps({
                "id": i, "title": d["title"], "statement": d["statement"],
                "quantifier": {"over": d["over"], "text": d["quant"]}, "why_tests_cant": d["why"],
                "anchors": {"files": [x for x in d["files"] if x != "tests"],
                            "mechanism": [{"name": a, "where": b} for a, b in d["mech"]]}}) + "\n")
    na = {x["property"] for x in NA}
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
         "checks": [{"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                     "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                     "technique": P[i]["technique"], "level": "other", "level_note": P[i]["note"]}
                    for i in sorted(P) if i not in na],
         "not_applicable": NA,
         "notes": "Static analysis only. engine/: MIR -> value graphs -> congruence; checks/: one file per property; see DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
