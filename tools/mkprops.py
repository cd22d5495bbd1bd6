"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
T = "src/astrodynx/twobody/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


p("C01", "Kepler propagation is the exact two-body motion on every conic",
  "For every initial state with positive radius (circular, elliptic, near-parabolic, parabolic, hyperbolic, radial outwards), every gravitational parameter and every list of positive, zero or negative times in any order, analytic Kepler propagation returns for each time the position and velocity of the exact two-body motion, up to the documented 1e-6 tolerance of the universal Kepler equation plus rounding. In particular angular momentum, orbital energy and the eccentricity vector of every returned state equal those of the initial state to rounding, and the answer is finite, has one row per requested time in the order requested, and carries the precision of the inputs.",
  ["inputs", "configurations"], "all initial states (16 conic regimes x orientations x anomalies x unit systems), time spans from 0 to 20 revolutions either way, both precisions, eager/jit/vmap calls",
  "The tests propagate a handful of ellipses in canonical units and compare a few digits; the claim is about a continuum of states and times.",
  ["src/astrodynx/prop/_kepler.py", T + "_kep_equ.py", T + "_uniformulas.py", T + "_lagrange.py"],
  [("kepler", "src/astrodynx/prop/_kepler.py"), ("solve_kepler_uni", T + "_kep_equ.py")], ["prop.kepler"])
p("C02", "Histories of propagation compose: legs add up and can be flown back",
  "Whatever sequence of forward, backward and zero legs is flown with the analytic propagator, each leg starting from the state returned by the previous one, the state after the history is the state that one propagation over the total elapsed time gives, so flying back returns to the start. Energy and angular momentum after any number of legs are those of the start up to accumulated rounding, and looking ahead from a state never changes what later legs return.",
  ["histories"], "all sequences of up to 9 legs of -5..5 ticks on 15 conic regimes, mixed call modes",
  "Group laws quantify over histories; the tests never feed an answer back in.",
  ["src/astrodynx/prop/_kepler.py"], [("kepler", "src/astrodynx/prop/_kepler.py")], ["prop.kepler"],
  [("mission", "the exact current state of the body and the admissible drift", "spec/trace.qnt")])
p("C03", "The Kepler equation solvers always terminate with a root",
  "For every mean anomaly and eccentricity in the domain (0 <= e < 1 elliptic with any anomaly sign and revolution count, e > 1 hyperbolic) and for every universal problem, the elliptic, hyperbolic and universal solvers return a value whose residual in Kepler's equation is within the requested tolerance or, when the tolerance is below it (including 0), within rounding. They always terminate, respect the iteration cap, and return for each element of a batch what they return for it alone, whatever else is in the batch.",
  ["inputs", "configurations"], "all anomalies in +-100 rad, e up to 1-1e-9 and down to 1+1e-8, all conics, tolerances 0..1e-2 mixed within a batch, iteration caps, both precisions",
  "Convergence and termination must hold for every input; tests try single well-conditioned anomalies.",
  [T + "_kep_equ.py"], [("solve_kepler_elps", T + "_kep_equ.py"), ("solve_kepler_hypb", T + "_kep_equ.py"), ("solve_kepler_uni", T + "_kep_equ.py")],
  ["solve_kepler_elps", "solve_kepler_hypb", "solve_kepler_uni"])
p("C04", "Kepler equation residuals, slopes and anomaly-time relations are exact",
  "For all arguments in the domain (either sign, any magnitude representable without overflow, scalars or arrays) the three Kepler equation functions return the residual they document, the elliptic and hyperbolic slope functions return its derivative with respect to the anomaly, and mean anomaly and generalized anomaly from time return their documented values, all to rounding. The relations fit together: the anomaly reached after a time of flight is a root of the corresponding equation, and the generalized anomaly computed from two states of one orbit is the root of the universal equation.",
  ["inputs"], "all anomalies, eccentricities, semimajor axes, times and gravitational parameters, both precisions, scalar and array arguments",
  "Tests sample a few points per function with loose comparisons; signs, large arguments and consistency between the functions are not reached.",
  [T + "_kep_equ.py"], [("kepler_equ_*", T + "_kep_equ.py"), ("mean_anomaly_*", T + "_kep_equ.py"), ("generalized_anomaly", T + "_kep_equ.py")],
  ["kepler_equ_elps", "kepler_equ_hypb", "kepler_equ_uni", "dE", "dH", "mean_anomaly_elps", "mean_anomaly_hypb", "generalized_anomaly"])
p("C05", "State vectors and classical elements convert back and forth",
  "For every state that is not exactly circular (eccentricities down to 1e-9 in double precision, elliptic or hyperbolic) and whose inclination is away from 0 and 180 degrees, converting to the six classical elements and back gives the same state to conditioned rounding, and the elements themselves describe exactly that state. Converting elements to a state gives the exact state for every inclination, node, periapsis argument and true anomaly of either sign and beyond one turn, including circular and equatorial orbits, for single orbits and for arrays of orbits.",
  ["inputs"], "all conics, all quadrants of every angle, all orientations, unit systems, single and batched calls, both precisions",
  "Tests check single examples; quadrant and sign errors appear only in sectors they do not visit.",
  [T + "_orb_elements.py"], [("rv2coe", T + "_orb_elements.py"), ("coe2rv", T + "_orb_elements.py")], ["rv2coe", "coe2rv"])
p("C06", "Orbital elements mean what they say along every history",
  "Inclination lies in [0, pi] and node, periapsis argument and true anomaly in [0, 2 pi], with sine and cosine equal to those of the documented geometric angles for every direction of the vectors. While a body coasts, its semiparameter, eccentricity, inclination, node and periapsis argument do not change; turning the frame about the polar axis shifts the node by exactly the turn and changes nothing else.",
  ["inputs", "histories"], "all vectors and orientations including axes and quadrant boundaries, coasts over all conics and time spans, all turns",
  "Metamorphic claims over histories and rotations; tests compare fixed numbers.",
  [T + "_orb_elements.py"], [("inclination ... argument_of_periapsis", T + "_orb_elements.py")],
  ["rv2coe", "inclination", "right_ascension", "argument_of_periapsis", "true_anomaly"])
p("C07", "Universal functions are accurate and satisfy their identities",
  "For every universal anomaly (positive, zero, negative) and every alpha (positive, zero, negative, arbitrarily near zero) the six universal functions equal their defining series to conditioned rounding, without loss of accuracy or NaN where closed forms cancel and without a jump between formulas. They satisfy U_n + alpha U_{n+2} = chi^n / n! and U0^2 + alpha U1^2 = 1, for scalars and arrays of anomalies.",
  ["inputs"], "alpha chi^2 from -200 to 1e4 and through 0 by powers of ten, both precisions",
  "Tests evaluate a few moderate arguments.",
  [T + "_uniformulas.py"], [("ufunc0..ufunc5", T + "_uniformulas.py")], ["twobody.ufunc0..5"])
p("C08", "Lagrange coefficients map states exactly and conserve area",
  "For every orbit and every universal anomaly, the four Lagrange coefficients have their documented values, F*Gt - Ft*G = 1, and applying them to the initial state gives the exact state of the two-body motion at the time that belongs to that anomaly. The radius they are built from agrees with the orbit equation in universal variables and with the length of the resulting position.",
  ["inputs"], "all conics, anomalies of either sign, unit systems, both precisions",
  "Tests evaluate single points of each function in isolation.",
  [T + "_lagrange.py", T + "_orb_integrals.py"], [("lagrange_F/G/Ft/Gt", T + "_lagrange.py"), ("equ_of_orb_uvi", T + "_orb_integrals.py")],
  ["twobody.lagrange_*", "equ_of_orb_uvi"])
p("C09", "The state transition matrix is the derivative of the exact flow",
  "For every pair of states on one two-body orbit and the time between them (either sign, zero, several revolutions), the analytic state transition matrix equals the derivative of the exact flow with respect to the initial state, block by block, for every conic and gravitational parameter. It is symplectic, is the identity for zero time, and multiplies along a history: the matrix over two legs is the product of the matrices of the legs.",
  ["inputs", "histories"], "all conics, time spans either way, unit systems, both precisions, chains of legs",
  "Tests compare one or two matrices and mostly at mu = 1.",
  [T + "_state_trans.py"], [("dxdx0 and its blocks", T + "_state_trans.py")], ["twobody.dxdx0", "prpr0", "prpv0", "pvpr0", "pvpv0", "C_func"])
p("C10", "Gravity accelerations are gradients of the documented potentials",
  "At every position outside the origin, in all octants, on the polar axis and in the equatorial plane, for all parameter values of either sign, the point-mass, J2, J3 and J4 accelerations equal the gradient of the corresponding zonal potential to rounding. They depend only on the position part of the state and on their own parameters, not on time or velocity.",
  ["inputs"], "all directions and radii, parameters of either sign, unit systems, both precisions, state vectors longer than 3",
  "Tests check a few points per function with rounded numbers.",
  ["src/astrodynx/gravity/_general.py"], [("point_mass_grav, j2_acc, j3_acc, j4_acc", "src/astrodynx/gravity/_general.py")], ["gravity.*"])
p("C11", "Numerical propagation converges to the true motion",
  "With the default or tighter tolerances, every saved state of the numerical propagators with point-mass gravity is the exact two-body state at its saved time, and with zonal perturbations it is the exact perturbed state, up to the accumulated integration tolerance. Energy (including the zonal potentials) and the polar component of angular momentum are conserved along every solution to that tolerance.",
  ["inputs", "configurations"], "bounded and unbounded orbits, zonal parameters of either sign and combined, all propagation modes, both precisions",
  "Tests compare end points of a few orbits loosely.",
  ["src/astrodynx/prop/_cowell_method.py", "src/astrodynx/gravity/_general.py"], [("cowell_method, fixed_steps, adaptive_steps, custom_steps, to_final", "src/astrodynx/prop/_cowell_method.py")], ["prop.*"])
p("C12", "Numerical propagation saves exactly the promised times",
  "Fixed-step propagation saves the initial state and one state per step of the requested size with a shortened last step ending exactly at the final time; adaptive propagation saves the initial state and strictly increasing times ending exactly at the final time; custom propagation saves exactly the requested times in order; final propagation saves exactly the final time; the general interface saves what it is told. Each saved state belongs to its saved time, unused entries of the result are infinite and come only after the end, and the result arrays have the documented length.",
  ["inputs", "histories", "configurations"], "all modes, spans, step sizes that do and do not divide the span, request grids, step limits",
  "Tests look at one grid per mode; the last step, padding and alignment of states with times are not pinned down.",
  ["src/astrodynx/prop/_cowell_method.py"], [("SaveAt configuration per mode", "src/astrodynx/prop/_cowell_method.py")], ["prop.cowell_method", "prop.fixed_steps", "prop.adaptive_steps", "prop.custom_steps", "prop.to_final"],
  [("proto", "rows saved so far, last time, padding begun", "spec/protocol.qnt")])
p("C13", "The low-radius event stops propagation once and only when it must",
  "In every propagation mode, when the radius of the propagated body first falls below the threshold the propagation stops at that step, saves nothing later, and reports an event, and with a root finder it ends on the threshold itself; when the radius never falls below the threshold the event changes nothing about the solution. The event function itself is the radius of the position minus the threshold, for every state and threshold.",
  ["inputs", "histories"], "orbits above, crossing and grazing the threshold, all modes, both precisions",
  "Tests run one descending orbit.",
  ["src/astrodynx/events/radius.py", "src/astrodynx/prop/_cowell_method.py"], [("radius_islow", "src/astrodynx/events/radius.py"), ("event plumbing", "src/astrodynx/prop/_cowell_method.py")], ["events.radius_islow", "prop.*"])
p("C14", "Every propagation option is honoured in every mode",
  "The integration method, step-size controller, initial step, step limit and dynamics parameters given by the user are the ones used, in every propagation mode that accepts them: a solution with a given one-step method on a given grid is exactly that method's recurrence on that grid for the given parameters. A step limit that is too small is reported as a failure and never returned as a solution, a sufficient one changes nothing, and omitted options take the documented defaults.",
  ["configurations", "inputs"], "all modes x solvers x controllers x step limits x parameters",
  "Tests vary one option at a time and only check that something ran.",
  ["src/astrodynx/prop/_cowell_method.py"], [("keyword plumbing", "src/astrodynx/prop/_cowell_method.py")], ["prop.*"])
p("C15", "Transfer path predicates match the geometry of the orbit",
  "For every state and every target point in the orbital plane, away from the exact boundary cases, short way is reported exactly when the transfer angle along the motion is below 180 degrees, and perigee passage exactly when the periapsis is met between departure and arrival along the motion. The periapsis-too-low predicate is true exactly when the periapsis radius is below the limit, and the revolution bound is the number of whole periods of the smallest admissible orbit in the time of flight; for all conics and gravitational parameters.",
  ["inputs"], "all transfer angles and periapsis directions, prograde and retrograde, elliptic to hyperbolic, unit systems",
  "Tests check a few transfers in the x-y plane.",
  [T + "_path_check.py"], [("is_short_way, pass_perigee, rp_islower_rmin, nmax_by_periapsis", T + "_path_check.py")], ["twobody.is_short_way", "twobody.pass_perigee", "twobody.rp_islower_rmin", "twobody.nmax_by_periapsis"])
p("C16", "Rotation matrices are the right-handed active rotations",
  "For every angle of any sign and size, scalar or array of any shape, the three rotation matrices are the active right-handed rotations about their axes: orthogonal, determinant one, leaving their axis fixed. They compose additively in the angle and invert by negating it.",
  ["inputs"], "all angles in +-1000 rad including multiples of pi/2, arrays of angles, both precisions",
  "Tests check a few angles and shapes.",
  ["src/astrodynx/utils/_rot_mat.py"], [("rotmat3dx/y/z", "src/astrodynx/utils/_rot_mat.py")], ["utils.rotmat3d*"])
p("C17", "Batching, broadcasting and compilation never change an answer",
  "For every public function, calling it on arrays (with documented broadcasting), under vectorisation, under just-in-time compilation, element by element, or with whole numbers written as integers gives the same numbers to rounding, with the documented output shape. An element of a batch never influences the answer for another element.",
  ["inputs", "configurations"], "every public function x call modes x batch compositions x shapes",
  "Tests check a fixed shape or two per function and never mixed regimes within a batch.",
  ["src/astrodynx/"], [("array-first implementations", "src/astrodynx/twobody")], ["all public functions"])
p("C18", "Automatic derivatives are the true derivatives",
  "Forward- and reverse-mode derivatives of the analytic propagator with respect to initial state, time and gravitational parameter, and of the Kepler solvers and universal functions with respect to their arguments, are finite and equal the derivatives of the exact functions, on circular, elliptic, parabolic and hyperbolic orbits alike. Forward and reverse mode agree.",
  ["inputs"], "all conics including circular and exactly parabolic, zero and long time spans, both modes",
  "Tests differentiate nothing or single points; failures sit at special orbits and at solver convergence.",
  ["src/astrodynx/prop/_kepler.py", T + "_kep_equ.py", T + "_uniformulas.py"], [("implicit derivative of the solvers", T + "_kep_equ.py")], ["jax.jacfwd / jax.jacrev of prop.kepler, solve_kepler_*, ufunc*"])
p("C19", "Results do not depend on the choice of units",
  "Changing the units of length and time, with the gravitational parameter and all inputs converted, converts every output of every dimensional function by the corresponding factor and leaves every dimensionless output unchanged, up to rounding and the documented solver tolerance. Omitting the gravitational parameter means exactly the value 1.",
  ["inputs", "configurations"], "every function with dimensional arguments x power-of-two unit changes x all regimes",
  "Most tests run at mu = 1, where a lost or misplaced mu is invisible.",
  ["src/astrodynx/"], [("explicit mu argument", "src/astrodynx/twobody")], ["all functions taking mu"])
p("C20", "Integrals of motion and conic geometry are exact and consistent",
  "For every state and conic, angular momentum, eccentricity vector, semimajor axis, semiparameter, period, mean motion, apsidal radii, radial-velocity function and orbit equations have their defining values to conditioned rounding, elliptic and hyperbolic, for any gravitational parameter, scalars or arrays. They satisfy Kepler's third law, p = a(1-e^2), rp + ra = 2a, e perpendicular to h, and rp <= r <= ra, and inverse conversions undo each other.",
  ["inputs"], "all conics, magnitudes and unit systems, both precisions, scalar and array arguments",
  "Tests evaluate few points of each function separately.",
  [T + "_orb_integrals.py", T + "_uniformulas.py"], [("orb_period ... a_from_pe", T + "_orb_integrals.py")], ["orb_period", "a_from_period", "angular_momentum", "semimajor_axis", "eccentricity_vector", "semiparameter", "mean_motion", "equ_of_orbit", "equ_of_orb_uvi", "radius_periapsis", "radius_apoapsis", "semipara_from_ae", "a_from_pe", "twobody.sigma_fn"])
p("C21", "Calls are pure: same arguments, same answer, nothing touched",
  "In every history of calls to the public API, repeating a call with the same arguments gives the identical answer whatever was called in between, no call modifies its arguments, the default parameters or global numerical settings, and the precision of the answer is the precision of the inputs. A call that fails leaves no trace in later calls.",
  ["histories"], "random interleavings of calls of all public functions, repeated, with failing calls in between, both precisions",
  "Statelessness quantifies over call histories; tests call each function in isolation.",
  ["src/astrodynx/"], [("pure functions", "src/astrodynx")], ["all public functions"],
  [("memo", "first answer of every distinct call", "spec/trace.qnt")])
p("C22", "Numerical propagation has true sensitivities in every mode",
  "Reverse-mode derivatives of every numerical propagation mode with respect to the initial state, the final time and the parameters of the dynamics exist, are finite, and equal the derivatives of what the mode computes: of the method's own recurrence on a prescribed grid, and of the true motion, to the accuracy of the integration, when the controller chooses the steps. They are the state transition matrix, the velocity and acceleration, and the parameter sensitivities of the orbit.",
  ["inputs", "configurations"], "all modes x methods x force models x differentiated argument",
  "No test differentiates a numerical propagation.",
  ["src/astrodynx/prop/_cowell_method.py", "src/astrodynx/gravity/_general.py"], [("integration options and dynamics passed through", "src/astrodynx/prop/_cowell_method.py")], ["jax.jacrev of prop.fixed_steps, adaptive_steps, custom_steps, to_final, cowell_method"])
p("C23", "The motion propagated is that of the dynamics the user supplies",
  "Every numerical propagation mode integrates the force model and watches the event it is given: forces depending on time and velocity are evaluated at the right times, with the user's parameters in whatever structure they come, one or several terms, and the result is the method's exact recurrence on a prescribed grid and the true motion within the integration's accuracy otherwise. User-defined events, of real or boolean kind, alone or among others, located or not, stop the propagation exactly when their condition is first met.",
  ["inputs", "configurations"], "all modes x methods x force models (thrust, drag, springs, rotating frames, in time and velocity) x parameter structures x kinds of event",
  "Every test and example is autonomous two-body or zonal motion with a flat dictionary of parameters and the low-radius event.",
  ["src/astrodynx/prop/_cowell_method.py"], [("dynamics and event passed through", "src/astrodynx/prop/_cowell_method.py")], ["prop.OrbDynx", "prop.fixed_steps, adaptive_steps, custom_steps, to_final, cowell_method"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as fh:
    for x in P:
        fh.write(json.dumps(x) + "\n")
print(len(P), max(len(x["title"]) for x in P))
