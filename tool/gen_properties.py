#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
S = "src/astrodynx/"
K, U, L, I, E, ST, P = (S + "twobody/" + f for f in (
    "_kep_equ.py", "_uniformulas.py", "_lagrange.py", "_orb_integrals.py",
    "_orb_elements.py", "_state_trans.py", "_path_check.py"))
G, EV, KP, CW, RM, DQ = (S + f for f in (
    "gravity/_general.py", "events/radius.py", "prop/_kepler.py",
    "prop/_cowell_method.py", "utils/_rot_mat.py", "diffeq/__init__.py"))
INITS = [S + "__init__.py", S + "twobody/__init__.py", S + "gravity/__init__.py",
         S + "events/__init__.py", S + "prop/__init__.py", S + "utils/__init__.py", DQ]
ALL = [K, U, L, I, E, ST, P, G, EV, KP, CW, RM]
out = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    out.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {"files": files, "state": state or [],
                            "mechanism": [{"name": n, "where": w} for n, w in mech],
                            "observe_at": observe or [], "hook_needed": None}})


prop("C01", "Universal functions are exact on every conic",
     "For every generalized anomaly and every reciprocal semimajor axis alpha (positive, exactly zero, or negative, however small), the six universal functions satisfy U_n + alpha*U_(n+2) = chi^n/n! for n = 0..3, dU_(n+1)/dchi = U_n and dU_0/dchi = -alpha*U_1. At chi = 0 they equal 1, 0, 0, 0, 0, 0, and at alpha = 0 exactly they equal chi^n/n!. The identities are of the real-valued formulas; floating-point rounding is out of scope.",
     ["inputs"], "all real chi, all real alpha in the three sign regimes",
     "The doctests evaluate two or three elliptic points per function; the hyperbolic and parabolic branches of U4 and U5 are never evaluated, and no test relates the functions to each other.",
     [U], [("three-way branch on the sign of alpha in each universal function", U)],
     ["twobody.ufunc0 .. twobody.ufunc5"])
prop("C02", "Kepler propagation keeps the orbit it was given",
     "For every initial state, every positive gravitational parameter and every elapsed time (positive, negative or zero, on any conic), the state returned by the analytic two-body propagator has the angular-momentum vector, the energy and the eccentricity vector of the initial state. Equivalently the state is F*r0 + G*v0, Ft*r0 + Gt*v0 with the Lagrange coefficients of that orbit and F*Gt - Ft*G = 1, and zero generalized anomaly gives back the initial state. Every entry of the time array is propagated independently.",
     ["inputs"], "all initial states with positive radius, all mu > 0, all times, all three conics",
     "Two doctests and one test propagate near-circular orbits with mu = 1, so a wrong power of mu, a wrong sign on hyperbolas or a dropped sigma0 term is invisible.",
     [KP, L, I, U], [("composition of universal functions, Lagrange coefficients and the linear map", KP), ("Lagrange coefficient formulas", L), ("radius from universal functions", I)],
     ["prop.kepler", "twobody.lagrange_F/G/Ft/Gt", "equ_of_orb_uvi"])
prop("C03", "Kepler solvers solve the documented equation to the caller's tolerance",
     "Whenever one of the three Kepler-equation solvers (elliptic, hyperbolic, universal) stops before its iteration limit, the anomaly it returns meets the convergence test with the tolerance the caller passed: the residual of the documented equation is at most tol (hyperbolic, universal), or the last correction is at most tol (elliptic). The test made before the first iteration does not hinge on adding the tolerance to an arbitrarily large anomaly, where rounding would lose it. Every iteration is an exact Newton step on that documented equation with the caller's parameters, the default tolerance is no looser than 1e-6, and the analytic propagator solves the universal equation for exactly the elapsed time, alpha, radius, sigma and mu of its own arguments. The residual and derivative functions the library publishes for these equations are those same equations and their exact derivatives.",
     ["inputs"], "all anomalies, eccentricities, states, times, tolerances and iteration limits",
     "Tests solve a handful of equations with default tol and max_iter and mu = 1; whether tol and the parameters are honoured for other values is never exercised.",
     [K, KP, I], [("while-loop convergence conditions and Newton bodies of the three solvers", K), ("published residuals and derivatives", K), ("solver call in the propagator", KP)],
     ["solve_kepler_elps", "solve_kepler_hypb", "solve_kepler_uni", "kepler_equ_*", "dE", "dH", "prop.kepler"])
prop("C04", "Every solver terminates within the caller's iteration limit",
     "For every input, including NaN, infinite and non-converging ones, each iterative solver performs at most max_iter iterations, where max_iter is the caller's value, and then returns; max_iter = 0 returns the starting guess. No other loop or recursion in the library depends on run-time values.",
     ["inputs"], "all inputs including NaN/inf, all max_iter",
     "Every tested input converges in a few iterations, so the iteration cap is never reached.",
     [K] + [f for f in ALL if f != K], [("iteration counter, its increment and the conjunct bounding it", K)],
     ["solve_kepler_elps", "solve_kepler_hypb", "solve_kepler_uni", "prop.kepler"])
prop("C05", "Two-body motion is time-reversible",
     "Negating the mean anomaly negates the anomaly returned by the elliptic and hyperbolic solvers, and negating elapsed time together with sigma0 negates the one returned by the universal solver, for the same tolerance and iteration limit. Consequently propagating (r0, -v0) for time -t returns the same position as propagating (r0, v0) for time t, with the opposite velocity. The starting guesses involved do not lose this symmetry to cancellation between a quantity of either sign and the square root of its square plus a constant.",
     ["inputs"], "all mean anomalies, eccentricities, states, mu and times of either sign",
     "All tested anomalies and times are positive, so a sign-dependent guess or step is never seen (solve_kepler_hypb returned -inf for large negative N and passed).",
     [K, KP, U], [("starting guesses, Newton bodies and stop conditions of the solvers", K), ("propagation formulas", KP)],
     ["solve_kepler_elps", "solve_kepler_hypb", "solve_kepler_uni", "prop.kepler"])
prop("C06", "Closed-form orbit relations are exact and mutually consistent",
     "For every admissible input the scalar and vector orbit relations compute the textbook quantity: period and mean motion (Kepler's third law), vis-viva semimajor axis, angular momentum r x v, eccentricity vector v x h/mu - r/|r|, semiparameter h^2/mu = a(1-e^2), orbit equation p/(1+e cos f), radius from universal functions, periapsis/apoapsis radii, elliptic and hyperbolic mean anomaly, sigma = r.v/sqrt(mu), and generalized anomaly. The inverse pairs (period <-> semimajor axis, semiparameter <-> semimajor axis at given eccentricity) undo each other exactly, periapsis plus apoapsis is 2a, and the orbit equation at f = 0 and pi gives periapsis and apoapsis. mu is the caller's value in every one of them.",
     ["inputs"], "all real inputs in each function's documented domain",
     "Tests use a few points, most of them at mu = 1, a = 1 or e = 0 where many wrong formulas coincide with the right one; inverse pairs are never composed.",
     [I, K, U], [("closed-form return expressions", I), ("mean anomaly and generalized anomaly", K), ("sigma function", U)],
     ["orb_period", "a_from_period", "angular_momentum", "semimajor_axis", "eccentricity_vector", "semiparameter", "mean_motion", "equ_of_orbit", "equ_of_orb_uvi", "radius_periapsis", "radius_apoapsis", "semipara_from_ae", "a_from_pe", "mean_anomaly_elps", "mean_anomaly_hypb", "generalized_anomaly", "twobody.sigma_fn"])
prop("C07", "Gravity models are exact gradients of their potentials",
     "For every position off the origin, the point-mass and J2, J3, J4 accelerations equal the gradient of mu/r and of -(mu/r) J_n (R_eq/r)^n P_n(z/r), so they are conservative (zero curl), satisfy Laplace's equation (zero divergence), are symmetric about the z axis and have the parity in z of their degree. They depend only on the three position components and the named parameters mu, J_n and R_eq taken from the caller's arguments, never on time or velocity, and scale linearly in mu and J_n.",
     ["inputs"], "all states, times and parameter values",
     "Tests compare a few points against constants copied from the implementation and mostly use R_eq = 1; no test relates components or checks the potential.",
     [G], [("component formulas of the four acceleration functions", G)],
     ["gravity.point_mass_grav", "gravity.j2_acc", "gravity.j3_acc", "gravity.j4_acc"])
prop("C08", "Rotation matrices are proper right-handed rotations",
     "For every angle, each of the three elementary rotation matrices is orthogonal with determinant +1, leaves its own axis fixed and turns the other two axes right-handedly by that angle; rotations about one axis compose by adding angles. For an array of angles of any shape the result has two trailing matrix dimensions after the shape of the angles, one matrix per angle.",
     ["inputs"], "all real angles and all batch shapes",
     "Tests evaluate four special angles (multiples of 90 degrees) and stack scalar results instead of passing an array of angles.",
     [RM], [("matrix entries and stacking axes", RM)], ["utils.rotmat3dx", "utils.rotmat3dy", "utils.rotmat3dz"])
prop("C09", "Elements-to-state conversion yields an orbit with those elements",
     "For all orbital elements with p > 0 and 1 + e cos f > 0 and every mu > 0, the position and velocity returned for (p, e, i, raan, argp, f) lie at radius p/(1+e cos f) on the orbit whose angular momentum has magnitude sqrt(mu p) and direction (sin i sin raan, -sin i cos raan, cos i), and whose eccentricity vector has magnitude e and points at angle argp from the ascending node in the orbit plane. The true anomaly measured from that vector in the direction of motion is f.",
     ["inputs"], "all elements of elliptic, parabolic and hyperbolic orbits, all mu",
     "One doctest with two orbits in the first quadrant of argp and f covers it.",
     [E, RM], [("perifocal vectors and the 3-1-3 rotation", E), ("rotation matrices", RM)], ["coe2rv"])
prop("C10", "State-to-elements conversion inverts elements-to-state in every quadrant",
     "For every state of a non-degenerate orbit (inclined, non-circular), converting to classical elements and back returns the same state: p = h^2/mu, e, and the inclination, node, argument of periapsis and true anomaly in their correct quadrants. All returned angles lie within [0, 2*pi] and the inclination within [0, pi]. No element is obtained from a root or an inverse function that rounding can carry out of its domain, or that loses half of the digits of the state next to an apsis, a node or an equatorial or circular orbit.",
     ["inputs"], "all non-degenerate states, all mu > 0, all four quadrants of every angle",
     "The only test converts two states whose argument of periapsis and true anomaly are below 180 degrees; on the original tree all states past apoapsis or with periapsis below the equator were converted wrongly and every test passed.",
     [E, I], [("angle formulas and their quadrant corrections", E)], ["rv2coe", "inclination", "right_ascension", "argument_of_periapsis", "true_anomaly"])
prop("C11", "The state transition matrix is the derivative of two-body motion",
     "For every pair of states connected by two-body motion, every mu > 0 and every elapsed time, the 6x6 state transition matrix consists of the analytic partial derivatives (Battin 9.84-9.87) of final position and velocity with respect to initial position and velocity, in the block order [[dr/dr0, dr/dv0], [dv/dr0, dv/dv0]]. Its ingredients (generalized anomaly, universal functions, Lagrange coefficients, C function) are evaluated with the caller's elapsed time and mu, and with zero elapsed time it is the identity.",
     ["inputs"], "all state pairs on a common orbit, all mu, all elapsed times, all conics",
     "One elliptic example with mu = 1 is compared with constants; the dependence on mu and hyperbolic/parabolic orbits is never exercised.",
     [ST, L, U, K], [("block formulas", ST), ("assembly of the 6x6 matrix", ST)],
     ["twobody.dxdx0", "twobody.prpr0", "twobody.prpv0", "twobody.pvpr0", "twobody.pvpv0", "twobody.C_func"])
prop("C12", "Trajectory predicates decide the geometry they document",
     "For all inputs: the maximum revolution count is floor(tof/(2 pi) sqrt(mu/a_min^3)) with a_min the mean of the larger radius and the minimum periapsis; the short-way test is true exactly when (r1 x v1).(r1 x r2) > 0; the periapsis test is true exactly when the arc actually flown from r1 to r2 contains the periapsis direction; the low-periapsis test is true exactly when p/(1+e) < rmin. All use the caller's mu.",
     ["inputs"], "all state vectors, radii, times of flight and mu, including boundary cases of the comparisons",
     "Tests sample six geometries of one predicate and one point of each of the others, none on a boundary and mostly with mu = 1.",
     [P, I], [("predicate expressions", P)],
     ["twobody.nmax_by_periapsis", "twobody.is_short_way", "twobody.pass_perigee", "twobody.rp_islower_rmin"])
prop("C13", "Results do not depend on the choice of units",
     "Rescaling the units of length and time in all inputs of a public function rescales its outputs by exactly the powers of length and time of the quantity it returns, for every function of the library; dimensionless outputs and true/false answers do not change. In particular no internal step falls back to a gravitational parameter, radius or time of 1, or adds, compares or takes a transcendental function of quantities of different dimension. Only the convergence tolerances and iteration limits are exempt.",
     ["inputs", "configurations"], "all inputs, all positive length and time scale factors, all public functions",
     "Most tests use canonical units with mu = 1, where a missing or doubled mu factor changes nothing.",
     ALL, [("explicit forwarding of mu at every internal call", "all modules"), ("dimensional homogeneity of every formula", "all modules")],
     ["every public numerical function"])
prop("C14", "Batched evaluation equals evaluating each element separately",
     "For every function documented to broadcast, evaluating it on inputs with leading batch dimensions, including mixtures of batched and unbatched inputs that broadcast together, gives outputs with the broadcast batch shape of the inputs they depend on, whose every element equals the function applied to the corresponding elements alone. No element of a batch influences another.",
     ["inputs"], "all broadcastable batch shapes and all values",
     "Broadcasting tests use one batch shape per function with all inputs batched alike, often with repeated values; several functions have no batched test (coe2rv failed for batched e with scalar anomaly).",
     [K, U, L, I, E, RM, KP], [("axis=-1/keepdims conventions, stacking axes, expand_dims/squeeze", "orbit elements, integrals, rotation matrices"), ("vmap over time", KP)],
     ["broadcasting public functions"])
prop("C15", "Every numerical function can be traced by JAX transformations",
     "Every public numerical function can be called with traced values for all its numerical arguments (under jit, vmap, forward-mode differentiation or any nesting of them): no code path converts an argument-dependent value to a Python number, bool or NumPy array, branches or loops in Python on it, or produces a data-dependent shape.",
     ["inputs", "programs"], "all programs that apply JAX transformations to public functions",
     "Only the gravity functions are tested under jit; the propagator failed under jit and vmap, as its documentation advertises, with all tests passing.",
     ALL, [("use of lax control flow and jnp operations only", "all modules")], ["every public numerical function"])
prop("C16", "Derivatives through the library are never cut or poisoned",
     "For every differentiable public function, automatic differentiation sees the whole computation: no argument-dependent value is detached (stop_gradient, conversion to a Python number, integer or rounding operation, custom derivative rule) on its way to the result, and no elementwise select (where) evaluates a branch whose derivative is undefined at an input where the other, differentiable branch is chosen. At an input that lies exactly on the boundary between two branches (such as a parabolic orbit, alpha = 0), the derivative is the common limit of the derivatives beside the boundary wherever there is one. The numerical propagators keep an adjoint that differentiates the discrete solution. Counting and true/false functions are exempt.",
     ["inputs", "programs"], "all public differentiable functions, all inputs",
     "Gradients are only tested for gravity and one numerical propagation; the analytic propagator silently returned wrong Jacobians with all tests passing.",
     ALL, [("absence of detaching operations on every input-to-output path", "all modules")], ["every public differentiable function"])
prop("C17", "Library calls have no side effects and no memory",
     "The result of any library call depends only on its arguments: no call modifies its arguments, the default argument values, module or global state, the JAX configuration or the environment, performs input/output, uses random numbers or the clock, or caches results between calls. Importing the library changes no global configuration.",
     ["histories", "inputs"], "all call histories and interleavings",
     "Tests call each function once in isolation and never check that the argument dictionaries or defaults are unchanged afterwards.",
     ALL + INITS, [("functions are pure expressions over their arguments", "all modules"), ("shared default argument dictionaries are only read", G + ", " + EV + ", " + CW)],
     ["every public function", "import of the package"])
prop("C18", "Results carry the precision of the inputs",
     "Inputs in double precision (with 64-bit mode enabled) give double-precision results everywhere: no code path narrows an argument-dependent value to a fixed lower-precision or integer type, lowers matrix-multiplication precision, or uses a truncated numerical constant for pi.",
     ["inputs", "configurations"], "all inputs, both settings of 64-bit mode",
     "The whole test suite runs in 32-bit mode, where narrowing to float32 is invisible.",
     ALL, [("no dtype is ever fixed on a data path; pi from the library", "all modules")], ["every public numerical function"])
prop("C19", "Cowell propagators integrate exactly the problem they are given",
     "For every configuration, each of the five numerical propagators passes the caller's dynamics, dynamics arguments, event, initial state, end time, solver and, where it accepts them, step-size controller, step limit, initial step and save specification to a single ODE solve from time 0, unmodified and on every path, and returns that solve's solution unmodified. Integration failures are not silenced.",
     ["configurations", "inputs"], "all combinations of dynamics, events, solvers, controllers and limits",
     "Tests exercise one propagator with events and defaults; dropping the event or the caller's solver in the others goes unnoticed.",
     [CW, DQ], [("keyword forwarding in each propagator", CW)],
     ["prop.cowell_method", "prop.fixed_steps", "prop.adaptive_steps", "prop.custom_steps", "prop.to_final"])
prop("C20", "Cowell propagators save and step as documented",
     "For every configuration: fixed-step propagation uses a constant step of exactly the caller's dt and saves the initial state and every step; adaptive propagation saves the initial state and every accepted step; custom-time propagation saves exactly the caller's times with no step limit; final-state propagation saves only the final state. Propagators without an initial-step argument leave the initial step to the solver. Unless overridden, all adaptive propagators use the same solver and the same error tolerances (1e-8 or tighter) and every limited one allows at least the documented 4096 steps.",
     ["configurations"], "all propagators, all argument combinations",
     "Only the shape of one final-state solution is asserted.",
     [CW], [("SaveAt / controller / step-limit arguments and defaults", CW)],
     ["prop.cowell_method", "prop.fixed_steps", "prop.adaptive_steps", "prop.custom_steps", "prop.to_final"])
prop("C21", "The radius event is the signed altitude above the caller's threshold",
     "For every state and threshold the radius event returns |position| - rmin: positive above the threshold, zero on it, negative below, where rmin is read from the caller's arguments. It depends on nothing but the three position components and rmin, and accepts the extra keyword arguments the ODE solver passes to events.",
     ["inputs"], "all states, times, thresholds and extra keyword arguments",
     "One propagation with one threshold and a tolerance of 1e-2 uses it.",
     [EV], [("event return expression", EV)], ["events.radius_islow"])
prop("C22", "Every documented public name is bound to its own function",
     "Every name in the API reference is importable from the documented namespace, is listed in that namespace's public names, and is bound to the function or class that is defined and documented under that very name; no public name is an alias of a different function. The positional order and optional arguments of each documented signature are callable as documented.",
     ["programs"], "all programs importing documented names",
     "Names without a dedicated test are only touched by their own doctest, through one import path.",
     INITS + ALL, [("re-export lists", "package __init__ modules"), ("docs/api/*.rst listings", "docs/api")], ["astrodynx and its sub-namespaces"])
prop("C23", "Kepler solvers converge for every admissible input",
     "For every mean anomaly and eccentricity (or state and elapsed time) in the documented domain the Newton iterations reach the default tolerance within the default iteration limit.",
     ["inputs"], "all admissible orbits and times",
     "Tests sample a few benign orbits.", [K], [("Newton iteration and starting guesses", K)], ["solve_kepler_*", "prop.kepler"])
prop("C24", "Floating-point error stays bounded near conic transitions",
     "Universal functions and everything built on them keep a bounded relative rounding error as the orbit approaches a parabola or the anomaly approaches zero.",
     ["inputs"], "alpha near 0, chi near 0, 32- and 64-bit arithmetic",
     "No test evaluates near-parabolic orbits.", [U], [("closed forms with cancellation", U)], ["twobody.ufunc2 .. ufunc5"])
prop("C25", "Numerical and analytic propagation agree",
     "With point-mass dynamics and default tolerances, Cowell propagation agrees with the analytic propagator to the requested accuracy for all orbits and times.",
     ["inputs"], "all orbits and end times", "Two orbits are compared.", [CW, KP], [("adaptive Runge-Kutta integration", CW)], ["prop.to_final", "prop.kepler"])
prop("C26", "Event termination locates the crossing accurately",
     "When the radius event fires, the final saved state lies on the threshold radius to within one accepted step, and propagation never continues past an undetected crossing.",
     ["inputs"], "all orbits and thresholds", "One event with tolerance 1e-2.", [CW, EV], [("event handling of the ODE solver", CW)], ["prop.*", "events.radius_islow"])

prop("C27", "The representation of a number does not change the result",
     "Every public numerical function accepts its scalar arguments as Python integers or floats and all its arguments as NumPy or JAX arrays of integers or floats, all together or mixed with other representations, and returns the value it returns for the same numbers given as floating-point JAX arrays: no call fails because an argument has an integer type, no arithmetic between Python numbers follows other rules than the array arithmetic it stands for (a negative number to a fractional power, a division by zero), and no intermediate result is truncated to the integer type of an argument. Overflow of the integer type the caller chose and mixtures of different floating-point widths are out of scope.",
     ["inputs", "configurations"], "all argument values that are integers, all mixtures of Python, NumPy and JAX representations",
     "Tests pass floating-point literals almost everywhere; ufunc0, ufunc1 and the universal Kepler equation raised a TypeError for an integer anomaly with all tests passing.",
     ALL, [("lax.cond / while_loop branches of equal element type; buffers created with the type of an argument", "all modules")], ["every public numerical function"])
prop("C28", "Ordinary units stay inside the range of 32-bit floats",
     "In the default 32-bit mode the choice of an ordinary unit system never drives an intermediate value of a public function out of the range of the floating-point type: for orbits around an Earth-like body up to geostationary altitude in metres or kilometres with seconds, and (for functions that take no body radius) for heliocentric orbits in kilometres, no intermediate quantity overflows to infinity or underflows to zero because of the power of length and time it carries.",
     ["inputs", "configurations"], "all public functions, the listed unit systems; intermediates outside solver loops",
     "Tests use canonical units or pin the overflowed result: the test of the J3 and J4 accelerations in metres compares two zeros.",
     ALL, [("powers of radii, gravitational parameters and times on the path to a result", "all modules")], ["every public numerical function"])

prop("C29", "Roots and inverse functions are never evaluated on rounding noise",
     "For every admissible input, each square root, inverse cosine, inverse sine, inverse hyperbolic function and logarithm outside the solver loops of a public function receives an argument whose computed value lies in its domain, so that no rounding error alone turns a result into NaN; and none is evaluated where its argument is the difference of two nearly equal computed terms which the inputs themselves determine far more accurately (an angle from the inverse cosine of a unit vector's component, an eccentricity from 1 - p/a, a sine from 1 - cos^2), where the result would lose half of the digits of the inputs.",
     ["inputs"], "all admissible inputs, 32- and 64-bit arithmetic; roots, inverse trigonometric and hyperbolic functions and logarithms outside solver loops",
     "Whether rounding crosses the edge of a domain depends on the last bits of the input: states at an apsis or nearly circular, equatorial or aligned orbits. The tests use generic states; on the original tree the inclination of nearly equatorial orbits lost half of its digits and every test passed.",
     ALL, [("inverse trigonometric functions and roots", "all modules")], ["every public numerical function"])
prop("C30", "An input that is not a number never becomes an ordinary result",
     "If a number among the arguments of a function with numeric results (formulas, element conversions, gravity models, events, universal functions, transition matrices, Kepler solvers with an iteration limit of at least one, analytic propagator) is NaN, every component of the result that depends on it is NaN: no guard, default, clip, maximum, branch or early loop exit replaces it by an ordinary number or an infinity. Predicates and the revolution count, and the tolerance and iteration limit of solvers, are excepted. Likewise the orbital period and the mean anomalies are NaN, not a number, for a semimajor axis of the wrong sign.",
     ["inputs"], "every argument of every numeric function, all values of the others",
     "Tests pass valid numbers only; comparisons with NaN are false, so a branch or a loop condition quietly takes one side and returns a plausible number.",
     ALL, [("branches and comparisons on data paths", E), ("loop condition of the universal solver", K)],
     ["all numeric public functions"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in out:
        f.write(json.dumps(p) + "\n")
