#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
VG = "abstract interpretation to gated value graphs"
T = {
    "C01": (VG + ", algebraic normal-form equality, interval refutation", "proof", "recurrences, derivative identities and values at chi=0 / alpha=0 decided on the value graph of each universal function, per sign of alpha; real arithmetic, rounding not modelled"),
    "C02": (VG + ", algebraic normal-form equality", "proof", "returned state equals the Lagrange-coefficient map of the initial state for a symbolic generalized anomaly; conservation laws follow from the checked identities; that the anomaly satisfies Kepler's equation is C03"),
    "C03": ("loop-summary value graphs: exit condition, Newton step and argument flow compared with the documented equation", "proof", "partial correctness: what holds when the loop stops before its limit; convergence itself is not decided (C23)"),
    "C04": ("loop-counter dataflow: initial value, increment and bounding conjunct of every loop; recursion and Python-loop census", "proof", "bounds the number of iterations for every input including NaN"),
    "C05": ("parity typing of value graphs under time reversal, cancellation lint on starting guesses", "proof", "parity of guess, step and exit condition of every solver and of the propagation map; real arithmetic plus a structural cancellation rule"),
    "C06": (VG + ", algebraic normal-form equality, interval refutation", "proof", "each relation equals the textbook formula for all real inputs in its domain; rounding not modelled"),
    "C07": (VG + ", symbolic gradient of the potential, normal-form equality", "proof", "acceleration components equal the derivative of the potential; dependence on time and velocity excluded by free-symbol analysis"),
    "C08": (VG + ", shape inference, normal-form equality", "proof", "orthogonality, determinant, fixed axis, handedness and composition for symbolic angles; batch shapes up to rank 2"),
    "C09": (VG + ", normal-form equality", "proof", "state equals the perifocal map rotated 3-1-3 for symbolic elements"),
    "C10": (VG + ", normal-form equality, range analysis of angles, interval refutation", "proof", "closed forms of all six elements incl. quadrant selection; non-degenerate orbits only"),
    "C11": (VG + ", normal-form equality with sub-graph merging", "proof", "36 entries against Battin's analytic partials for symbolic states, elapsed time and mu"),
    "C12": (VG + ", predicate normal form with boundary-sensitive interval refutation", "proof", "predicates equal their documented geometric condition, including the boundary"),
    "C13": ("homogeneity (dimension) type inference over value graphs", "proof", "length/time dimension of every intermediate value of every public function"),
    "C14": ("shape inference and per-element value-graph comparison under renaming", "proof", "a finite list of batch shapes (rank <= 3, mixtures of batched and unbatched arguments), all values; other shapes are not enumerated"),
    "C15": ("taint analysis of would-be tracers over all paths", "proof", "no use of an argument-dependent value that needs its concrete value, on any path of any public function"),
    "C16": ("data-path analysis: detaching operations, rounding, custom rules, singular discarded select branches, interval evaluation of derivative graphs on branch surfaces", "proof", "structural part: nothing is cut on the data paths; the numerical accuracy of derivatives is not decided"),
    "C17": ("ownership and effect analysis", "proof", "stores to caller-, default- or module-owned objects and effectful calls on any path, import included"),
    "C18": ("element-type inference and constant inspection on data paths", "proof", "no narrowing conversion, precision option or truncated pi on any data path"),
    "C19": ("path exploration with opaque tokens; argument-flow equality at the ODE solve call site", "proof", "argument flow to diffrax.diffeqsolve on every path and every combination of passed and omitted arguments; diffrax itself is trusted"),
    "C20": ("path exploration; abstract evaluation of save, step-size and limit arguments at the solve call site", "proof", "configuration handed to diffrax.diffeqsolve on every path; diffrax itself is trusted"),
    "C21": (VG + ", normal-form equality, free-symbol analysis", "proof", "event value equals |r| - rmin for symbolic state and threshold"),
    "C22": ("name resolution over the import graph against the API reference, signature inspection", "proof", "all documented names, export lists, signatures and defaults"),
    "C27": (VG + ", element-type inference under changed argument types", "proof", "value graphs for integer, NumPy and Python arguments (all together, one at a time) equal those for floating-point arrays; integer overflow out of scope"),
    "C28": ("dimension-exponent inference over value graphs, interval refutation", "proof", "power of length and time of every intermediate outside solver loops, in three unit systems"),
    "C29": ("bounds of computed arguments over value graphs, sensitivity analysis of cancelling terms", "proof", "roots, inverse functions and logarithms outside solver loops; cancellation elsewhere (C24) is not decided"),
    "C30": ("abstract interpretation of value graphs with a not-a-number element, loops to a fixed point; interval refutation", "proof", "for every (argument, result) pair NaN reaches the result on all branches; real arithmetic otherwise"),
}
NA = {
    "C23": "convergence of Newton's iteration from the given guesses is a statement about run-time iterates over an unbounded domain; no static argument in reach bounds the number of iterations needed (the iteration cap is C04, what holds at convergence is C03)",
    "C24": "floating-point rounding error near alpha=0 quantifies over run-time magnitudes; the closed forms do cancel there, and a sound static bound would only restate that",
    "C25": "agreement of an adaptive Runge-Kutta integration with the closed form is a run-time numerical quantity inside diffrax; the static parts (dynamics, tolerances, arguments) are C07, C19, C20",
    "C26": "location accuracy of an event crossing is decided by diffrax's step control at run time; the static parts (sign and arguments of the event, its forwarding) are C21 and C19",
}
checks = [dict(property=p, quick_cmd="python3-vt tool/check.py %s --tier quick" % p, thorough_cmd="python3-vt tool/check.py %s --tier thorough" % p,
               evidence_file="evidence/%s.json" % p, technique="static analysis: " + t, level=l, level_note=n) for p, (t, l, n) in T.items()]
m = dict(version=1, setup_cmd="python3-vt -c \"import numpy, mpmath\"", checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in NA.items()])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
