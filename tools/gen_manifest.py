#!/usr/bin/env python3
"""writes MANIFEST.json from the properties list and the checks that exist"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "P01": ("abstract interpretation (gated value numbering) of each operator's forward/adjoint closures to symbolic index kernels; conjugate-transpose equality of canonical kernels",
         "Every constructor in cr.sparse.lop with symbolic sizes/data; undecided instances are listed in the evidence and stay quiet. Floating-point rounding and dtypes are abstracted."),
 "P02": ("abstract interpretation with uninterpreted operand operators; value-number / canonical-kernel equality with the algebraic specification; loop-recurrence rule for powers",
         "All combinators, arithmetic syntax, matrix forms and column extraction, vectors and matrices, symbolic sizes; exponents for all p by recurrence."),
 "P03": ("symbolic shape inference, boolean trait implication, conjugation-invariance and column-wise analysis over the operator summaries",
         "All constructors and combinators with symbolic sizes; jit_safe of base operators is only propagated, not derived."),
 "P04": ("abstract interpretation of each solver to loop recurrences; Houdini-style inference of inductive equalities between loop-carried values; value-number equality of residual with y - A x; separating history on difference",
         "72 solver configurations (matrix/operator, real/complex, limits, bases) with symbolic data; LSQR's norm recurrence is refutation-only; exact arithmetic."),
 "P05": ("loop-recurrence extraction by abstract interpretation; affine counter analysis (initial value, per-branch increment) and guard falsification by substitution of counter >= limit",
         "All iterative solver configurations, all limits symbolically; inner line-search loops are not claimed."),
 "P06": ("effect analysis of operator applications with path conditions and loop nesting; ghost-counter recurrences compared with the reported counters (base and per-branch step equality)",
         "All solvers reporting counts (SPGL1, L1-LS, YALL1, LSQR, SPG function/gradient calls); SPG's projection-call count is outside the claim."),
 "P07": ("alias/decorator resolution of compiled names; interprocedural binding-time analysis (traced vs compile-time values) with sinks for every construct that needs a concrete value",
         "Every compiled name, every operator constructor declared jit-safe, every smooth/prox/projection closure and the loop bodies of every public function; unknown callees are assumed traceable."),
 "P08": ("interprocedural typestate analysis of random keys (single-use resources): key identities through splits, indexing, loops, vmap/scan bodies and calls; ambient-generator, constant-key and hidden-state rules",
         "Every function and method of the package with opaque parameters; keys stored in containers the analysis cannot index count as fresh; draws made later by returned closures are not followed."),
 "P09": ("interprocedural ownership and effect analysis: stores through parameters, views, aliases, module- and class-level objects and captured variables; I/O and process-setting calls",
         "Every function, method and returned closure of the package; effects inside third-party code are limited to a list of mutating and I/O entry points."),
 "P10": ("value numbering of indicator and projector closures; ordering-cell case split against the closed-form projection; separating point on difference",
         "All exported sets with symbolic parameters; exact arithmetic; loop-based projections by recurrence rules or undecided."),
 "P11": ("value numbering plus symbolic reverse-mode differentiation of the value entry; equality with the gradient entry per ordering cell",
         "All exported smooth constructors and combinators with symbolic parameters, exact arithmetic."),
 "P12": ("value numbering of function/prox/combined entries; ordering-cell equality with closed-form proximal maps; loop-recurrence rules for sorted l1",
         "All exported prox constructors and builders, exact arithmetic."),
 "P13": ("scope and reaching-definition analysis, package-wide import/member tables, interprocedural record-type propagation and signature matching over the syntax trees; type checker (pyright) reports for third-party members",
         "Every module, function and branch of the package; calls on values whose type the analysis cannot identify are not claimed."),
 "P14": ("abstract interpretation of every catalogue constructor with symbolic key and sizes; value-number equality modulo inverse pairs; table/module/figure matching; separating point on difference",
         "Every catalogue entry; wavelet bases and the windowed wrapper as uninterpreted operators, wav file contents as arbitrary arrays."),
 "P15": ("symbolic value numbering of each public function over arbitrary data against a table of defining formulas; equality by normal form, branch cases and entrywise (index-symbolic) normal form; separating point on difference",
         "The functions in the table of vlib/props/p15.py with symbolic sizes; where the normal form does not settle equality the obligation is undecided and only a separating point is reported."),
 "P16": ("symbolic value numbering of start state, iteration body, stopping rule and result of every solver loop over an arbitrary loop state, compared with the published recurrence written as a specification over the same state; equality by normal form, branch cases and inferred loop invariants; on difference a separating reachable state",
         "Every solver and variant of the table in vlib/solve.py and vlib/props/p16.py; where the normal forms do not settle equality the obligation is undecided, and only a separating reachable state is reported. Exact arithmetic; convergence is not claimed."),
 "P17": ("symbolic value numbering of each generator over an arbitrary key (draws as uninterpreted arrays) and of laws over its result; equality by normal form, branch cases, entrywise normal form and constant folding; separating outcome of the draws on difference",
         "All exported generators; sizes symbolic where the construction allows, otherwise the listed sizes; the one-level filter bank of cr.wavelets as a trusted orthogonal transform."),
}
NA = {
 "P18": "convergence within an iteration budget is a statement about the limits and rates of floating point sequences; no static argument in reach bounds them. The per-iteration recurrence, the stopping rule and the iteration limit are decided under P16 and P05.",
 "P19": "exact recovery depends on numerical properties of the data (coherence, RIP constants) that static analysis of the program cannot bound; that each step performs the published selection and projection is decided under P16.",
 "P20": "rounding error over arbitrary scales needs value ranges of run-time data; all claimed checks argue in exact arithmetic.",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    extra = os.path.join(ROOT, "tools", "techniques.json")
    if os.path.exists(extra):
        d = json.load(open(extra))
        TECH.update({k: tuple(v) for k, v in d.get("checks", {}).items()})
        NA.update(d.get("not_applicable", {}))
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in TECH and os.path.exists(os.path.join(ROOT, "vlib/props/%s.py" % i.lower())):
            t, n = TECH[i]
            checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                           "technique": t, "level": "other", "level_note": n})
        else:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
    m = {"version": 1, "setup_cmd": "python3 -c 'import ast, sys; sys.exit(0 if sys.version_info >= (3, 8) else 1)'",
         "checks": checks, "not_applicable": na,
         "notes": "Pure-Python static analysis (standard library, plus numpy from the python3-vt environment to evaluate extracted value graphs at separating points); reads /repo/src and the installed cr.nimble sources, executes none of them."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


main()
