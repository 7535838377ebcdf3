#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification, model checked with TLC; conformance: "
NOTE = {
    "C01": ("calls as non-atomic steps with work cells; TLC shows which placement of cells refines atomic calls and generates schedules; a cooperative scheduler built into user scalar and index types runs them (and free threads) on the real code, TLC validates each returned value against the value of the call",),
    "E01": ("spec/Rewrite, Fock, MC_Rewrite: rewriting rules checked against the Fock representation on all words up to a bound; traces of products of random words over random universes, all orders and groupings, are validated event by event by TLC (Trace_Expr)",),
    "E02": ("the stored form of every expression of a trace must be the canonical form the specification computes; == and emptiness are compared with equality in the specification; algebraic identities cancel many terms along different routes",),
    "E03": ("histories of a register machine chosen by TLC's simulator (MC_Expr) and at random are executed by the real code (also with sanitisers) and validated: every step changes its target only and to the specified value",),
    "E04": ("conjugation, double conjugation and the H.c. placeholder in traces; adjoint laws are invariants of MC_Expr/MC_Rewrite",),
    "E05": ("the same machine over 14 scalar types and mixtures; results must equal the exact rational-complex value, the promoted type is part of the state, refusal is allowed only where non-integer structure constants occur",),
    "E06": ("tables of all comparison operators over random universes are compared by TLC with the documented order; the order itself is proved total and transitive on a finite universe (MC_Order)",),
    "E07": ("user algebras declared by rule tables are interpreted both by the specification (UserAlgebra, confluence checked by MC_User) and by generators derived from the library's generator class; traces are validated by TLC",),
    "E08": ("each factory call in a trace must return the documented polynomial and coefficient type; defining relations are invariants of MC_Factories and are exercised as products in traces",),
    "E09": ("machine of monomials as value sequences (Monos, MC_Monos); histories chosen by TLC's simulator and at random; after each step the contents of all monomials and everything observable of one, including the printed text, must be what the specification determines",),
    "E10": ("the terms, their order and the printed text of every expression are determined by the specification's state (Text); iterations in both directions, recorded calls of transformation functions and texts are compared by TLC",),
    "E11": ("the units of the coefficient ring (integer quaternions, 2x2 matrices) are generators of an algebra of their own in the specification (Trace_Ring, consistency of the rules checked by MC_User), so that the order of multiplication of coefficients is part of every value; recorded histories with and without compound assignments, and actions on ring-valued state vectors, are compared exactly by TLC",),
    "H01": ("register machine of Hilbert spaces (HSpace, MC_HSpace); histories chosen by TLC and at random; after each step everything every object reports must be what the specification's state determines",),
    "H02": ("the n-th physical basis state is defined by the specification; complete, nested, abandoned and prefix enumerations recorded from the code are compared by TLC",),
    "H03": ("the set of elementary spaces required by the stored expression under every construction rule is computed by the specification and compared with the constructed object or the reported error",),
    "L01": ("matrix elements of products of generators in the occupation number basis defined by LinOp; images of states recorded from the real operator are compared by TLC",),
    "L02": ("operators with parameter-dependent coefficients: every way of evaluating and acting is compared with the specified plain operator at the argument values",),
    "L03": ("the state storage machine: histories of updates and actions over all storages and views; contents after each step are determined by the specification",),
    "S01": ("connected components of the specified matrix elements compared with the recorded partition, matrix elements and connections",),
    "S02": ("least coarsening computed by the specification's fixpoint compared with the recorded partition after every merge",),
    "S03": ("union-find machine: histories chosen by TLC and at random, every reported representative and count validated",),
    "V01": ("the sector is specified as the set of states with N fermions; the size must be its cardinality, the list and the translation of views of every ranking algorithm a bijection onto it, and every iteration a walk along that bijection",),
    "V02": ("the multisector is specified as the set of states with the given number of fermions in each sector; same obligations as V01",),
    "V03": ("the physical states are specified by HSpace; the view must be a bijection from them onto an initial range, inverse to its iteration",),
    "V04": ("reachable basis states computed by the specification compared with the mapper's contents; views over it as machines",),
}


def main():
    props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if not os.path.exists(os.path.join(ROOT, "checks", i + ".py")):
            na.append({"property": i, "reason": "no check has been built yet"})
            continue
        checks.append({"property": i,
                       "quick_cmd": "bin/check %s quick" % i,
                       "thorough_cmd": "bin/check %s thorough" % i,
                       "technique": T + NOTE[i][0],
                       "level": "model_checking",
                       "level_note": "The specification is explored by TLC within the bounds given in the evidence file; the real code is bound to it by validating recorded histories, so the verdict about the code covers the histories recorded (seeded, thousands of events per run), not all of them."})
    m = {"version": 1,
         "setup_cmd": "bin/setup",
         "checks": checks,
         "not_applicable": na,
         "notes": "Specification language: TLA+ (TLC). No hooks in /repo are needed: drivers in /verif/drivers use the public API of /repo/include only. Known and repaired defects: KNOWN_FINDINGS.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
