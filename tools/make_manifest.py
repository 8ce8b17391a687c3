#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
REF="exhaustive enumeration of a finite grid of inputs on the real code against an independent reference model of the equation (frozen published tables), every point compared"
T={
"V01":(REF,"Every point of the stated composition x temperature x density grid was run on the compiled library and compared with the reference equation with a rounding-error bound derived per point; supports of one, two and three components cover every pair term. Trusts the reference tables (frozen from the pinned tree, cross-checked against published values where derivable)."),
"V02":(REF,"As V01 for GERG-2008; every binary reducing pair, departure function and pure equation is exercised with a dominant weight somewhere in the grid."),
"V03":("exhaustive enumeration of a grid of states, thermodynamic identities as oracle","Every grid state satisfies the exact identities; derivative relations are decided by Richardson differences of what the code itself reports at neighbouring states with an error bound. Independent of the reference tables."),
"V04":("exhaustive enumeration of a grid of dilute states, ideal-gas laws as oracle","Every grid state satisfies the ideal-gas limits and the reference state; independent of the reference tables, except pure ideal-gas values taken from the code itself at the pure component."),
"V05":("exhaustive enumeration of a natural gas box, the two models against each other","Every gas of the box at every state: the two independent models agree within the stated bounds."),
"D01":("exhaustive enumeration of density calculations (composition x T x p x estimate x mode) against the reference equation","Every success in the enumerated space solves the equation and is stable. One instance runs all calculations of a composition and temperature one after the other, so leftovers of failures are part of the space."),
"D02":("exhaustive enumeration of special and ordinary input values, contract monitored on every call","Every combination of the value alphabets meets the failure contract."),
"D03":("exhaustive enumeration of the pipeline box; the root found is compared with a bracketing search on the reference isotherm","Every gas, temperature and pressure of the stated grid converges to the gas root."),
"D04":("exhaustive enumeration of stable states handed over as estimates","Every stable state of the grid is found again from its own density."),
"D05":("exhaustive enumeration of states x search modes; roots located on the reference isotherm","Every combination behaves as documented; statement limits the liquid search to where the pinned algorithm is reliable."),
"D06":("exhaustive enumeration of compositions x reduced temperatures x pressures; stable roots located on the reference isotherm","Every pressure of every enumerated isotherm at which a stable density exists is found, from the reduced temperature on at which the algorithm of each model is reliable."),
"H01":("explicit enumeration of all operation sequences up to a depth on the real objects, each compared with a fresh instance","All sequences over alphabets that collide in every cache key, all ordered pairs of inputs, all single-component drifts."),
"H02":("explicit enumeration of all operation sequences up to a depth, frame condition checked field by field at every step","All sequences over the alphabet."),
"H03":("stateless exploration of all interleavings of real calls, and of preemptions between machine instructions under a trap-flag scheduler","All merges of two and three programs, all placements of calls on two threads; single operations preempted at every machine instruction by complete operations of a second OS thread. Interleaving semantics only (no weak-memory reordering)."),
"H04":("explicit enumeration of all sequences of bad operations up to a depth, each followed by recovery and comparison with a fresh instance","All sequences over the alphabet of bad values."),
"K01":("exhaustive enumeration of sums around the thresholds and special values, in every position and from several prior states","Acceptance is decided for every enumerated composition through all four entry points."),
"K02":("exhaustive enumeration of ordered pairs of compositions against the reference model","Every component and every ordered pair of compositions of the set."),
"K03":("exhaustive enumeration of compositions scaled by every decade, exact-arithmetic oracle","Every component, pair and full composition at every decade of the number range."),
"K04":("exhaustive enumeration of compositions x the three ways to obtain the molar mass","All pures, pairs and large supports; molar masses also checked against chemical formulas."),
"F01":("explicit enumeration of all C call sequences up to a depth, in lock-step with the native type","All sequences over an alphabet of all exported functions; every getter and structure field compared after every call."),
"F02":("explicit enumeration of all create/use/free sequences over several handles under a checking allocator with fenced pages","All sequences up to the depth; allocations, frees, stray writes and null handles decided on the real library."),
"F03":("enumeration of compilers x C standards and of every exported function, field and enumerator; C programs compared with native runs","The built artefacts (header, static and shared library) are what is checked."),
"T01":("exhaustive enumeration of special-value combinations and operation sequences, built with overflow, bounds and debug checks","Every combination of the value alphabets returns; a panic, abort, crash or hang is attributed to its case."),
"T02":("enumeration of build configurations (optimization x run-time checks x feature, plus the crate's own profiles) over one workload","The workload gives the same results in every configuration."),
}
checks=[{"property":k,"quick_cmd":f"./check {k} quick","thorough_cmd":f"./check {k} thorough","technique":t,"level":"model_checking","level_note":n} for k,(t,n) in T.items()]
here=os.path.dirname(os.path.abspath(__file__))
ids=[json.loads(l)["id"] for l in open(os.path.join(here,"..","properties.jsonl"))]
assert sorted(ids)==sorted(T),set(ids)^set(T)
checks.sort(key=lambda c:ids.index(c["property"]))
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":[],
 "notes":"No hooks: everything is observed through the public Rust and C interfaces. ./check replay FILE runs the case of a replay file again."},
 open(os.path.join(here,"..","MANIFEST.json"),"w"),indent=1)
