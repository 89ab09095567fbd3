#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json
T = {
 "C01": ("model-based histories against a plain table", "edits and reads of dense matrices up to about 40 rows, finite entries"),
 "C02": ("model-based histories against a plain table, every storage and conversion route", "sparse patterns and envelopes of random shape"),
 "C03": ("differential against dense arithmetic in exactly representable numbers", "every pair of ten storages; no rounding allowance is needed"),
 "C04": ("round-trip: factors are multiplied back; metamorphic inertia count", "matrices made from known factors, so that they are factorable"),
 "C05": ("residual and differential oracle, dirty output buffers", "triangular matrices with diagonal entries away from zero"),
 "C06": ("residual oracle against the given system, solvers against each other", "systems judged below a condition bound computed by the harness"),
 "C07": ("exact integer determinant; round-trip of inverses", "inverses judged below condition 1e7"),
 "C08": ("reference graph model (breadth-first search), permutation laws", "graphs of up to about 80 vertices"),
 "C09": ("differential against a Jacobi eigensolver, request histories", "spectra within seven orders of magnitude"),
 "C10": ("assembly histories against one-step assembly, renumbering relation", "diagonally dominant systems"),
 "C11": ("exact polynomial integrals", "polynomials of the promised degree"),
 "C12": ("independent constant-strain triangle theory, metamorphic relations", "axisymmetric elements by the three-point rule the code documents"),
 "C13": ("independent consistent mass, metamorphic relations", "axisymmetric elements by the three-point rule the code documents"),
 "C14": ("reference load vector observed through the public solver", "one force per node and one line load under each name of an edge"),
 "C15": ("differential against an independent finite-element solution; patch test", "bodies with condition number below 1e10"),
 "C16": ("set model of constraint histories, transpose/energy relations, text round-trip", "any constraint sequence on a node"),
 "C17": ("tensor definitions, independent stress recovery, patch test", "arbitrary displacement fields through a prepared solver"),
 "C18": ("differential against a dense eigensolution; metamorphic relations", "spectra within seven orders of magnitude"),
 "C19": ("exact integer arithmetic for predicates, plain vectors for points", "answers within rounding of a boundary are not judged"),
 "C20": ("every pixel of decoded images against a reference rasterisation", "points near pixel ties are drawn but not judged"),
 "C21": ("order, continuity and symmetry relations over pairs of numbers", "any floating-point number"),
 "C30": ("model-based histories of additions, refusals and solutions against a plain record", "whole coordinates, so that flat elements are flat exactly; several different angles on a node are left to C16"),
}
try:
    import os, sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from manifest_full import T2
    T.update(T2)
except ImportError:
    pass
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks = []
for p in props:
    t, n = T[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
        "technique": "property-based testing (proptest, generated cases with shrinking): " + t,
        "level": "exploration",
        "level_note": "Held on every generated case of the run; nothing is said about cases not generated. " + n[0].upper() + n[1:] + "."})
json.dump({"version": 1, "setup_cmd": "./check build", "checks": checks, "not_applicable": [],
    "notes": "No hooks in /repo are needed: checks compile a staged copy of /repo/src (stage.py) whose modules are made public. Defects found and repaired are in KNOWN_FINDINGS.txt."},
    open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks))
