"""Writes MANIFEST.json from the table below (development helper)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
    "C28": "needs a relational argument over all ranks' interleavings of MPI calls; sequential contracts of one rank's code express no schedule (message passing itself is covered per rank in C12, C13)",
    "C29": "an error bound of floating-point Lanczos and iterative solvers; the verifier treats numbers as exact and no contract within reach bounds rounding through scipy and numpy",
}
checks = []
for p in props:
    pid = p["id"]
    if pid in NA:
        continue
    proof = os.path.exists(os.path.join(here, "contracts", pid.lower() + ".py"))
    if proof:
        tech = "contract-based deductive verification of the real source (pyvc: symbolic execution of /repo's AST against contracts, loop invariants by guess-and-check, z3 and exact ring normalisation)"
        note = "proof of the contracts listed in the evidence file; library contracts and exact arithmetic assumed; what the verifier does not reach is covered by a bounded stand-in (random cases on the real code), labelled bounded"
    else:
        tech = "bounded stand-in: real code executed on generated cases against independent contracts of every result"
        note = "bounded check only: generated cases, no proof"
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid}",
        "thorough_cmd": f"python3 check.py {pid} --tier thorough",
        "technique": tech,
        "level": "proof" if proof else "exploration",
        "level_note": note,
    })
m = {
    "version": 1,
    "setup_cmd": "python3-vt -c 'import z3, numpy' && /opt/venv/bin/python -c 'import numpy, scipy, sympy, bitarray, h5py'",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "fix: commits in /repo and the one unrepaired finding are listed in known-findings.txt",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
