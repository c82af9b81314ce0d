"""Writes MANIFEST.json from properties.jsonl (run after adding a property)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
TECH = {
    "C01": "runtime monitoring: every reported row re-derived by an independent reference model over generated experiments",
    "C02": "runtime monitoring: set of reported reflections against independent enumeration of all Laue solutions (exactly-once)",
    "C03": "runtime monitoring: illumination oracle over histories of beam changes and scans",
    "C04": "runtime monitoring: closed-form oracle on each reported factor and validity filter",
    "C05": "runtime monitoring: independent reflection conditions and structure-factor sums over phase re-use histories",
    "C06": "runtime monitoring: metric-tensor oracle on observed scattering vectors, provoked refusals",
    "C07": "runtime monitoring: closed-form rigid-motion oracle and group laws over every call shape",
    "C08": "runtime monitoring: shadow state machine over histories of moves, invariants after every step",
    "C09": "runtime monitoring: metamorphic relations between paired executions",
    "C10": "runtime monitoring: independent ray-plane oracle and exact keep/drop partition of rows",
    "C11": "runtime monitoring: conservation and exactly-once monitor over frame stacks",
    "C12": "runtime monitoring: conservation, moments and superposition monitor on rendered frames",
    "C13": "runtime monitoring: conservation, profile and batch-independence monitor on rendered frames",
    "C14": "runtime monitoring: exact polyhedron projection oracle on rendered frames",
    "C15": "runtime monitoring: exactly-once routing monitor and differential rendering",
    "C16": "runtime monitoring: exact polyhedron clipping oracle, CPU starvation faults",
    "C17": "runtime monitoring: behavioural equality of original and reloaded objects over histories, fresh processes",
    "C18": "runtime monitoring: snapshots of all inputs around every call, interleaved and threaded histories",
    "C19": "runtime monitoring: geometric oracle on template objects and on simulated experiments",
    "C20": "runtime monitoring: tiling oracle and statistical monitors with fixed error bounds on sampled orientations",
    "C21": "runtime monitoring: exact geometry oracle on every mesh quantity",
    "C22": "runtime monitoring: detector model oracle and no-loss monitor under automatic bounds",
    "C23": "runtime monitoring: trace checker over call sequences with injected GPU availability",
    "C24": "runtime monitoring: differential execution under injected memory reports, failures and verbosity",
    "C25": "runtime monitoring: refusal monitor with state comparison before and after refused calls",
    "C26": "runtime monitoring: differential execution of experiments given in different storage and call forms",
}
NOTE = ("Held on the executions generated for the seed (counts, events and distinct signatures in the evidence file); no statement about inputs "
        "not generated. Trusts the numpy/scipy reference model in xrdmon (written from the mathematics, not from the code), the tables of xfab, "
        "and CPU double precision; no GPU is exercised.")


def main():
    props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
    checks = [dict(property=p["id"], quick_cmd=f"{PY} run.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough {PY} run.py {p['id']}",
                   evidence_file=f"evidence/{p['id']}.json", technique=TECH[p["id"]], level="exploration", level_note=NOTE) for p in props]
    manifest = dict(
        version=1, setup_cmd=f"{PY} -c 'import numpy, torch, scipy, xfab' && mkdir -p evidence",
        hooks=dict(guard="XRDMON_HOOKS (no hook was needed: every monitor observes the public boundary or wraps functions at run time)",
                   enable="nothing to enable; the checks import xrd_simulator from /repo's working tree", source_commits=[]),
        checks=checks, not_applicable=[],
        notes="Genuine defects found were repaired in fix: commits, listed in known_findings.txt. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
