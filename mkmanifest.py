"""Writes MANIFEST.json: every property with a check module is claimed."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NOTES = {
    "P01": "compares with a box table computed from the WMO box definition, at and around every edge; trusts the table in constants/wmo_boxes layout (columns: box, flags)",
    "P02": "compares with the contents of reference files that the check generates itself; single-level casts excluded",
    "P03": "exact integer/rational reference for every generated stamp",
    "P04": "direct statement of the property on generated sets of longitudes",
    "P05": "compares with scalar formulas written from the published definitions",
    "P06": "compares with an independent implementation of the three-stage selection; ties excluded by construction",
    "P07": "compares with an independent implementation over synthetic climatologies and casts; cases close to a decision boundary are excluded by construction",
    "P08": "compares with a level-by-level scan in plain Python",
    "P09": "compares with a dense linear-algebra solution; covariance kept well conditioned",
    "P10": "compares with entry-by-entry formulas; boundaries of the water-mass table included",
    "P11": "compares with scalar definitions computed with math.fsum",
    "P12": "whole mapping runs over synthetic databases, compared with an independent pipeline",
    "P13": "whole mapping runs in several steps over permuted, growing float files, compared with a single run",
    "P14": "compares with an independent implementation; near-ties excluded by construction",
    "P15": "compares with the normal equations solved independently, and with random perturbations of the optimum",
    "P16": "compares with an independent solution for prescribed breaks; optimality and criterion checked by independent search when they are open; searching for breaks beyond prescribed ones is excluded (known finding)",
    "P17": "compares with linear error propagation; Monte-Carlo errors compared in distribution; station statistics of several levels are compared with the exact known defect or the definition (known finding)",
    "P18": "whole calibration runs on synthetic mapped data, compared with an independent pipeline, and metamorphic relations",
    "P19": "histories of float files and series files, compared with a model of the file",
    "P20": "compares with direct indexing of a synthetic topography file whose values identify their place",
    "P21": "reads the drawn artists back from the figures and compares them with an independent computation",
    "P22": "reads the drawn artists back from the figures and compares them with an independent computation",
    "P23": "runs the whole chain in scratch directories and compares file contents before and after, and repeated runs",
    "P25": "reads the drawn artists back from the figure and compares them with the positions and shape files",
    "P26": "interrupts and ends of the process injected at generated points of whole runs, compared with runs that are not stopped",
    "P24": "metamorphic: the same world rotated by multiples of ten degrees",
}
TECH = {
    "P13": "stateful property-based testing: generated histories of runs against a single-run oracle",
    "P19": "stateful property-based testing: generated histories of runs against a model of the file",
    "P23": "property-based testing of whole runs: frame and reproducibility invariants on generated worlds",
    "P26": "property-based testing with injected faults: stops at generated points against uninterrupted runs",
    "P24": "metamorphic property-based testing of whole mapping runs",
}


def main():
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        ids = [json.loads(line)["id"] for line in f if line.strip()]
    checks, missing = [], []
    for pid in ids:
        if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
            checks.append({
                "property": pid,
                "quick_cmd": f"./check {pid}",
                "thorough_cmd": f"VERIF_TIER=thorough ./check {pid}",
                "evidence_file": f"evidence/{pid}.json",
                "technique": TECH.get(pid, "property-based testing (Hypothesis) against an independent reference model"),
                "level": "exploration",
                "level_note": "Random search over generated inputs, shrinking to a replay file; "
                              + NOTES[pid] + ". Shows no violation on the cases generated, not a proof.",
            })
        else:
            missing.append({"property": pid, "reason": "its check is not built yet"})
    manifest = {
        "version": 1,
        "setup_cmd": "./check setup",
        "checks": checks,
        "not_applicable": missing,
        "notes": "No hooks: the checks import the code from /repo as it is.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
