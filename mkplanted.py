"""Writes the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
MARK = "## Planted bugs\n"
INTRO = """
Each was written from a property's text and the code, keeps the stable tests green, and is kept whether caught or not; all of
them are caught by the quick check of their own property (seed 1). Missed at first, and what the check gained: `p24-carried`
(casts only on both flanks of Greenwich), `p23-remembered-boxes` (other tables under the same names), `p26-*` caught only by
luck (sweeps over places), `p18-numbers-of-first` and the like (limits as rows and columns), `p14`/`p21` bounds (values exactly
on and outside them), `p22` colours (every level of every anomaly). Mutation testing (all operators and constants of the
package, a sample of 700 of 7 300 mutants) was used in the same way.

| bug | needs |
|---|---|
"""


def main():
    path = os.path.join(here, "DESIGN.md")
    with open(path) as f:
        text = f.read()
    text = text.split(MARK)[0].rstrip("\n") + "\n\n"
    rows = []
    for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
        with open(f) as g:
            d = json.load(g)
        rows.append("| %s | %s |" % (os.path.basename(os.path.dirname(f)), d["needs"].replace("|", "/")))
    with open(path, "w") as f:
        f.write(text + MARK + INTRO + "\n".join(rows) + "\n")


if __name__ == "__main__":
    main()
