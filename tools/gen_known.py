"""Writes known_findings.txt (committed; never written by a check)."""
import json, subprocess
FIXED = [
 ("C04", "66da36e", "find_heuristic_1pc raised TypeError on every graph with an edge outside the pure children's cliques"),
 ("C05", "66da36e", "find_heuristic_1pc raised TypeError (unhashable array) instead of returning a structure"),
 ("C01", "5e39d3f", "covers reconstructed after reduction rule 3 missed edges or contained non-cliques"),
 ("C02", "5e39d3f", "rule 3 applied where its premise fails, so covers were not minimum on graphs with 5 and 6 vertices"),
 ("C01", "dfb47ea", "the depth limit returned partial covers"),
 ("C12", "ad808ac", "the dependence graph was computed from 1 - r instead of 1 - r^2 of the covariances, so it depended on the units"),
 ("C09", "8fd854e", "sample.mcm drew its structure from the module's default generator instead of the given one"),
 ("C22", "bd148ea", "after the first validation every epoch trained in evaluation mode"),
 ("C22", "7d4415f", "training.log was written beside the model's directory if its path has no trailing slash"),
 ("C22", "54b6503", "data were not standardized when split indices were given"),
 ("C23", "d38218c", "DevMedil.sample refused fitted models"),
 ("C14", "d8ded5e", "dcov left out the diagonal and one triangle of the distance matrices"),
 ("C19", "bd56fdc", "the decoder's hidden layers were not registered parameters"),
 ("C21", "fb6f7ff", "the loss used the determinant instead of the log-determinant"),
 ("C23", "2e7442f", "the objectives let error variances become negative; the least squares estimate took their absolute values, which do not minimize it, and the likelihood estimate kept negative variances"),
 ("C02", subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "-1", "--grep=beyond its size bound"], capture_output=True, text=True).stdout.strip(), "branch accepted covers with one clique more than allowed (visible with a larger depth limit, e.g. branch(..., iteration_max=99) on 8 vertices)"),
]
r = json.load(open("/tmp/x/kf.json"))
with open("/verif/known_findings.txt", "w") as f:
    for p, c, w in FIXED: f.write(f"fixed: property={p} {c} {w}\n")
    f.write("# Open: the clique cover search gives up minimality once it reaches its depth limit (iteration_max=3, call in find_clique_min_cover) and completes the\n# cover greedily; without the limit it does not terminate in reasonable time on the repository's own 20-vertex tests.  Inputs: vertices:upper triangle, row by row.\n")
    for n, b, m in r: f.write(f"open: property=C02 input={n}:{b} {m} (depth limit)\n")
