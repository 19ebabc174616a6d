"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "property-based testing against an independent tensor-product reference model with a derived rounding bound",
 "C02": "property-based testing against an independent nearest-index model (exact values, exact ties)",
 "C03": "property-based testing against an independent Hermite-spline reference model with a derived rounding bound",
 "C04": "property-based testing: one-sided limits of value and derivative, divided differences of sampled lines",
 "C05": "property-based testing: reproduction of generated polynomials",
 "C06": "property-based testing: node values, exact or to the rounding bound",
 "C07": "metamorphic property-based testing of the two extrapolation modes",
 "C08": "differential property-based testing of regular against rectilinear evaluators",
 "C09": "differential property-based testing of all entry points",
 "C10": "metamorphic and model-based property-based testing over batches and call histories",
 "C11": "metamorphic property-based testing under axis permutations",
 "C12": "metamorphic property-based testing: poisoning values outside the stencil",
 "C13": "metamorphic property-based testing under value and coordinate transformations",
 "C14": "property-based testing with generated malformed arguments against a validity predicate",
 "C15": "property-based fuzzing of floating-point content with a no-panic and NaN-propagation oracle",
 "C16": "property-based testing against a bounds predicate, and regular/rectilinear agreement",
 "C17": "property-based testing under a counting global allocator",
 "C18": "property-based testing with an operation-counting scalar type",
 "C19": "property-based testing with painted-stack measurement",
 "C20": "property-based testing against the piecewise-linear model",
 "C21": "property-based testing against exact neighbour rules",
 "C22": "differential property-based testing of three feature builds in one process",
 "C23": "property-based testing against the definition",
 "C24": "property-based testing (Hypothesis) against a NumPy/longdouble reference",
 "C25": "property-based testing (Hypothesis) with guarded output arrays, and reuse histories",
 "C26": "property-based testing (Hypothesis) against a bounds predicate",
 "C27": "property-based round-trip testing (Hypothesis)",
 "C28": "property-based testing (Hypothesis) with generated malformed calls",
 "C29": "stateful model-based testing (Hypothesis, generated operation sequences against a memo model)",
 "C30": "property-based testing of generated concurrent workloads against the sequential results",
 "C31": "property-based testing (Hypothesis) of generated concurrent workloads against the sequential results",
 "C32": "property-based testing against the definition of the containing cell",
 "C34": "differential property-based testing (Hypothesis) across interpreter configurations",
 "C35": "property-based testing with a double-double scalar and caller-defined grids against the definition",
 "C33": "metamorphic property-based testing across dimension counts",
}
N = {
 "default": "Exploration: thousands of generated cases per run, deterministic for a given VERIF_SEED, shrunk on failure. Shows the property on what was generated, not for all inputs. Trusts the harness's reference model and tolerances (DESIGN.md).",
 "C18": "Exploration. Counts scalar operations and comparisons only; limits are two to three times today's cost, so constant-factor slowdowns are not judged.",
 "C19": "Exploration. Measures real stack bytes of optimised x86-64 builds made on this machine, including a constant harness overhead.",
 "C30": "Exploration. Interleavings are whatever the machine's scheduler produces in repeated barrier-started runs; a failure may need several runs of its replay file.",
 "C31": "Exploration. Two thirds of the cases follow a generated, reproducible schedule at line or bytecode granularity of the package's Python code; the rest use a switch interval of a microsecond, and a failure among those may need several runs of its replay file. Compiled code holds the GIL.",
 "C17": "Exploration. Exact allocator counts on the calling thread; calls that panic are not judged.",
}
props = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
skip = json.loads(sys.argv[1]) if len(sys.argv) > 1 else {}
checks = []
for p in props:
    i = p["id"]
    if i in skip:
        continue
    checks.append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration", "level_note": N.get(i, N["default"])})
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in skip.items()],
     "notes": "No hooks in /repo are needed: every check uses the public API. /repo carries only fix: commits, listed in known_findings.txt."}
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks))
