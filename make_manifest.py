"""Writes MANIFEST.json (the list of checks lives here)."""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
TECHNIQUES = {
    "C01": "PBT: row-coded datasets decode each minibatch row", "C02": "PBT over histories: byte snapshots of inputs and earlier batches",
    "C03": "PBT: differential streams over interleavings of generators and global RNG use", "C04": "PBT: statistical visiting and independence tests on generated streams",
    "C05": "PBT: round trip against numpy reshape", "C06": "PBT: differential against numpy.median", "C07": "PBT: differential against scipy.spatial.distance",
    "C08": "PBT over the float range: envelope of the exact quotient and root", "C09": "stateful PBT: set model over several sessions",
    "C10": "PBT: stepsize schedules with call counting, reference models", "C11": "model-based PBT: numpy SGHMC driven by the observed noise",
    "C12": "model-based PBT: numpy SGLD driven by the observed noise", "C13": "model-based PBT: relativistic equations and speed limit",
    "C14": "model-based PBT: numpy SVGD, permutation relation", "C15": "model-based PBT around the end of burn-in with batch-given gradients",
    "C16": "metamorphic PBT: reruns with the same seed, other graphs, RNG states and thread counts", "C17": "PBT with statistical oracle on innovations",
    "C18": "PBT over injected schedules (delays in the cost's graph, thread counts) against the reference models",
    "C19": "stateful PBT: histories of steps and assignments against the models", "C20": "stateful PBT: recorded minibatch and feeds determine cost and step",
    "C21": "differential PBT: factory against direct construction", "C22": "PBT over targets and hyperparameters, statistical oracle of moments and stationarity",
    "C23": "PBT with goodness-of-fit oracle against the integrated density", "C24": "PBT: round trips and closed forms", "C25": "PBT: metamorphic relations of model bookkeeping",
    "C26": "PBT: closed forms of the priors", "C27": "PBT: numpy recomputation of every training cost", "C28": "PBT: collected networks located in the recorded chain",
    "C29": "PBT: predictions recomputed from the collected networks, subset relations", "C30": "metamorphic PBT: repeated and rescaled training",
    "C31": "PBT: generated invalid and valid settings and calls", "C32": "stateful PBT: list model of traces", "C33": "PBT over histories: recorded against watched chains and identical twins",
    "C35": "stateful PBT with injected faults: parameters and chain against the models", "C36": "stateful PBT: snapshots of all variables, chains of old and new samplers against the models",
    "C37": "PBT over invalid arguments at any point of a chain", "C38": "differential PBT against a numpy network, statistical oracle of initial weights",
    "C39": "PBT: predicates against constructors", "C40": "PBT over regression problems, statistical end-to-end oracle",
    "C41": "model-based PBT: numpy samplers driven by complex-step gradients, recorded minibatches and observed noise",
    "C42": "metamorphic PBT: the same data in another representation", "C43": "PBT over data sets and settings, statistical oracle: the exact posterior",
    "C44": "PBT over histories: graph size and weak references after many steps and predictions",
    "C45": "PBT over thread schedules: generated turns, differential against running alone",
    "C46": "PBT: log records against numpy recomputation on the recorded chain",
    "C47": "differential PBT: settings left out against their documented defaults given",
    "C34": "differential PBT: closed forms and log densities",
}
NOTES = {
    "C04": "Bounds chosen so that a correct implementation fails with negligible probability.",
    "C07": "One finding is listed (type of the empty result for a single float64 observation).",
    "C11": "Noise is read from the graph's random operations; cases where it cannot be attributed are only checked for structure.",
    "C17": "Bounds at many standard errors: small deviations of the noise distribution are not seen.",
    "C40": "Bounds far above typical errors: only gross failures of learning are seen.",
    "C43": "Limits at about seven standard errors of what correct chains show.",
    "C22": "Moments within generous bounds; a bias below about 15 % of the target's variance is not seen.",
}


def main():
    titles = {}
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        titles[p["id"]] = p
    checks = []
    for ident in sorted(titles):
        note = "Sampled evidence over generated cases (counts in the evidence file); trusts numpy/scipy, TensorFlow and the reference model in pbt/."
        checks.append({
            "property": ident, "quick_cmd": "bash check.sh %s" % ident, "thorough_cmd": "bash check.sh %s thorough" % ident,
            "evidence_file": "evidence/%s.json" % ident, "technique": TECHNIQUES[ident], "level": "exploration",
            "level_note": (NOTES.get(ident, "") + " " + note).strip()})
    manifest = {
        "version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
        "notes": "No hooks in /repo: all checks observe public behaviour. The thorough tier (also: VERIF_TIER=thorough) multiplies the number of cases.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)


main()
