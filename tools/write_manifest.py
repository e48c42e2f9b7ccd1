"""Writes /verif/MANIFEST.json.  Run by hand when the list of checks changes."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEARCH = ("Search, not proof: no counterexample among the generated cases counted in the evidence file. "
          "Trusts the reference in mjv/ref")
MODEL = "property-based testing: generated legal rounds against a reference replay of the log"
REL = "metamorphic property-based testing over generated logs"

CHECKS = {
    "C01": ("exhaustive generated-input test against a reference decoder", "Every legal meld code is tried; "
            "trusts the reference decoder written from the published log format."),
    "C02": ("exhaustive generated-input test: canonical codes against reference call identity",
            "Every legal meld code and every meld description is tried; call identity is taken from the "
            "reference decoder."),
    "C03": ("exhaustive generated-input test: slot collisions against reference call identity",
            "Every legal meld code is tried, compared through the reference decoder."),
    "C04": ("property-based testing: generated game types, disconnections and broken headers against a "
            "reference filter", SEARCH + " for legal rounds and the flag values of the game type. All 256 low "
            "type values are tried in every run."),
    "C08": (REL + ": every log against its cut and continued versions", SEARCH + " only to generate legal rounds."),
    "C18": ("property-based testing: training samples decoded and compared with the reference replay",
            SEARCH + "; slots are taken from the repository's own slot function, which C03 decides."),
    "C19": ("property-based testing: sample tensors decoded field by field and compared with the reference "
            "replay, plus injectivity over pairs", SEARCH + "; the tensor layout of each architecture is written "
            "down in mjv/props/batches.py."),
    "C20": ("metamorphic property-based testing: batches of games against their rounds one by one",
            SEARCH + " only to generate legal rounds."),
    "C21": ("property-based testing: generated batches and random parameters, scores against a recomputed "
            "masked cross-entropy, and permutation / sub-batch relations",
            "Search over generated batches and parameters; float comparisons with stated tolerances."),
    "C22": ("metamorphic property-based testing: pairs of generated events through the encoder",
            "Search over generated event pairs, positions and parameters; attention blocks are replaced by "
            "pass-through modules so that the embedding is observed alone."),
    "C23": ("metamorphic property-based testing: rotated seats through the encoder",
            "Search over generated histories and parameters; float comparisons with stated tolerances."),
    "C24": ("property-based testing: generated directories of good and bad files against a reference "
            "list of deliverable games", SEARCH + " for the legal games; what a file yields is what processing "
            "it alone yields."),
    "C25": ("stateful property-based testing: generated histories of training runs with injected "
            "interruptions against a model of the checkpoint directory",
            "Search over directories and histories of up to three runs; interruptions are exceptions raised "
            "in the model, before, in and after saving."),
    "C26": ("property-based testing: generated hands against a reference shanten search",
            SEARCH + ", which was compared with an independent library when it was written."),
    "C27": ("fault-injecting property-based testing: one corruption per generated legal log",
            SEARCH + " to decide that the corrupted log is inconsistent."),
    "C28": (REL + ": rounds alone, reordered, repeated, and after other games", SEARCH + " only to generate "
            "legal rounds."),
    "C29": (REL + ": suits, copies and seats relabelled", SEARCH + " only to generate legal rounds."),
    "C30": ("stateful property-based testing: generated validation sets and sequences of estimates and training "
            "steps, against the loss computed anew", "Search over sets, batch sizes, parameters and histories of "
            "up to three estimates; float comparisons with stated tolerances."),
    "C31": ("fault-injecting property-based testing: generated archives, pages and failing downloads against a "
            "reference list of files", "The scripts run as an unprivileged user in a scratch directory; the web is "
            "a recording stand-in for the requests module."),
    "C32": ("differential property-based testing: restored against original model, gradients against slopes "
            "measured by finite differences", "Search over games and parameters; a slope is judged only where two "
            "step widths agree on it."),
    "C33": (REL + ": every log against generated rewritings of itself", SEARCH + " only to generate legal rounds."),
    "C34": (REL + ": every game against the game with one fact changed, through models with random parameters",
            "Search over games, facts and parameters; using a fact is decided by six draws of parameters."),
    "C35": ("stateful testing of training runs with stand-in models of known losses against a textbook optimiser, "
            "and " + REL + ": a batch's losses with the weights changed in between against fresh ones",
            "Search over runs of up to some thousand updates; the schedule's far end is not reached."),
    "C36": ("property-based testing of the program with generated argument lists and directories, against an "
            "expectation of checkpoints, architectures, games and log",
            "Search; the program runs in a fork with its arguments in sys.argv."),
}
for c in ("C05", "C06", "C07", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17"):
    CHECKS[c] = (MODEL, SEARCH + " for what is right at each decision point, and mjv/ref/sim for legal rounds.")


def main():
    props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    out = {"version": 1,
           "setup_cmd": "./check --self-test",
           "checks": [], "not_applicable": [],
           "notes": "One runner: ./check <property> [quick|thorough] [--replay FILE]. No build step: the checks "
                    "import /repo's working tree. See DESIGN.md."}
    for p in props:
        t, note = CHECKS[p]
        out["checks"].append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
                              "evidence_file": f"evidence/{p}.json", "technique": t, "level": "exploration",
                              "level_note": note})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")
    assert not set(CHECKS) - set(props)


main()
