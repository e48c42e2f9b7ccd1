"""Property id -> check."""
import importlib

WHERE = {
    "C01": "codes", "C02": "codes", "C03": "codes",
    **{c: "tablefacts" for c in ("C05", "C06", "C07", "C09", "C10", "C11", "C12", "C13", "C14", "C15",
                                 "C16", "C17")},
    **{c: "logs" for c in ("C04", "C08", "C27", "C28", "C29", "C33")},
    **{c: "batches" for c in ("C18", "C19", "C20")},
    **{c: "models" for c in ("C21", "C22", "C23", "C32", "C34")},
    "C26": "shanten", "C31": "collect", "C35": "steps", "C36": "cli", "C24": "training", "C25": "training", "C30": "training",
}


def load(pid):
    mod = importlib.import_module("mjv.props." + WHERE[pid])
    return getattr(mod, pid)()
