"""C24, C25: the data loader and the training runs."""
import collections
import copy
import hashlib
import os
import re
import shutil
import tempfile

import numpy as np

from .. import core
from ..core import Violation
from ..ref import mjlog, sim
from . import archs, common, logs
from .common import dump_turn, gen_game, process_text

SCRATCH = "mjv-data-"


def quiet(*a, **k):
    pass


def game_key(turns, tokens):
    """What a game delivers, as a digest."""
    return core.h64([[dump_turn(t) for t in ts] for ts in turns] + [common.ints(tk) for tk in tokens]).hex()


# ------------------------------------------------------------------ files
BAD = ("type", "bye", "cut", "empty", "binary", "inconsistent", "directory", "no type", "gone", "link",
       "not a log", "encoding")


def gen_usable(tape, most=25):
    """A usable game in which at least one tile is discarded (an empty tape makes one)."""
    g, _ = gen_game(tape, tape.pick([1, 1, 1, 2]), lambda t: t.pick(["plain", "calls", "riichi", "mixed"]),
                    overtime=False, max_events=4 + tape.below(most))
    text = mjlog.to_xml(g)
    if not re.search(r"<[DEFG]\d", text):
        g, _ = gen_game(sim.Tape(b""), 1, "plain", overtime=False, max_events=6)
        text = mjlog.to_xml(g)
        assert re.search(r"<[DEFG]\d", text)
    return {"kind": "usable", "text": text}


def gen_bad(tape, kind):
    g, _ = gen_game(tape, 1, "plain", overtime=False, max_events=4 + tape.below(20))
    text = mjlog.to_xml(g)
    if kind == "type":
        text = mjlog.to_xml(dict(g, type=tape.pick([t for t in range(256) if not logs.usable_type(t)])))
    elif kind == "bye":
        i = text.rindex("<")
        text = text[:i] + '<BYE who="1"/>' + text[i:]
    elif kind == "cut":
        text = text[:1 + tape.below(len(text) - 12)]
    elif kind == "empty":
        text = ""
    elif kind == "binary":
        text = "".join(chr(tape.below(256)) for _ in range(1 + tape.below(60)))
    elif kind == "inconsistent":
        k = tape.pick(logs.C27.KINDS[:8])
        ev = logs.C27().corrupt(tape, k, g["rounds"][0])
        if ev is None:
            ev = logs.C27().corrupt(tape, "hand double", g["rounds"][0])
        text = mjlog.to_xml(dict(g, rounds=[ev]))
    elif kind == "no type":
        text = mjlog.to_xml(dict(g, go=False))
    elif kind == "not a log":
        text = "<html><body>busy</body></html>"
    elif kind == "encoding":
        text = '<?xml version="1.0" encoding="no-such"?>' + text
    return {"kind": kind, "text": text}


def write(folder, name, f):
    path = os.path.join(folder, name)
    if f["kind"] == "directory":
        os.mkdir(path)
        with open(os.path.join(path, "inner.xml"), "w") as o:
            o.write(f["text"])
    elif f["kind"] == "link":
        os.symlink(os.path.join(folder, "nowhere", name), path)
    else:
        with open(path, "wb") as o:
            o.write(f["text"].encode("latin-1" if f["kind"] == "binary" else "utf-8"))
    return path


def deliverable(files):
    """Digest of what each usable file yields alone."""
    out = []
    for f in files:
        if f["kind"] == "usable":
            try:
                out.append(game_key(*process_text(f["text"])))
            except core.Hang:
                raise
            except BaseException as e:
                raise Violation(f"a legal log is refused: {type(e).__name__}: {e}")
    return out


class C24(core.Check):
    id = "C24"
    rule = ("One evaluation is a directory of usable and unusable files (refused, disconnected, cut, empty, "
            "binary, inconsistent, directories, files that vanish ...) in a generated listing order, a batch "
            "size, and a history of complete and abandoned passes. Non-trivial: at least two usable and one "
            "unusable file.")
    assumptions = ["what a file yields is what processing it alone yields"]
    quick = 1200
    thorough = 20000
    tape_len = 5000

    def setup(self):
        import MahjongAI.utils.dataloader  # noqa: F401

    def shard(self, ctx):
        def body(data):
            return ctx.try_case(self.gen(sim.Tape(data)))
        core.tapes(ctx, ctx.my_cases(), self.tape_len, body)

    def gen(self, tape):
        n = tape.pick([4, 5, 6, 7, 3, 8, 2, 9, 1, 0])
        bad = tape.pick([90, 128, 60, 200, 0])
        size = 1 + tape.below(5)
        passes = [["all"] if tape.chance(140) else ["some", 1 + tape.below(3)] for _ in range(tape.below(3))]
        other = tape.chance(60)
        order = tape.below(1 << 16)
        files = []
        for _ in range(n):
            if tape.chance(bad):
                files.append(gen_bad(tape, tape.pick(BAD)))
            elif files and tape.chance(12):
                files.append(copy.deepcopy(tape.pick(files)))
            else:
                files.append(gen_usable(tape, 12))
        return {"files": files, "size": size, "passes": passes + [["all"]], "other": other, "order": order}

    def smaller(self, case):
        fs = case["files"]
        for i in range(len(fs)):
            yield dict(case, files=fs[:i] + fs[i + 1:])
        if len(case["passes"]) > 1:
            yield dict(case, passes=case["passes"][1:])
        if case["other"]:
            yield dict(case, other=False)
        if case["size"] > 1:
            yield dict(case, size=1)

    def check_case(self, case, stats=None):
        want = collections.Counter(deliverable(case["files"]))
        folder = tempfile.mkdtemp(prefix=SCRATCH, dir=".")
        try:
            rng = np.random.default_rng(case["order"])
            names = [f"{int(rng.integers(1 << 30)):08x}-{i}" + ("", ".xml", ".log", ".gz")[int(rng.integers(4))]
                     for i in range(len(case["files"]))]
            for name, f in zip(names, case["files"]):
                write(folder, name, f)
            self.passes(case, folder, [names[i] for i in rng.permutation(len(names))], want)
        finally:
            shutil.rmtree(folder, ignore_errors=True)
        if stats is not None:
            bad = [f["kind"] for f in case["files"] if f["kind"] != "usable"]
            for k in bad:
                stats.note("unusable: " + k)
            stats.note(f"{len(case['passes'])} passes, batches of {case['size']}")
            stats.case(case, len(want) >= 2 and bad,
                       lambda: {"kinds": [f["kind"] for f in case["files"]], "size": case["size"],
                                "passes": case["passes"]})

    def passes(self, case, folder, order, want):
        from MahjongAI.utils.dataloader import DataLoader
        real = os.listdir

        def listed(path="."):
            res = real(path)
            if set(map(os.fspath, res)) == set(order):
                return list(order)
            return res

        os.listdir = listed      # directories may be listed in any order
        try:
            loader = DataLoader(folder + os.sep, case["size"], quiet)
            other = DataLoader(folder, 2, quiet) if case["other"] else None
        finally:
            os.listdir = real
        for name, f in zip(order, [None] * len(order)):
            i = int(re.match(r".*-(\d+)", name).group(1))
            if case["files"][i]["kind"] == "gone":
                os.unlink(os.path.join(folder, name))
        for k, p in enumerate(case["passes"]):
            try:
                self.one_pass(case, loader, other, p, want, f"pass {k + 1}")
                if k + 1 < len(case["passes"]):
                    loader.reset()
            except SystemExit:
                raise Violation(f"pass {k + 1} ends the program")
        if other is not None:
            other.reset()
            self.one_pass(dict(case, size=2), other, None, ["all"], want, "the other loader's pass")

    def one_pass(self, case, loader, other, p, want, what):
        got, sizes = collections.Counter(), []
        it = iter(loader)
        most = sum(want.values()) + 2
        while p[0] == "all" or len(sizes) < p[1]:
            try:
                turns_list, tokens_list = next(it)
            except StopIteration:
                break
            if len(turns_list) != len(tokens_list):
                raise Violation(f"{what}: a batch of {len(turns_list)} games has {len(tokens_list)} histories")
            sizes.append(len(turns_list))
            if not 0 < sizes[-1] <= case["size"]:
                raise Violation(f"{what}: a batch of {sizes[-1]} games, configured are {case['size']}")
            if len(sizes) > 1 and sizes[-2] < case["size"]:
                raise Violation(f"{what}: batches of {sizes} games, only the last may have less than "
                                f"{case['size']}")
            for turns, tokens in zip(turns_list, tokens_list):
                got[game_key(turns, tokens)] += 1
            if other is not None:
                next(other, None)
            if len(sizes) > most:
                raise Violation(f"{what} does not end")
        if p[0] == "some" and len(sizes) == p[1]:
            if got - want:
                raise Violation(f"{what}: a game is delivered twice, or with another one's history")
        elif got != want:
            lost, more = sum((want - got).values()), sum((got - want).values())
            raise Violation(f"{what}: of {sum(want.values())} usable games {lost} are not delivered, and {more} "
                            f"repeated or altered ones are (batches of {sizes})")


# ------------------------------------------------------------------ C25
# name -> (architecture, layers)
MODELS = {"transformer": ("transformer", 0), "transformer_conv": ("transformer_conv", 0),
          "transformer_conv_large": ("transformer_conv_large", 2),
          "transformer_conv_large_3": ("transformer_conv_large", 3),
          "transformer_conv_ordered": ("transformer_conv_ordered", 1),
          "transformer_conv_ordered_large_2": ("transformer_conv_ordered", 2),
          "transformer_conv_ordered_large_3": ("transformer_conv_ordered", 3),
          "transformer_conv_ordered_large_4": ("transformer_conv_ordered", 4),
          "transformer_conv_ordered_large_5": ("transformer_conv_ordered", 5)}
YEARS = list(range(2012, 2020))
DECOYS = ("model_{m}_checkpoint_iter_{i}.pt.tmp", "model_{m}_checkpoint_iter_{i}.pt~",
          "model_{m}_checkpoint_iter_{i}.pt_old.pt", "model_{m}_checkpoint_iter_{i}_best.pt",
          "model_{m}_checkpoint_iter_.pt", "model_{m}_checkpoint_iter_x.pt", "model_{m}_checkpoint_iter_{i}.pth",
          "xmodel_{m}_checkpoint_iter_{i}.pt", "model_{m}_checkpoint_iter_-{i}.pt",
          "model_{m}_checkpoint_iter_{i}.5.pt", "model_{m}_checkpoint_{i}.pt", "model_{m}x_checkpoint_iter_{i}.pt",
          "model_{m}_checkpoint_iter_{i}.PT", "model_{m}_checkpoint_iter_1e{i}.pt", "notes.txt",
          "model_{m}_checkpoint_iter_{i}xpt", "model_{m}_checkpoint_iter_{i}.pt.model_{m}_checkpoint_iter_1.txt",
          "model_my_model_{m}_checkpoint_iter_{i}.pt", "model_{m}_checkpoint_iter_{i} (copy).pt")
FOLDERS = ("saved_models", "models [old]", "model_transformer_checkpoint_iter_77.pt", "a*b", "x.y")


def ckpt(model, i):
    return f"model_{model}_checkpoint_iter_{i}.pt"


def parse(name):
    """(model, iteration) of a checkpoint's name, or None."""
    m = re.fullmatch(r"model_(.*)_checkpoint_iter_([0-9]+)\.pt", name)
    return (m.group(1), int(m.group(2))) if m and m.group(1) in MODELS else None


def newest(names, model):
    its = [p[1] for p in map(parse, names) if p and p[0] == model]
    return max(its) if its else None


def digest(state):
    h = hashlib.blake2b(digest_size=12)
    for k in sorted(state):
        h.update(k.encode() + state[k].detach().cpu().numpy().tobytes())
    return h.hexdigest()


class Interrupted(KeyboardInterrupt):
    pass


class C25(core.Check):
    id = "C25"
    rule = ("One evaluation is a checkpoint directory with checkpoints of several models and misleading "
            "names, searched for every model; or a history of training runs of several models over eight "
            "small training sets, some of them interrupted while training or while saving. After every run "
            "the directory, the weights and the consumed games are compared with the expected ones. "
            "Non-trivial: a directory with at least two iterations of the searched model, or runs that "
            "resume.")
    assumptions = ["the validation set has a usable game, and every training batch a decision",
                   "an interruption is an exception raised at that point; files are not lost afterwards"]
    quick = 2000
    thorough = 24000
    run_share = 16       # one case in so many is a history of runs
    tape_len = 1400

    def setup(self):
        archs.torch1()
        import MahjongAI.supervised_learning  # noqa: F401

    def shard(self, ctx):
        n = ctx.my_cases()
        runs = max(1, n // self.run_share)

        def names(data):
            return ctx.try_case(self.gen_names(sim.Tape(data)))

        def history(data):
            return ctx.try_case(self.gen_runs(sim.Tape(data)))
        core.tapes(ctx, runs, self.tape_len, history)
        if not ctx.found:
            core.tapes(ctx, n - runs, 80, names)

    # -------------------------------------------------------------- generation
    def gen_iter(self, tape):
        return tape.pick([0, 1, 2, 3, 9, 10, 11, 99, 100, 7, 8, 19, 20, 101, 1000, 12, 999, 99999, 100000, 1234567, 21])

    def gen_files(self, tape, models, n):
        out = []
        for _ in range(n):
            m = tape.pick(models)
            if tape.chance(70):
                out.append(tape.pick(DECOYS).format(m=m, i=self.gen_iter(tape) + tape.below(30)))
            else:
                out.append(ckpt(m, self.gen_iter(tape)))
        return list(dict.fromkeys(out))

    def gen_names(self, tape):
        return {"kind": "names", "folder": tape.pick(FOLDERS), "inner": tape.chance(30),
                "files": self.gen_files(tape, list(MODELS), tape.below(24))}

    def gen_runs(self, tape):
        models = [tape.pick(list(MODELS)) for _ in range(1 + tape.below(2))]
        # a model whose name contains the other's
        if tape.chance(100):
            models.append(tape.pick([m for m in MODELS if m.startswith(models[0]) or models[0].startswith(m)]))
        start = [f for f in self.gen_files(tape, models + [tape.pick(list(MODELS))], tape.below(5))]
        runs = []
        for _ in range(1 + tape.below(3)):
            r = {"model": tape.pick(models), "iters": 1 + tape.below(2), "stop": None}
            if tape.chance(120):
                r["stop"] = [tape.pick(["batch", "save", "half save", "saved", "batch"]), tape.below(4)]
            runs.append(r)
        if tape.chance(20):
            runs.append({"model": models[0], "iters": 0, "stop": None})
        if tape.chance(24):      # back to the first training set within one run
            runs = [{"model": models[0], "iters": tape.pick([9, 10, 9, 17]), "stop": None}]
        sets = []
        for y in range(9):
            fs = []
            for _ in range(1 + tape.below(3) if tape.chance(200) or y == 8 else 0):
                fs.append(gen_usable(tape, 8))
            if tape.chance(50):
                fs.insert(0, gen_bad(tape, tape.pick(["type", "cut", "inconsistent", "empty", "bye"])))
            sets.append(fs)
        return {"kind": "runs", "start": start, "runs": runs, "sets": sets, "seed": tape.below(1 << 16)}

    def smaller(self, case):
        if case["kind"] == "names":
            fs = case["files"]
            for i in range(len(fs)):
                yield dict(case, files=fs[:i] + fs[i + 1:])
            if case["folder"] != FOLDERS[0]:
                yield dict(case, folder=FOLDERS[0])
            if case["inner"]:
                yield dict(case, inner=False)
            return
        for i in range(len(case["runs"])):
            yield dict(case, runs=case["runs"][:i] + case["runs"][i + 1:])
        for i in range(len(case["start"])):
            yield dict(case, start=case["start"][:i] + case["start"][i + 1:])
        for i, fs in enumerate(case["sets"]):
            for j in range(len(fs)):
                if i < 8 or fs[j]["kind"] != "usable" or sum(f["kind"] == "usable" for f in fs) > 1:
                    yield dict(case, sets=case["sets"][:i] + [fs[:j] + fs[j + 1:]] + case["sets"][i + 1:])
        for i, r in enumerate(case["runs"]):
            if r["iters"] > 1:
                yield dict(case, runs=case["runs"][:i] + [dict(r, iters=1)] + case["runs"][i + 1:])

    # -------------------------------------------------------------- checking
    def check_case(self, case, stats=None):
        top = tempfile.mkdtemp(prefix=SCRATCH, dir=".")
        cwd = os.getcwd()
        try:
            if case["kind"] == "names":
                self.names(case, top, stats)
            else:
                os.chdir(top)
                self.runs(case, stats)
        finally:
            os.chdir(cwd)
            shutil.rmtree(top, ignore_errors=True)

    def names(self, case, top, stats):
        from MahjongAI import supervised_learning as sl
        folder = os.path.join(top, case["folder"])
        os.mkdir(folder)
        for f in case["files"]:
            open(os.path.join(folder, f), "w").close()
        if case["inner"]:
            os.mkdir(os.path.join(folder, "older"))
            for m in MODELS:
                open(os.path.join(folder, "older", ckpt(m, 5000)), "w").close()
        several = 0
        for m in MODELS:
            want = newest(case["files"], m)
            it, path = sl.find_latest_checkpoint(m, folder)
            if want is None:
                if path is not None:
                    raise Violation(f"{m} has no checkpoint, found is {os.path.basename(path)}")
            elif path is None:
                raise Violation(f"the checkpoint {ckpt(m, want)} is not found")
            elif int(it) != want or os.path.realpath(path) != os.path.realpath(
                    os.path.join(folder, ckpt(m, want))):
                raise Violation(f"the latest checkpoint of {m} is {ckpt(m, want)}, found is "
                                f"{os.path.basename(path)} (iteration {it})")
            several = max(several, len([1 for f in case["files"] if parse(f) and parse(f)[0] == m]))
        if stats is not None:
            stats.note(f"directories with up to {min(several, 4)} checkpoints of a model")
            stats.case(case, several >= 2, lambda: case)

    def runs(self, case, stats):
        torch = archs.torch1()
        from MahjongAI import supervised_learning as sl
        sets = []
        for y, fs in zip(YEARS + [2021], case["sets"]):
            d = os.path.join("data", "processed", str(y))
            os.makedirs(d)
            for i, f in enumerate(fs):
                write(d, f"{y}-{i}.xml", f)
            sets.append(deliverable(fs))
        val = set(sets[8])
        os.mkdir("saved_models")
        weights = {}            # (model, iteration) -> state
        for k, f in enumerate(case["start"]):
            path, p = os.path.join("saved_models", f), parse(f)
            torch.manual_seed(case["seed"] + k)
            if p:
                m = archs.make_model(*MODELS[p[0]])
                weights[p] = copy.deepcopy(m.state_dict())
                torch.save(weights[p], path)
            else:
                with open(path, "w") as o:
                    o.write("decoy")
        resumed = 0
        for k, r in enumerate(case["runs"]):
            name = r["model"]
            before = self.listing()
            last = newest(before, name)
            first = 0 if last is None else last + 1
            resumed += last is not None
            what = f"run {k + 1} ({name})"
            spy = Spy(torch, archs.ARCHS, r["stop"])
            torch.manual_seed(case["seed"] + 1000 + k)
            with spy:
                try:
                    sl.train(name, r["iters"])
                    done = True
                except Interrupted:
                    done = False
                except SystemExit:
                    raise Violation(f"{what} ends the program")
            if stats is not None:
                stats.note("runs" if done else "runs interrupted at " + r["stop"][0])
            after = self.listing()
            for f, h in before.items():
                if after.get(f) != h:
                    raise Violation(f"{what}: {f} was {'changed' if f in after else 'removed'}")
            new = {parse(f) for f in after if f not in before and parse(f)}
            if any(p[0] != name for p in new):
                raise Violation(f"{what} writes checkpoints of another model: {sorted(new)}")
            its = sorted(p[1] for p in new)
            want = list(range(first, first + r["iters"]))
            if its != want and (done or its != want[:len(its)]):
                raise Violation(f"{what} starts with checkpoint {last}, should write the iterations {want}, "
                                f"writes {its}" + ("" if done else " before it is interrupted"))
            self.consumed(what, spy, sets, val, want, its, done)
            if last is not None and spy.states:
                self.near(f"{what}, first batch", spy.states[0], weights, (name, last))
            self.trained(what, spy, torch, sets, name, want, its, done, weights, last)
        if stats is not None:
            stats.case(case, resumed > 0, lambda: {"start": case["start"], "runs": case["runs"]})

    def listing(self):
        out = {}
        for f in sorted(filter(parse, os.listdir("saved_models"))):
            with open(os.path.join("saved_models", f), "rb") as o:
                out[f] = hashlib.blake2b(o.read(), digest_size=12).hexdigest()
        return out

    def consumed(self, what, spy, sets, val, want, its, done):
        """The games trained on, in iteration order."""
        got = [[g for g in b if g not in val] for b in spy.batches]
        i = 0
        for n, it in enumerate(want):
            exp = collections.Counter(g for g in sets[it % 8] if g not in val)
            have = collections.Counter()
            spy.ends.append(None)
            while i < len(got) and (have + collections.Counter(got[i])) - exp == collections.Counter():
                have.update(got[i])
                i += 1
            spy.ends[n] = i
            if have != exp:
                if not done and n >= len(its) and i == len(got):
                    return
                raise Violation(f"{what}: iteration {it} should train on the {sum(exp.values())} games of "
                                f"{YEARS[it % 8]} once each; {sum((exp - have).values())} of them are missing, "
                                f"or others are used")
        if i < len(got):
            raise Violation(f"{what}: trains on more games than those of its iterations {want}")

    def near(self, what, state, weights, key):
        """Few steps with a tiny learning rate lead from one state to the other."""
        want = weights[key]
        if set(state) != set(want):
            raise Violation(f"{what}: other parameters than checkpoint {key}")
        far = max(float((state[k].float() - want[k].float()).abs().max()) if state[k].numel() else 0.0
                  for k in want)
        if not far <= 4e-3:
            raise Violation(f"{what}: the weights are not those of checkpoint {key} (difference {far})")

    def trained(self, what, spy, torch, sets, name, want, its, done, weights, last):
        finals = spy.states + ([spy.final()] if spy.model is not None else [])
        for n, it in enumerate(its):
            try:
                state = torch.load(os.path.join("saved_models", ckpt(name, it)))
            except Exception as e:
                raise Violation(f"{what}: checkpoint {it} cannot be loaded: {type(e).__name__}: {e}")
            weights[(name, it)] = state
            if finals:
                end = spy.ends[n]
                end = min(end, len(finals) - 1)
                if digest(state) != digest(finals[end]):
                    raise Violation(f"{what}: checkpoint {it} does not hold the weights at the end of its "
                                    "iteration")
            prev = (name, it - 1) if n else (name, last)
            if last is not None or n:
                self.near(f"{what}, iteration {it}", state, weights, prev)
        # every batch but the first (the learning rate starts at zero) changes the weights
        for i in range(1, len(finals) - 1):
            if digest(finals[i]) == digest(finals[i + 1]) and (done or i + 1 < len(finals) - 1):
                raise Violation(f"{what}: training batch {i + 1} does not change the weights")


class Spy:
    """Records the training batches and weights of one run, and interrupts it."""

    def __init__(self, torch, names, stop):
        self.torch, self.stop = torch, stop
        self.classes = []
        for a in names:
            self.classes.append(type(archs.make_model(a)))
        self.batches, self.states, self.ends = [], [], []
        self.model, self.saves = None, 0

    def final(self):
        return copy.deepcopy(self.model.state_dict())

    def __enter__(self):
        self.forwards = [(c, c.forward) for c in self.classes]
        for c, f in self.forwards:
            c.forward = self.wrapped(f)
        self.save = self.torch.save
        self.torch.save = self.saving

    def __exit__(self, *exc):
        for c, f in self.forwards:
            c.forward = f
        self.torch.save = self.save

    def wrapped(self, f):
        def forward(model, *args, **kw):
            turns = args[0] if args else kw["all_halfturns_list"]
            tokens = args[1] if len(args) > 1 else kw["all_encoding_tokens_list"]
            if self.torch.is_grad_enabled():
                if self.stop and self.stop[0] == "batch" and len(self.batches) == self.stop[1]:
                    raise Interrupted()
                self.model = model
                self.batches.append([game_key(ts, tk) for ts, tk in zip(turns, tokens)])
                self.states.append(self.final())
            return f(model, *args, **kw)
        return forward

    def saving(self, obj, f, *args, **kw):
        here = self.stop and self.saves == self.stop[1] % 2
        self.saves += 1
        if here and self.stop[0] == "save":
            raise Interrupted()
        if here and self.stop[0] == "half save":
            if isinstance(f, (str, os.PathLike)):
                self.save(obj, f, *args, **kw)
                with open(f, "r+b") as o:
                    o.truncate(os.path.getsize(f) // 2)
            else:
                f.write(b"PK\x03\x04 half")
            raise Interrupted()
        res = self.save(obj, f, *args, **kw)
        if here and self.stop[0] == "saved":
            raise Interrupted()
        return res


# ------------------------------------------------------------------ C30
class C30(core.Check):
    id = "C30"
    rule = ("One evaluation is a validation directory, an architecture with random parameters, and two or three "
            "estimates of the validation loss with training steps in between or without. Each value is "
            "compared with the mean of the losses of the batches estimated on, computed anew; the weights, "
            "their gradients, the mode and the data loader are looked at before and after. Non-trivial: the "
            "directory holds more games than one batch.")
    assumptions = ["the validation set has a usable game in which a tile is discarded",
                   "losses are compared up to 0.01 %, for rounding"]
    quick = 160
    thorough = 4000
    tape_len = 900

    def setup(self):
        archs.torch1()
        import MahjongAI.supervised_learning  # noqa: F401

    def shard(self, ctx):
        todo = {"large": ctx.shard in (0, 3)}      # two cases with thousands of decisions in one batch

        def body(data):
            large, todo["large"] = todo["large"], False
            return ctx.try_case(self.gen(sim.Tape(data), large))
        core.tapes(ctx, ctx.my_cases(), self.tape_len, body)

    def gen(self, tape, large=False):
        case = {"arch": tape.pick(list(archs.ARCHS)), "params": tape.below(1 << 16), "kind": tape.below(4),
                "size": 1 + tape.below(5), "train": bool(tape.below(4)),
                "steps": [tape.below(3) for _ in range(1 + tape.below(2))]}
        files = [gen_usable(tape, 6) for _ in range(1 + tape.below(5))]
        if tape.chance(60):
            files.append(gen_bad(tape, tape.pick(["type", "cut", "inconsistent", "empty", "bye"])))
        n = len(files)
        if tape.chance(128):      # more games than an estimate needs
            total = 19 + tape.below(14)
            files += [copy.deepcopy(files[tape.below(n)]) for _ in range(total - n)]
        if large:
            g, _ = gen_game(tape, 1, "plain", overtime=False, max_events=120)
            discards = sum(bool(re.fullmatch(r"[DEFG]\d+", tag)) for tag, _ in g["rounds"][0])
            long = dict(g, rounds=g["rounds"] * (2400 // max(discards, 20) + 1))
            files = [{"kind": "usable", "text": mjlog.to_xml(long)}] + files[:2]
            case.update(arch=tape.pick(list(archs.ARCHS)), steps=[], kind=1)
        return dict(case, files=files)

    def smaller(self, case):
        fs = case["files"]
        for k in (8, 4, 2, 1):
            for i in range(0, len(fs), k):
                rest = fs[:i] + fs[i + k:]
                if any(f["kind"] == "usable" for f in rest) and len(rest) < len(fs):
                    yield dict(case, files=rest)
        if len(case["steps"]) > 1:
            yield dict(case, steps=case["steps"][1:])
        for s in (0, 1):
            if case["steps"][0] > s:
                yield dict(case, steps=[s] + case["steps"][1:])

    def check_case(self, case, stats=None):
        want = collections.Counter(deliverable(case["files"]))
        folder = tempfile.mkdtemp(prefix=SCRATCH, dir=".")
        try:
            for i, f in enumerate(case["files"]):
                write(folder, f"g{i:02d}.log", f)
            self.estimates(case, folder, want, stats)
        finally:
            shutil.rmtree(folder, ignore_errors=True)
        if stats is not None:
            n = sum(want.values())
            stats.note(case["arch"])
            stats.note("over 20 games" if n > 20 else "up to 20 games")
            if len(case["files"][0]["text"]) > 30000:
                stats.note("a batch of thousands of decisions")
            stats.case(case, n > case["size"], lambda: {k: v for k, v in case.items() if k != "files"})

    def estimates(self, case, folder, want, stats):
        from MahjongAI import supervised_learning as sl
        from MahjongAI.utils.dataloader import DataLoader
        from .models import randomised
        torch = archs.torch1()
        model = randomised(case["arch"], 0, case["params"], case["kind"])
        model.train(case["train"])
        loader = DataLoader(folder, case["size"], quiet)
        opt = torch.optim.SGD(model.parameters(), lr=1e-3)
        first = None
        for k, steps in enumerate([0] + case["steps"]):
            what = f"{case['arch']}, estimate {k + 1}"
            for s in range(steps):
                opt.zero_grad()
                for _, loss in model(*first[0], sample=True):
                    loss.backward()
                opt.step()
            torch.manual_seed(case["params"] + 7 * k)
            before = self.looks(model)
            batches, value = self.recorded(sl, loader, model, case["size"])
            if not torch.is_grad_enabled():
                raise Violation(f"{what}: gradients are off afterwards")
            off = [n for n, m in model.named_modules() if not m.training]
            if off:
                raise Violation(f"{what}: {off[0] or 'the model'} is not in training mode afterwards")
            after = self.looks(model)
            for f in ("weights", "gradients"):
                if before[f] != after[f]:
                    raise Violation(f"{what} changes the {f} of the model")
            games = self.games(what, batches, want, case["size"])
            if not (k and steps == 0):
                expected = self.mean_loss(torch, model, batches)
            if not abs(value - expected) <= 1e-4 * max(1.0, abs(expected)):
                raise Violation(f"{what}: {value}, the mean loss of the batches is {expected}")
            if k and games != first[1]:
                raise Violation(f"{what} is made on other games than the first one")
            if k and not steps and value != first[2]:
                raise Violation(f"{what}: {value}, without training in between it was {first[2]}")
            first = (batches[0], games, value)
        left = [game_key(t, e) for b in loader for t, e in zip(*b)]
        if collections.Counter(left) != want:
            raise Violation("after the estimates the data loader does not start with the first game again: "
                            f"{len(left)} of {sum(want.values())} games")

    def looks(self, model):
        return {"weights": digest(model.state_dict()),
                "gradients": [None if p.grad is None else digest({"g": p.grad}) for p in model.parameters()]
                + [p.requires_grad for p in model.parameters()]}

    def recorded(self, sl, loader, model, size):
        batches, forward = [], model.forward

        def spy(*args, **kw):
            turns = args[0] if args else kw["all_halfturns_list"]
            tokens = args[1] if len(args) > 1 else kw["all_encoding_tokens_list"]
            batches.append((turns, tokens))
            return forward(*args, **kw)
        model.forward = spy
        try:
            return batches, float(sl.estimate_loss(loader, model, size))
        finally:
            del model.forward

    def games(self, what, batches, want, size):
        games = [[game_key(t, e) for t, e in zip(*b)] for b in batches]
        got = collections.Counter(g for b in games for g in b)
        if got - want:
            raise Violation(f"{what}: {sum((got - want).values())} games are used repeatedly or altered")
        n, total = sum(got.values()), sum(want.values())
        if n < min(20, total):
            raise Violation(f"{what} is made on {n} of {total} games")
        return games

    def mean_loss(self, torch, model, batches):
        """The mean over batches and decision types."""
        model.eval()
        with torch.no_grad():
            out = [float(loss) for b in batches for _, loss in model(*b)]
        model.train()
        return sum(out) / len(out)
