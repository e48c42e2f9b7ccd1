"""C36: the command line of the training program."""
import contextlib
import glob
import hashlib
import os
import re
import runpy
import shutil
import sys
import tempfile

from .. import core
from ..core import Violation
from ..ref import sim
from . import archs
from .training import MODELS, SCRATCH, YEARS, ckpt, deliverable, game_key, gen_usable, newest, parse, write

WRONG_NAMES = ("Transformer", "transformer_", "transformer_conv_large_2", "transformer_conv_ordered_large_1",
               "transformer_conv_ordered_large_6", "transformer_conv_ordered_1", "", " transformer", "conv",
               "transformer_conv_large_4", "transformer_conv_ordered_large", "TRANSFORMER", "transformer conv",
               "transformer,transformer_conv", "model_transformer", "transformer.pt")
WRONG_COUNTS = ("x", "1.5", "", "one", "1 2", "--1", "1e2", "0x2", "None", "1,", "2.0", "transformer")
SCRIPT = os.path.join("MahjongAI", "supervised_learning.py")


class C36(core.Check):
    id = "C36"
    rule = ("One evaluation is a call of the training program with generated arguments (every model name, numbers of "
            "iterations, wrong names, wrong numbers, too few or too many arguments) in a scratch directory with "
            "small training sets and older checkpoints. Checkpoints, their architecture, the games trained on, the "
            "exit and the log file are compared with what was asked for. Non-trivial: all of them.")
    assumptions = ["the program is run in a fork, with its arguments put into sys.argv"]
    quick = 160
    thorough = 3200
    tape_len = 400

    def setup(self):
        archs.torch1()
        import MahjongAI.supervised_learning  # noqa: F401

    def shard(self, ctx):
        def body(data):
            return ctx.try_case(self.gen(sim.Tape(data)))
        core.tapes(ctx, ctx.my_cases(), self.tape_len, body)

    # -------------------------------------------------------------- generation
    def gen(self, tape):
        name, n = tape.pick(list(MODELS)), tape.pick(["1", "2", "1", "0", "01", "3"])
        kind = tape.pick(["good", "good", "good", "name", "count", "few", "many"])
        argv = {"good": [name, n], "name": [tape.pick(WRONG_NAMES), n], "count": [name, tape.pick(WRONG_COUNTS)],
                "few": [name] if tape.below(2) else [], "many": [name, n, tape.pick(["1", name, ""])]}[kind]
        old = []
        if tape.chance(128):
            for _ in range(1 + tape.below(3)):
                m = name if tape.below(2) else tape.pick(list(MODELS))
                old.append(ckpt(m, tape.pick([0, 1, 2, 9, 10, 30])))
        first = newest(old, name)
        first = 0 if first is None else first + 1
        sets = [[] for _ in range(9)]
        for k in list(range(first, first + 3)) + [8]:
            y = 8 if k == 8 else k % 8
            if not sets[y]:
                sets[y] = [gen_usable(tape, 3) for _ in range(1 + tape.below(2))]
        if not sets[8]:
            sets[8] = [gen_usable(tape, 3)]
        return {"kind": kind, "argv": argv, "old": sorted(set(old)), "sets": sets, "seed": tape.below(1 << 16),
                "folder": bool(old) or tape.chance(128)}

    def smaller(self, case):
        for i in range(len(case["old"])):
            yield dict(case, old=case["old"][:i] + case["old"][i + 1:])
        for i, fs in enumerate(case["sets"]):
            if len(fs) > 1:
                yield dict(case, sets=case["sets"][:i] + [fs[:1]] + case["sets"][i + 1:])

    # -------------------------------------------------------------- checking
    def check_case(self, case, stats=None):
        torch = archs.torch1()
        top = tempfile.mkdtemp(prefix=SCRATCH, dir=".")
        cwd = os.getcwd()
        try:
            os.chdir(top)
            want = []
            for y, fs in zip(YEARS + [2021], case["sets"]):
                d = os.path.join("data", "processed", str(y))
                os.makedirs(d)
                for i, f in enumerate(fs):
                    write(d, f"{y}-{i}.xml", f)
                want.append(sorted(deliverable(fs)))
            if case["folder"]:
                os.mkdir("saved_models")
            torch.manual_seed(case["seed"])
            for f in case["old"]:
                m = archs.make_model(*MODELS[parse(f)[0]])
                torch.save(m.state_dict(), os.path.join("saved_models", f))
            before = self.files()
            out = core.fresh(self.call, case)
            self.judge(case, out, before, self.files(), want)
        finally:
            os.chdir(cwd)
            shutil.rmtree(top, ignore_errors=True)
        if stats is not None:
            stats.note({"good": "runs", "name": "unknown names", "count": "no numbers", "few": "too few arguments",
                        "many": "too many arguments"}[case["kind"]])
            if case["kind"] == "good":
                stats.note(case["argv"][0])
            stats.case(case, True, lambda: {"argv": case["argv"], "old": case["old"]})

    def files(self):
        out = {}
        for d, _, fs in os.walk("."):
            for f in fs:
                p = os.path.relpath(os.path.join(d, f), ".")
                if not os.path.basename(p).startswith("training_log_"):
                    with open(p, "rb") as i:
                        out[p] = hashlib.blake2b(i.read(), digest_size=12).hexdigest()
        return out

    def call(self, case):
        """In a fork: -> how the program ends, and the games it trains on."""
        torch = archs.torch1()
        games = []
        for mod in sorted({a[0] for a in archs.ARCHS.values()}):
            m = __import__("MahjongAI.agents." + mod, fromlist=["x"])
            for c in vars(m).values():
                if isinstance(c, type) and c.__name__ in {a[1] for a in archs.ARCHS.values()}:
                    self.watch(c, torch, games)
        sys.argv = [SCRIPT] + case["argv"]
        torch.manual_seed(case["seed"] + 1)
        how = "ok"
        with open("output", "w") as o, contextlib.redirect_stdout(o), contextlib.redirect_stderr(o):
            try:
                runpy.run_path(os.path.join(core.REPO, SCRIPT), run_name="__main__")
            except SystemExit as e:
                how = "ok" if e.code in (None, 0) else f"exit {e.code}"
            except Exception as e:
                how = f"{type(e).__name__}: {e}"
        with open("output") as i:
            text = i.read()
        os.unlink("output")
        return how, games, text

    def watch(self, cls, torch, games):
        f = cls.forward

        def forward(model, *args, **kw):
            if torch.is_grad_enabled():
                turns = args[0] if args else kw["all_halfturns_list"]
                tokens = args[1] if len(args) > 1 else kw["all_encoding_tokens_list"]
                games.append([game_key(ts, tk) for ts, tk in zip(turns, tokens)])
            return f(model, *args, **kw)
        cls.forward = forward

    def judge(self, case, out, before, after, want):
        torch = archs.torch1()
        how, games, text = out
        what = "supervised_learning.py " + " ".join(map(repr, case["argv"]))
        for f in before:
            if after.get(f) != before[f]:
                raise Violation(f"{what}: {f} is {'changed' if f in after else 'gone'}")
        new = sorted(set(after) - set(before))
        if case["kind"] != "good":
            if how == "ok":
                raise Violation(f"{what} is not refused")
            if new or games:
                raise Violation(f"{what} is refused, but it trains or leaves {new[:3]}")
            return
        if how != "ok":
            raise Violation(f"{what} ends with {how}")
        name, n = case["argv"][0], int(case["argv"][1])
        first = newest(case["old"], name)
        first = 0 if first is None else first + 1
        names = sorted(os.path.join("saved_models", ckpt(name, first + i)) for i in range(n))
        if [f for f in new if parse(os.path.basename(f))] != names:
            raise Violation(f"{what}: the new files are {new}, they should be {names}")
        shape = {k: tuple(v.shape) for k, v in archs.make_model(*MODELS[name]).state_dict().items()}
        for f in names:
            state = torch.load(f)
            if {k: tuple(v.shape) for k, v in state.items()} != shape:
                raise Violation(f"{what}: {f} holds another architecture than {MODELS[name]}")
        got = [g for b in games for g in b]
        exp = [want[(first + i) % 8] for i in range(n)]
        if sorted(got) != sorted(g for s in exp for g in s):
            raise Violation(f"{what}: trains on {len(got)} games, not on those of the sets of "
                            f"{[YEARS[(first + i) % 8] for i in range(n)]}")
        logs = glob.glob("training_log_*")
        if not logs:
            raise Violation(f"{what}: no log file")
        logged = "".join(open(f).read() for f in logs)
        stamp = r"\[\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\] .*"
        told = [x for x in text.splitlines() if re.fullmatch(stamp, x)]
        lines = [x for x in logged.splitlines() if re.fullmatch(stamp, x)]
        if told != lines:
            odd = ([x for x in told if x not in lines] + [x for x in lines if x not in told] + ["the order"])[0]
            raise Violation(f"{what}: the log file differs from what is printed in {odd!r}")
