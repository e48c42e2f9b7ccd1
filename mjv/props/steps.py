"""C35: the training steps."""
import contextlib
import copy
import importlib
import io
import math
import os
import shutil
import tempfile

import numpy as np

from .. import core
from ..core import HarnessError, Violation
from ..ref import mjlog, sim
from . import archs
from .common import gen_game, process_text
from .models import randomised
from .training import MODELS, SCRATCH, YEARS, ckpt, gen_usable, write

RATE, WARMUP, TOTAL = 1e-3, 1000, 1000000
BETAS, EPS, DECAY = (0.9, 0.999), 1e-8, 0.01


def factor(step):
    if step < WARMUP:
        return step / WARMUP
    return 0.5 * (1 + math.cos(math.pi * (step - WARMUP) / (TOTAL - WARMUP)))


class AdamW:
    """The textbook optimiser, at the scheduled rate."""

    def __init__(self, w):
        self.w, self.n = w.copy(), 0
        self.m, self.v = np.zeros_like(w), np.zeros_like(w)

    def step(self, g):
        lr = RATE * factor(self.n)
        self.n += 1
        self.w *= 1 - lr * DECAY
        self.m += (1 - BETAS[0]) * (g - self.m)
        self.v = BETAS[1] * self.v + (1 - BETAS[1]) * g * g
        mh, vh = self.m / (1 - BETAS[0] ** self.n), self.v / (1 - BETAS[1] ** self.n)
        self.w -= lr * mh / (np.sqrt(vh) + EPS)


SIZES = (5, 6)       # of the two parameters


class Plan:
    """How many losses each batch has, and their shape."""

    def __init__(self, case):
        self.counts, self.seed = case["counts"], case["seed"]

    def losses(self, batch):
        n = self.counts[batch % len(self.counts)]
        rng = np.random.default_rng([self.seed, batch])
        size = 10.0 ** rng.uniform(-3, 3, (n, 1))
        return size, rng.normal(size=(n, sum(SIZES))), rng.normal(size=(n, sum(SIZES))) * size


class Standin:
    """Takes the place of every model class: few parameters, losses as planned, all of it recorded."""

    def __init__(self, torch, plan):
        self.torch, self.plan = torch, plan
        self.events, self.models, self.batches = [], [], 0

    def __enter__(self):
        spy, torch = self, self.torch

        def init(model, *args, **kw):
            torch.nn.Module.__init__(model)
            rng = np.random.default_rng([spy.plan.seed, 7])
            for name, k in zip("ab", SIZES):
                setattr(model, name, torch.nn.Parameter(torch.tensor(rng.normal(size=k))))
            spy.models.append(model)

        def forward(model, *args, **kw):
            turns = args[0] if args else kw["all_halfturns_list"]
            return spy.losses(model, len(turns))
        self.old = []
        for mod, cls, _ in archs.ARCHS.values():
            c = getattr(importlib.import_module("MahjongAI.agents." + mod), cls)
            for f, new in (("__init__", init), ("forward", forward)):
                self.old.append((c, f, c.__dict__.get(f)))
                setattr(c, f, new)
        return self

    def __exit__(self, *exc):
        for c, f, old in self.old:
            if old is None:
                delattr(c, f)
            else:
                setattr(c, f, old)

    def weights(self, model):
        return self.torch.cat([model.a.detach(), model.b.detach()]).numpy().copy()

    def losses(self, model, games):
        torch = self.torch
        grad = torch.is_grad_enabled()
        e = {"train": grad, "games": games, "mode": model.training, "weights": [], "ended": False}
        self.events.append(e)
        if grad:
            curve, centre, slope = self.plan.losses(self.batches)
            self.batches += 1
        else:
            curve, centre, slope = (x[:2] for x in Plan({"counts": [2], "seed": 5}).losses(games))
        for s, c, k in zip(curve, centre, slope):
            e["weights"].append(self.weights(model))
            w = torch.cat([model.a, model.b])
            d = w - torch.tensor(c)
            yield torch.zeros(1, 2), 0.5 * float(s[0]) * (d * d).sum() + (torch.tensor(k) * w).sum()
        e["ended"] = True
        e["weights"].append(self.weights(model))


class C35(core.Check):
    id = "C35"
    rule = ("One evaluation is a training run over small training sets with models replaced by small ones of known "
            "losses, whose weights are recorded before and after each loss and compared with a textbook "
            "optimiser; or a real model whose weights are changed between two of the losses of a batch. "
            "Non-trivial: a run of over five steps, or a batch with at least two types of decisions.")
    assumptions = ["weights of a run are compared up to 1e-9, losses of real models up to 0.02 %",
                   "runs that start at a checkpoint are left to C25"]
    quick = 200
    thorough = 9000
    tape_len = 700
    run_share = 3

    def setup(self):
        archs.torch1()
        import MahjongAI.supervised_learning  # noqa: F401

    def shard(self, ctx):
        todo = {"n": 0}

        def body(data):
            n = todo["n"]
            todo["n"] += 1
            kind = "run" if n % self.run_share == 0 else "yield"
            if n == 1:
                kind = ("many" if ctx.shard % 4 == 0 else "far" if ctx.shard == 1 else
                        "long" if ctx.shard % 4 != 2 else "yield")
            elif ctx.tier == "thorough" and n % 60 == 30:
                kind = "long" if n % 120 == 30 else "many"
            elif ctx.tier == "thorough" and n == 12 and ctx.shard == 3:
                kind = "whole"
            return ctx.try_case(self.gen(sim.Tape(data), kind))
        core.tapes(ctx, ctx.my_cases(), self.tape_len, body)

    # -------------------------------------------------------------- generation
    def gen(self, tape, kind):
        if kind == "yield":
            games = []
            for _ in range(1 + (tape.below(4) == 0)):
                g, _ = gen_game(tape, 1, lambda t: t.pick(["calls", "riichi", "mixed", "calls"]), overtime=False,
                                max_events=tape.pick([30, 15, 40, 60]))
                games.append(g)
            return {"kind": kind, "arch": tape.pick(list(archs.ARCHS)), "params": tape.below(1 << 16),
                    "style": tape.below(4), "change": tape.below(1 << 16), "games": games}
        case = {"kind": kind, "model": tape.pick(list(MODELS)), "iters": 1 + tape.below(3),
                "seed": tape.below(1 << 16), "counts": [1 + tape.below(4) for _ in range(1 + tape.below(5))],
                "text": gen_usable(tape, 4)["text"],
                "games": [1 + tape.below(9) for _ in range(8)], "val": 1 + tape.below(24)}
        if kind == "run" and tape.chance(40):     # past the last of the training sets
            case["iters"] = 8 + tape.below(6)
            case["games"] = [1 + tape.below(3) for _ in range(8)]
        if kind == "long":      # past the end of the warm-up
            case["counts"] = [tape.pick([700, 150, 1001, 40, 2500]) for _ in range(3)]
            case["games"] = [2 + tape.below(5) for _ in range(8)]
        elif kind == "far":     # some way down the cosine
            case["iters"] = 1
            case["counts"] = [5000 + tape.below(4000)] * 2 + [1 + tape.below(9)]
            case["games"], case["model"] = [3] * 8, "transformer_conv_ordered_large_5"
        elif kind == "whole":   # the whole schedule, but for its last steps
            case["iters"] = 1
            case["counts"] = [83300]
            case["games"], case["model"] = [12] * 8, "transformer_conv_ordered_large_5"
        elif kind == "many":    # over a thousand games in one training set
            case["iters"] = 1
            case["games"][0] = 1001 + tape.below(60) + 1000 * (tape.below(4) == 0)
            case["counts"] = [1, 1, 2]
            case["val"] = 1 + tape.below(5)
        return case

    def smaller(self, case):
        if case["kind"] == "yield":
            if len(case["games"]) > 1:
                for i in range(len(case["games"])):
                    yield dict(case, games=case["games"][:i] + case["games"][i + 1:])
            return
        for k in range(1, case["iters"]):
            yield dict(case, iters=k)
        gs = case["games"]
        for i in range(8):
            for n in (1, gs[i] // 2):
                if 0 < n < gs[i]:
                    yield dict(case, games=gs[:i] + [n] + gs[i + 1:])
        cs = case["counts"]
        for i in range(len(cs)):
            if len(cs) > 1:
                yield dict(case, counts=cs[:i] + cs[i + 1:])
            for n in (1, 2, cs[i] // 2):
                if 0 < n < cs[i]:
                    yield dict(case, counts=cs[:i] + [n] + cs[i + 1:])
        if case["val"] > 1:
            yield dict(case, val=1)

    # -------------------------------------------------------------- checking
    def check_case(self, case, stats=None):
        if case["kind"] == "yield":
            return self.current(case, stats)
        top = tempfile.mkdtemp(prefix=SCRATCH, dir=".")
        cwd = os.getcwd()
        try:
            os.chdir(top)
            if case["kind"] == "whole":
                with core.limit(3000):
                    return self.run(case, stats)
            self.run(case, stats)
        finally:
            os.chdir(cwd)
            shutil.rmtree(top, ignore_errors=True)

    def run(self, case, stats):
        torch = archs.torch1()
        from MahjongAI import supervised_learning as sl
        first = write(".", "game", {"kind": "usable", "text": case["text"]})
        for y, n in zip(YEARS + [2021], case["games"] + [case["val"]]):
            d = os.path.join("data", "processed", str(y))
            os.makedirs(d)
            for i in range(n):
                os.link(first, os.path.join(d, f"{i}.log"))
        spy = Standin(torch, Plan(case))
        torch.manual_seed(case["seed"])
        with spy, contextlib.redirect_stdout(io.StringIO()):
            try:
                sl.train(case["model"], case["iters"])
            except SystemExit:
                raise Violation("the training ends the program")
        if len(spy.models) != 1:
            raise Violation(f"{len(spy.models)} models are made for one run")
        ref = self.follow(case, spy)
        final = spy.weights(spy.models[0])
        self.same("the end of the run", final, ref)
        state = torch.load(os.path.join("saved_models", ckpt(case["model"], case["iters"] - 1)))
        self.same("the last checkpoint", torch.cat([state["a"], state["b"]]).numpy(), ref)
        if stats is not None:
            stats.note({"run": "runs", "long": "runs past the warm-up", "far": "runs of tens of thousands of steps",
                        "whole": "runs over the whole schedule",
                        "many": "runs over a thousand games"}[case["kind"]])
            stats.note("training steps", ref.n)
            stats.case(case, ref.n > 5, lambda: dict(case, text=case["text"][:60] + "..."))

    def follow(self, case, spy):
        """Every event of the run against the reference."""
        ev, at, ref = spy.events, 0, None
        plan, batch = Plan(case), 0
        for it in range(case["iters"]):
            total, seen = case["games"][it % 8], 0
            while seen < total:
                what = f"iteration {it}, after {seen} of {total} games"
                if at == len(ev) or not ev[at]["train"]:
                    raise Violation(f"{what}: " + ("an estimate without a reason" if at < len(ev) else
                                                   "no further training batch"))
                e = ev[at]
                at += 1
                if not e["mode"]:
                    raise Violation(f"{what}: the model is not in training mode")
                if not e["ended"]:
                    raise Violation(f"{what}: only {len(e['weights'])} of "
                                    f"{plan.counts[batch % len(plan.counts)]} losses are trained on")
                if ref is None:
                    ref = AdamW(e["weights"][0])
                for i, (s, c, k) in enumerate(zip(*plan.losses(batch))):
                    self.same(f"{what}, before loss {i + 1}", e["weights"][i], ref)
                    ref.step(s * (ref.w - c) + k)
                self.same(f"{what}, after the batch", e["weights"][-1], ref)
                batch += 1
                estimated = 0
                while at < len(ev) and not ev[at]["train"]:
                    estimated += ev[at]["games"]
                    self.same(f"{what}, in the estimate", ev[at]["weights"][0], ref)
                    if ev[at]["mode"]:
                        raise Violation(f"{what}: the model is in training mode in the estimate")
                    at += 1
                if bool(estimated) != (seen % 1000 == 0):
                    raise Violation(f"{what}: the validation loss is " + ("" if estimated else "not ") +
                                    "estimated after this batch")
                if estimated > case["val"]:
                    raise Violation(f"{what}: the estimate uses {estimated} of {case['val']} games")
                seen += e["games"]
        if at < len(ev):
            raise Violation(f"after {case['iters']} iterations the run goes on")
        return ref

    def same(self, what, w, ref):
        want = ref.w
        if w.shape != want.shape:
            raise HarnessError("shape")
        d = float(np.abs(w - want).max())
        if not d <= 1e-9 * max(1.0, float(np.abs(want).max())):
            raise Violation(f"{what} (step {ref.n}): the weights differ by {d} from those that one AdamW step per "
                            f"loss at the scheduled rates leads to")

    def current(self, case, stats):
        """Losses of one batch, the weights changing in between."""
        torch = archs.torch1()
        done = [process_text(mjlog.to_xml(g)) for g in case["games"]]
        games = [g[0] for g in done], [g[1] for g in done]
        model = randomised(case["arch"], 0, case["params"], case["style"])
        last = None
        with torch.no_grad():
            n = sum(1 for _ in model(*games))
            going, heads = iter(model(*games)), 0
            while True:
                fresh = list(model(*copy.deepcopy(games)))
                try:
                    lg, loss = next(going)
                except StopIteration:
                    break
                if heads == len(fresh):
                    raise Violation(f"{case['arch']}: further losses appear when the weights change")
                flg, floss = fresh[heads]
                scale = max(1.0, float(floss.abs()))
                if lg.shape != flg.shape or not abs(float(loss) - float(floss)) <= 2e-4 * scale:
                    raise Violation(f"{case['arch']}, loss {heads + 1} of a batch: {float(loss)}, the weights at this "
                                    f"moment give {float(floss)}")
                if last is not None and abs(float(last[heads][1]) - float(floss)) > 2e-3 * scale:
                    if stats is not None:
                        stats.note("losses moved by the change")
                heads += 1
                last = fresh
                rng = torch.Generator().manual_seed(case["change"] + heads)
                for p in model.parameters():
                    p.mul_(1 + 0.3 * torch.randn(p.shape, generator=rng)).add_(
                        0.02 * torch.randn(p.shape, generator=rng))
        if heads != n:
            raise Violation(f"{case['arch']}: {heads} of {n} losses when the weights change in between")
        if stats is not None:
            stats.note(case["arch"])
            stats.case(case, n >= 2, lambda: {k: v for k, v in case.items() if k != "games"})
