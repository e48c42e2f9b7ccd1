"""C18-C20: how decision points become the tensors of a batch."""
import numpy as np

from .. import core
from ..core import Violation
from ..ref import sim
from . import archs
from .archs import ARCHS, DIMS, HEADS, SEQ, batches, expected_samples, mask_set, seat_relative
from .common import (TableCheck, align, brief, gen_game, ints, process_game, replay_game, smaller_games, where)


class BatchCheck(core.Check):
    tape_len = 2600
    events = 120
    rounds = 1
    scripted = 24
    profiles = ("calls", "riichi", "tenpai", "kans", "mixed", "furiten", "calls", "plain")

    def setup(self):
        archs.torch1()
        for a in ARCHS:
            archs.processor(a)

    def shard(self, ctx):
        def body(data):
            return ctx.try_case(self.gen(sim.Tape(data)))
        core.tapes(ctx, ctx.my_cases(), self.tape_len, body)

    def gen(self, tape, **kw):
        if tape.chance(24):      # a long round with many reactions
            g, _ = gen_game(tape, self.rounds, "busy", **kw)
        elif tape.chance(self.scripted):     # one that is likely to end in a win
            g, _ = gen_game(tape, self.rounds, tape.pick(["claimed", "scripted", "claimed"]), max_events=150, **kw)
        else:
            g, _ = gen_game(tape, self.rounds, lambda t: t.pick(self.profiles),
                            max_events=10 + tape.below(self.events), **kw)
        return g

    def smaller(self, case):
        return smaller_games(case)


class C18(BatchCheck):
    id = "C18"
    rule = ("One evaluation is one game turned into batches by all four architectures; masks and labels of "
            "every sample are compared with the decisions. Non-trivial: some label is not pass.")
    assumptions = ["action slots are read from the calls themselves (property C03 judges them)"]
    quick = 1000
    thorough = 12000
    scripted = 64

    def check_case(self, case, stats=None):
        turns, tokens = process_game(case)
        want = {h: [] for h in HEADS}
        for ts in turns:
            e = expected_samples(ts)
            for h in HEADS:
                want[h] += e[h]
        for a in ARCHS:
            got = batches(a, [turns], [tokens])
            for h in HEADS:
                g, w = got[h], want[h]
                if len(g["mask"]) != len(w) or len(g["y"]) != len(w):
                    raise Violation(f"{a}: {len(g['mask'])} {h} masks and {len(g['y'])} labels for {len(w)} "
                                    "samples")
                if len(w) and g["mask"].shape[1] != DIMS[h]:
                    raise Violation(f"{a}: {h} masks have {g['mask'].shape[1]} actions")
                for i, (t, p, allowed, y) in enumerate(w):
                    m = mask_set(g["mask"][i])
                    if m != allowed or not set(np.unique(g["mask"][i])) <= {0.0, 1.0}:
                        raise Violation(f"{a}: {h} sample {i} (seat {p}) allows {sorted(m)}, should be "
                                        f"{sorted(allowed)}")
                    if int(g["y"][i]) != y:
                        raise Violation(f"{a}: {h} sample {i} (seat {p}) has label {int(g['y'][i])}, should "
                                        f"be {y}")
        if stats is not None:
            taken = 0
            for h in HEADS:
                for t, p, allowed, y in want[h]:
                    if h != "discard":
                        k = ("pass", "win", "riichi")[y] if y < 3 else "call"
                        taken += y > 0
                        stats.note(f"{h} {k}" + (" of several calls" if k == "call" and len(allowed) > 2
                                                 else ""))
                    elif any(x >= 34 for x in allowed):
                        stats.note("discard with red five in hand")
            stats.case(case, taken > 0, lambda: brief(case, 40))


def stairs(v):
    """Counts as four thresholds."""
    return (np.arange(4)[None, :] < np.asarray(v)[:, None]).astype(np.float32)


def expected_state(name, v):
    p = v["player"]
    hand, unseen = np.array(v["hand"]), np.array(v["unseen"])
    rivers = [np.array(r) for r in v["river"]]
    if name == "transformer":
        x1 = np.stack([hand, unseen, rivers[p]]).astype(np.float32)
    elif seat_relative(name):
        x1 = np.stack([stairs(x) for x in [hand, unseen] + [rivers[(p + i) % 4] for i in range(4)]])
    else:
        x1 = np.stack([stairs(x) for x in (hand, unseen, rivers[p])])
    dealer = [float(q == v["oya"]) for q in range(4)]
    x2 = np.array([v["scores"], dealer, v["dealer_left"], v["dreach"], v["reach"], v["ippatsu"],
                   v["menzen"]], dtype=np.float32)
    x3 = np.array([v["live"], v["kyotaku"], v["honba"], v["left"]], dtype=np.float32)
    return x1, x2, x3


PARTS = {"x1": ("hand", "unseen", "discards"),
         "x2": ("scores", "dealer", "dealer turns left", "double riichi", "riichi", "ippatsu", "concealed"),
         "x3": ("draws left", "deposits", "repeats", "rounds left")}


class C19(BatchCheck):
    id = "C19"
    rule = ("One evaluation is one game turned into batches by all four architectures; the history and "
            "state inputs of every sample are compared with the reference model's view of the round. "
            "Non-trivial: some sample is a reaction, or follows a call or a riichi.")
    assumptions = ["dealer turns and rounds left are compared for the regular rounds of the game type"]
    quick = 700
    thorough = 10000

    def gen(self, tape):
        return BatchCheck.gen(self, tape, overtime=False)

    def check_case(self, case, stats=None):
        refs = replay_game(case)
        turns, tokens = process_game(case)
        want = {h: [] for h in HEADS}
        usable = True
        for ref, ts, tk in zip(refs, turns, tokens):
            pairs = align(ref, ts)
            if len(pairs) != len(ts):
                usable = False   # property C06 reports this
                break
            pts = {id(t): pt for pt, t in pairs}
            e = expected_samples(ts)
            for h in HEADS:
                want[h] += [(pts[id(t)], p, ints(tk), ref) for t, p, _, _ in e[h]]
        if usable:
            for a in ARCHS:
                self.compare(a, batches(a, [turns], [tokens]), want)
        if stats is not None:
            rich = False
            for h in HEADS:
                for pt, p, tk, ref in want[h]:
                    v = pt.views[p]
                    if h == "post" or any(v["melds"]) or any(v["reach"]):
                        rich = True
                if want[h]:
                    stats.note("rounds with " + h + " samples")
            stats.case(case, rich and usable, lambda: brief(case, 40))

    def compare(self, a, got, want):
        for h in HEADS:
            g, w = got[h], want[h]
            n = len(g["hist"])
            if n != len(w):
                raise Violation(f"{a}: {n} {h} samples, {len(w)} decisions")
            if not n:
                continue
            if g["hist"].shape != (n, SEQ):
                raise Violation(f"{a}: {h} history input of shape {g['hist'].shape}")
            for i, (pt, p, tk, ref) in enumerate(w):
                at = f"{a}: {h} sample {i} (seat {p}, {where(ref, pt)})"
                hist = tk[:pt.hist] + [0] * (SEQ - pt.hist)
                if [int(x) for x in g["hist"][i]] != hist:
                    j = next(j for j in range(SEQ) if int(g["hist"][i][j]) != hist[j])
                    raise Violation(f"{at}: history input {int(g['hist'][i][j])} at {j}, should be {hist[j]} "
                                    f"({pt.hist} visible entries)")
                for part, x in zip(("x1", "x2", "x3"), expected_state(a, pt.views[p])):
                    if g[part][i].shape != x.shape:
                        raise Violation(f"{at}: {part} has shape {g[part][i].shape}, should be {x.shape}")
                    if not np.array_equal(g[part][i], x):
                        j = tuple(int(q[0]) for q in np.nonzero(g[part][i] != x))
                        what = PARTS[part][min(j[0], len(PARTS[part]) - 1)]
                        raise Violation(f"{at}: {what} ({part}{list(j)}) is {g[part][i][j]}, should be {x[j]}")
                if "seat" in g and int(g["seat"][i]) != p:
                    raise Violation(f"{at}: deciding seat given as {int(g['seat'][i])}")


class C20(BatchCheck):
    id = "C20"
    rule = ("One evaluation is a list of games (among them rounds cut so short that some type of decision is "
            "missing): their common batch is compared with the batches of the single rounds put together, "
            "for several groupings. Non-trivial: at least two games with samples.")
    quick = 160
    thorough = 3200
    tape_len = 4000

    def gen(self, tape):
        games = []
        for _ in range(1 + tape.below(4)):
            n = tape.pick([1, 1, 2, 3, 2, 1, 0, 1])
            g, _ = gen_game(tape, n, lambda t: t.pick(self.profiles),
                            max_events=tape.pick([3, 4, 5, 8, 15, 30, 60, 12]))
            games.append(g)
        if tape.chance(24):     # and one of many short rounds
            g, _ = gen_game(tape, 9 + tape.below(14), lambda t: t.pick(self.profiles),
                            max_events=tape.pick([5, 4, 8, 12]))
            games.append(g)
        return {"games": games, "cut": tape.below(len(games)), "arch": tape.below(4)}

    def check_case(self, case, stats=None):
        done = [process_game(g) for g in case["games"]]
        names = list(ARCHS)
        names = [names[(case["arch"] + i) % 4] for i in range(4)]
        for a in names:
            # each round of each game on its own
            singles = [batches(a, [[ts]], [[tk]]) for turns, tokens in done
                       for ts, tk in zip(turns, tokens)]
            counts = [{h: len(v) for h, v in expected_samples(ts).items()} for turns, _ in done
                      for ts in turns]
            for s, c in zip(singles, counts):
                for h in HEADS:
                    for k, v in s[h].items():
                        if len(v) != c[h]:
                            raise Violation(f"{a}: {len(v)} entries of {h}/{k} for {c[h]} samples")
            whole = batches(a, [d[0] for d in done], [d[1] for d in done])
            self.same(a, "the batch of all games", whole, singles)
            c = case["cut"]
            for part, lo, hi in (("first games", 0, c), ("last games", c, len(done))):
                if lo < hi:
                    first = sum(len(d[0]) for d in done[:lo])
                    n = sum(len(d[0]) for d in done[lo:hi])
                    self.same(a, "the batch of the " + part,
                              batches(a, [d[0] for d in done[lo:hi]], [d[1] for d in done[lo:hi]]),
                              singles[first:first + n])
            merged = batches(a, [[ts for d in done for ts in d[0]]], [[tk for d in done for tk in d[1]]])
            self.same(a, "all rounds as one game", merged, singles)
        if stats is not None:
            n = sum(1 for d in done if any(d[0]))
            stats.note(f"{len(done)} games")
            for d in done:
                for ts in d[0]:
                    e = expected_samples(ts)
                    for h in HEADS:
                        if not e[h]:
                            stats.note("round without " + h)
                if not d[0]:
                    stats.note("game without rounds")
            stats.case(case, n >= 2, lambda: [brief(g, 12) for g in case["games"]])

    def same(self, a, what, got, singles):
        for h in HEADS:
            for k in got[h]:
                parts = [s[h][k] for s in singles if len(s[h][k])]
                g = got[h][k]
                n = sum(map(len, parts))
                if len(g) != n:
                    raise Violation(f"{a}: {what} has {len(g)} entries of {h}/{k}, its rounds have {n}")
                if n and not np.array_equal(g, np.concatenate(parts)):
                    w = np.concatenate(parts)
                    i = next((i for i in range(n) if not np.array_equal(g[i], w[i])), "?")
                    raise Violation(f"{a}: {what} differs from its rounds put together: {h}/{k}, sample {i}")

    def smaller(self, case):
        gs = case["games"]
        for i in range(len(gs)):
            if len(gs) > 1:
                yield dict(case, games=gs[:i] + gs[i + 1:], cut=0)
            for g in smaller_games(gs[i]) if gs[i]["rounds"] else ():
                yield dict(case, games=gs[:i] + [g] + gs[i + 1:])
