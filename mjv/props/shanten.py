"""C26: the shanten solver."""
import itertools

import numpy as np

from .. import core
from ..core import Violation
from ..ref import hands
from ..ref.hands import YAOCHU

SIZES = (13, 14, 10, 11, 7, 8, 4, 5, 1, 2)
FIVES = (4, 13, 22)


def text(h):
    return "".join(str(k % 9 + 1) * c + "mpsz"[k // 9] for k, c in enumerate(h) if c)


class C26(core.Check):
    id = "C26"
    rule = ("One evaluation is one hand of 1 to 14 tiles given to the solver twice, without and with its red "
            "fives marked; the result is compared with a reference that minimises over all complete hands. "
            "Hands are drawn from the whole set, from few suits or kinds, with many fours, or grown from "
            "melds, pairs, seven pairs and orphans. Non-trivial: the hand is at most two away from complete, "
            "or holds a fourth copy.")
    assumptions = ["a hand waiting only for a fifth copy of a tile is not tenpai"]
    quick = 24000
    thorough = 1600000
    tape_len = 48

    def setup(self):
        import MahjongAI.utils.shanten  # noqa: F401

    def shard(self, ctx):
        # Hypothesis draws seeds, each of which is good for many hands
        per = 100
        n = max(1, ctx.my_cases() // per)

        def body(data):
            rng = np.random.default_rng(int.from_bytes(data, "big"))
            for _ in range(per):
                if ctx.try_case(self.gen(rng)):
                    return True
            return False
        core.tapes(ctx, n, 16, body)

    def gen(self, rng):
        n = SIZES[min(int(rng.integers(16)), 9)] if rng.random() < 0.6 else SIZES[int(rng.integers(10))]
        mode = int(rng.integers(9))
        kinds = list(range(34))
        if mode == 1:
            s = int(rng.integers(3)) * 9
            kinds = list(range(s, s + 9))
        elif mode == 2:
            s = int(rng.integers(3)) * 9
            kinds = list(range(s, s + 9)) + list(range(27, 34))
        elif mode == 3:
            kinds = list(YAOCHU)
        elif mode == 4:
            s = int(rng.integers(3)) * 9 + int(rng.integers(5))
            kinds = list(range(s, s + 5)) + [int(k) for k in rng.choice(34, 2)]
        h = [0] * 34
        if mode == 5:      # fours
            for k in rng.permutation(34)[:int(rng.integers(1, 4))]:
                h[k] = 4
        elif mode == 6:    # melds, pairs and parts of melds
            for _ in range(5):
                b = int(rng.integers(6))
                s, i = int(rng.integers(3)) * 9, int(rng.integers(7))
                for k in ((s + i, s + i + 1, s + i + 2), (s + i, s + i + 2), (s + i + 1, s + i + 2),
                          (s + i,) * 3, (27 + i,) * 3, (27 + i,) * 2)[b]:
                    h[k] += 1
        elif mode == 7:    # seven pairs
            for k in rng.permutation(34)[:7]:
                h[k] = int(rng.choice([2, 2, 2, 1, 3, 4]))
            n = 13 + n % 2
        elif mode == 8:    # orphans
            for k in YAOCHU:
                h[k] = int(rng.choice([1, 1, 1, 1, 0, 2, 3]))
            n = 13 + n % 2
        pool = [k for k in kinds for _ in range(4)]
        # trim or fill to the size
        h = [min(c, 4) for c in h]
        while sum(h) > n:
            k = int(rng.choice([k for k in range(34) if h[k]]))
            h[k] -= 1
        for i in rng.permutation(len(pool)):
            if sum(h) == n:
                break
            if h[pool[i]] < 4:
                h[pool[i]] += 1
        red = [int(h[k] > 0 and rng.random() < h[k] / 4) for k in FIVES]
        return {"hand": h, "red": red, "int": bool(rng.random() < 0.3)}

    def smaller(self, case):
        h = case["hand"]
        if any(case["red"]):
            yield dict(case, red=[0, 0, 0])
        if case["int"]:
            yield dict(case, int=False)
        for a, b in itertools.product(range(34), range(34)):
            if h[a] and h[b] < 4 and b < a and h[b]:
                g = list(h)
                g[a] -= 1
                g[b] += 1
                yield dict(case, hand=g)
        ks = [k for k in range(34) if h[k]]
        for x in itertools.combinations(ks, 3):
            g = list(h)
            for k in x:
                g[k] -= 1
            yield dict(case, hand=g)
        for k in ks:
            if h[k] >= 3:
                g = list(h)
                g[k] -= 3
                yield dict(case, hand=g)

    def size(self, case):
        return sum(case["hand"]) * 1000 + len([c for c in case["hand"] if c]) * 10 + sum(case["red"])

    def check_case(self, case, stats=None):
        from MahjongAI.utils.shanten import ShantenSolver
        h = tuple(case["hand"])
        want = hands.shanten(h)
        for red in ([0, 0, 0], case["red"]) if any(case["red"]) else ([0, 0, 0],):
            x = np.array(list(h) + list(red), dtype=np.int64 if case["int"] else np.float64)
            keep = x.copy()
            s = ShantenSolver()
            s._init(x)
            got = s.solve()
            if got != want:
                raise Violation(f"{text(h)}{' with red fives ' + str(red) if any(red) else ''} is given "
                                f"{got} shanten, right is {want}")
            if not np.array_equal(x, keep):
                raise Violation(f"the hand {text(h)} is changed")
            s._init(x)
            if s.solve() != want:
                raise Violation(f"{text(h)}: solving again with the same solver gives another result")
        if stats is not None:
            stats.note(f"{sum(h)} tiles, shanten {want}")
            stats.case(case, want <= 2 or max(h) == 4, lambda: [text(h), case["red"], want])
