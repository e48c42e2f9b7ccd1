"""Hand shapes and yaku, written from the rules and independent of the code under test and of the
`mahjong` library it uses.  Hands are 34-tuples of concealed tile counts."""
from functools import lru_cache
from itertools import product

import numpy as np

TERMINALS = (0, 8, 9, 17, 18, 26)
HONOURS = tuple(range(27, 34))
YAOCHU = TERMINALS + HONOURS
GREEN = {19, 20, 21, 23, 25, 32}


# ---------------------------------------------------------------- complete hands
@lru_cache(maxsize=None)
def _suit_parts(s):
    """All decompositions of a 9-tuple into runs/triplets and at most one pair.
    Returns a tuple of (melds, pair) with melds a sorted tuple of ('s'|'t', number)."""
    i = 0
    while i < 9 and s[i] == 0:
        i += 1
    if i == 9:
        return (((), None),)
    out = set()
    if s[i] >= 3:
        r = list(s); r[i] -= 3
        for m, p in _suit_parts(tuple(r)):
            out.add((tuple(sorted(m + (("t", i),))), p))
    if s[i] >= 2:
        r = list(s); r[i] -= 2
        for m, p in _suit_parts(tuple(r)):
            if p is None:
                out.add((m, i))
    if i < 7 and s[i + 1] and s[i + 2]:
        r = list(s); r[i] -= 1; r[i + 1] -= 1; r[i + 2] -= 1
        for m, p in _suit_parts(tuple(r)):
            out.add((tuple(sorted(m + (("s", i),))), p))
    return tuple(sorted(out, key=repr))


def decompositions(h):
    """All (melds, pair) of a concealed hand of 3m+2 tiles; melds are (type, lowest kind)."""
    n = sum(h)
    if n % 3 != 2:
        return []
    honour_melds, pair0 = [], None
    for k in HONOURS:
        c = h[k]
        if c == 0:
            continue
        if c == 3:
            honour_melds.append(("t", k))
        elif c == 2 and pair0 is None:
            pair0 = k
        else:
            return []
    partials = [(tuple(honour_melds), pair0)]
    for suit in range(3):
        parts = _suit_parts(tuple(h[suit * 9:suit * 9 + 9]))
        new = []
        for m0, p0 in partials:
            for m1, p1 in parts:
                if p0 is not None and p1 is not None:
                    continue
                new.append((m0 + tuple((t, suit * 9 + i) for t, i in m1),
                            p0 if p1 is None else suit * 9 + p1))
        partials = new
        if not partials:
            return []
    return [(m, p) for m, p in partials if p is not None]


@lru_cache(maxsize=None)
def _suit_ok(s, pair):
    """Can the 9-tuple be split into melds plus `pair` pairs?"""
    i = 0
    while i < 9 and s[i] == 0:
        i += 1
    if i == 9:
        return not pair
    if s[i] >= 3:
        r = list(s); r[i] -= 3
        if _suit_ok(tuple(r), pair):
            return True
    if pair and s[i] >= 2:
        r = list(s); r[i] -= 2
        if _suit_ok(tuple(r), False):
            return True
    if i < 7 and s[i + 1] and s[i + 2]:
        r = list(s); r[i] -= 1; r[i + 1] -= 1; r[i + 2] -= 1
        if _suit_ok(tuple(r), pair):
            return True
    return False


def complete_standard(h):
    if sum(h) % 3 != 2:
        return False
    pair_in = None
    for k in HONOURS:
        c = h[k]
        if c == 2:
            if pair_in is not None:
                return False
            pair_in = "z"
        elif c in (1, 4):
            return False
    groups = [tuple(h[s * 9:s * 9 + 9]) for s in range(3)]
    for s, g in enumerate(groups):
        m = sum(g) % 3
        if m == 1:
            return False
        if m == 2:
            if pair_in is not None:
                return False
            pair_in = s
    if pair_in is None:
        return False
    return all(_suit_ok(g, pair_in == s) for s, g in enumerate(groups))


def complete_chitoi(h):
    return sum(h) == 14 and sum(1 for c in h if c == 2) == 7


def complete_kokushi(h):
    return sum(h) == 14 and all(h[k] >= 1 for k in YAOCHU) and sum(h[k] for k in YAOCHU) == 14


def complete(h):
    return complete_standard(h) or complete_chitoi(h) or complete_kokushi(h)


@lru_cache(maxsize=200000)
def waits(h):
    """Kinds that complete the concealed hand h (3m+1 tiles), ignoring availability."""
    out = []
    h = list(h)
    for k in range(34):
        if h[k] == 4:
            continue  # a fifth copy does not exist
        h[k] += 1
        if complete(tuple(h)):
            out.append(k)
        h[k] -= 1
    return tuple(out)


def fifth_copy_wait(h):
    """Is there a kind, all four copies of which are in h, that would complete h?"""
    h = list(h)
    for k in range(34):
        if h[k] >= 4:
            h[k] += 1
            if complete(tuple(h)):
                return True
            h[k] -= 1
    return False


# ---------------------------------------------------------------- shanten
def _suit_targets():
    """All 9-tuples (counts <= 4) made of m melds and p pairs, m <= 4, p <= 1."""
    blocks = [tuple(3 if j == i else 0 for j in range(9)) for i in range(9)]
    blocks += [tuple(1 if i <= j < i + 3 else 0 for j in range(9)) for i in range(7)]
    levels = [{(0,) * 9}]
    for _ in range(4):
        nxt = set()
        for v in levels[-1]:
            for b in blocks:
                w = tuple(x + y for x, y in zip(v, b))
                if max(w) <= 4:
                    nxt.add(w)
        levels.append(nxt)
    table = {}
    for m, vs in enumerate(levels):
        table[m, 0] = np.array(sorted(vs), dtype=np.int8)
        ps = set()
        for v in vs:
            for i in range(9):
                if v[i] <= 2:
                    w = list(v); w[i] += 2
                    ps.add(tuple(w))
        table[m, 1] = np.array(sorted(ps), dtype=np.int8)
    return table


_TARGETS = None
INF = 99


@lru_cache(maxsize=None)
def _suit_cost(s):
    global _TARGETS
    if _TARGETS is None:
        _TARGETS = _suit_targets()
    v = np.array(s, dtype=np.int8)
    return tuple(tuple(int(np.maximum(_TARGETS[m, p] - v, 0).sum(axis=1).min()) for p in (0, 1))
                 for m in range(5))


@lru_cache(maxsize=None)
def _honour_cost(s):
    n = len(s)
    best = [[INF, INF] for _ in range(5)]
    best[0][0] = 0
    for c in s:
        nb = [row[:] for row in best]
        for m in range(5):
            for p in (0, 1):
                if best[m][p] == INF:
                    continue
                if m < 4:
                    nb[m + 1][p] = min(nb[m + 1][p], best[m][p] + max(0, 3 - c))
                if p == 0:
                    nb[m][1] = min(nb[m][1], best[m][p] + max(0, 2 - c))
        best = nb
    return tuple(tuple(r) for r in best)


def shanten_standard(h):
    """Tiles to draw to reach a complete standard hand, minus one (no kind used more than 4 times)."""
    need = sum(h) // 3  # melds to be formed in the concealed part
    best = ((0, INF),) + ((INF, INF),) * 4
    tables = [_suit_cost(tuple(h[s * 9:s * 9 + 9])) for s in range(3)] + [_honour_cost(tuple(h[27:34]))]
    best = [[INF, INF] for _ in range(need + 1)]
    best[0][0] = 0
    for t in tables:
        nb = [[INF, INF] for _ in range(need + 1)]
        for m in range(need + 1):
            for p in (0, 1):
                b = best[m][p]
                if b >= INF:
                    continue
                for m2 in range(need + 1 - m):
                    for p2 in range(2 - p):
                        c = b + t[m2][p2]
                        if c < nb[m + m2][p + p2]:
                            nb[m + m2][p + p2] = c
        best = nb
    return best[need][1] - 1


def shanten_chitoi(h):
    pairs = sum(1 for c in h if c >= 2)
    kinds = sum(1 for c in h if c >= 1)
    return 6 - pairs + max(0, 7 - kinds)


def shanten_kokushi(h):
    return 13 - sum(1 for k in YAOCHU if h[k]) - (1 if any(h[k] >= 2 for k in YAOCHU) else 0)


def shanten(h):
    s = shanten_standard(h)
    if sum(h) >= 13:
        s = min(s, shanten_chitoi(h), shanten_kokushi(h))
    return s


# ---------------------------------------------------------------- yaku
def yaku(concealed, melds, win, tsumo, seat_wind, round_wind, riichi=False, last_tile=False,
         rinshan=False, chankan=False, first_draw=False):
    """Names of yaku the hand can have in at least one reading, or None if it is not complete.

    concealed: 34-tuple including the winning tile; melds: list of (type, lowest kind) with type in
    chi pon kakan minkan ankan; win: kind of the winning tile; winds are kinds 27..30."""
    if not complete(concealed):
        return None
    closed = all(t == "ankan" for t, _ in melds)
    found = set()
    if riichi:
        found.add("riichi")
    if tsumo and closed:
        found.add("menzen tsumo")
    if last_tile:
        found.add("haitei" if tsumo else "houtei")
    if rinshan and tsumo:
        found.add("rinshan")
    if chankan:
        found.add("chankan")
    if first_draw and tsumo:
        found.add("tenhou/chiihou")

    allk = list(concealed)
    for t, k in melds:
        if t == "chi":
            for i in range(3):
                allk[k + i] += 1
        else:
            allk[k] += 3
    used = [k for k in range(34) if allk[k]]
    if all(k not in YAOCHU for k in used):
        found.add("tanyao")
    if all(k in YAOCHU for k in used):
        found.add("honroutou")
    suits = {k // 9 for k in used if k < 27}
    if len(suits) == 1:
        found.add("honitsu" if any(k >= 27 for k in used) else "chinitsu")
    if not suits:
        found.add("tsuuiisou")
    if all(k in GREEN for k in used):
        found.add("ryuuiisou")
    if complete_chitoi(concealed):
        found.add("chitoitsu")
    if complete_kokushi(concealed):
        found.add("kokushi")

    for cm, pair in decompositions(concealed):
        # all melds: (type s/t, kind, concealed?)
        base = [("s" if t == "chi" else "t", k, t == "ankan") for t, k in melds]
        runs_all = [k for t, k in cm if t == "s"] + [k for t, k, _ in base if t == "s"]
        trip_all = [k for t, k in cm if t == "t"] + [k for t, k, _ in base if t == "t"]
        for k in trip_all:
            if k >= 31:
                found.add("dragons")
            if k == seat_wind:
                found.add("seat wind")
            if k == round_wind:
                found.add("round wind")
        if len(trip_all) == 4:
            found.add("toitoi")
        if sum(1 for t, _ in melds if t in ("kakan", "minkan", "ankan")) >= 3:
            found.add("sankantsu")
        for k in range(9):
            if all(k + 9 * s in trip_all for s in range(3)):
                found.add("sanshoku doukou")
            if k < 7 and all(k + 9 * s in runs_all for s in range(3)):
                found.add("sanshoku doujun")
        for s in range(3):
            if all(9 * s + i in runs_all for i in (0, 3, 6)):
                found.add("ittsuu")
        blocks = [[k, k + 1, k + 2] for k in runs_all] + [[k] for k in trip_all] + [[pair]]
        if all(any(x in YAOCHU for x in b) for b in blocks) and runs_all:
            found.add("chanta/junchan")
        if sum(1 for k in trip_all if k >= 31) == 2 and pair >= 31:
            found.add("shousangen")
        if sum(1 for k in trip_all if 27 <= k <= 30) == 3 and 27 <= pair <= 30:
            found.add("shousuushii")
        if closed:
            runs = [k for t, k in cm if t == "s"]
            if any(runs.count(k) >= 2 for k in runs):
                found.add("iipeikou")
            if len(cm) == 4 and len(runs) == 4:
                if pair < 31 and pair != seat_wind and pair != round_wind:
                    for k in runs:
                        if win == k and k % 9 != 6 or win == k + 2 and k % 9 != 0:
                            found.add("pinfu")
        # concealed triplets: on a discard win a triplet completed by the winning tile is not concealed
        conc = sum(1 for t, _ in cm if t == "t") + sum(1 for t, _ in melds if t == "ankan")
        if not tsumo and ("t", win) in cm:
            # unless the winning tile can belong to the pair or to a run of this reading
            elsewhere = pair == win or any(t == "s" and k <= win <= k + 2 for t, k in cm)
            if not elsewhere:
                conc -= 1
        if conc >= 3:
            found.add("sanankou")
    return found
