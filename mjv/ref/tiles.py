"""Tiles.  A physical tile is 0..135, its kind is tile // 4 (0..33), the red fives are 16, 52, 88."""

REDS = (16, 52, 88)


def kind(t):
    return t // 4


def is_red(t):
    return t in REDS


def vec37(tiles):
    """Counts of kinds 0..33 followed by one flag per red five (34 man, 35 pin, 36 sou)."""
    v = [0] * 37
    for t in tiles:
        v[t // 4] += 1
        if t in REDS:
            v[34 + REDS.index(t)] += 1
    return v


def vec34(tiles):
    v = [0] * 34
    for t in tiles:
        v[t // 4] += 1
    return v


FULL37 = [4] * 34 + [1] * 3


def name(t):
    k = t // 4
    if k >= 27:
        return "ESWNPFC"[k - 27]
    return ("0" if t in REDS else str(k % 9 + 1)) + "mps"[k // 9]


def kname(k):
    return "ESWNPFC"[k - 27] if k >= 27 else str(k % 9 + 1) + "mps"[k // 9]
