"""The log server's meld code, written from its published format and independent of the code under
test.

  chi    bits 0-1 relative seat (always 3), bit 2 set, bits 3-8 the copy number of each of the three
         tiles (2 bits each), bits 10-15 ((colour * 7 + lowest number) * 3 + position of claimed tile)
  pon    bits 0-1 relative seat, bit 3 set, bits 5-6 the copy not used, bits 9-15 kind * 3 + position of
         the claimed tile among the three used copies in ascending order
  kakan  as pon with bit 4 set instead of bit 3; bits 5-6 the copy that is added
  kan    bits 0-1 relative seat (0 = closed), bits 2-7 clear, bits 8-15 claimed physical tile
"""
from collections import namedtuple

from .tiles import REDS

# type: chi pon kakan minkan ankan; tiles: all physical tiles, ascending; claimed: physical tile or None
# (for kakan: the tile originally claimed by the pon); added: the added tile of a kakan; rel: relative
# seat claimed from (0 for ankan)
Meld = namedtuple("Meld", "type tiles claimed added rel")


def encode(m):
    ts = sorted(m.tiles)
    if m.type == "chi":
        base = ts[0] // 4
        colour, number = divmod(base, 9)
        which = ts.index(m.claimed)
        pat = (colour * 7 + number) * 3 + which
        code = 3 | 4 | pat << 10
        for i, t in enumerate(ts):
            code |= (t % 4) << (3 + 2 * i)
        return code
    if m.type == "pon":
        k = ts[0] // 4
        unused = ({0, 1, 2, 3} - {t % 4 for t in ts}).pop()
        return m.rel | 8 | unused << 5 | (k * 3 + ts.index(m.claimed)) << 9
    if m.type == "kakan":
        k = ts[0] // 4
        three = [t for t in ts if t != m.added]
        return m.rel | 16 | (m.added % 4) << 5 | (k * 3 + three.index(m.claimed)) << 9
    if m.type == "minkan":
        return m.rel | m.claimed << 8
    if m.type == "ankan":
        # the log may name any of the four copies
        return (m.claimed if m.claimed is not None else ts[0]) << 8
    raise ValueError(m)


def decode(code):
    rel = code & 3
    if code & 4:
        pat = code >> 10 & 0x3F
        which = pat % 3
        colour, number = divmod(pat // 3, 7)
        tiles = [(colour * 9 + number + i) * 4 + (code >> (3 + 2 * i) & 3) for i in range(3)]
        return Meld("chi", tuple(tiles), tiles[which], None, rel)
    if code & 8 or code & 16:
        pat = code >> 9 & 0x7F
        which = pat % 3
        k = pat // 3
        c = code >> 5 & 3
        three = [k * 4 + i for i in range(4) if i != c]
        if code & 8:
            return Meld("pon", tuple(three), three[which], None, rel)
        return Meld("kakan", tuple(k * 4 + i for i in range(4)), three[which], k * 4 + c, rel)
    t = code >> 8 & 0xFF
    four = tuple(t // 4 * 4 + i for i in range(4))
    if rel:
        return Meld("minkan", four, t, None, rel)
    return Meld("ankan", four, None, None, 0)


def revealed(m):
    """Physical tiles leaving the caller's concealed hand."""
    if m.type == "kakan":
        return (m.added,)
    if m.type == "ankan":
        return m.tiles
    return tuple(t for t in m.tiles if t != m.claimed)


def has_red(m):
    return any(t in REDS for t in m.tiles)


def red_role(m):
    """absent / claimed / hand (spent from the concealed hand) / added (kakan)."""
    red = [t for t in m.tiles if t in REDS]
    if not red:
        return "absent"
    if m.type == "kakan":
        return "added" if m.added in REDS else "hand"
    if m.type == "ankan":
        return "hand"
    return "claimed" if m.claimed in REDS else "hand"


def position(m):
    return sorted(m.tiles).index(m.claimed) if m.type == "chi" else None


def call_class(m):
    """What makes two calls 'the same call' (property C02)."""
    k = m.tiles[0] // 4
    if m.type == "chi":
        return ("chi", k, position(m), m.rel, red_role(m))
    if m.type == "kakan":
        return ("kakan", k, red_role(m))
    return (m.type, k, m.rel, red_role(m))


def choice(m):
    """What makes two calls the same choice for a player (action slots, property C03)."""
    k = m.tiles[0] // 4
    if m.type == "chi":
        return ("chi", k, position(m), red_role(m) == "hand")
    if m.type == "pon":
        return ("pon", k, red_role(m) == "hand")
    return (m.type, k)


def all_codes():
    """Every legal meld code, with its meld."""
    out = []
    for colour in range(3):
        for number in range(7):
            for which in range(3):
                for c in range(64):
                    ts = tuple((colour * 9 + number + i) * 4 + (c >> (2 * i) & 3) for i in range(3))
                    out.append(Meld("chi", ts, ts[which], None, 3))
    for k in range(34):
        for unused in range(4):
            three = tuple(k * 4 + i for i in range(4) if i != unused)
            for which in range(3):
                for rel in (1, 2, 3):
                    out.append(Meld("pon", three, three[which], None, rel))
                    out.append(Meld("kakan", tuple(k * 4 + i for i in range(4)), three[which],
                                    k * 4 + unused, rel))
        four = tuple(k * 4 + i for i in range(4))
        for c in range(4):
            for rel in (1, 2, 3):
                out.append(Meld("minkan", four, four[c], None, rel))
            out.append(Meld("ankan", four, four[c], None, 0))
    return [(encode(m), m._replace(claimed=None) if m.type == "ankan" else m) for m in out]
