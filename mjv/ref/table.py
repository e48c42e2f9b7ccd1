"""Reference model of a round: replays a log's events and says, for every decision point, what the
deciding seats see, which choices they legally have, and (from the following events) what they did.

It recomputes everything from sets of physical tiles at each decision point instead of keeping
counters, so it shares no bookkeeping with the code under test."""
from . import codec, hands
from .tiles import FULL37, REDS, vec34, vec37

DRAW, DISC = "TUVW", "DEFG"


class Illegal(Exception):
    """The event cannot happen in this state."""


def offer_class(m):
    """How offers are named: call, kind, position or relative seat, role of the red five."""
    k = m.tiles[0] // 4
    if m.type == "chi":
        return ("chi", k, sorted(m.tiles).index(m.claimed), codec.red_role(m))
    if m.type in ("pon", "minkan"):
        return (m.type, k, m.rel, codec.red_role(m))
    if m.type == "kakan":
        return ("kakan", k, codec.red_role(m))
    return (m.type, k)


class Point:
    __slots__ = ("kind", "player", "tile", "hist", "views", "offers", "taken", "event", "hist_before")

    def __init__(self, kind, player, tile, hist, views, offers, event):
        self.kind, self.player, self.tile, self.hist = kind, player, tile, hist
        self.views, self.offers, self.event = views, offers, event
        self.taken = {}  # seat -> ("agari",) | ("reach",) | ("naki", call_class)


class Round:
    def __init__(self, init, n_rounds, track=True):
        self.round, self.honba, self.kyotaku, _, _, dora = map(int, init["seed"].split(","))
        self.scores = [int(x) for x in init["ten"].split(",")]
        self.oya = int(init["oya"])
        self.n_rounds = n_rounds
        self.hands = [set(map(int, init[f"hai{p}"].split(","))) for p in range(4)]
        self.melds = [[] for _ in range(4)]
        self.meld_codes = [[] for _ in range(4)]
        self.river = [[] for _ in range(4)]      # own discards, physical, including claimed ones
        self.doras = [dora]
        self.live = 70
        self.reach = [False] * 4
        self.dreach = [False] * 4
        self.ippatsu = [False] * 4
        self.temp = [False] * 4                  # passed a completing tile since own last draw
        self.temp_called = [False] * 4           # ... and made a call after that (rule unclear)
        self.perm = [False] * 4                  # passed a completing tile while in riichi
        self.any_call = False
        self.kans = 0
        self.kan_owners = set()
        self.drawn = None                        # physical tile drawn this turn, if any
        self.turn = None                         # seat that must act (discard)
        self.rinshan = None                      # seat about to draw / having drawn a replacement
        self.last = None                         # last discard (seat, tile) that can be claimed
        self.kakan_tile = None
        self.declared = None
        self.history = []
        self.all_codes = []                      # meld codes in order
        self.points = []
        self.ended = None
        self.result = []
        self.track = track
        self.nevents = 0
        self.open_point = None                   # point whose taken action may still come

    # ------------------------------------------------------------ views
    def seat_wind(self, p):
        return 27 + (p - self.oya) % 4

    def round_wind(self):
        return 27 + self.round // 4

    def closed(self, p):
        return all(m.type == "ankan" for m in self.melds[p])

    def view(self, p):
        seen = set(self.hands[p]) | set(self.doras)
        for q in range(4):
            for m in self.melds[q]:
                seen.update(m.tiles)
            seen.update(self.river[q])
        unseen = [f - s for f, s in zip(FULL37, vec37(seen))]
        for q in range(4):
            seen |= self.hands[q]
        undealt = [f - s for f, s in zip(FULL37, vec37(seen))]
        left = self.n_rounds - self.round
        rivers = []
        for q in range(4):
            v = vec37(self.river[q])
            rivers.append([1 if x else 0 for x in v])
        return {
            "player": p,
            "hand": vec37(self.hands[p]),
            "unseen": unseen,
            "undealt": undealt,
            "river": rivers,
            "menzen": [int(self.closed(q)) for q in range(4)],
            "reach": [int(x) for x in self.reach],
            "dreach": [int(x) for x in self.dreach],
            "ippatsu": [int(x) for x in self.ippatsu],
            "melds": [sorted(c) for c in self.meld_codes],
            "scores": list(self.scores),
            "kyotaku": self.kyotaku,
            "honba": self.honba,
            "doras": list(self.doras),
            "oya": self.oya,
            "left": left,
            "dealer_left": [sum(1 for r in range(self.round, self.n_rounds) if r % 4 == q)
                            for q in range(4)],
            "live": self.live,
        }

    # ------------------------------------------------------------ offers
    def meld_shapes(self, p):
        return [(m.type, m.tiles[0] // 4) for m in self.melds[p]]

    def own_count(self, p, k):
        n = sum(1 for t in self.hands[p] if t // 4 == k)
        return n + sum(1 for m in self.melds[p] for t in m.tiles if t // 4 == k)

    def offers_draw(self, p):
        h = tuple(vec34(self.hands[p]))
        win = self.drawn // 4
        rin = self.rinshan == p
        y = hands.yaku(h, self.meld_shapes(p), win, True, self.seat_wind(p), self.round_wind(),
                       riichi=self.reach[p], last_tile=self.live == 0 and not rin, rinshan=rin,
                       first_draw=not self.any_call and not self.river[p])
        agari = bool(y)
        reach = False
        if self.closed(p) and not self.reach[p] and self.scores[p] >= 10 and self.live >= 4 \
                and hands.shanten(h) <= 0:
            reach = None
            hl = list(h)
            for k in range(34):
                if hl[k]:
                    hl[k] -= 1
                    if any(self.own_count(p, w) < 4 for w in hands.waits(tuple(hl))):
                        reach = True
                    hl[k] += 1
                    if reach:
                        break
        naki = []
        unsure = []
        if self.live >= 1 and self.kans < 4:
            for k in range(34):
                if h[k] == 4:
                    if self.reach[p]:
                        if k != win:
                            continue
                        before = list(h); before[k] -= 1
                        after = list(h); after[k] -= 4
                        if hands.fifth_copy_wait(before) or hands.fifth_copy_wait(after):
                            unsure.append(("ankan", k))
                            continue
                        if set(hands.waits(tuple(before))) != set(hands.waits(tuple(after))):
                            continue
                    naki.append(("ankan", k))
            for m in self.melds[p]:
                if m.type == "pon" and h[m.tiles[0] // 4]:
                    x = m.tiles[0] // 4
                    role = "absent" if x not in (4, 13, 22) else "hand" if codec.has_red(m) else "added"
                    naki.append(("kakan", x, role))
        return {"agari": agari, "reach": reach, "naki": sorted(naki), "unsure": unsure, "yaku": y}

    def offers_react(self, d, tile, chankan=False):
        """Offers of every other seat on a discard (or on the tile of an added kan)."""
        out = {}
        k = tile // 4
        for p in range(4):
            if p == d:
                continue
            h = vec34(self.hands[p])
            wt = hands.waits(tuple(h))
            comp = k in wt
            agari, why, y = False, None, None
            if comp:
                h[k] += 1
                y = hands.yaku(tuple(h), self.meld_shapes(p), k, False, self.seat_wind(p),
                               self.round_wind(), riichi=self.reach[p],
                               last_tile=self.live == 0 and not chankan, chankan=chankan)
                h[k] -= 1
                own = {t // 4 for t in self.river[p]}
                if own & set(wt):
                    why = "own discard"
                elif self.perm[p]:
                    why = "passed in riichi"
                elif self.temp[p]:
                    why = "passed this turn"
                agari = bool(y) and why is None
                if y and why == "passed this turn" and self.temp_called[p]:
                    agari = None
            naki = []
            if not chankan and not self.reach[p] and self.live > 0:
                naki = self.calls(p, d, tile)
            # with four kans by several seats the round is aborted after this discard
            aborted = self.kans == 4 and len(self.kan_owners) > 1
            out[p] = {"agari": agari, "naki": sorted(naki), "aborted": aborted, "complete": comp, "furiten": why, "yaku": y}
        return out

    def calls(self, p, d, tile):
        k = tile // 4
        mine = self.hands[p]
        same = [t for t in mine if t // 4 == k]
        rel = (d - p) % 4
        out = []
        red = [t for t in same if t in REDS]
        other = "claimed" if tile in REDS else "absent"
        if len(same) >= 2:
            if len(same) - len(red) >= 2:
                out.append(("pon", k, rel, other))
            if red:
                out.append(("pon", k, rel, "hand"))
        if len(same) == 3 and self.kans < 4:
            out.append(("minkan", k, rel, "hand" if red else other))
        if (p - d) % 4 == 1 and k < 27:
            n = k % 9
            for which in range(3):
                low = n - which
                if not 0 <= low <= 6:
                    continue
                need = [k - which + i for i in range(3) if i != which]
                have = [[t for t in mine if t // 4 == x] for x in need]
                if not all(have):
                    continue
                flags = {False}
                for x, ts in zip(need, have):
                    if x % 9 == 4:
                        flags = {t in REDS for t in ts}
                for f in flags:
                    out.append(("chi", k - which, which, "hand" if f else other))
        return out

    # ------------------------------------------------------------ events
    def need(self, cond, msg):
        if not cond:
            raise Illegal(msg)

    def apply(self, tag, attr):
        self.nevents += 1
        if tag == "DORA":
            t = int(attr["hai"])
            self.doras.append(t)
            self.history.append(("dora", t // 4))
        elif tag == "REACH":
            p = int(attr["who"])
            if attr["step"] == "1":
                self.need(self.turn == p and self.drawn is not None, "riichi without draw")
                self.declared = p
                self.open_point.taken[p] = ("reach",)
            else:
                self.need(self.declared == p, "riichi not declared")
                self.declared = None
                self.reach[p] = True
                self.ippatsu[p] = True
                self.dreach[p] = len(self.river[p]) == 1 and not self.any_call
                self.kyotaku += 1
                self.scores[p] -= 10
                self.history.append(("riichi", p))
        elif tag == "N":
            self._meld(int(attr["who"]), int(attr["m"]))
        elif tag[0] in DRAW and tag[1:].isdigit():
            self._draw(DRAW.index(tag[0]), int(tag[1:]))
        elif tag[0] in DISC and tag[1:].isdigit():
            self._discard(DISC.index(tag[0]), int(tag[1:]))
        elif tag == "AGARI":
            w, f = int(attr["who"]), int(attr["fromWho"])
            if self.open_point is not None:
                self.open_point.taken[w] = ("agari",)
            self.ended = "agari"
        elif tag == "RYUUKYOKU":
            self.ended = "ryuukyoku"
        else:
            raise Illegal("unknown event " + tag)

    def _point(self, kind, player, tile, seats, offers):
        if not self.track:
            views = {}
        else:
            views = {p: self.view(p) for p in seats}
        pt = Point(kind, player, tile, len(self.history), views, offers, self.nevents)
        self.points.append(pt)
        return pt

    def _draw(self, p, t):
        self.need(self.turn is None, "draw while a discard is due")
        self.need(t not in self.hands[p], "tile already held")
        self.live -= 1
        self.hands[p].add(t)
        self.drawn, self.turn = t, p
        self.temp[p] = self.temp_called[p] = False
        self.last = self.kakan_tile = None
        offers = self.offers_draw(p) if self.track else None
        self.open_point = self._point("during", p, t, [p], {p: offers})

    def _discard(self, p, t):
        self.need(self.turn == p, "discard out of turn")
        self.need(t in self.hands[p], "tile not held")
        self._point("discard", p, t, [p], {})
        self.history.append(("discard", p, t // 4, t == self.drawn))
        self.hands[p].discard(t)
        self.river[p].append(t)
        self.ippatsu[p] = False
        self.turn = self.drawn = self.rinshan = None
        self.last = (p, t)
        self._react(p, t, False)

    def _react(self, p, t, chankan):
        offers = self.offers_react(p, t, chankan) if self.track else {}
        self.open_point = self._point("post", p, t, [q for q in range(4) if q != p], offers)
        for q, o in offers.items():
            if o["complete"]:
                self.temp[q] = True
                if self.reach[q]:
                    self.perm[q] = True

    def _meld(self, p, code):
        m = codec.decode(code)
        self.all_codes.append(code)
        rev = codec.revealed(m)
        for t in rev:
            self.need(t in self.hands[p], "revealed tile not held")
        if m.type in ("ankan", "kakan"):
            self.need(self.turn == p and self.drawn is not None, "own kan without draw")
        else:
            self.need(self.last is not None and self.last[1] == m.claimed, "nothing to claim")
        if self.open_point is not None:
            self.open_point.taken[p] = ("naki", codec.call_class(m), offer_class(m))
        self.history.append(("naki", p, codec.choice(m), m.type))
        for t in rev:
            self.hands[p].discard(t)
        if m.type == "kakan":
            for i, o in enumerate(self.melds[p]):
                if o.type == "pon" and o.tiles[0] // 4 == m.tiles[0] // 4:
                    del self.melds[p][i], self.meld_codes[p][i]
                    break
        self.melds[p].append(m)
        self.meld_codes[p].append(code)
        self.any_call = True
        self.ippatsu = [False] * 4
        if self.temp[p]:
            self.temp_called[p] = True
        self.open_point = None
        if m.type in ("ankan", "kakan", "minkan"):
            self.kans += 1
            self.kan_owners.add(p)
            self.rinshan = p
            self.turn = None
            self.drawn = None
            if m.type == "kakan":
                self.kakan_tile = m.added
                self._react(p, m.added, True)
        else:
            self.turn, self.drawn = p, None
        self.last = None


def replay(events, n_rounds):
    """events: list of (tag, attr) starting with INIT.  Returns the finished Round."""
    r = Round(events[0][1], n_rounds)
    for tag, attr in events[1:]:
        r.apply(tag, attr)
    return r
