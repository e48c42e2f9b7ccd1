"""A seat that follows a plan (profile "scripted" of the generator): a complete hand is drawn up, some of its
sets are called or become kans in the course of the round, and the tiles that complete the rest appear at a chosen
moment: at any time, as the last tile, after a kan of its own, as the tile another seat adds to its pon, or as one
that another seat could claim too.

Everything goes through the generator's own events, so the round stays legal whether or not the plan works out."""


def special_sets(t, winds):
    """Sets and a pair (or None) that make one of the rarer patterns; what is left open may be anything."""
    run = lambda low: [low, low + 1, low + 2]  # noqa: E731
    triple = lambda k: [k] * 3  # noqa: E731
    s, n = t.below(3), t.below(7)
    name = t.pick(["straight", "three colours", "outside", "all triplets", "three colour triplets", "dragons",
                   "wind", "twin runs", "half flush", "simples", "outside without honours", "two dragons"])
    if name == "straight":
        return [run(9 * s), run(9 * s + 3), run(9 * s + 6)], None
    if name == "three colours":
        return [run(n), run(9 + n), run(18 + n)], None
    if name == "three colour triplets":
        n = t.below(9)
        return [triple(n), triple(9 + n), triple(18 + n)], None
    if name.startswith("outside"):
        ends = [run(9 * x + y) for x in range(3) for y in (0, 6)] + [triple(9 * x + y) for x in range(3) for y in (0, 8)]
        if name == "outside":
            ends += [triple(k) for k in range(27, 34)]
        return [t.pick(ends) for _ in range(4)], t.pick([9 * s, 9 * s + 8, 27 + n if name == "outside" else 9 * s])
    if name == "all triplets":
        return [triple(t.below(34)) for _ in range(4)], None
    if name == "dragons":
        return [triple(31 + t.below(3))], None
    if name == "two dragons":
        a = t.below(3)
        return [triple(31 + a), triple(31 + (a + 1) % 3)], 31 + (a + 2) % 3
    if name == "wind":
        return [triple(t.pick(winds))], t.pick([None, *winds])
    if name == "twin runs":
        return [run(9 * s + n), run(9 * s + n)], None
    if name == "half flush":
        return [run(9 * s + t.below(7)), run(9 * s + t.below(7)), triple(27 + n)], t.pick([27 + (n + 1) % 7, 9 * s + n])
    return [run(9 * t.below(3) + 1 + t.below(5)) for _ in range(4)], 9 * s + 1 + n      # simples


class Script:
    def __init__(self, sim):
        self.sim, self.t = sim, sim.t
        self.hero = sim.prof.hero
        self.steps = []          # (type, kind, low of the run or None) still to come, in order
        self.kept = []           # tiles held back from the wall
        self.keep = []           # kinds of the hero's hand that belong to the plan
        self.wait = None
        self.robber = None      # the seat that will add the tile to its pon
        self.rival = None       # the seat that could call the tile but comes after the winner
        # a swift plan brings its tiles one after another without delay
        self.swift = self.t.chance(140)

    # ------------------------------------------------------------------ plan
    def now(self, p256):
        return self.t.chance(p256 if not self.swift else 252)

    def draw_up(self, header):
        """Four sets, a pair, what is missing of them, and which sets are called."""
        t = self.t
        copies = [0] * 34
        theme = t.below(5)       # 0, 1 anything; 2 one suit; 3 no terminals; 4 triplets
        suit = t.below(3)

        def room(kinds):
            return all(copies[k] + kinds.count(k) <= 4 for k in kinds)

        sets, pair = [], None
        if t.chance(150):
            rnd, oya = header.get("round", 0), header.get("oya", header.get("round", 0) % 4)
            some, pair = special_sets(t, [27 + rnd // 4 % 4, 27 + (self.hero - oya) % 4])
            for kinds in some:
                if room(kinds):
                    sets.append(kinds)
                    for k in kinds:
                        copies[k] += 1
        for _ in range(60):
            if len(sets) == 4:
                break
            s = suit if theme == 2 else t.below(3)
            if t.below(8) < (2 if theme == 4 else 5):
                low = 9 * s + (1 + t.below(5) if theme == 3 else t.below(7))
                kinds = [low, low + 1, low + 2]
            else:
                k = 9 * s + (1 + t.below(7) if theme == 3 else t.below(9))
                if theme < 2 and t.chance(90):
                    k = 27 + t.below(7)
                kinds = [k] * 3
            if room(kinds):
                sets.append(kinds)
                for k in kinds:
                    copies[k] += 1
        triples = [x[0] for x in sets if x[0] == x[2] and x[0] < 27]
        if triples and t.chance(70):        # next to a triplet: a fourth tile may change what the hand waits for
            k = t.pick(triples)
            pair = k + 1 if k % 9 < 8 and t.below(2) else k - 1 if k % 9 else k + 1
        pair = t.below(34) if pair is None else pair
        while not room([pair, pair]):
            pair = (pair + 1) % 34
        copies[pair] += 2
        for i in range(3):      # which of them are called
            j = i + t.below(4 - i)
            sets[i], sets[j] = sets[j], sets[i]
        n = t.pick([4, 3, 4, 2, 1, 0, 3, 0])
        melds, closed = sets[:n], sets[n:]
        parts = closed + [[pair, pair]]
        part = parts[t.below(len(parts))]
        self.wait = part[t.below(len(part))]
        self.ending = self.sim.prof.ending or t.pick(["last", "kan", "free", "rob", "last", "rob", "kan", "claim"])
        if self.ending == "claim":
            few = [(x, k) for x in parts for k in x if copies[k] < 3]
            if few:
                part, self.wait = t.pick(few)
        single = [(x, k) for x in parts for k in x if copies[k] == 1]
        if self.ending == "rob" and single:
            part, self.wait = t.pick(single)
        rest = [k for x in parts for k in x]
        rest.remove(self.wait)
        self.keep = list(rest)
        self.dealt = list(rest)
        kinds_of_call = ["pon", "pon", "minkan", "ankan"] if not t.chance(50) else ["minkan", "ankan", "ankan"]
        for kinds in melds:
            if kinds[0] != kinds[1]:
                claimed = kinds[t.below(3)]
                self.dealt += [k for k in kinds if k != claimed]
                self.steps.append(("chi", claimed, kinds[0]))
                continue
            k = kinds[0]
            typ = t.pick(kinds_of_call)
            if copies[k] > 3:
                typ = "pon"
            self.dealt += [k] * (2 if typ == "pon" else 3)
            self.steps.append((typ, k, None))
            copies[k] += typ != "pon"
        if self.ending == "kan":         # the last kan of one's own, then the missing tile
            for typ, k, _ in self.steps:
                if typ == "pon" and copies[k] == 3:
                    self.steps.append(("kakan", k, None))
                    copies[k] += 1
                    break
            else:
                for kinds in closed:
                    if kinds[0] == kinds[2] and kinds[0] != self.wait and copies[kinds[0]] == 3:
                        self.steps.append(("ankan", kinds[0], None))
                        copies[kinds[0]] += 1
                        break
                else:
                    self.ending = "last"
        if self.ending == "rob" and copies[self.wait] > 1:      # the robber needs all four
            self.ending = "free"
        if self.ending == "claim" and copies[self.wait] > 2:    # another seat has a pair of it
            self.ending = "free"

    def deal(self, header):
        """Starting hands; False if the plan does not fit."""
        sim, t = self.sim, self.t
        self.draw_up(header)
        own = []
        for k in self.dealt:
            x = sim.take_kind(k)
            assert x is not None
            own.append(x)
        for typ, k, _ in self.steps:
            x = sim.take_kind(k)
            assert x is not None, "a planned tile is missing"
            self.kept.append(x)
        rob = []
        left = [x for x in sim.pool if x // 4 == self.wait]
        if self.ending in ("rob", "claim"):
            holder = (self.hero + 1 + t.below(3 if self.ending == "rob" else 2)) % 4
            self.robber = holder if self.ending == "rob" else None
            self.rival = holder if self.ending == "claim" else None
            rob = [sim.take_kind(self.wait) for _ in range(2)]
            left = [x for x in sim.pool if x // 4 == self.wait]
        if t.chance(200):
            for x in left:
                self.kept.append(sim.take(x))
        hands = []
        for p in range(4):
            if p == self.hero:
                h = own
                while len(h) < 13:
                    h.append(sim.take_any())
                while len(h) > 13:           # more quads than room: the last triplets wait
                    sim.pool.append(h.pop())
            else:
                m = t.pick([0, 0, 4, 1, 0, 0])
                h = sim.deal(m)
                if p in (self.robber, self.rival):
                    for x in rob:
                        sim.pool.append(h.pop(t.below(len(h))))
                        h.insert(0, x)
            sim.pool.sort()
            hands.append(h)
        return hands

    # ------------------------------------------------------------------ course
    def kept_kind(self, k):
        for x in self.kept:
            if x // 4 == k:
                self.kept.remove(x)
                return x
        return self.sim.take_kind(k)

    def release(self):
        if self.kept and len(self.sim.pool) < 3:
            self.sim.pool += self.kept
            self.sim.pool.sort()
            self.kept = []

    def tile(self, p):
        """The tile that the plan has for the seat about to draw, if any."""
        r, t = self.sim.r, self.t
        self.release()
        ready = not self.steps
        if r.rinshan == p == self.hero and ready and self.now(176):
            return self.kept_kind(self.wait)
        if r.live == 1 and ready:
            if t.chance(235 if self.ending == "last" else 90):
                return self.kept_kind(self.wait)
        if self.steps:
            typ, k, _ = self.steps[0]
            mine = typ in ("ankan", "kakan")
            if mine == (p == self.hero) and (typ != "chi" or (p + 1) % 4 == self.hero) and self.now(206):
                return self.kept_kind(k)
        if ready and self.robber is not None:
            pon = any(m.type == "pon" and m.tiles[0] // 4 == self.wait for m in r.melds[self.robber])
            if (p == self.robber) == pon and p != self.hero and t.chance(220 if self.swift else 120):
                return self.kept_kind(self.wait)
        elif ready and self.rival is not None:
            if self.before(p) and t.chance(220 if self.swift else 120):
                return self.kept_kind(self.wait)
        elif ready and t.chance((220 if self.swift else 60) if self.ending == "free" else 3):
            return self.kept_kind(self.wait)
        return None

    def before(self, p):
        """Does seat p discard to the planned seat before the rival?"""
        return 0 < (p - self.rival) % 4 < (self.hero - self.rival) % 4

    def over(self):
        """Nothing more to show."""
        r = self.sim.r
        if not self.swift or self.ending == "last" or self.steps and r.live > 25:
            return False
        copies = 4 - self.keep.count(self.wait) - (2 if self.ending in ("rob", "claim") else 0)
        seen = sum(x // 4 == self.wait for q in range(4) for x in r.river[q])
        return r.live < 25 or seen >= copies or all(x // 4 != self.wait for x in self.kept + self.sim.pool)

    def discard(self, p, cands):
        r, t = self.sim.r, self.t
        if p == self.hero:
            need = list(self.keep)
            for typ, k, low in self.steps:
                if typ == "chi":
                    need += [x for x in (low, low + 1, low + 2) if x != k]
                else:
                    need += [k] * {"pon": 2, "kakan": 0}.get(typ, 4)
            spare = []
            for x in cands[::-1]:
                if x // 4 in need:
                    need.remove(x // 4)
                else:
                    spare.append(x)
            return t.pick(spare) if spare else None
        want = self.steps[0][1] if self.steps else self.wait
        c = [x for x in cands if x // 4 == want]
        if want == self.wait and (p == self.robber or self.rival is not None and not self.before(p)):
            return None
        if c and self.now(216):
            return t.pick(c)
        return None

    def call(self, opts, p, tile):
        """The planned one of the calls (seat, call) on the tile just discarded, if there is one."""
        t = self.t
        k = tile // 4
        if self.steps and self.steps[0][1] == k:
            typ, _, low = self.steps[0]
            c = [x for x in opts if x[0] == self.hero and x[1][0] == typ and (typ != "chi" or x[1][1] == low)]
            if c and not t.chance(20):
                self.steps.pop(0)
                return t.pick(c)
        if k == self.wait and self.robber is not None:
            c = [x for x in opts if x[0] == self.robber and x[1][0] == "pon"]
            if c and not t.chance(20):
                return t.pick(c)
        return None

    def own_kan(self, p, offers):
        t = self.t
        if p == self.hero and self.steps:
            typ, k, _ = self.steps[0]
            c = [x for x in offers if x[0] == typ and x[1] == k]
            if c and not t.chance(16):
                self.steps.pop(0)
                return c[0]
            if typ == "pon" or typ == "minkan":      # the fourth came by itself
                c = [x for x in offers if x[0] == "ankan" and x[1] == k]
                if c:
                    self.steps.pop(0)
                    return c[0]
        if p == self.robber:
            c = [x for x in offers if x[0] == "kakan" and x[1] == self.wait]
            if c and not t.chance(16):
                return c[0]
        return None
