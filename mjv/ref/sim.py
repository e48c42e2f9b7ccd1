"""Generates legal rounds as log events from a tape of bytes (drawn by Hypothesis).

The wall is lazy: each drawn tile is picked from the tiles nobody holds yet, so rare situations (kans,
wins on the last tile, furiten, robbing a kan, first-turn wins ...) can be made common.  Byte 0 always
means the dullest choice (draw any tile, discard it, decline everything)."""
from . import codec, hands
from .script import Script
from .table import DISC, DRAW, Round
from .tiles import REDS, vec34


class Tape:
    def __init__(self, data):
        self.d = data
        self.i = 0

    def byte(self):
        if self.i >= len(self.d):
            return 0
        self.i += 1
        return self.d[self.i - 1]

    def below(self, n):
        if n <= 1:
            return 0
        if n <= 256:
            return self.byte() % n
        return (self.byte() << 8 | self.byte()) % n

    def chance(self, p256):
        """True with probability p256/256; byte 0 is always False for p256 < 256."""
        return 255 - self.byte() < p256

    def pick(self, seq):
        return seq[self.below(len(seq))]


PROFILES = ("plain", "tenpai", "calls", "kans", "riichi", "long", "mixed", "furiten", "onekan", "last", "robbed", "busy", "scripted",
            "claimed")


class Profile:
    """How a round is steered; every number is a chance out of 256."""

    def __init__(self, name, tape):
        self.name = name
        self.hero = None
        t = tape
        base = dict(hand=[0, 0, 0, 0], win_draw=8, kan_draw=8, useful=40, call=110, kan=160, riichi=160,
                    take_tsumo=60, take_ron=60, feed=30, greedy=120, feed_win=10, abort=20, stop=0,
                    kyushu=30)
        if name == "tenpai":
            base.update(hand=[1, 1, 1, 1], useful=110, greedy=210, win_draw=24, take_tsumo=110,
                        take_ron=110, feed_win=24, call=70)
        elif name == "calls":
            base.update(hand=[2, 2, 5, 5], call=230, feed=150, greedy=60)
        elif name == "kans":
            base.update(hand=[2, 2, 2, 2], kan_draw=110, kan=215, call=150, feed=110, greedy=150)
        elif name == "riichi":
            base.update(hand=[1, 1, 1, 1], riichi=245, useful=150, greedy=245, call=40, take_tsumo=30,
                        take_ron=30, win_draw=12)
        elif name == "long":
            base.update(useful=20, call=14, kan=60, riichi=120, take_tsumo=8, take_ron=8, greedy=200,
                        hand=[1, 1, 0, 0], feed_win=0, win_draw=4)
        elif name == "mixed":
            base.update(hand=[7, 7, 7, 7], useful=80, win_draw=20, kan_draw=40, feed=60, feed_win=12)
        elif name == "furiten":
            base.update(hand=[1, 1, 1, 1], useful=140, greedy=230, feed_win=130, take_ron=12,
                        take_tsumo=30, call=50, riichi=120, win_draw=40)
        elif name == "onekan":      # one seat makes all the kans, the others hold triplets
            base.update(hand=[2, 2, 2, 2], useful=20, greedy=40, kan=40, call=20, take_ron=20, take_tsumo=10,
                        riichi=6, fourth=0)
        elif name == "last":        # the round is decided by the last tiles
            base.update(hand=[1, 1, 6, 6], useful=110, greedy=230, win_draw=0, feed_win=0, take_tsumo=4,
                        take_ron=4, call=100, riichi=25, kan=60, abort=0)
        elif name == "robbed":      # a hand waits for the tile that another seat adds to its pon
            base.update(hand=[0, 0, 0, 0], useful=30, greedy=235, win_draw=0, feed_win=0, feed=0, call=0,
                        riichi=30, take_ron=100, take_tsumo=20)
        elif name == "busy":        # most discards could be claimed, few are
            base.update(hand=[10, 10, 10, 10], win_draw=0, kan_draw=4, useful=0, call=3, kan=20, riichi=0, take_tsumo=4,
                        take_ron=4, feed=0, greedy=0, feed_win=0, abort=0, kyushu=0)
        elif name in ("scripted", "claimed"):    # a seat with a planned hand, calls and moment of winning
            base.update(useful=30, greedy=150, win_draw=2, feed_win=4, feed=0, call=3, kan=6, take_tsumo=40,
                        take_ron=30, kan_draw=0, riichi=t.pick([0, 30, 200]), abort=0, kyushu=4)
            self.hero = t.below(4)
            self.ending = None
            if name == "claimed":       # it wins from a discard that another seat could have called
                base["take_ron"] = 180
                self.ending = "claim"
        self.seats = None
        if name == "onekan":
            self.seats = [t.below(4)]
            base["hand"][self.seats[0]] = 9
        elif name == "kans" and t.chance(60):       # with quads from the start
            base["hand"][t.below(4)] = 11
            base["kan"] = 120
        elif name == "robbed":
            a = t.below(4)
            self.seats = [a, (a + 1 + t.below(3)) % 4]
            base["hand"][self.seats[1]] = 8
        self.__dict__.update(base)

    def at(self, r, p):
        """The chances for seat p now."""
        if self.name == "onekan":
            star = self.seats[0]
            if r.kans == 4:
                return self.changed(feed=240, feed_three=240, call=30, kan_draw=0, useful=0, fourth=240, kan=0)
            if p == star:
                return self.changed(kan_draw=150, kan=250, call=240, take_tsumo=2, greedy=200)
            return self.changed(kan=0, call=0, feed=150, feed_star=200)
        if self.name == "busy" and r.live <= 22:
            return self.changed(call=60)
        if self.name == "last" and r.live <= 5:
            return self.changed(win_draw=200, feed_win=200, take_tsumo=60, take_ron=40, riichi=0)
        if self.hero not in (None, p):
            return self.changed(riichi=10)
        return self

    def changed(self, **kw):
        q = object.__new__(Profile)
        q.__dict__.update(self.__dict__)
        q.__dict__.update(kw)
        return q


class Sim:
    def __init__(self, tape, profile=None, header=None, n_rounds=8, max_events=10 ** 9, stop_chance=0):
        self.t = tape
        self.prof = profile or Profile(PROFILES[tape.below(len(PROFILES))], tape)
        self.n_rounds = n_rounds
        self.max_events = max_events
        self.stop_chance = stop_chance
        self.pool = list(range(136))
        self.events = []
        self.header = header or {}
        self.script = None if self.prof.hero is None else Script(self)

    # --------------------------------------------------------------- pool
    def take(self, t):
        self.pool.remove(t)
        return t

    def take_kind(self, k):
        c = [t for t in self.pool if t // 4 == k]
        if not c:
            return None
        c.sort(key=lambda t: t in REDS)  # a red five last, but often enough
        i = self.t.below(len(c) + 1)
        return self.take(c[min(i, len(c) - 1)])

    def take_any(self):
        return self.take(self.pool[self.t.below(len(self.pool))])

    # --------------------------------------------------------------- starting hands
    def deal(self, mode):
        t = self.t
        if mode == 7:
            mode = t.below(8)
        got = []

        def add(kinds):
            tiles = []
            for k in kinds:
                x = self.take_kind(k)
                if x is None:
                    self.pool.extend(tiles)
                    self.pool.sort()
                    return False
                tiles.append(x)
            got.extend(tiles)
            return True

        if mode in (1, 6):       # one or a few tiles away from complete (6: exactly tenpai)
            suit = t.below(4)
            for _ in range(12):
                if len(got) >= 12:
                    break
                r = t.below(8)
                if r < 5:
                    s = suit if suit < 3 and r < 3 else t.below(3)
                    k = 9 * s + t.below(7)
                    add([k, k + 1, k + 2])
                elif r < 7:
                    k = t.below(34)
                    add([k] * 3)
                else:
                    k = 27 + t.below(7)
                    if t.chance(80):       # the round's wind
                        k = 27 + self.header.get("round", 0) // 4 % 4
                    add([k] * 3)
            k = t.below(34)
            add([k])
            if mode == 1:
                for _ in range(t.below(4)):
                    if got:
                        x = got.pop(t.below(len(got)))
                        self.pool.append(x)
                        self.pool.sort()
        elif mode == 2:          # pairs and triplets
            for _ in range(24):
                if len(got) < 11:
                    k = t.below(34)
                    add([k] * (2 + t.below(2)))
        elif mode == 3:          # pairs
            for _ in range(14):
                if len(got) >= 12:
                    break
                add([t.below(34)] * 2)
        elif mode == 4:          # terminals and honours
            for k in hands.YAOCHU:
                if len(got) < 13 and not t.chance(24):
                    add([k])
        elif mode == 5:          # one suit
            s = t.below(3)
            for _ in range(11 + t.below(3)):
                add([9 * s + t.below(9)])
        elif mode == 10:         # parts of runs all over
            for _ in range(9):
                if len(got) < 12:
                    k = 9 * t.below(3) + t.below(7)
                    add([k, k + 1 + t.below(2)])
        elif mode == 11:         # quads
            for _ in range(5):
                if len(got) < 9:
                    add([t.below(34)] * 4)
        elif mode == 9:          # triplets
            for _ in range(9):
                if len(got) < 12:
                    add([t.below(34)] * 3)
        elif mode == 8:          # waits between two tiles of a run, with runs of every kind elsewhere
            k = self.plan
            add([k - 1, k + 1])
            for _ in range(24):
                n = len(got)
                if n >= 11:
                    break
                b = t.below(34)
                add([b] * 3 if b > 26 and t.chance(60) else [9 * (b % 3) + b // 3 % 7 + i for i in range(3)])
            for _ in range(20):
                if len(got) == 11 and add([t.below(34)] * 2):
                    break
        while len(got) > 13:
            self.pool.append(got.pop())
        self.pool.sort()
        while len(got) < 13:
            got.append(self.take_any())
        return got

    # --------------------------------------------------------------- run
    def emit(self, tag, **attr):
        attr = {k: str(v) for k, v in attr.items()}
        self.events.append([tag, attr])
        if self.r is not None:
            self.r.apply(tag, attr)

    def run(self):
        t = self.t
        self.r = None
        h = self.header
        rnd = h.get("round", 0)
        oya = h.get("oya", rnd % 4)
        honba, kyo = h.get("honba", 0), h.get("kyotaku", 0)
        ten = h.get("ten", [250] * 4)
        order = [0, 1, 2, 3]
        hs = [None] * 4
        if self.prof.name == "robbed":
            # the tile that completes the hand of the second seat, and two of it for the first
            self.plan = 9 * t.below(3) + 1 + t.below(7)
            kept = [self.take_kind(self.plan) for _ in range(4)]
        if self.script:
            hs = self.script.deal(h)
            order = []
        for p in order:
            m = self.prof.hand[p]
            if m == 0 and t.chance(40):
                m = 7
            hs[p] = self.deal(m)
        if self.prof.name == "robbed":
            own = hs[self.prof.seats[0]]
            for _ in range(2):
                self.pool.append(own.pop(t.below(len(own))))
                own.insert(0, kept.pop(t.below(len(kept))))
        dora = self.take_any()
        if self.prof.name == "robbed":
            self.pool += kept
        self.pool.sort()
        init = {"seed": f"{rnd},{honba},{kyo},{t.below(6)},{t.below(6)},{dora}",
                "ten": ",".join(map(str, ten)), "oya": str(oya)}
        for p in range(4):
            hh = list(hs[p])
            # the order in which the log lists a hand is arbitrary
            init[f"hai{p}"] = ",".join(map(str, hh))
        self.emit("INIT", **init)
        self.r = Round(init, self.n_rounds)
        self.player = oya
        self.pending_dora = 0
        self.draw(oya)
        while self.r.ended is None:
            self.step_own()
        return self.events

    def stop_now(self):
        if len(self.events) >= self.max_events or self.script and self.script.over() or (self.stop_chance and self.t.chance(self.stop_chance)):
            self.emit("RYUUKYOKU", type="stop", ba="0,0", sc="0,0,0,0,0,0,0,0")
            return True
        return False

    def draw(self, p):
        r, t, pr = self.r, self.t, self.prof.at(self.r, p)
        tile = self.planned_tile(p)
        if tile is not None:
            self.emit(DRAW[p] + str(tile))
            self.player = p
            return
        mode = t.byte()
        m = 255 - mode
        hv = tuple(vec34(r.hands[p]))
        if m < pr.win_draw:
            ks = [k for k in hands.waits(hv) if any(x // 4 == k for x in self.pool)]
            if ks:
                tile = self.take_kind(t.pick(ks))
        elif m < pr.win_draw + pr.kan_draw:
            ks = [k for k in range(34) if hv[k] == 3]
            ks += [x.tiles[0] // 4 for x in r.melds[p] if x.type == "pon"]
            ks = [k for k in ks if any(x // 4 == k for x in self.pool)]
            if ks:
                tile = self.take_kind(t.pick(ks))
        elif m < pr.win_draw + pr.kan_draw + pr.useful:
            tile = self.useful_tile(hv)
        if tile is None:
            tile = self.take_any()
        self.emit(DRAW[p] + str(tile))
        self.player = p

    def planned_tile(self, p):
        if self.script:
            return self.script.tile(p)
        if self.prof.name == "onekan" and self.t.chance(self.prof.at(self.r, p).fourth):
            c = [x for x in self.pool if any(vec34(self.r.hands[q])[x // 4] == 3 for q in range(4) if q != p)]
            return self.take(self.t.pick(c)) if c else None
        if self.prof.name == "busy" and not self.t.chance(50):
            c = self.claimable(p, self.pool)
            return self.take(self.t.pick(c)) if c else None
        if self.prof.name != "robbed" or not self.events[8:] or self.t.chance(100):
            return None
        k, (a, b) = self.plan, self.prof.seats
        if p == b or (p == a) != any(m.type == "pon" and m.tiles[0] // 4 == k for m in self.r.melds[a]):
            return None
        return self.take_kind(k) if any(x // 4 == k for x in self.pool) else None

    def useful_tile(self, hv):
        s = hands.shanten(hv)
        kinds = sorted({x // 4 for x in self.pool})
        i = self.t.below(len(kinds))
        for k in kinds[i:] + kinds[:i]:
            h = list(hv)
            h[k] += 1
            if hands.shanten(tuple(h)) < s:
                return self.take_kind(k)
        return None

    def flip_doras(self):
        while self.pending_dora:
            self.pending_dora -= 1
            self.emit("DORA", hai=self.take_any())

    def step_own(self):
        """The player to act has drawn a tile (or has just called chi/pon)."""
        p = self.player
        r, t, pr = self.r, self.t, self.prof.at(self.r, self.player)
        forbidden = set()
        if r.drawn is not None:
            if self.stop_now():
                return
            o = r.points[-1].offers[p] if r.points[-1].kind == "during" else None
            if o["agari"] and t.chance(pr.take_tsumo):
                self.agari([p], p)
                return
            if not r.any_call and not r.river[p] and t.chance(pr.kyushu):
                if len({x // 4 for x in r.hands[p] if x // 4 in hands.YAOCHU}) >= 9:
                    self.emit("RYUUKYOKU", type="yao9", ba="0,0", sc="0,0,0,0,0,0,0,0")
                    return
            kan = self.script.own_kan(p, o["naki"]) if self.script else None
            if kan is None and o["naki"] and t.chance(pr.kan):
                kan = t.pick(o["naki"])
            if kan is not None:
                self.own_kan(p, *kan[:2])
                return
            declare = bool(o["reach"]) and t.chance(pr.riichi)
        else:
            declare = False
            m = r.melds[p][-1]
            k = m.claimed // 4
            forbidden.add(k)
            if m.type == "chi":
                low = m.tiles[0] // 4
                if k == low and low % 9 <= 5:
                    forbidden.add(low + 3)
                if k == low + 2 and low % 9 >= 1:
                    forbidden.add(low - 1)
        cands = sorted(r.hands[p])
        if r.reach[p]:
            cands = [r.drawn]
        elif declare:
            cands = self.riichi_discards(p)
            if not cands:
                declare = False
                cands = sorted(r.hands[p])
        ok = [x for x in cands if x // 4 not in forbidden] or cands
        tile = self.choose_discard(p, ok)
        if declare:
            self.emit("REACH", who=p, step=1)
        self.flip_doras()
        self.emit(DISC[p] + str(tile))
        self.after_discard(p, tile, declare)

    def riichi_discards(self, p):
        r = self.r
        hv = vec34(r.hands[p])
        out = []
        seen = {}
        for x in sorted(r.hands[p]):
            k = x // 4
            if k not in seen:
                hv[k] -= 1
                seen[k] = any(r.own_count(p, w) < 4 for w in hands.waits(tuple(hv)))
                hv[k] += 1
            if seen[k]:
                out.append(x)
        return out

    def claimable(self, p, tiles):
        """Those of the tiles that the next seat could call for a run."""
        nxt, out = vec34(self.r.hands[(p + 1) % 4]), []
        for x in tiles:
            k = x // 4
            has = [k < 27 and 0 <= k + i < 27 and (k + i) // 9 == k // 9 and nxt[k + i] > 0 for i in (-2, -1, 1, 2)]
            if has[0] and has[1] or has[1] and has[2] or has[2] and has[3]:
                out.append(x)
        return out

    def choose_discard(self, p, cands):
        r, t, pr = self.r, self.t, self.prof.at(self.r, p)
        if len(cands) == 1:
            return cands[0]
        if self.script:
            x = self.script.discard(p, cands)
            if x is not None:
                return x
        if self.prof.name == "robbed" and p not in self.prof.seats:
            c = [x for x in cands if x // 4 == self.plan]
            if c and not t.chance(60):
                return t.pick(c)
        if self.prof.name == "busy" and t.below(16) < 15:
            c = self.claimable(p, cands)
            if r.drawn in c and not t.chance(40):
                return r.drawn
            c = [x for x in cands if x // 4 > 26] if t.chance(30) else c
            if c:
                return t.pick(c)
        b = 255 - t.byte()
        if b < pr.feed_win:
            want = set()
            for q in range(4):
                if q != p:
                    want.update(hands.waits(tuple(vec34(r.hands[q]))))
            c = [x for x in cands if x // 4 in want]
            if c:
                return t.pick(c)
        elif b < pr.feed_win + pr.feed:
            fed = [self.prof.seats[0]] if b < pr.__dict__.get("feed_star", 0) else range(4)
            counts = [vec34(r.hands[q]) for q in fed if q != p]
            if b < pr.__dict__.get("feed_three", 0):
                c = [x for x in cands if any(v[x // 4] >= 3 for v in counts)]
                if c:
                    return t.pick(c)
            c = [x for x in cands if any(v[x // 4] >= 2 for v in counts)]
            nxt = vec34(r.hands[(p + 1) % 4])
            c2 = [x for x in cands if x // 4 < 27 and x % 36 // 4 <= 7 and x // 4 + 1 < 27
                  and nxt[x // 4 + 1]]
            c = c + c2
            if c:
                return t.pick(c)
        elif b < pr.feed_win + pr.feed + pr.greedy:
            hv = vec34(r.hands[p])
            best, pick = 99, []
            for x in cands:
                hv[x // 4] -= 1
                s = hands.shanten(tuple(hv))
                hv[x // 4] += 1
                if s < best:
                    best, pick = s, [x]
                elif s == best:
                    pick.append(x)
            return t.pick(pick)
        elif r.drawn is not None and r.drawn in cands and b > 128:
            return r.drawn
        return t.pick(cands)

    def agari(self, winners, frm):
        r = self.r
        for w in winners:
            self.emit("AGARI", ba="0,0", hai=",".join(map(str, sorted(r.hands[w]))), machi="0",
                      ten="30,1000,0", yaku="0,1", doraHai="0", who=w, fromWho=frm,
                      sc="250,10,250,-10,250,0,250,0")

    def rons(self, d, o, take=None):
        t, pr = self.t, self.prof.at(self.r, d)
        w = []
        for i in range(1, 4):
            q = (d + i) % 4
            if q in o and o[q]["agari"] and t.chance(pr.take_ron if take is None else take):
                w.append(q)
        return w

    def after_discard(self, p, tile, declare):
        r, t, pr = self.r, self.t, self.prof.at(self.r, p)
        pt = r.points[-1]
        o = pt.offers
        w = self.rons(p, o)
        if len(w) == 3:
            self.emit("RYUUKYOKU", type="ron3", ba="0,0", sc="0,0,0,0,0,0,0,0")
            return
        if w:
            self.agari(w, p)
            return
        if declare:
            self.emit("REACH", who=p, step=2, ten=",".join(map(str, r.scores)))
        # abortive draws
        if all(r.reach):
            self.emit("RYUUKYOKU", type="reach4", ba="0,0", sc="0,0,0,0,0,0,0,0")
            return
        if r.kans == 4 and len(r.kan_owners) > 1:
            self.emit("RYUUKYOKU", type="kan4", ba="0,0", sc="0,0,0,0,0,0,0,0")
            return
        if not r.any_call and all(len(r.river[q]) == 1 for q in range(4)):
            ks = {r.river[q][0] // 4 for q in range(4)}
            if len(ks) == 1 and 27 <= min(ks) <= 30:
                self.emit("RYUUKYOKU", type="kaze4", ba="0,0", sc="0,0,0,0,0,0,0,0")
                return
        if r.live == 0:
            self.emit("RYUUKYOKU", ba="0,0", sc="0,0,0,0,0,0,0,0")
            return
        if self.stop_now():
            return
        # calls: pon/kan before chi
        opts = [(q, c) for q in o for c in o[q]["naki"]]
        if self.prof.name == "robbed":
            planned = [(q, c) for q, c in opts if q == self.prof.seats[0] and c[0] == "pon" and tile // 4 == self.plan]
            if planned and not t.chance(20):
                self.call(*planned[0][:1], p, tile, planned[0][1])
                return
        elif self.script:
            planned = self.script.call(opts, p, tile)
            if planned:
                self.call(planned[0], p, tile, planned[1])
                return
        elif self.prof.name == "onekan" and r.kans < 4:
            pr = self.prof.at(r, self.prof.seats[0])
            opts = [(q, c) for q, c in opts if q == self.prof.seats[0] and c[0] != "chi"]
        if opts and t.chance(pr.call):
            strong = [x for x in opts if x[1][0] != "chi"]
            q, c = t.pick(strong if strong and not t.chance(90) else opts)
            self.call(q, p, tile, c)
            return
        self.draw((p + 1) % 4)

    def call(self, q, p, tile, c):
        r, t = self.r, self.t
        mine = sorted(r.hands[q])
        k = tile // 4
        if c[0] == "chi":
            _, low, which, red = c
            tiles = []
            for i in range(3):
                if i == which:
                    continue
                ts = [x for x in mine if x // 4 == low + i]
                if (low + i) % 9 == 4:
                    ts = [x for x in ts if (x in REDS) == (red == "hand")]
                tiles.append(t.pick(ts))
            m = codec.Meld("chi", tuple(sorted(tiles + [tile])), tile, None, 3)
        elif c[0] == "pon":
            ts = [x for x in mine if x // 4 == k]
            red = [x for x in ts if x in REDS]
            black = [x for x in ts if x not in REDS]
            if c[3] == "hand":
                use = [red[0], t.pick(black)]
            else:
                i = t.below(len(black))
                use = [black[i], black[(i + 1) % len(black)]]
            m = codec.Meld("pon", tuple(sorted(use + [tile])), tile, None, c[2])
        else:
            m = codec.Meld("minkan", tuple(k * 4 + i for i in range(4)), tile, None, c[2])
        self.emit("N", who=q, m=codec.encode(m))
        self.player = q
        if m.type == "minkan":
            self.pending_dora += 1
            self.draw(q)

    def own_kan(self, p, typ, k):
        r, t = self.r, self.t
        self.flip_doras()
        four = tuple(k * 4 + i for i in range(4))
        if typ == "ankan":
            m = codec.Meld("ankan", four, four[t.below(4)], None, 0)
            self.emit("N", who=p, m=codec.encode(m))
            self.emit("DORA", hai=self.take_any())
            self.draw(p)
            return
        pon = [x for x in r.melds[p] if x.type == "pon" and x.tiles[0] // 4 == k][0]
        added = [x for x in four if x not in pon.tiles][0]
        m = codec.Meld("kakan", four, pon.claimed, added, pon.rel)
        self.emit("N", who=p, m=codec.encode(m))
        o = r.points[-1].offers
        w = self.rons(p, o, take=max(self.prof.take_ron, 90))
        if w and len(w) < 3:
            self.agari(w, p)
            return
        self.pending_dora += 1
        self.draw(p)


def make_round(tape, header=None, n_rounds=8, profile=None, max_events=10 ** 9, stop_chance=0):
    prof = Profile(profile, tape) if profile else None
    s = Sim(tape, prof, header, n_rounds, max_events, stop_chance)
    ev = s.run()
    return ev, s.r
