"""C04, C08, C27-C29, C33: how logs as a whole are turned into decision points."""
import json
import os
import random
import shutil
import tempfile
from xml.sax.saxutils import quoteattr

from .. import core
from ..core import Violation
from ..ref import codec, mjlog, sim, table
from ..ref.tiles import REDS, name
from . import common
from .common import (STOP, TableCheck, brief, dump_turn, gen_game, ints, process_game, process_text,
                     smaller_games)

SHORT = 28


def refused(text):
    """None if the log is turned into samples, else the exception."""
    try:
        process_text(text)
    except core.Hang:
        raise
    except BaseException as e:
        return e
    return None


class LogCheck(core.Check):
    tape_len = 2600

    def setup(self):
        import MahjongAI.process_xml  # noqa: F401

    def shard(self, ctx):
        def body(data):
            return ctx.try_case(self.gen(sim.Tape(data)))
        core.tapes(ctx, ctx.my_cases(), self.tape_len, body)


# ------------------------------------------------------------------ C04
def usable_type(t):
    return bool(t & 1) and not t & 2 and not t & 4 and not t & 16


class C04(LogCheck):
    id = "C04"
    rule = ("One evaluation is one log with one game type, with or without a disconnection, or with a "
            "missing, repeated or unreadable game-type element. All 256 types of the eight documented "
            "flags are enumerated; types with further bits are generated. Non-trivial: the log must be "
            "refused, or its type has flags beyond the four that decide.")
    assumptions = ["the game-type element is a child of the root element, as log servers write it"]
    quick = 1200
    thorough = 24000
    tape_len = 900

    def shard(self, ctx):
        tape0 = sim.Tape(bytes((i * 37 + 11) % 256 for i in range(900)))
        g, _ = gen_game(tape0, 1, "plain", gtype=1, max_events=12)
        for t in range(ctx.shard, 256, ctx.n_shards):
            if ctx.try_case({"type": t, "go": [str(t)], "bye": None, "rounds": g["rounds"]}):
                return
        super().shard(ctx)

    def gen(self, tape):
        n = 1 + tape.below(3)
        t = tape.below(256) if tape.chance(128) else tape.pick(common.TYPES)
        if tape.chance(90):
            t |= (1 + tape.below(255)) << 8
        g, _ = gen_game(tape, n, gtype=t, overtime=False, max_events=4 + tape.below(SHORT))
        go = [str(t)]
        m = tape.below(8)
        if m == 1:
            go = []
        elif m == 2:
            go = [str(t), str(tape.pick([t, 1, 2, 16, 169]))]
        elif m == 3:
            go = [tape.pick(["", "x", "1.5", "0x29", "--1", None, "1,2", "nan"])]
        bye = None
        if tape.chance(60) and m not in (1, 2, 3):
            r = tape.below(n + 1)
            bye = [r, tape.below(len(g["rounds"][r]) + 1) if r < n else 0, tape.below(4)]
        return {"type": t, "go": go, "bye": bye, "rounds": g["rounds"]}

    def text(self, case):
        out = ['<mjloggm ver="2.3"><SHUFFLE seed="x" ref=""/>']
        for g in case["go"]:
            a = {"lobby": "0"}
            if g is not None:
                a["type"] = g
            out.append(mjlog.elem("GO", a))
        out.append(mjlog.elem("UN", mjlog.HEAD_UN) + '<TAIKYOKU oya="0"/>')
        for i, r in enumerate(case["rounds"] + [[]]):
            for j, (tag, attr) in enumerate(r + [[None, None]]):
                if case["bye"] and case["bye"][:2] == [i, j]:
                    out.append(mjlog.elem("BYE", {"who": case["bye"][2]}))
                if tag:
                    out.append(mjlog.elem(tag, attr))
        return "".join(out) + "</mjloggm>"

    def check_case(self, case, stats=None):
        from MahjongAI.process_xml import InvalidGameException
        t = case["type"]
        try:
            r = process_text(self.text(case))
            e = None
        except core.Hang:
            raise
        except BaseException as ex:
            e = ex
        readable = len(case["go"]) == 1 and case["go"][0] == str(t)
        shown = None if e is None else f"{type(e).__name__}: {e}"
        if not readable:
            label = "unreadable game type"
            if e is None:
                raise Violation(f"a log with game-type elements {case['go']} is turned into samples")
            if isinstance(e, InvalidGameException) or not isinstance(e, Exception):
                raise Violation(f"a log with game-type elements {case['go']} is reported as {shown}, not "
                                "as an error")
        elif case["bye"] or not usable_type(t):
            label = "disconnection" if case["bye"] else "other game type"
            if not isinstance(e, InvalidGameException):
                raise Violation(f"a game of type {t} {'with a disconnection ' if case['bye'] else ''}"
                                f"gives {shown or 'samples'}, should give the invalid-game signal")
        else:
            label = "usable"
            if e is not None:
                raise Violation(f"a legal game of usable type {t} is refused: {shown}")
            if len(r[0]) != len(case["rounds"]):
                raise Violation(f"{len(case['rounds'])} rounds in, {len(r[0])} out")
        if stats is not None:
            stats.note(label)
            stats.case([t, case["go"], case["bye"]], label != "usable" or t & ~0x1F,
                       lambda: {"type": t, "elements": case["go"], "bye": case["bye"], "verdict": label})

    def smaller(self, case):
        rs = case["rounds"]
        if case["bye"] is None:
            if len(rs) > 1:
                yield dict(case, rounds=rs[:1])
            for g in smaller_games({"type": 1, "rounds": rs[:1]}):
                yield dict(case, rounds=g["rounds"])


# ------------------------------------------------------------------ C08
def prefix_points(events, n_rounds, n_events):
    """How many decision points the first n_events events produce, and history entries."""
    r = table.Round(events[0][1], n_rounds, track=False)
    for tag, attr in events[1:n_events]:
        r.apply(tag, attr)
    return len(r.points), len(r.history)


class C08(LogCheck):
    id = "C08"
    rule = ("One evaluation is one pair of logs of a round that agree up to some event and then differ (or "
            "one of them stops there). History lengths at every decision point are compared with the public "
            "events before it, and all decision points of the common part with each other, the record of "
            "the choice taken left out. Non-trivial: the common part has at least four decision points.")
    quick = 1200
    thorough = 24000

    def gen(self, tape):
        data = tape.d
        a, _ = gen_game(sim.Tape(data), 1)
        mode = data[-1] % 3
        ev = a["rounds"][0]
        if mode == 0:
            cut = 1 + data[-2] * (len(ev) - 1) // 256
            other = ev[:cut + 1]
            if other[-1][0] not in ("AGARI", "RYUUKYOKU"):
                other = other + [STOP]
        else:
            # the same choices up to some byte, then other ones
            k = 60 + (data[-2] << 8 | data[-3]) % 700
            flip = bytes(x ^ 0x5A ^ data[-4] for x in data[k:])
            try:
                b, _ = gen_game(sim.Tape(data[:k] + flip), 1)
            except Exception:
                b = a
            other = b["rounds"][0]
            if b["type"] != a["type"] or other[0] != ev[0]:
                other = ev[:len(ev) // 2] + [STOP]
        return {"type": a["type"], "rounds": [ev], "other": other}

    def check_case(self, case, stats=None):
        n = mjlog.n_rounds(case["type"])
        a, b = case["rounds"][0], case["other"]
        common_n = 0
        while common_n < min(len(a), len(b)) and a[common_n] == b[common_n]:
            common_n += 1
        if common_n == 0:
            raise core.HarnessError("logs do not start alike")
        pts, hist = prefix_points(a, n, common_n)
        res = [process_game({"type": case["type"], "rounds": [x]}) for x in (a, b)]
        (ta,), (ka,) = res[0]
        (tb,), (kb,) = res[1]
        ref = table.Round(a[0][1], n, track=False)
        for tag, attr in a[1:]:
            ref.apply(tag, attr)
        for i, (pt, t) in enumerate(zip(ref.points, ta)):
            if common.KIND[pt.kind] != t.type_ or pt.player != t.player:
                break
            if t.encoding_idx != pt.hist:
                raise Violation(f"decision point {i} ({common.where(ref, pt)}) sees {t.encoding_idx} history "
                                f"entries, {pt.hist} public events happened before it")
        if ints(ka)[:hist] != ints(kb)[:hist]:
            raise Violation(f"the first {hist} history entries differ between two logs that agree on the "
                            f"first {common_n} events")
        for i in range(min(pts, len(ta), len(tb))):
            x, y = dump_turn(ta[i], taken=False), dump_turn(tb[i], taken=False)
            if x != y:
                raise Violation(f"decision point {i} differs between two logs that agree on the first "
                                f"{common_n} events ({pts} decision points): {diff(x, y)}")
            k = x["hist"]
            if ints(ka)[:k] != ints(kb)[:k]:
                raise Violation(f"the history visible at decision point {i} differs between two logs that "
                                f"agree on the first {common_n} events ({pts} decision points)")
        if stats is not None:
            stats.note("cut" if b[-1] == STOP else "other continuation")
            for h in ref.history:
                if h[0] == "naki":
                    stats.note("with " + h[3])
            stats.case(case, pts >= 4, lambda: {"common events": common_n, "decision points": pts,
                                                "log": brief({"type": case["type"], "rounds": [a, b]})})

    def smaller(self, case):
        for key in ("rounds", "other"):
            ev = case[key][0] if key == "rounds" else case[key]
            for g in smaller_games({"type": case["type"], "rounds": [ev]}):
                e = g["rounds"][0]
                yield dict(case, **{key: [e] if key == "rounds" else e})


def diff(x, y, path=""):
    """First difference of two plain structures."""
    if isinstance(x, dict) and isinstance(y, dict):
        for k in x:
            if k not in y:
                return f"{path}.{k} missing"
            if x[k] != y[k]:
                return diff(x[k], y[k], f"{path}.{k}")
    elif isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
        for i, (p, q) in enumerate(zip(x, y)):
            if p != q:
                return diff(p, q, f"{path}[{i}]")
    return f"{path}: {x} and {y}"


# ------------------------------------------------------------------ C27
class C27(LogCheck):
    id = "C27"
    rule = ("One evaluation is one legal log with one event made inconsistent and the round ended right "
            "after it (or continued). Every one must be refused with an error. Non-trivial: every case; "
            "distinct by corrupted log.")
    quick = 2400
    thorough = 48000
    KINDS = ("hand short", "hand long", "hand double", "discard unheld", "expose unheld", "draw held",
             "draw twice", "discard undrawn", "open call on own turn", "own kan on a discard",
             "call before the first draw", "call after call")

    def gen(self, tape):
        for _ in range(6):
            kind = tape.pick(self.KINDS)
            prof = {"expose unheld": "calls", "own kan on a discard": "kans", "call after call": "calls",
                    "open call on own turn": "calls"}.get(kind)
            if prof is None and tape.chance(90):
                prof = tape.pick(["riichi", "kans", "calls", "riichi", "last"])
            g, refs = gen_game(tape, 1, prof, overtime=False, max_events=10 + tape.below(80))
            bad = self.corrupt(tape, kind, g["rounds"][0])
            if bad is not None:
                break
        else:
            kind = "hand double"
            bad = self.corrupt(tape, kind, g["rounds"][0])
        before = []
        if tape.chance(40):
            before = gen_game(tape, 1, "plain", gtype=g["type"], overtime=False, max_events=8)[0]["rounds"]
        return {"type": g["type"], "kind": kind, "rounds": before + [bad]}

    def corrupt(self, tape, kind, ev):
        """The events of the round with one inconsistency, or None if there is no place for it."""
        ev = [[t, dict(a)] for t, a in ev]
        if kind.startswith("hand"):
            p = tape.below(4)
            hs = list(map(int, ev[0][1][f"hai{p}"].split(",")))
            i = tape.below(13)
            if kind == "hand short":
                n = 1 + tape.below(3)
                hs = hs[n:]
            elif kind == "hand long":
                used = {int(x) for q in range(4) for x in ev[0][1][f"hai{q}"].split(",")}
                free = [x for x in range(136) if x not in used]
                hs.insert(i, tape.pick(free))
            else:
                hs[i] = hs[(i + 1 + tape.below(12)) % 13]
            ev[0][1][f"hai{p}"] = ",".join(map(str, hs))
            if tape.chance(128):
                return ev
            return [ev[0], STOP]
        # walk the round and collect places
        r = table.Round(ev[0][1], 8, track=False)
        places = []
        for i in range(1, len(ev)):
            tag, attr = ev[i]
            state = {"hands": [set(h) for h in r.hands], "turn": r.turn, "drawn": r.drawn,
                     "last": r.last, "calls": len(r.all_codes)}
            who = int(attr["who"]) if "who" in attr else "TUVWDEFG".find(tag[0]) % 4
            state["kind of place"] = (r.reach[who], r.declared is not None, bool(r.melds[who]), r.kans,
                                      r.drawn is None, r.rinshan is not None, not r.live)
            if tag not in ("AGARI", "RYUUKYOKU"):
                r.apply(tag, attr)
            places.append((i, tag, attr, state))
        draws = [x for x in places if x[1][0] in table.DRAW and x[1][1:].isdigit()]
        discs = [x for x in places if x[1][0] in table.DISC and x[1][1:].isdigit()]
        naki = [x for x in places if x[1] == "N"]

        def place_of(places):
            if tape.chance(128):
                return tape.pick(places)
            # every kind of place is as likely as any other
            state = tape.pick(sorted({x[3]["kind of place"] for x in places}))
            return tape.pick([x for x in places if x[3]["kind of place"] == state])

        def done(head, rest=()):
            out = list(head)
            if rest and tape.chance(128):
                return out + list(rest)
            return out + [STOP]

        if kind == "discard unheld":
            if not discs:
                return None
            i, tag, attr, s = place_of(discs)
            p = table.DISC.index(tag[0])
            t = tape.pick([x for x in range(136) if x not in s["hands"][p]])
            if tape.chance(128):   # the same kind of tile, another copy
                same = [x for x in range(136) if x // 4 == int(tag[1:]) // 4 and x not in s["hands"][p]]
                if same:
                    t = tape.pick(same)
            return done(ev[:i] + [[tag[0] + str(t), {}]], ev[i + 1:])
        if kind == "draw held":
            if not draws:
                return None
            i, tag, attr, s = place_of(draws)
            p = table.DRAW.index(tag[0])
            return done(ev[:i] + [[tag[0] + str(tape.pick(sorted(s["hands"][p]))), {}]], ev[i + 1:])
        if kind == "draw twice":
            # another draw right after a draw, or the discard between two draws left out
            if not draws:
                return None
            i, tag, attr, s = place_of(draws)
            used = set().union(*s["hands"]) | {int(x[1][1:]) for x in draws + discs}
            free = [x for x in range(136) if x not in used]
            if not free:
                return None
            who = tape.pick([table.DRAW.index(tag[0]), tape.below(4)])
            return done(ev[:i + 1] + [[table.DRAW[who] + str(tape.pick(free)), {}]], ev[i + 1:])
        if kind == "discard undrawn":
            # the draw is left out, or a second discard follows the first
            if tape.chance(128) and draws:
                i, tag, attr, s = place_of(draws)
                p = table.DRAW.index(tag[0])
                if not s["hands"][p]:
                    return None
                return done(ev[:i] + [[table.DISC[p] + str(tape.pick(sorted(s["hands"][p]))), {}]])
            if not discs:
                return None
            i, tag, attr, s = place_of(discs)
            p = tape.below(4)
            hand = s["hands"][p] - {int(tag[1:])}
            return done(ev[:i + 1] + [[table.DISC[p] + str(tape.pick(sorted(hand))), {}]])
        if kind == "expose unheld":
            if not naki:
                return None
            i, tag, attr, s = place_of(naki)
            p = int(attr["who"])
            m = codec.decode(int(attr["m"]))
            for _ in range(8):
                bad = self.twist(tape, m)
                if bad is None:
                    continue
                if any(t not in s["hands"][p] for t in codec.revealed(bad)):
                    a = dict(attr, m=str(codec.encode(bad)))
                    return done(ev[:i] + [["N", a]], ev[i + 1:])
            others = [q for q in range(4) if q != p and m.type in ("ankan", "kakan")
                      and any(t not in s["hands"][q] for t in codec.revealed(m))]
            if others:
                return done(ev[:i] + [["N", dict(attr, who=str(tape.pick(others)))]])
            return None
        if kind == "open call on own turn":
            # right after a draw, somebody claims the previous discard or the drawn tile
            place = [x for x in draws]
            if not place:
                return None
            i, tag, attr, s = place_of(place)
            call = self.some_call(tape, s["hands"], int(tag[1:]), table.DRAW.index(tag[0]))
            if call is None:
                return None
            return done(ev[:i + 1] + [call])
        if kind == "own kan on a discard":
            place = [x for x in discs]
            if not place:
                return None
            for _ in range(6):
                i, tag, attr, s = place_of(place)
                hands = [set(h) for h in s["hands"]]
                hands[table.DISC.index(tag[0])].discard(int(tag[1:]))
                for p in range(4):
                    for k in range(34):
                        four = tuple(k * 4 + j for j in range(4))
                        if all(t in hands[p] for t in four):
                            m = codec.Meld("ankan", four, four[tape.below(4)], None, 0)
                            return done(ev[:i + 1] + [["N", {"who": str(p), "m": str(codec.encode(m))}]])
            i, tag, attr, s = place_of(place)
            p = tape.below(4)
            hands = [set(h) for h in s["hands"]]
            hands[table.DISC.index(tag[0])].discard(int(tag[1:]))
            t = tape.pick(sorted(hands[p]))
            four = tuple(t // 4 * 4 + j for j in range(4))
            three = [x for x in four if x != t]
            m = codec.Meld("kakan", four, three[tape.below(3)], t, 1 + tape.below(3))
            return done(ev[:i + 1] + [["N", {"who": str(p), "m": str(codec.encode(m))}]])
        if kind == "call before the first draw":
            hands = [set(map(int, ev[0][1][f"hai{q}"].split(","))) for q in range(4)]
            used = set().union(*hands)
            t = tape.pick([x for x in range(136) if x not in used])
            call = self.some_call(tape, hands, t, tape.below(4))
            if call is None:
                return None
            return done([ev[0], call])
        if kind == "call after call":
            # after a call (before the discard), somebody calls again
            if not naki:
                return None
            i, tag, attr, s = place_of(naki)
            m = codec.decode(int(attr["m"]))
            hands = [set(h) for h in s["hands"]]
            hands[int(attr["who"])] -= set(codec.revealed(m))
            tile = m.claimed if m.claimed is not None else m.tiles[0]
            call = self.some_call(tape, hands, tile, tape.below(4))
            if call is None:
                return None
            return done(ev[:i + 1] + [call])
        raise core.HarnessError(kind)

    def twist(self, tape, m):
        """Another meld of the same type."""
        ts = list(m.tiles)
        if m.type == "chi":
            i = tape.below(3)
            if ts[i] == m.claimed:
                return None
            ts[i] = ts[i] // 4 * 4 + tape.below(4)
            return m._replace(tiles=tuple(ts))
        if m.type == "pon":
            missing = ({t // 4 * 4 + j for t in ts for j in range(4)} - set(ts)).pop()
            i = tape.below(3)
            if ts[i] == m.claimed:
                return None
            ts[i] = missing
            return m._replace(tiles=tuple(sorted(ts)))
        k = tape.below(34)
        four = tuple(k * 4 + j for j in range(4))
        if m.type == "kakan":
            a = four[tape.below(4)]
            three = [x for x in four if x != a]
            return codec.Meld("kakan", four, three[tape.below(3)], a, m.rel)
        c = four[tape.below(4)]
        return codec.Meld(m.type, four, c, None, m.rel)

    def some_call(self, tape, hands, tile, frm):
        """A call on `tile` by a seat that really holds the tiles it reveals."""
        k = tile // 4
        opts = []
        for p in range(4):
            if p == frm:
                continue
            same = sorted(t for t in hands[p] if t // 4 == k and t != tile)
            rel = (frm - p) % 4
            if len(same) >= 2:
                opts.append((p, codec.Meld("pon", tuple(sorted(same[:2] + [tile])), tile, None, rel)))
            if len(same) >= 3:
                opts.append((p, codec.Meld("minkan", tuple(sorted(same[:3] + [tile])), tile, None, rel)))
            if k < 27:
                for which in range(3):
                    low = k - which
                    if low < 0 or low // 9 != k // 9 or low % 9 > 6:
                        continue
                    need = []
                    for j in range(3):
                        if j != which:
                            c = sorted(t for t in hands[p] if t // 4 == low + j)
                            need.append(tape.pick(c) if c else None)
                    if None in need:
                        continue
                    opts.append((p, codec.Meld("chi", tuple(sorted(need + [tile])), tile, None, 3)))
        if not opts:
            return None
        p, m = tape.pick(opts)
        return ["N", {"who": str(p), "m": str(codec.encode(m))}]

    def check_case(self, case, stats=None):
        e = refused(mjlog.to_xml(case))
        if e is None:
            raise Violation(f"a log with an inconsistency ({case['kind']}) is turned into samples: "
                            f"{json.dumps(case['rounds'][-1][-4:])}")
        if not isinstance(e, Exception):
            raise Violation(f"a log with an inconsistency ({case['kind']}) ends the program: "
                            f"{type(e).__name__}")
        if stats is not None:
            stats.note(case["kind"])
            stats.note("refused by " + type(e).__name__)
            stats.case(case, True, lambda: {"kind": case["kind"], "error": f"{type(e).__name__}: {e}"[:120],
                                            "log": brief_bad(case)})

    def smaller(self, case):
        if len(case["rounds"]) > 1:
            yield dict(case, rounds=case["rounds"][-1:])


def brief_bad(case):
    ev = case["rounds"][-1]
    return [" ".join([t] + [f"{k}={v}" for k, v in a.items() if k in ("who", "m", "step", "type")])
            for t, a in ev[-12:]]


# ------------------------------------------------------------------ C28
class C28(LogCheck):
    id = "C28"
    rule = ("One evaluation is one game of two to four rounds. Each round is processed alone in a fresh "
            "program; in another program the game is processed as a whole, again, with its rounds in another "
            "order and one by one, and after other games (accepted, refused by type or disconnection, broken "
            "in the middle of a round); everything shown must be the same. Non-trivial: some other game was "
            "processed in between and the rounds contain calls, riichi or new indicators.")
    quick = 280
    thorough = 8000
    tape_len = 5000

    def gen(self, tape):
        g, _ = gen_game(tape, 2 + tape.below(3), max_events=60 + tape.below(120))
        others = []
        for _ in range(1 + tape.below(2)):
            o, _ = gen_game(tape, 1 + tape.below(2), tape.pick(["riichi", "kans", "calls", "furiten"]),
                            max_events=30 + tape.below(60))
            kind = tape.pick(["fine", "cut", "bye", "type", "short hand", "same tiles"])
            if kind == "cut":
                ev = o["rounds"][-1]
                o["rounds"][-1] = ev[:2 + tape.below(len(ev) - 2)]
            elif kind == "bye":
                o["rounds"][-1].insert(1 + tape.below(3), ["BYE", {"who": "0"}])
            elif kind == "type":
                o["type"] = tape.pick([0, 2 | 1, 4 | 1, 16 | 1])
            elif kind == "short hand":
                a = dict(o["rounds"][-1][0][1])
                a["hai2"] = a["hai2"].rsplit(",", 1)[0]
                o["rounds"][-1][0] = ["INIT", a]
            elif kind == "same tiles":
                o = {"type": g["type"], "rounds": g["rounds"][:1] + o["rounds"]}
            others.append(dict(o, kind=kind))
        if tape.chance(100):
            # the same deal and play again under another round wind and number of repeats
            ev = tape.pick(g["rounds"])
            a = dict(ev[0][1])
            rnd, honba, rest = a["seed"].split(",", 2)
            n = mjlog.n_rounds(g["type"])
            rnd = int(rnd) + 4 if int(rnd) + 4 < n else int(rnd) - 4 if int(rnd) >= 4 else int(rnd)
            a["seed"] = f"{rnd},{int(honba) + 1},{rest}"
            g = dict(g, rounds=g["rounds"][:3] + [[["INIT", a]] + ev[1:]])
        k = tape.below(len(g["rounds"]))
        return dict(g, others=others, turn=k)

    @staticmethod
    def dump(res):
        turns, tokens = res
        return [[dump_turn(t) for t in ts] for ts in turns], [ints(t) for t in tokens]

    def alone(self, case, i):
        return self.dump(process_game(dict(case, rounds=[case["rounds"][i]])))

    def check_case(self, case, stats=None):
        # each round in a program of its own
        n = len(case["rounds"])
        rounds = [core.fresh(self.alone, case, i) for i in range(n)]
        for i, (turns, tokens) in enumerate(rounds):
            if len(turns) != 1 or len(tokens) != 1:
                raise Violation(f"round {i} alone: one round in, {len(turns)} out")
        core.fresh(self.together, case, ([t[0] for t, _ in rounds], [k[0] for _, k in rounds]))
        self.count(case, stats)

    def together(self, case, base):
        rs = case["rounds"]

        def same(got, what, idx):
            want = [base[0][i] for i in idx], [base[1][i] for i in idx]
            if len(got[0]) != len(idx) or len(got[1]) != len(idx):
                raise Violation(f"{what}: {len(idx)} rounds in, {len(got[0])} out")
            for j, i in enumerate(idx):
                if got[1][j] != want[1][j]:
                    raise Violation(f"{what}: the history of round {i} differs from that of the round alone")
                if got[0][j] != want[0][j]:
                    raise Violation(f"{what}: round {i} differs from the round alone: "
                                    f"{diff(want[0][j], got[0][j])}")

        def run(idx, what):
            res = process_game(dict(case, rounds=[rs[i] for i in idx]))
            same(self.dump(res), what, list(idx))
            return res

        every = range(len(rs))
        first = run(every, "the whole game")
        run(every, "processing the game again")
        for o in case["others"]:
            refused(mjlog.to_xml(o))
            run(every, f"after another game ({o['kind']})")
        same(self.dump(first), "the decision points obtained first, after processing other games", every)
        k = case["turn"]
        run([*range(k, len(rs)), *range(k)], "rounds in another order")
        for i in every:
            run([i], f"round {i} after other games")

    def count(self, case, stats):
        if stats is not None:
            for o in case["others"]:
                stats.note("after: " + o["kind"])
            stats.note(f"{len(case['rounds'])} rounds")
            rich = any(t in ("N", "REACH", "DORA") for r in case["rounds"] for t, _ in r)
            stats.case(case, rich, lambda: {"others": [o["kind"] for o in case["others"]],
                                            "game": brief(case, 24)})

    def smaller(self, case):
        if len(case["others"]) > 1:
            for i in range(len(case["others"])):
                yield dict(case, others=case["others"][:i] + case["others"][i + 1:])
        if len(case["rounds"]) > 1:
            for i in range(len(case["rounds"])):
                yield dict(case, rounds=case["rounds"][:i] + case["rounds"][i + 1:], turn=0)
        for i, r in enumerate(case["rounds"]):
            for g in smaller_games({"type": case["type"], "rounds": [r]}):
                yield dict(case, rounds=case["rounds"][:i] + g["rounds"] + case["rounds"][i + 1:])


# ------------------------------------------------------------------ C29
class Relabel:
    def __init__(self, suits=(0, 1, 2), copies=None, rot=0):
        self.suits, self.copies, self.rot = suits, copies or {}, rot

    def kind(self, k):
        return k if k >= 27 else self.suits[k // 9] * 9 + k % 9

    def tile(self, t):
        c = self.copies.get(str(t // 4), [0, 1, 2, 3])[t % 4]
        return self.kind(t // 4) * 4 + c

    def seat(self, p):
        return (p + self.rot) % 4

    def code(self, code):
        m = codec.decode(code)
        if m.type == "ankan":
            c = self.tile(code >> 8)
            return c << 8
        f = lambda t: None if t is None else self.tile(t)  # noqa: E731
        return codec.encode(codec.Meld(m.type, tuple(sorted(map(f, m.tiles))), f(m.claimed), f(m.added),
                                       m.rel))

    def idx37(self, i):
        return self.kind(i) if i < 34 else 34 + self.suits[i - 34]

    def vec(self, v):
        out = [0] * 37
        for i, x in enumerate(v):
            out[self.idx37(i)] = x
        return out

    def per_seat(self, xs):
        out = [None] * 4
        for p, x in enumerate(xs):
            out[self.seat(p)] = x
        return out

    def events(self, ev):
        out = []
        for tag, attr in ev:
            a = dict(attr)
            if tag == "INIT":
                s = list(map(int, a["seed"].split(",")))
                s[0] = s[0] // 4 * 4 + (s[0] + self.rot) % 4
                s[5] = self.tile(s[5])
                b = {"seed": ",".join(map(str, s)), "oya": str(self.seat(int(a["oya"]))),
                     "ten": ",".join(self.per_seat(a["ten"].split(",")))}
                for p in range(4):
                    b[f"hai{self.seat(p)}"] = ",".join(
                        str(self.tile(int(t))) for t in a[f"hai{p}"].split(","))
                a = b
            elif tag == "N":
                a = {"who": str(self.seat(int(a["who"]))), "m": str(self.code(int(a["m"])))}
            elif tag == "REACH":
                a["who"] = str(self.seat(int(a["who"])))
                if "ten" in a:
                    a["ten"] = ",".join(self.per_seat(a["ten"].split(",")))
            elif tag == "DORA":
                a = {"hai": str(self.tile(int(a["hai"])))}
            elif tag == "AGARI":
                a["who"], a["fromWho"] = (str(self.seat(int(a[x]))) for x in ("who", "fromWho"))
            elif tag == "RYUUKYOKU":
                pass
            else:
                letters = table.DRAW if tag[0] in table.DRAW else table.DISC
                tag = letters[self.seat(letters.index(tag[0]))] + str(self.tile(int(tag[1:])))
            out.append([tag, a])
        return out

    def state(self, s):
        o = dict(s)
        o["player"] = self.seat(s["player"])
        o["hand"], o["unseen"] = self.vec(s["hand"]), self.vec(s["unseen"])
        o["undealt"] = s["undealt"] and self.vec(s["undealt"])
        o["river"] = self.per_seat([self.vec(r) for r in s["river"]])
        for f in ("menzen", "reach", "dreach", "ippatsu", "scores", "oya"):
            o[f] = self.per_seat(s[f])
        o["melds"] = self.per_seat([sorted(self.code(c) for c in m) for m in s["melds"]])
        o["doras"] = [self.tile(t) for t in s["doras"]]
        return o

    def offer(self, c):
        return (c[0], self.kind(c[1])) + tuple(c[2:])

    def turn(self, t):
        o = dict(t)
        o["player"] = self.seat(t["player"])
        if "tile" in t:
            o["tile"] = self.tile(t["tile"])
        o["states"] = {self.seat(p): self.state(s) for p, s in t["states"].items()}
        if "offers" in t:
            o["offers"] = {self.seat(p): dict(x, naki=sorted((self.offer(c), e) for c, e in x["naki"]))
                           for p, x in t["offers"].items()}
        return o


def normal(t, rotated):
    """Order of offers and (under rotation) the remaining-round fields are not compared."""
    o = dict(t)
    o["states"] = {p: dict(s) for p, s in t["states"].items()}
    if rotated:
        for s in o["states"].values():
            del s["left"], s["dealer_left"]
    if "offers" in t:
        o["offers"] = {p: dict(x, naki=sorted(map(tuple, x["naki"]))) for p, x in t["offers"].items()}
    return o


class C29(LogCheck):
    id = "C29"
    rule = ("One evaluation is one round and its relabelled copy (suits swapped, physical copies shuffled "
            "with the red fives fixed, seats rotated, or all at once), both processed and compared under "
            "the relabelling. Non-trivial: the round has a call, riichi or win.")
    assumptions = ["rounds that can be won by the all-green hand alone are compared without suit swaps",
                   "rounds left are not compared under seat rotation (the round number changes)"]
    quick = 900
    thorough = 18000

    def gen(self, tape):
        g, refs = gen_game(tape, 1)
        what = tape.below(5)
        rel = {"suits": [0, 1, 2], "copies": {}, "rot": 0}
        green = any(o and o.get("yaku") and "ryuuiisou" in o["yaku"] for pt in refs[0].points
                    for o in pt.offers.values())
        if what in (0, 3) and not green:
            rel["suits"] = tape.pick([[0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]])
        if what in (1, 3):
            for k in range(34):
                red = k < 27 and k % 9 == 4
                c = [1, 2, 3] if red else [0, 1, 2, 3]
                out = [0] if red else []
                while c:
                    out.append(c.pop(tape.below(len(c))))
                rel["copies"][str(k)] = out
        if what in (2, 3, 4):
            rel["rot"] = 1 + tape.below(3)
        return dict(g, relabel=rel)

    def check_case(self, case, stats=None):
        r = Relabel(**case["relabel"])
        (ta,), (ka,) = process_game(case)
        other = {"type": case["type"], "rounds": [r.events(case["rounds"][0])]}
        (tb,), (kb,) = process_game(other)
        if len(ta) != len(tb) or len(ka) != len(kb):
            raise Violation(f"{len(ta)} decision points and {len(ka)} history entries, {len(tb)} and "
                            f"{len(kb)} after relabelling {case['relabel']}")
        for i, (x, y) in enumerate(zip(ta, tb)):
            want = normal(r.turn(dump_turn(x)), r.rot)
            got = normal(dump_turn(y), r.rot)
            if want != got:
                raise Violation(f"decision point {i} is not relabelled (suits {case['relabel']['suits']}, "
                                f"rotation {r.rot}, copies {'shuffled' if r.copies else 'kept'}): "
                                f"{diff(want, got)}")
        self.tokens(case, other, ints(ka), ints(kb), r)
        if stats is not None:
            stats.note("suits" if r.suits != [0, 1, 2] else "suits kept")
            if r.rot:
                stats.note("seats")
            if r.copies:
                stats.note("copies")
            rich = any(t in ("N", "REACH", "AGARI") for t, _ in case["rounds"][0])
            stats.case(case, rich, lambda: {"relabel": {"suits": r.suits, "rot": r.rot,
                                                        "copies": bool(r.copies)},
                                            "log": brief(case, 30)})

    def tokens(self, case, other, ka, kb, r):
        """Entries of the two histories correspond; call entries must keep saying which call it was,
        which is read off by pairing action slots with calls over both logs."""
        codes = [[int(a["m"]) for t, a in g["rounds"][0] if t == "N"] for g in (case, other)]
        it = iter(zip(*codes))
        for i, (x, y) in enumerate(zip(ka, kb)):
            if x >> 10 != y >> 10:
                raise Violation(f"history entry {i} changes its event type under relabelling")
            typ = x >> 10 & 7
            if typ != 4 and (y >> 8 & 3) != r.seat(x >> 8 & 3):
                raise Violation(f"history entry {i} names seat {x >> 8 & 3}, after rotation by {r.rot} seat "
                                f"{y >> 8 & 3}")
            if typ == 1 and ((y & 127) != r.kind(x & 127) or (x >> 7 & 1) != (y >> 7 & 1)):
                raise Violation(f"history entry {i}: discard of {x & 127} becomes {y & 127} (drawn tile "
                                f"{x >> 7 & 1}, {y >> 7 & 1})")
            if typ == 4 and (y & 127) != r.kind(x & 127):
                raise Violation(f"history entry {i}: indicator {x & 127} becomes {y & 127}")
            if typ == 2:
                from MahjongAI.draw import Naki
                a, b = next(it, (None, None))
                if a is None:
                    break
                f = "get_during_turn_filter_idx" if (x >> 13) == 2 else "get_post_turn_filter_idx"
                if getattr(Naki(a), f)() == (x & 255) and getattr(Naki(b), f)() != (y & 255):
                    raise Violation(f"history entry {i}: the call's slot {x & 255} becomes {y & 255}")

    def smaller(self, case):
        rel = case["relabel"]
        for k, v in (("suits", [0, 1, 2]), ("copies", {}), ("rot", 0)):
            if rel[k] != v:
                yield dict(case, relabel=dict(rel, **{k: v}))
        for g in smaller_games(case):
            yield dict(g, relabel=rel)


# ------------------------------------------------------------------ C33
class C33(LogCheck):
    id = "C33"
    rule = ("One evaluation is one game written down twice: plainly, and in another way (attribute order, white "
            "space, comments, declaration and encoding, open and close tags, further attributes, other results, "
            "dice, names and lists of starting tiles in another order, another file name, chatty processing). "
            "Non-trivial: at least three ways at once.")
    quick = 700
    thorough = 14000
    WAYS = ("attribute order", "white space", "declaration", "close tags", "more attributes", "results", "dice",
            "names", "hand order", "file name", "chatty", "comments")

    def gen(self, tape):
        g, _ = gen_game(tape, 1 + tape.below(2), max_events=10 + tape.below(140))
        ways = [w for w in self.WAYS if tape.chance(110)]
        return dict(g, ways=ways or [tape.pick(self.WAYS)], salt=tape.below(1 << 16))

    # names of players as logs carry them: percent-encoded UTF-8
    NAMES = ("%E3%81%82", "NoName", "a%26b", "%22%3C%3E", "", "x" * 40)
    FILES = ("2021010100gm-00a9-0000-0a1b2c3d.log", "game.mjlog", "a b.xml", "x", "\u9ebb\u96c0.xml", "no.log.bak")

    def write(self, case):
        rng = random.Random(case["salt"])
        ways = set(case["ways"])

        def attrs(a):
            ks = list(a)
            if "attribute order" in ways:
                rng.shuffle(ks)
            q = ' ' if "white space" not in ways else rng.choice([" ", "\n", "  ", "\t"])
            out = ""
            for k in ks:
                v = quoteattr(str(a[k]))
                if "white space" in ways and '"' not in v[1:-1] and "'" not in v and rng.random() < 0.3:
                    v = "'" + v[1:-1] + "'"
                out += q + k + "=" + v
            return out

        def elem(tag, a):
            gap = rng.choice(["", "\n", "\r\n", "  ", "\n\t"]) if "white space" in ways else ""
            if "comments" in ways and rng.random() < 0.05:
                gap += "<!-- T12 <D12/> -->"
            end = " " if "white space" in ways and rng.random() < 0.3 else ""
            if "close tags" in ways and rng.random() < 0.5:
                return f"{gap}<{tag}{attrs(a)}{end}></{tag}>"
            return f"{gap}<{tag}{attrs(a)}{end}/>"

        head = ""
        if "declaration" in ways:
            head = rng.choice(['<?xml version="1.0"?>', '<?xml version="1.0" encoding="UTF-8"?>\n',
                               '<?xml version="1.0" encoding="utf-8" standalone="yes"?>'])
        out = [head + '<mjloggm ver="' + rng.choice(["2.3", "2.4"] if "names" in ways else ["2.3"]) + '">']
        out.append(elem("SHUFFLE", {"seed": "mt19937ar-sha512-n288-base64,x" if "names" in ways else "x",
                                    "ref": ""}))
        go = {"type": str(case["type"]), "lobby": "0"}
        if "names" in ways:
            go["lobby"] = rng.choice(["0", "7447"])
        out.append(elem("GO", go))
        un = dict(mjlog.HEAD_UN)
        if "names" in ways:
            for i in range(4):
                un[f"n{i}"] = rng.choice(self.NAMES)
            un["dan"] = ",".join(str(rng.randrange(21)) for _ in range(4))
            un["rate"] = ",".join(f"{rng.random() * 2400:.2f}" for _ in range(4))
            un["sx"] = ",".join(rng.choice("MFC") for _ in range(4))
        out.append(elem("UN", un))
        out.append(elem("TAIKYOKU", {"oya": "0"}))
        last = len(case["rounds"]) - 1
        for i, r in enumerate(case["rounds"]):
            for tag, a in r:
                a = dict(a)
                if tag == "INIT":
                    s = a["seed"].split(",")
                    if "dice" in ways:
                        s[3:5] = [str(rng.randrange(6)), str(rng.randrange(6))]
                    a["seed"] = ",".join(s)
                    if "hand order" in ways:
                        for p in range(4):
                            h = a[f"hai{p}"].split(",")
                            rng.shuffle(h)
                            a[f"hai{p}"] = ",".join(h)
                elif tag in ("AGARI", "RYUUKYOKU"):
                    if "results" in ways:
                        a["ba"] = f"{rng.randrange(9)},{rng.randrange(5)}"
                        a["sc"] = ",".join(str(rng.randrange(-500, 900)) for _ in range(8))
                        if tag == "AGARI":
                            a["ten"] = f"{rng.choice([20, 25, 30, 110])},{rng.randrange(1000, 48000)},0"
                            a["yaku"] = f"{rng.randrange(55)},1"
                            a["machi"] = str(rng.randrange(136))
                            a["doraHai"] = str(rng.randrange(136))
                    if "more attributes" in ways:
                        if i == last:
                            a["owari"] = "250,0.0,250,0.0,250,0.0,250,0.0"
                        if tag == "AGARI":
                            a["doraHaiUra"] = str(rng.randrange(136))
                            if rng.random() < 0.3:
                                a["yakuman"] = "39"
                        else:
                            for p in range(4):
                                if rng.random() < 0.4:
                                    a[f"hai{p}"] = "1,2,3"
                if "more attributes" in ways and rng.random() < 0.2:
                    # of draws, discards and calls, too: times, comments, scores
                    a[rng.choice(["time", "note", "x"])] = rng.choice(["", "12.5", "0"])
                    if tag == "REACH":
                        a["ten"] = "250,250,250,240"
                out.append(elem(tag, a))
        return "".join(out) + ("\n" if "white space" in ways else "") + "</mjloggm>" + (
            "\n" if "white space" in ways else "")

    def check_case(self, case, stats=None):
        from MahjongAI.process_xml import process
        want = C28.dump(process_game(case))
        rng = random.Random(case["salt"])
        name = rng.choice(self.FILES) if "file name" in case["ways"] else "plain.xml"
        folder = tempfile.mkdtemp(dir=".")
        path = os.path.join(folder, name)
        try:
            with open(path, "w", encoding="utf-8", newline="") as o:
                o.write(self.write(case))
            with open(path, "rb") as i:
                data = i.read()
            got = C28.dump(process(path, True) if "chatty" in case["ways"] else process(path))
            with open(path, "rb") as i:
                if i.read() != data or os.listdir(folder) != [name]:
                    raise Violation("processing a log changes its file, or leaves others beside it")
        finally:
            shutil.rmtree(folder)
        if got != want:
            raise Violation(f"the same game written in another way ({', '.join(case['ways'])}) yields other "
                            f"samples: {diff([want[0], want[1]], [got[0], got[1]])}")
        if stats is not None:
            for w in case["ways"]:
                stats.note(w)
            stats.case(case, len(case["ways"]) >= 3, lambda: {"ways": case["ways"], "game": brief(case, 20)})

    def smaller(self, case):
        for w in case["ways"]:
            if len(case["ways"]) > 1:
                yield dict(case, ways=[v for v in case["ways"] if v != w])
        for g in smaller_games(case):
            yield dict(case, rounds=g["rounds"])
