"""C05-C07, C09-C17: facts of single decision points, compared with the reference model."""
from ..core import Violation
from ..ref import codec, sim
from ..ref.tiles import kname
from .common import (DISCARD, DURING, POST, TableCheck, align, ints, offer_class, offers_of, seats,
                     snapshot, state_of, where)


class Fields(TableCheck):
    """Compares some fields of every snapshot."""
    fields = ()
    kinds = ("during", "discard", "post")

    def expected(self, ref, pt, p):
        v = pt.views[p]
        return {f: v[f] for f in self.fields}

    def compare(self, ref, turns, tokens, labels):
        for pt, t in align(ref, turns):
            for p in pt.views:
                want = self.expected(ref, pt, p)
                s = snapshot(state_of(t, p))
                for f, w in want.items():
                    got = s[f]
                    if f == "oya":
                        w = [int(q == w) for q in range(4)]
                    if f in ("left", "dealer_left") and ref.round >= ref.n_rounds:
                        continue
                    if f == "undealt" and got is None:
                        continue
                    if got != w:
                        raise Violation(f"round {ref.round}, {where(ref, pt)}: seat {p} is shown "
                                        f"{f} = {got}, should be {w}")
                self.classify(ref, pt, p, want, labels)

    def classify(self, ref, pt, p, want, labels):
        pass


class C05(Fields):
    id = "C05"
    rule = ("One evaluation is one processed round; snapshots of all its decision points are compared. "
            "Non-trivial: the header is not the first round with starting scores, or a riichi is accepted.")
    fields = ("oya", "left", "dealer_left", "honba", "scores", "kyotaku")
    assumptions = ["the number of rounds left is only compared for the regular rounds of the game type"]

    @staticmethod
    def profile(tape):
        return tape.pick(["riichi", "tenpai", "mixed", "calls", "plain", "riichi"])

    def classify(self, ref, pt, p, want, labels):
        if ref.round or ref.honba or want["scores"] != [250] * 4:
            labels.add("special header")
        n = sum(pt.views[p]["reach"])
        if n:
            labels.add(f"{n} riichi accepted")

    def compare(self, ref, turns, tokens, labels):
        super().compare(ref, turns, tokens, labels)
        labels.add(f"round {ref.round} of {ref.n_rounds}")


class C06(TableCheck):
    id = "C06"
    rule = ("One evaluation is one processed round; the sequence of decision points is compared with "
            "the play. Non-trivial: the round contains a call, kan, riichi or new dora indicator.")

    def compare(self, ref, turns, tokens, labels):
        got = [(t.type_, int(t.player)) + ((int(t.discarded_tile),) if t.type_ == DISCARD else ())
               for t in turns]
        want = []
        for pt in ref.points:
            k = {"during": DURING, "discard": DISCARD, "post": POST}[pt.kind]
            want.append((k, pt.player) + ((pt.tile,) if k == DISCARD else ()))
        for i, (g, w) in enumerate(zip(got + [None] * 3, want + [None] * 3)):
            if g != w:
                raise Violation(f"decision point {i} is {g}, the play says {w} (kind, seat, tile; kinds "
                                "0 own turn, 1 discard, 2 reaction)")
        for h in ref.history:
            if h[0] == "naki":
                labels.add(h[3])
            elif h[0] != "discard":
                labels.add(h[0])


class C07(TableCheck):
    id = "C07"
    rule = ("One evaluation is one processed round; its history is compared entry by entry with the "
            "public events. Non-trivial: the history has a call, riichi, new indicator or drawn-tile discard.")

    def compare(self, ref, turns, tokens, labels):
        want = expected_tokens(ref)
        for i, (g, w) in enumerate(zip(tokens + [None] * 2, want + [None] * 2)):
            if g != w:
                ev = ref.history[i] if i < len(ref.history) else None
                raise Violation(f"history entry {i} is {g}, should be {w} for {ev} (history has "
                                f"{len(tokens)} entries, {len(want)} public events)")
        for h in ref.history:
            labels.add(h[3] if h[0] == "naki" else "tsumogiri" if h[0] == "discard" and h[3] else h[0])
        labels.discard("discard")


# the bit layout the model encoders read: event state << 13 | event type << 10 | seat << 8 | detail
def expected_tokens(ref):
    """Uses the action slot numbering of the code under test (property C03 judges it)."""
    from MahjongAI.draw import Naki
    out = []
    codes = iter(ref_codes(ref))
    for h in ref.history:
        if h[0] == "discard":
            out.append(1 << 13 | 1 << 10 | h[1] << 8 | int(h[3]) << 7 | h[2])
        elif h[0] == "naki":
            n = Naki(next(codes))
            if h[3] in ("ankan", "kakan"):
                out.append(2 << 13 | 2 << 10 | h[1] << 8 | n.get_during_turn_filter_idx())
            else:
                out.append(3 << 13 | 2 << 10 | h[1] << 8 | n.get_post_turn_filter_idx())
        elif h[0] == "riichi":
            out.append(2 << 13 | 3 << 10 | h[1] << 8 | 2)
        else:
            out.append(4 << 13 | 4 << 10 | h[1])
    return out


def ref_codes(ref):
    return ref.all_codes


class C09(Fields):
    id = "C09"
    rule = ("One evaluation is one processed round; the hand of every deciding seat at every decision "
            "point is compared. Non-trivial: some compared hand follows a call or holds a red five.")
    fields = ("player", "hand")

    def classify(self, ref, pt, p, want, labels):
        if any(pt.views[p]["melds"][p]):
            labels.add("after own call, " + pt.kind)
        if any(want["hand"][34:]):
            labels.add("red five held, " + pt.kind)


class C10(Fields):
    id = "C10"
    rule = ("One evaluation is one processed round; unseen-tile counts of every deciding seat are "
            "compared. Non-trivial: some compared count is taken after a call or a new indicator.")
    fields = ("unseen", "undealt")

    @staticmethod
    def profile(tape):
        return tape.pick(["calls", "kans", "plain", "mixed", "riichi", "onekan", "long", "tenpai", "scripted"])

    def classify(self, ref, pt, p, want, labels):
        v = pt.views[p]
        if len(v["doras"]) > 1:
            labels.add(f"{len(v['doras'])} indicators")
        if any(d in (16, 52, 88) for d in v["doras"]):
            labels.add("red five as indicator")
        for q in range(4):
            for c in v["melds"][q]:
                labels.add(codec.decode(c).type + (" own" if p == q else " other"))


class C11(Fields):
    id = "C11"
    rule = ("One evaluation is one processed round; the flags of every snapshot are compared. "
            "Non-trivial: a riichi is accepted or a closed kan is made.")
    fields = ("reach", "dreach", "ippatsu", "menzen")

    @staticmethod
    def profile(tape):
        return tape.pick(["riichi", "riichi", "tenpai", "kans", "mixed", "calls", "long", "robbed", "scripted"])

    def classify(self, ref, pt, p, want, labels):
        v = pt.views[p]
        for q in range(4):
            if v["dreach"][q]:
                labels.add("double riichi")
            elif v["reach"][q]:
                labels.add("riichi")
            if v["reach"][q] and any(v["melds"]):
                labels.add("riichi and melds")
            if v["ippatsu"][q]:
                labels.add("ippatsu shown")
            if v["reach"][q] and not v["ippatsu"][q]:
                labels.add("ippatsu over")
            if any(codec.decode(c).type == "ankan" for c in v["melds"][q]):
                labels.add("closed kan")


class C12(Fields):
    id = "C12"
    rule = ("One evaluation is one processed round; melds, indicators, discards and remaining draws of "
            "every snapshot are compared. Non-trivial: a call or kan is made.")
    fields = ("melds", "doras", "river", "live")

    @staticmethod
    def profile(tape):
        return tape.pick(["kans", "calls", "kans", "mixed", "long", "plain", "onekan", "scripted"])

    def classify(self, ref, pt, p, want, labels):
        for q in range(4):
            for c in want["melds"][q]:
                labels.add(codec.decode(c).type)
        n = len(want["doras"])
        if n > 1:
            labels.add(f"{n} indicators")


class C13(TableCheck):
    id = "C13"
    quick = 2400
    thorough = 36000
    rule = ("One evaluation is one processed round; the calls offered to the three other seats after "
            "every discard are compared with all legal calls. Non-trivial: some call is legal.")

    @staticmethod
    def profile(tape):
        return tape.pick(["calls", "plain", "kans", "mixed", "riichi", "calls", "long", "tenpai", "onekan", "last", "scripted"])

    def compare(self, ref, turns, tokens, labels):
        for pt, t in align(ref, turns):
            if pt.kind != "post":
                continue
            for p, o in pt.offers.items():
                got = sorted(c for c, _ in offers_of(t, p)["naki"])
                want = sorted(o["naki"])
                if got != want and not o["aborted"]:
                    raise Violation(f"{where(ref, pt)}: seat {p} is offered {got}, legal are {want} "
                                    "(call, kind, position or relative seat, role of the red five)")
                for c in want:
                    red = c[0] in ("chi", "pon") and c[3] == "hand"
                    labels.add(c[0] + (" spending red" if red else ""))
                if not want and ref_would_call(pt, p):
                    labels.add("call forbidden")
            own = offers_of(t, pt.player)["naki"]
            if own:
                raise Violation(f"{where(ref, pt)}: the seat that discarded is offered {own}")


def ref_would_call(pt, p):
    v = pt.views[p]
    return v["hand"][pt.tile // 4] >= 2 and (v["reach"][p] or v["live"] == 0)


class C14(TableCheck):
    id = "C14"
    quick = 2400
    thorough = 36000
    rule = ("One evaluation is one processed round; the riichi and kan offers of every own turn are "
            "compared with the legal ones. Non-trivial: riichi or a kan is legal, or four copies are "
            "held without a kan being legal.")
    assumptions = ["a riichi closed kan is not compared when waits on a fifth copy make the rule unclear",
                   "riichi is not compared when every wait is on tiles the seat holds four times itself"]

    @staticmethod
    def profile(tape):
        return tape.pick(["riichi", "kans", "tenpai", "kans", "mixed", "riichi", "long", "onekan", "last", "scripted", "scripted"])

    def compare(self, ref, turns, tokens, labels):
        for pt, t in align(ref, turns):
            if pt.kind != "during":
                continue
            p, o = pt.player, pt.offers[pt.player]
            got = offers_of(t, p)
            if o["reach"] is not None and len(got["reach"]) != int(o["reach"]):
                raise Violation(f"{where(ref, pt)}: riichi is offered {len(got['reach'])} times, should "
                                f"be {int(o['reach'])}")
            gn = sorted(c for c, _ in got["naki"] if c not in o["unsure"])
            if gn != sorted(o["naki"]):
                raise Violation(f"{where(ref, pt)}: offered {gn}, legal are {o['naki']}")
            if o["reach"]:
                labels.add("riichi")
            for c in o["naki"]:
                labels.add(c[0] + (" in riichi" if pt.views[p]["reach"][p] else ""))
            if 4 in pt.views[p]["hand"][:34] and not any(c[0] == "ankan" for c in o["naki"]):
                labels.add("kan forbidden")
            v = pt.views[p]
            if v["menzen"][p] and not v["reach"][p] and o["reach"] is False:
                if v["scores"][p] < 10:
                    labels.add("too poor for riichi")
                if v["live"] < 4:
                    labels.add("too late for riichi")


class C15(TableCheck):
    id = "C15"
    quick = 3600
    thorough = 54000
    rule = ("One evaluation is one processed round; the win offers of every own turn, discard and added "
            "kan are compared with the reference. Non-trivial: some hand is complete.")
    assumptions = ["temporary furiten after the seat's own call is not compared (the rule is unclear)",
                   "robbing a closed kan with thirteen orphans is outside the log formats' offers"]

    @staticmethod
    def profile(tape):
        return tape.pick(["tenpai", "riichi", "mixed", "tenpai", "furiten", "kans", "calls", "last", "robbed", "last", "kans",
                          "scripted", "scripted", "scripted", "scripted", "scripted"])

    def compare(self, ref, turns, tokens, labels):
        for pt, t in align(ref, turns):
            if pt.kind == "discard":
                continue
            for p, o in pt.offers.items():
                got = offers_of(t, p)["agari"]
                if o["agari"] is None:
                    continue
                if len(got) != int(o["agari"]):
                    why = f"yaku {sorted(o['yaku'])}" if o["yaku"] else "no yaku or not complete"
                    if o.get("furiten"):
                        why += f", furiten ({o['furiten']})"
                    raise Violation(f"{where(ref, pt)}: a win is offered to seat {p} {len(got)} times, "
                                    f"should be {int(o['agari'])}: {why}; melds "
                                    f"{[m for m in pt.views[p]['melds'][p]]}")
                if o["yaku"]:
                    how = "tsumo" if pt.kind == "during" else "ron"
                    if o["agari"]:
                        labels.add(how)
                        if len(o["yaku"]) == 1:
                            labels.add(f"{how} only {next(iter(o['yaku']))}")
                    else:
                        labels.add("furiten")
                elif o.get("complete"):
                    labels.add("ron without yaku")
            if pt.kind == "post" and offers_of(t, pt.player)["agari"]:
                raise Violation(f"{where(ref, pt)}: a win is offered to the acting seat")


class C16(TableCheck):
    id = "C16"
    quick = 3000
    thorough = 45000
    rule = ("One evaluation is one processed round; every discard (or added kan) completing a hand is "
            "checked for the win offer. Non-trivial: some completing tile meets furiten.")
    assumptions = ["temporary furiten after the seat's own call is not compared (the rule is unclear)"]

    @staticmethod
    def profile(tape):
        return tape.pick(["furiten", "riichi", "tenpai", "furiten", "mixed", "last", "robbed", "scripted", "scripted"])

    def compare(self, ref, turns, tokens, labels):
        for pt, t in align(ref, turns):
            if pt.kind != "post":
                continue
            for p, o in pt.offers.items():
                if not o["complete"] or o["agari"] is None:
                    continue
                got = len(offers_of(t, p)["agari"])
                if o["furiten"]:
                    labels.add("furiten: " + o["furiten"])
                    if o["yaku"]:
                        labels.add("furiten only: " + o["furiten"])
                    if got:
                        raise Violation(f"{where(ref, pt)}: seat {p} is offered a win in furiten "
                                        f"({o['furiten']})")
                elif o["yaku"]:
                    labels.add("no furiten")
                    if not got:
                        raise Violation(f"{where(ref, pt)}: seat {p} is not offered a win although it "
                                        f"is not in furiten (yaku {sorted(o['yaku'])})")

    def nontrivial(self, refs, labels):
        return any(l.startswith("furiten") for l in labels)


class C17(TableCheck):
    id = "C17"
    rule = ("One evaluation is one processed round; the taken mark of every offer is compared with what "
            "the log shows. Non-trivial: some offer is taken.")

    @staticmethod
    def profile(tape):
        return tape.pick(["calls", "kans", "tenpai", "riichi", "mixed", "calls", "furiten", "robbed", "last", "kans", "scripted",
                          "scripted"])

    def compare(self, ref, turns, tokens, labels):
        for pt, t in align(ref, turns):
            if pt.kind == "discard":
                continue
            for p in seats(t):
                got = offers_of(t, p)
                taken = pt.taken.get(p, ("none",))
                for what in ("agari", "reach"):
                    want = taken[0] == what
                    if got[what] and got[what][0] != want:
                        raise Violation(f"{where(ref, pt)}: {what} offer of seat {p} is marked "
                                        f"{'taken' if got[what][0] else 'not taken'}, the log says "
                                        f"{taken}")
                for c, ex in got["naki"]:
                    want = taken[0] == "naki" and taken[2] == c
                    if ex != want:
                        raise Violation(f"{where(ref, pt)}: offer {c} of seat {p} is marked "
                                        f"{'taken' if ex else 'not taken'}, the log says {taken}")
                if taken[0] == "naki":
                    red = taken[2][0] in ("chi", "pon") and taken[2][3] == "hand"
                    labels.add(taken[2][0] + (" spending red" if red else ""))
                    if len(got["naki"]) > 1:
                        labels.add("one of several calls")
                elif taken[0] != "none":
                    labels.add(taken[0] + (" on discard" if pt.kind == "post" else ""))
            if len(pt.taken) > 1:
                labels.add("several winners")
