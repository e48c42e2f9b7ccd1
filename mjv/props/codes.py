"""C01-C03: meld codes.  The code space is enumerated completely; on top, descriptions and pairs are
generated."""
import json
import random

from ..core import Check, Violation
from ..ref import codec
from ..ref.tiles import REDS


def naki(code):
    from MahjongAI.draw import Naki
    return Naki(code)


def safe(what, f):
    try:
        return f()
    except Exception as e:
        raise Violation(f"{what} raises {type(e).__name__}: {e}")


TYPES = ("chi", "pon", "kakan", "minkan", "ankan")


class C01(Check):
    id = "C01"
    rule = ("Every legal meld code is decoded (complete enumeration, in an order shuffled by the seed). "
            "Non-trivial: the code is not the one its constructor would build (other physical copies).")
    shards = 4
    quick = thorough = 0

    def shard(self, ctx):
        codes = codec.all_codes()
        part = codes[ctx.shard::ctx.n_shards]
        random.Random(ctx.seed).shuffle(part)
        for code, m in part:
            if ctx.try_case({"code": code}):
                return

    def check_case(self, case, stats=None):
        code = case["code"]
        m = codec.decode(code)
        n = safe(f"Naki({code})", lambda: naki(code))
        is_ = {t: bool(safe(f"code {code}", getattr(n, "is_" + t))) for t in TYPES}
        if [t for t in TYPES if is_[t]] != [m.type]:
            raise Violation(f"code {code} is a {m.type}, decoded as {[t for t in TYPES if is_[t]]}")
        exposed, acquired = safe(f"code {code}", n.get_exposed)
        if sorted(exposed) != sorted(codec.revealed(m)):
            raise Violation(f"code {code} ({m.type} {m.tiles}): reveals {sorted(exposed)}, should be "
                            f"{sorted(codec.revealed(m))}")
        want = m.claimed if m.type in ("chi", "pon", "minkan") else None
        if acquired != want:
            raise Violation(f"code {code} ({m.type} {m.tiles}): claims {acquired}, should be {want}")
        if int(n.from_who()) != m.rel:
            raise Violation(f"code {code}: claimed from {n.from_who()}, should be {m.rel}")
        pat = safe(f"code {code}", getattr(n, "pattern_" + m.type))
        k = m.tiles[0] // 4
        if (pat[0], pat[1]) != divmod(k, 9):
            raise Violation(f"code {code}: colour and number {pat[:2]}, should be {divmod(k, 9)}")
        if m.type == "chi" and pat[2] != sorted(m.tiles).index(m.claimed):
            raise Violation(f"code {code}: position {pat[2]}, should be {sorted(m.tiles).index(m.claimed)}")
        if bool(pat[3]) != codec.has_red(m):
            raise Violation(f"code {code} ({m.type} {m.tiles}): red five {bool(pat[3])}, should be "
                            f"{codec.has_red(m)}")
        if int(n.naki_code) != code:
            raise Violation(f"code {code} is changed to {n.naki_code} by decoding")
        if stats is not None:
            stats.note(m.type + (" red " + codec.red_role(m) if codec.has_red(m) else ""))
            stats.case(str(code), n.convenient_naki_code != code,
                       lambda: {"code": code, "meld": m.type, "tiles": m.tiles, "claimed": m.claimed})


def descriptions():
    """Every meld that can be built, with the class it denotes."""
    out = []
    for colour in range(3):
        for number in range(7):
            for which in range(3):
                five = 4 - number
                for red in ((False, True) if 0 <= five <= 2 else (False,)):
                    role = "absent" if not red else "claimed" if five == which else "hand"
                    out.append(("chi", (colour, number, which, red),
                                ("chi", colour * 9 + number, which, 3, role)))
    for k in range(34):
        five = k < 27 and k % 9 == 4
        for rel in (1, 2, 3):
            out.append(("pon", (k, 0, False, rel), ("pon", k, rel, "absent")))
            if five:
                out.append(("pon", (k, 0, True, rel), ("pon", k, rel, "claimed")))
                out.append(("pon", (k, 1, True, rel), ("pon", k, rel, "hand")))
                out.append(("minkan", (k, rel, 0), ("minkan", k, rel, "claimed")))
                out.append(("minkan", (k, rel, 1), ("minkan", k, rel, "hand")))
            else:
                out.append(("minkan", (k, rel, 1), ("minkan", k, rel, "absent")))
        if five:
            out.append(("kakan", (k, 0), ("kakan", k, "added")))
            out.append(("kakan", (k, 1), ("kakan", k, "hand")))
        else:
            out.append(("kakan", (k, 0), ("kakan", k, "absent")))
        out.append(("ankan", (k,), ("ankan", k, 0, "hand" if five else "absent")))
    return out


class C02(Check):
    id = "C02"
    rule = ("Every legal meld code is canonicalised and compared with all codes met before through an "
            "index by canonical code and by class of call (so all pairs are decided), and every meld "
            "that can be built is built. Non-trivial: the code is not canonical already.")
    shards = 1
    quick = thorough = 0

    def canon(self, code):
        return int(safe(f"Naki({code})", lambda: naki(code)).convenient_naki_code)

    def cls(self, m):
        return codec.call_class(m)

    def shard(self, ctx):
        codes = codec.all_codes()
        random.Random(ctx.seed).shuffle(codes)
        by_canon, by_class = {}, {}
        for code, m in codes:
            if ctx.try_case({"code": code}):
                return
            c, k = self.canon(code), self.cls(m)
            o = by_canon.setdefault(c, code)
            p = by_class.setdefault(k, code)
            for other in (o, p):
                if other != code and ctx.try_case({"pair": [other, code]}):
                    return
        for t, args, want in descriptions():
            if ctx.try_case({"build": t, "args": list(args), "class": list(want)}):
                return

    def check_case(self, case, stats=None):
        if "pair" in case:
            a, b = case["pair"]
            ka, kb = self.cls(codec.decode(a)), self.cls(codec.decode(b))
            ca, cb = self.canon(a), self.canon(b)
            if (ka == kb) != (ca == cb):
                raise Violation(f"codes {a} and {b} are {'the same call' if ka == kb else 'different calls'}"
                                f" {ka} / {kb} but canonical codes are {ca} and {cb}")
            if stats is not None:
                stats.case(f"{a},{b}", ca != a or cb != b)
                stats.note("pair " + ("same" if ka == kb else "different"))
            return
        if "code" in case:
            code = case["code"]
            c = self.canon(code)
            k, kc = self.cls(codec.decode(code)), self.cls(codec.decode(c))
            if k != kc:
                raise Violation(f"canonical code {c} of {code} denotes {kc}, not {k}")
            if self.canon(c) != c:
                raise Violation(f"canonical code {c} of {code} is canonicalised again to {self.canon(c)}")
            if stats is not None:
                stats.case(str(code), c != code, lambda: {"code": code, "canonical": c, "call": k})
                stats.note("code")
            return
        from MahjongAI.draw import Naki
        t, args, want = case["build"], case["args"], tuple(case["class"])
        n = safe(f"from_{t}_info{tuple(args)}", lambda: getattr(Naki, f"from_{t}_info")(*args))
        k = self.cls(codec.decode(int(n.naki_code)))
        if k != want:
            raise Violation(f"from_{t}_info{tuple(args)} builds {k}, should be {want}")
        if int(n.convenient_naki_code) != self.canon(int(n.naki_code)):
            raise Violation(f"from_{t}_info{tuple(args)} builds {n.convenient_naki_code}, canonical is "
                            f"{self.canon(int(n.naki_code))}")
        if stats is not None:
            stats.case(json.dumps(case), False)
            stats.note("built")


DURING_RANGE, POST_RANGE = range(3, 71), range(2, 154)


class C03(Check):
    id = "C03"
    rule = ("Every legal meld code's action slot is compared with all codes met before through an index "
            "by slot and by choice (so all pairs are decided). Non-trivial: a call of the case involves a "
            "red five.")
    shards = 1
    quick = thorough = 0

    def slot(self, code, m):
        n = safe(f"Naki({code})", lambda: naki(code))
        f = n.get_during_turn_filter_idx if m.type in ("ankan", "kakan") else n.get_post_turn_filter_idx
        return int(safe(f"slot of code {code} ({m.type} {m.tiles})", f))

    def shard(self, ctx):
        codes = codec.all_codes()
        random.Random(ctx.seed).shuffle(codes)
        by_slot, by_choice = {}, {}
        for code, m in codes:
            if ctx.try_case({"code": code}):
                return
            d = m.type in ("ankan", "kakan")
            s, c = (d, self.slot(code, m)), codec.choice(m)
            for other in (by_slot.setdefault(s, code), by_choice.setdefault(c, code)):
                if other != code and ctx.try_case({"pair": [other, code]}):
                    return

    def check_case(self, case, stats=None):
        if "code" in case:
            m = codec.decode(case["code"])
            s = self.slot(case["code"], m)
            rng = DURING_RANGE if m.type in ("ankan", "kakan") else POST_RANGE
            if s not in rng:
                raise Violation(f"code {case['code']} ({m.type} {m.tiles}) has slot {s}, outside "
                                f"{rng.start}..{rng.stop - 1}")
            if stats is not None:
                stats.case(str(case["code"]), codec.has_red(m),
                           lambda: {"code": case["code"], "call": codec.choice(m), "slot": s})
            return
        a, b = case["pair"]
        ma, mb = codec.decode(a), codec.decode(b)
        sa, sb = self.slot(a, ma), self.slot(b, mb)
        ca, cb = codec.choice(ma), codec.choice(mb)
        if (sa == sb) != (ca == cb):
            raise Violation(f"codes {a} {ca} and {b} {cb} have slots {sa} and {sb}")
        if stats is not None:
            stats.case(f"{a},{b}", codec.has_red(ma) or codec.has_red(mb))
            stats.note("pair " + ("same choice" if ca == cb else "different choices"))
