"""Shared by the checks that feed logs to the code under test."""
import json
import os
import tempfile

import numpy as np

from .. import core
from ..core import Violation
from ..ref import codec, mjlog, sim, table
from ..ref.table import offer_class
from ..ref.tiles import name

TYPES = [t for t in range(256) if t & 1 and not t & 2 and not t & 4 and not t & 16]
DURING, DISCARD, POST = 0, 1, 2
KIND = {"during": 0, "discard": 1, "post": 2}


def process_text(text):
    """Feeds a log text to the code under test through a file, as users do."""
    from MahjongAI.process_xml import process
    fd, path = tempfile.mkstemp(suffix=".xml", dir=".")
    with os.fdopen(fd, "w") as f:
        f.write(text)
    try:
        return process(path)
    finally:
        os.unlink(path)


def process_game(game):
    """A legal game must be processed; anything else is a violation."""
    try:
        return process_text(mjlog.to_xml(game))
    except core.Hang:
        raise
    except BaseException as e:
        raise Violation(f"a legal log is refused: {type(e).__name__}: {e}")


def replay_game(game):
    n = mjlog.n_rounds(game["type"])
    return [table.replay(ev, n) for ev in game["rounds"]]


# ------------------------------------------------------------------ generation
def gen_header(tape, n_rounds, overtime=True):
    rnd = tape.below(n_rounds) if not tape.chance(60) else 0
    if overtime and tape.chance(24):       # nobody had enough points at the end
        rnd = n_rounds + tape.below(4)
    honba = tape.below(6) if tape.chance(100) else 0
    kyotaku = tape.below(4) if tape.chance(100) else 0
    if tape.chance(24):
        honba = 6 + tape.below(20)
    if tape.chance(24):
        kyotaku = 4 + tape.below(9)
    ten = [250] * 4
    if tape.chance(120):
        if tape.chance(50):        # almost everything on one seat
            ten = [tape.below(40) for _ in range(4)]
            ten[tape.below(4)] += 1000 - sum(ten)
        else:
            for i in range(3):
                d = tape.below(250)
                ten[i] += d - 125
                ten[3] -= d - 125
        if tape.chance(100):   # seats around the price of a riichi
            i, j = tape.below(4), tape.below(4)
            want = tape.pick([9, 10, 0, 8, 11, 19, 20])
            ten[j] += ten[i] - want
            ten[i] = want
        if min(ten) < 0:
            ten = [250] * 4
    ten[ten.index(max(ten))] -= 10 * kyotaku     # the deposits were paid by somebody
    return {"round": rnd, "oya": rnd % 4, "honba": honba, "kyotaku": kyotaku, "ten": ten}


def gen_game(tape, n=1, profile=None, gtype=None, overtime=True, **kw):
    gtype = TYPES[tape.below(len(TYPES))] if gtype is None else gtype
    n_rounds = mjlog.n_rounds(gtype)
    rounds, refs = [], []
    for _ in range(n):
        h = gen_header(tape, n_rounds, overtime)
        p = profile(tape) if callable(profile) else profile
        ev, ref = sim.make_round(tape, header=h, n_rounds=n_rounds, profile=p, **kw)
        rounds.append(ev)
        refs.append(ref)
    return {"type": gtype, "rounds": rounds}, refs


# ------------------------------------------------------------------ reading results
def ints(x):
    return [int(v) for v in x]


def state_of(turn, p):
    """The snapshot a decision point gives to seat p."""
    per_seat = getattr(turn, "stateObjs", None)
    if per_seat is not None and turn.type_ == POST:
        return per_seat[p]
    return turn.stateObj


def snapshot(s):
    return {
        "player": int(s.player),
        "hand": ints(s.hand_tensor),
        "unseen": ints(s.remaining_tiles_pov),
        "undealt": ints(s.remaining_tiles) if hasattr(s, "remaining_tiles") else None,
        "river": [ints(r) for r in s.sutehai_tensors],
        "menzen": ints(s.is_menzen),
        "reach": ints(s.reaches),
        "dreach": ints(s.double_reaches),
        "ippatsu": ints(s.ippatsu),
        "melds": [sorted(int(n.naki_code) for n in m) for m in s.melds],
        "scores": ints(s.scores),
        "kyotaku": int(s.kyotaku),
        "honba": int(s.honba),
        "doras": ints(s.dora),
        "oya": list(ints(s.parent_tensor)),
        "left": int(s.rounds_remaining),
        "dealer_left": ints(s.parent_rounds_remaining),
        "live": int(s.remaining_tsumo),
    }


def offered(decisions):
    """One seat's decisions -> {"agari": n, "reach": n, "naki": [...]} with executed flags."""
    agari, reach, naki = decisions
    out = {"agari": [bool(d.executed) for d in agari], "reach": [bool(d.executed) for d in reach],
           "naki": []}
    for d in naki:
        m = codec.decode(int(d.naki.naki_code))
        out["naki"].append((offer_class(m), bool(d.executed)))
    return out


def seats(turn):
    return [turn.player] if turn.type_ != POST else [q for q in range(4) if q != turn.player]


def offers_of(turn, p):
    return offered(turn.decisions if turn.type_ == DURING else turn.decisions[p])


def align(ref, turns):
    """Pairs of (reference point, half turn) as long as both agree on what happens."""
    out = []
    for pt, t in zip(ref.points, turns):
        if KIND[pt.kind] != t.type_ or pt.player != t.player:
            break
        out.append((pt, t))
    return out


def where(ref, pt):
    what = {"during": "own turn of", "discard": "discard by", "post": "reaction to"}[pt.kind]
    return f"event {pt.event} ({what} seat {pt.player}, tile {name(pt.tile)})"


def dump_value(v):
    if isinstance(v, np.ndarray):
        return [dump_value(x) for x in v]
    if isinstance(v, (list, tuple)):
        return [dump_value(x) for x in v]
    if isinstance(v, (np.floating, float)):
        return int(v) if float(v).is_integer() else float(v)
    if isinstance(v, (np.integer, np.bool_)):
        return int(v)
    if hasattr(v, "naki_code"):
        return ["meld", int(v.naki_code)]
    return v


def dump_turn(t, taken=True):
    """Everything a decision point shows, as plain data."""
    out = {"type": t.type_, "player": int(t.player), "hist": int(t.encoding_idx)}
    if t.type_ == DISCARD:
        out["tile"] = int(t.discarded_tile)
    out["states"] = {p: snapshot(state_of(t, p)) for p in seats(t)}
    if t.type_ != DISCARD:
        out["offers"] = {}
        for p in seats(t):
            o = offers_of(t, p)
            if not taken:
                o = {"agari": len(o["agari"]), "reach": len(o["reach"]),
                     "naki": [c for c, _ in o["naki"]]}
            out["offers"][p] = o
    return out


# ------------------------------------------------------------------ shrinking of games
STOP = ["RYUUKYOKU", {"type": "stop", "ba": "0,0", "sc": "0,0,0,0,0,0,0,0"}]


def legal(game):
    try:
        replay_game_light(game)
        return True
    except Exception:
        return False


def replay_game_light(game):
    n = mjlog.n_rounds(game["type"])
    for ev in game["rounds"]:
        r = table.Round(ev[0][1], n, track=False)
        for tag, attr in ev[1:]:
            r.apply(tag, attr)


def cuts(ev):
    """Indices after which a round can be cut (not inside riichi declaration or kan)."""
    out = []
    for i in range(1, len(ev)):
        tag = ev[i][0]
        if tag in ("AGARI", "RYUUKYOKU"):
            break
        out.append(i)
    return out


def smaller_games(game):
    rounds = game["rounds"]
    if len(rounds) > 1:
        for i in range(len(rounds)):
            yield dict(game, rounds=rounds[:i] + rounds[i + 1:])
        return
    ev = rounds[0]
    cs = cuts(ev)
    lo, n = 0, len(cs)
    # try cutting early first, by bisection-like steps
    tried = set()
    for frac in (0.1, 0.25, 0.5, 0.75, 0.9):
        i = cs[int(frac * (n - 1))] if n else 0
        if i and i not in tried and i < len(ev) - 2:
            tried.add(i)
            yield dict(game, rounds=[ev[:i + 1] + [STOP]])
    for i in reversed(cs):
        if i not in tried and i < len(ev) - 2:
            yield dict(game, rounds=[ev[:i + 1] + [STOP]])


class TableCheck(core.Check):
    """Generate a legal game, process it, compare with the reference."""
    tape_len = 2600
    n_rounds = 1
    profile = None
    quick = 1200
    thorough = 24000

    def gen(self, tape):
        return gen_game(tape, self.n_rounds, self.profile)

    def setup(self):
        import MahjongAI.process_xml  # noqa: F401

    def shard(self, ctx):
        def body(data):
            case, refs = self.gen(sim.Tape(data))
            return ctx.try_case(case, refs)
        core.tapes(ctx, ctx.my_cases(), self.tape_len, body)

    def check_case(self, case, stats=None, refs=None):
        if refs is None:
            refs = replay_game(case)
        turns, tokens = process_game(case)
        if len(turns) != len(case["rounds"]) or len(tokens) != len(case["rounds"]):
            raise Violation(f"{len(case['rounds'])} rounds in, {len(turns)} rounds of decisions and "
                            f"{len(tokens)} histories out")
        labels = set()
        for ref, ts, tk in zip(refs, turns, tokens):
            self.compare(ref, ts, ints(tk), labels)
        if stats is not None:
            for l in labels:
                stats.note(l)
            stats.case(case, self.nontrivial(refs, labels), lambda: brief(case))

    def compare(self, ref, turns, tokens, labels):
        raise NotImplementedError

    def nontrivial(self, refs, labels):
        return bool(labels)

    def smaller(self, case):
        return smaller_games(case)


def brief(game, limit=60):
    """A readable sample of a game."""
    out = []
    for ev in game["rounds"]:
        s = []
        for tag, attr in ev:
            if tag == "INIT":
                s.append("INIT " + attr["seed"] + " " + attr["ten"] + " hands " + " | ".join(
                    "".join(name(t) for t in sorted(map(int, attr[f"hai{p}"].split(",")))) for p in range(4)))
            elif tag == "N":
                m = codec.decode(int(attr["m"]))
                s.append(f"seat{attr['who']}:{m.type}[{''.join(name(t) for t in m.tiles)}]")
            elif tag == "REACH":
                s.append(f"seat{attr['who']}:riichi{attr['step']}")
            elif tag == "DORA":
                s.append("dora " + name(int(attr["hai"])))
            elif tag == "AGARI":
                s.append(f"win {attr['who']} from {attr['fromWho']}")
            elif tag == "RYUUKYOKU":
                s.append("draw " + attr.get("type", ""))
            else:
                s.append(tag[0] + name(int(tag[1:])))
        if len(s) > limit:
            s = s[:limit // 2] + [f"... {len(s) - limit} events ..."] + s[-limit // 2:]
        out.append(" ".join(s))
    return {"type": game["type"], "rounds": out}
