"""C21-C23: the models' predictions and the history encoder."""
import numpy as np

from .. import core
from ..core import Violation
from ..ref import codec, sim
from . import archs
from .archs import ARCHS, HEADS, SEQ, expected_samples, seat_relative, torch1
from .batches import BatchCheck
from .common import brief, gen_game, process_game, smaller_games

NAMES = list(ARCHS)
LAYERS = {"transformer_conv_large": (2, 3, 1), "transformer_conv_ordered": (1, 2, 5, 3, 4)}


def randomised(name, layers, seed, kind):
    """A model with random parameters, in evaluation mode."""
    torch = torch1()
    torch.manual_seed(seed)
    m = archs.make_model(name, layers)
    m.eval()
    with torch.no_grad():
        for p in m.parameters():
            if kind == 1:
                p.mul_(3.0)
            elif kind == 2:     # biases and norms random, too
                p.add_(torch.randn_like(p) * 0.05)
            elif kind == 3:
                p.mul_(0.2)
    return m


def gen_model(tape, arch=None):
    a = tape.pick(NAMES) if arch is None else arch
    return {"arch": a, "layers": tape.pick(LAYERS.get(a, (0,))), "params": tape.below(1 << 16),
            "kind": tape.below(4)}


def predictions(model, games, **kw):
    """-> {head: (logits, loss)} of a batch of (turns, tokens)."""
    torch = torch1()
    want = {h: 0 for h in HEADS}
    for turns, _ in games:
        for ts in turns:
            for h, v in expected_samples(ts).items():
                want[h] += len(v)
    heads = [h for h in HEADS if want[h]]
    with torch.no_grad():
        res = [(lg.detach().cpu().numpy().astype(np.float64), float(loss))
               for lg, loss in model([g[0] for g in games], [g[1] for g in games], **kw)]
    if len(res) != len(heads):
        raise Violation(f"{len(res)} groups of predictions for decisions of types {heads}")
    return dict(zip(heads, res))


def cross_entropies(logits, labels):
    m = logits.max(axis=1, keepdims=True)
    lse = m[:, 0] + np.log(np.exp(logits - m).sum(axis=1))
    return lse - logits[np.arange(len(labels)), labels]


def close(a, b, scale):
    return np.abs(a - b).max(initial=0.0) <= 2e-3 * max(1.0, scale)


def magnitude(logits, masks):
    return float(np.abs(logits[masks]).max(initial=1.0))


class C21(BatchCheck):
    id = "C21"
    rule = ("One evaluation is a list of games evaluated by one architecture with random parameters: masks, "
            "loss, independence of the batch and sub-sampling are checked for every sample. Non-trivial: at "
            "least two games with samples.")
    assumptions = ["predictions of the same sample in different batches are compared up to 0.2 % of the "
                   "largest score, for rounding"]
    quick = 320
    thorough = 6000
    tape_len = 3000

    def gen(self, tape):
        games = []
        for _ in range(1 + tape.below(3)):
            g, _ = gen_game(tape, tape.pick([1, 1, 2]), lambda t: t.pick(self.profiles),
                            max_events=tape.pick([15, 30, 8, 60, 20, 100]))
            games.append(g)
        return dict(gen_model(tape), games=games, k=1 + tape.below(30), perm=tape.below(6),
                    many=150 + tape.below(60) if tape.below(8) == 1 else 0)

    def smaller(self, case):
        gs = case["games"]
        for i in range(len(gs)):
            if len(gs) > 1:
                yield dict(case, games=gs[:i] + gs[i + 1:])
            for g in smaller_games(gs[i]) if gs[i]["rounds"] else ():
                yield dict(case, games=gs[:i] + [g] + gs[i + 1:])

    def check_case(self, case, stats=None):
        done = [process_game(g) for g in case["games"]]
        a = case["arch"]
        model = randomised(a, case["layers"], case["params"], case["kind"])
        rows = {h: [] for h in HEADS}     # (game, allowed, label)
        for gi, (turns, _) in enumerate(done):
            for ts in turns:
                for h, v in expected_samples(ts).items():
                    rows[h] += [(gi, allowed, y) for _, _, allowed, y in v]
        whole = predictions(model, done)
        masks, labels, scale = {}, {}, {}
        for h, (lg, loss) in whole.items():
            at = f"{a}, {h}"
            if lg.shape != (len(rows[h]), archs.DIMS[h]):
                raise Violation(f"{at}: predictions of shape {lg.shape} for {len(rows[h])} samples")
            m = np.zeros(lg.shape, bool)
            for i, (_, allowed, _) in enumerate(rows[h]):
                m[i, sorted(allowed)] = True
            y = np.array([r[2] for r in rows[h]])
            self.scores(at, lg, m)
            ce = cross_entropies(lg, y)
            if abs(ce.mean() - loss) > 1e-4 * max(1.0, abs(loss)):
                raise Violation(f"{at}: loss {loss}, the labels' mean cross-entropy is {ce.mean()}")
            masks[h], labels[h], scale[h] = m, y, magnitude(lg, m)
        # each game on its own, and all of them in another order
        order = np.random.default_rng(case["perm"]).permutation(len(done))
        other = predictions(model, [done[i] for i in order])
        for h in whole:
            gi = np.array([r[0] for r in rows[h]])
            idx = np.concatenate([np.nonzero(gi == g)[0] for g in order])
            self.same(f"{a}, {h}: games in the order {list(map(int, order))}", other[h][0], whole[h][0][idx],
                      masks[h][idx], scale[h])
        for g in range(len(done)):
            if len(done) > 1:
                alone = predictions(model, [done[g]])
                for h in alone:
                    idx = [i for i, r in enumerate(rows[h]) if r[0] == g]
                    self.same(f"{a}, {h}: game {g} alone", alone[h][0], whole[h][0][idx], masks[h][idx],
                              scale[h])
        torch1().manual_seed(case["params"] + 1)
        few = predictions(model, done, sample=True, sample_size=case["k"])
        for h in whole:
            self.subset(f"{a}, {h}, {case['k']} samples", few[h], whole[h][0], masks[h], labels[h],
                        scale[h], case["k"])
            if stats is not None and len(rows[h]) > case["k"]:
                stats.note("sub-sampled " + h)
        if case["many"] and rows:
            self.many(case, model, done, rows, whole, masks, scale, stats)
        if stats is not None:
            stats.note(a)
            stats.note("parameters " + ("initial", "large", "random biases", "small")[case["kind"]])
            n = sum(1 for d in done if any(d[0]))
            stats.case(case, n >= 2, lambda: [a] + [brief(g, 12) for g in case["games"]])

    def many(self, case, model, done, rows, whole, masks, scale, stats):
        """Sub-samples larger than a history, of the same games repeated."""
        k = case["many"]
        most = max((len(v) for v in rows.values()), default=0)
        times = min(k // most + 1, 12) if most else 0
        if times * most <= k:
            return
        got = predictions(model, done * times, sample=True, sample_size=k)
        for h, (lg, _) in got.items():
            at = f"{case['arch']}, {h}: {k} samples of {times} times the same games"
            n = min(k, len(rows[h]) * times)
            if len(lg) != n:
                raise Violation(f"{at}: {len(lg)} predictions of {len(rows[h]) * times} samples, should be {n}")
            full, m = whole[h][0], masks[h]
            for j in range(len(full)):
                like = [i for i in range(len(full)) if np.array_equal(m[i], m[j])
                        and close(full[i][m[i]], full[j][m[j]], 2 * scale[h])]
                same = [i for i in range(n) if np.array_equal(lg[i] > -1e8, m[j])
                        and close(lg[i][m[j]], full[j][m[j]], scale[h])]
                if len(same) > times * len(like):
                    raise Violation(f"{at}: sample {j} occurs {len(same)} times")
        if stats is not None:
            stats.note("sub-samples larger than a history")

    def scores(self, at, lg, m):
        if not np.isfinite(lg[m]).all():
            raise Violation(f"{at}: an allowed action has the score {lg[m][~np.isfinite(lg[m])][0]}")
        top = np.where(m, lg, -np.inf).max(axis=1, keepdims=True)
        with np.errstate(over="ignore"):
            p = np.exp(lg - top)
        out = np.where(m, 0, p).sum(axis=1) / p.sum(axis=1)
        if not (out < 1e-6).all():
            i = int(np.argmax(~(out < 1e-6)))
            raise Violation(f"{at}: sample {i} gives forbidden actions the probability {out[i]}")

    def same(self, what, got, want, m, scale):
        if got.shape != want.shape:
            raise Violation(f"{what}: {len(got)} predictions instead of {len(want)}")
        if not close(np.where(m, got, 0), np.where(m, want, 0), scale):
            i = int(np.abs(np.where(m, got - want, 0)).max(axis=1).argmax())
            raise Violation(f"{what}: the prediction of sample {i} depends on the rest of the batch")

    def subset(self, at, few, full, m, y, scale, k):
        lg, loss = few
        n = min(k, len(full))
        if len(lg) != n:
            raise Violation(f"{at}: {len(lg)} predictions of {len(full)} samples, should be {n}")
        self.scores_finite(at, lg)
        used, lo, hi = set(), 0.0, 0.0
        for i in range(n):
            mi = lg[i] > -1e8
            same = [j for j in range(len(full)) if np.array_equal(mi, m[j])
                    and close(lg[i][mi], full[j][mi], scale)]
            if not same:
                raise Violation(f"{at}: prediction {i} is that of no sample")
            free = [j for j in same if j not in used]
            if not free and len(same) == 1:
                raise Violation(f"{at}: sample {same[0]} occurs twice")
            used.update(free[:1])
            ce = [cross_entropies(lg[i:i + 1], np.array([y[j]]))[0] for j in same]
            lo, hi = lo + min(ce), hi + max(ce)
        tol = 2e-3 * max(1.0, abs(loss))
        if not lo / n - tol <= loss <= hi / n + tol:
            raise Violation(f"{at}: loss {loss}, the chosen samples' mean cross-entropy is {lo / n}")

    def scores_finite(self, at, lg):
        if np.isnan(lg).any():
            raise Violation(f"{at}: a score is not a number")


# ------------------------------------------------------------------ history encoder
_TOKENS = []


def valid_tokens():
    """Every history entry a legal game can contain: (token, what it records)."""
    if not _TOKENS:
        from MahjongAI.draw import Naki
        seen = {}
        for who in range(4):
            for k in range(34):
                for drawn in (0, 1):
                    seen[1 << 13 | 1 << 10 | who << 8 | drawn << 7 | k] = ("discard", who, k, drawn)
            seen[2 << 13 | 3 << 10 | who << 8 | 2] = ("riichi", who)
            for code, m in codec.all_codes():
                n = Naki(code)
                if m.type in ("ankan", "kakan"):
                    t = 2 << 13 | 2 << 10 | who << 8 | int(n.get_during_turn_filter_idx())
                else:
                    t = 3 << 13 | 2 << 10 | who << 8 | int(n.get_post_turn_filter_idx())
                seen.setdefault(t, (m.type, who, t & 0xFF))
        for k in range(37):
            seen[4 << 13 | 4 << 10 | k] = ("indicator", k)
        _TOKENS.extend(sorted(seen.items()))
    return _TOKENS


def encode(model, name, rows, seats):
    torch = torch1()
    x = torch.tensor(np.asarray(rows), dtype=torch.float32)
    with torch.no_grad():
        if seat_relative(name):
            out = model.encoder(x, torch.tensor(np.asarray(seats), dtype=torch.long))
        else:
            out = model.encoder(x)
    return out.detach().cpu().numpy()


def without_attention(model):
    """Leaves only the embeddings: the layers after them pass their input on."""
    torch = torch1()

    class Pass(torch.nn.Module):
        def forward(self, x, *args, **kw):
            return x

    blocks = getattr(model.encoder, "blocks", None)
    if isinstance(blocks, (torch.nn.Sequential, torch.nn.ModuleList)):
        for i in range(len(blocks)):
            blocks[i] = Pass()
        return
    # no such list: residual layers do nothing if their parameters are zero
    emb = {id(p) for m in model.encoder.modules() if isinstance(m, torch.nn.Embedding)
           for p in m.parameters()}
    with torch.no_grad():
        for p in model.encoder.parameters():
            if id(p) not in emb:
                p.zero_()


class C22(core.Check):
    id = "C22"
    rule = ("One evaluation is one architecture with random embeddings and a set of history entries (all "
            "possible ones, or 160 with many pairs differing in one field): each entry is encoded at each "
            "position in two different contexts and all pairs at the same position are compared. The "
            "attention layers are replaced by ones that do nothing. Non-trivial: always.")
    assumptions = ["events that differ are told apart by a distance above 1e-5"]
    quick = 240
    thorough = 5000
    tape_len = 900

    def setup(self):
        torch1()

    def shard(self, ctx):
        def body(data):
            return ctx.try_case(self.gen(sim.Tape(data)))
        core.tapes(ctx, ctx.my_cases(), self.tape_len, body)

    def gen(self, tape):
        case = dict(gen_model(tape), order=tape.below(1 << 16), seat=tape.below(4))
        case["layers"] = 1 if case["layers"] else 0     # they are neutralised anyway
        toks = [t for t, _ in valid_tokens()]
        if tape.chance(20):
            return dict(case, tokens="all", positions=[tape.below(SEQ)])
        known, chosen = set(toks), []
        while len(chosen) < 160:
            t = toks[tape.below(len(toks))]
            group = [t]
            if tape.chance(160):        # relatives differing in one field
                group += [t & ~(3 << 8) | (t >> 8 & 3) + 1 & 3 << 8, t ^ 1 << 7, t + 1, t ^ 1, t ^ 2, t + 27]
                group += [u << 13 | t & 0x1fff for u in (1, 2, 3)]
            chosen += [u for u in dict.fromkeys(group) if u in known and u not in chosen]
            if tape.i > 800:
                chosen += [u for u in toks if u not in chosen][:160]
        return dict(case, tokens=chosen[:160], positions="all")

    def smaller(self, case):
        ts = toks = case["tokens"]
        if ts == "all":
            toks = [t for t, _ in valid_tokens()]
            ts = toks
        if case["positions"] == "all":
            for p in (1, 0, 75, SEQ - 1):
                yield dict(case, positions=[p])
        k = len(ts) // 2
        while k >= 1:
            for lo in range(0, len(ts), k):
                if len(ts) > k:
                    yield dict(case, tokens=ts[:lo] + ts[lo + k:])
            k //= 2

    def check_case(self, case, stats=None):
        a = case["arch"]
        model = randomised(a, case["layers"], case["params"], case["kind"])
        without_attention(model)
        says = dict(valid_tokens())
        codes = np.array(list(says) if case["tokens"] == "all" else case["tokens"])
        n = len(codes)
        ps = range(SEQ) if case["positions"] == "all" else case["positions"]
        rng = np.random.default_rng(case["order"])
        seats = np.full(n, case["seat"])
        enc = []
        for k in range(2):
            perm = rng.permutation(n)
            shift = rng.integers(n, size=SEQ)
            idx = perm[(np.arange(n)[:, None] + shift[None, :]) % n]     # every entry at every position
            rows = codes[idx]
            if k:    # cut some way after the last position looked at: the rest is padding
                end = max(ps) + 1 + int(rng.integers(SEQ - max(ps)))
                rows[:, end:] = 0
            else:
                end = SEQ
            out = encode(model, a, rows, seats)
            if out.shape[:2] != (n, SEQ):
                raise Violation(f"{a}: encoding of shape {out.shape} for {n} histories")
            pad = np.abs(out[:, end:]).max(initial=0)
            if not pad <= 1e-6:
                raise Violation(f"{a}: padding after {end} entries is encoded as something ({pad})")
            e = np.zeros((len(ps), n, out.shape[2]))
            for i, p in enumerate(ps):
                e[i, idx[:, p]] = out[:, p]
            enc.append(e)
        # histories of any length
        lens = rng.integers(SEQ + 1, size=n)
        for i, l in enumerate(lens):
            rows[i, l:] = 0
        out = encode(model, a, rows, seats)
        for i, l in enumerate(lens):
            pad = np.abs(out[i, l:]).max(initial=0)
            if not pad <= 1e-6:
                raise Violation(f"{a}: padding after {l} entries is encoded as something ({pad})")
        top = max(1.0, np.abs(enc[0]).max())
        d = np.abs(enc[0] - enc[1]).max(axis=2)
        if not d.max() <= 1e-4 * top:
            i, t = np.unravel_index(d.argmax(), d.shape)
            raise Violation(f"{a}: {says[int(codes[t])]} at position {ps[i]} is encoded differently in another "
                            "history")
        for e, p in zip(enc[0], ps):
            g = e @ e.T
            sq = np.diag(g)[:, None] + np.diag(g)[None, :] - 2 * g
            np.fill_diagonal(sq, np.inf)
            for i, j in np.argwhere(sq < 1e-6):
                if np.abs(e[i] - e[j]).max() < 1e-5:
                    raise Violation(f"{a}: {says[int(codes[i])]} and {says[int(codes[j])]} are encoded alike at "
                                    f"position {p}")
        if len(ps) > 1:
            for t in range(n):
                e = enc[0][:, t]
                g = e @ e.T
                sq = np.diag(g)[:, None] + np.diag(g)[None, :] - 2 * g
                np.fill_diagonal(sq, np.inf)
                for i, j in np.argwhere(sq < 1e-6):
                    if np.abs(e[i] - e[j]).max() < 1e-5:
                        raise Violation(f"{a}: {says[int(codes[t])]} is encoded alike at positions {ps[i]} and "
                                        f"{ps[j]}")
        if stats is not None:
            stats.note(a + (", all entries" if case["tokens"] == "all" else ""))
            stats.note("pairs of events compared", n * (n - 1) // 2 * len(ps))
            stats.case(case, True, lambda: {k: v if k != "tokens" else v[:10] for k, v in case.items()})


class C23(core.Check):
    id = "C23"
    rule = ("One evaluation is a set of histories (of generated rounds, or made of random entries) encoded "
            "by the seat-relative model with random parameters, before and after rotating the seats. "
            "Non-trivial: the histories name at least three seats.")
    assumptions = ["encodings are compared up to 0.01 % of the largest value, for rounding; a difference "
                   "counts as one from 0.001 %"]
    quick = 1200
    thorough = 20000
    tape_len = 1500

    def setup(self):
        torch1()

    def shard(self, ctx):
        def body(data):
            return ctx.try_case(self.gen(sim.Tape(data)))
        core.tapes(ctx, ctx.my_cases(), self.tape_len, body)

    def gen(self, tape):
        m = gen_model(tape, "transformer_conv_ordered")
        toks = [t for t, _ in valid_tokens()]
        rows = []
        for _ in range(1 + tape.below(4)):
            kind = tape.below(3)
            n = tape.below(SEQ) if kind else tape.below(4)
            if kind == 2:
                only = [t for t in toks if t >> 13 == 1 + tape.below(4)] or toks
            else:
                only = toks
            rows.append([only[tape.below(len(only))] for _ in range(n)])
        return dict(m, rows=rows, seats=[tape.below(4) for _ in rows], turn=1 + tape.below(3))

    def smaller(self, case):
        rows, seats = case["rows"], case["seats"]
        for i in range(len(rows)):
            if len(rows) > 1:
                yield dict(case, rows=rows[:i] + rows[i + 1:], seats=seats[:i] + seats[i + 1:])
            n = len(rows[i])
            for lo, hi in ((0, n // 2), (n // 2, n)):
                if 0 < hi - lo < n:
                    yield dict(case, rows=rows[:i] + [rows[i][:lo] + rows[i][hi:]] + rows[i + 1:])

    def check_case(self, case, stats=None):
        a = case["arch"]
        model = randomised(a, case["layers"], case["params"], case["kind"])
        r = case["turn"]
        rows = np.zeros((len(case["rows"]), SEQ), int)
        for i, row in enumerate(case["rows"]):
            rows[i, :len(row)] = row
        named = np.isin(rows >> 13, (1, 2, 3))
        turned = np.where(named, rows & ~(3 << 8) | ((rows >> 8 & 3) + r) % 4 << 8, rows)
        seats = np.array(case["seats"])
        base = encode(model, a, rows, seats)
        both = encode(model, a, turned, (seats + r) % 4)
        alone = encode(model, a, rows, (seats + r) % 4)
        tok = encode(model, a, turned, seats)
        top = max(1.0, float(np.abs(base).max()))
        for i in range(len(rows)):
            if np.abs(base[i] - both[i]).max() > 1e-4 * top:
                raise Violation(f"history {i}: rotating all seats by {r} changes the encoding by "
                                f"{np.abs(base[i] - both[i]).max()}")
            for what, x in (("the deciding seat", alone), ("the seats of the history", tok)):
                d = np.abs(base[i] - x[i]).max()
                if named[i].any() and d < 1e-5 * top:
                    raise Violation(f"history {i}: rotating {what} alone by {r} does not change the encoding")
                if not named[i].any() and d > 1e-4 * top:
                    raise Violation(f"history {i} names no seat, but rotating {what} changes its encoding")
        if stats is not None:
            n = len(set((rows >> 8 & 3)[named]))
            stats.note(f"{n} seats named")
            stats.case(case, n >= 3, lambda: {"turn": r, "rows": [len(x) for x in case["rows"]]})


# ------------------------------------------------------------------ C32
class C32(BatchCheck):
    id = "C32"
    rule = ("One evaluation is an architecture with random parameters and a game: the predictions of a model "
            "restored from the saved parameters are compared with the original's, and the slope of each loss "
            "along random parameter tensors with the one that its gradient predicts. Non-trivial: the game "
            "has decisions of at least two types.")
    assumptions = ["the models are in evaluation mode (no dropout)",
                   "slopes are measured with parameters in double precision and count if two step widths agree on "
                   "them up to 1 %; they have to agree with the gradient up to 3 %. If the loss does not come out "
                   "in double precision, wider steps and tolerances are used"]
    quick = 120
    thorough = 6000
    tape_len = 1200
    STEPS = (1e-4, 1e-5, 1e-3, 1e-6)      # in double precision
    COARSE = (2e-1, 1e-1, 5e-2, 2e-2, 8e-3, 3e-3, 1e-3)

    def gen(self, tape):
        m = gen_model(tape)
        g, _ = gen_game(tape, 1, lambda t: t.pick(self.profiles), max_events=tape.pick([12, 25, 6, 40]))
        return dict(m, kind=2, games=[g], draw=tape.below(1 << 16))

    def smaller(self, case):
        for g in smaller_games(case["games"][0]):
            yield dict(case, games=[g])

    def check_case(self, case, stats=None):
        import io
        torch = torch1()
        done = [process_game(g) for g in case["games"]]
        a = case["arch"]
        model = randomised(a, case["layers"], case["params"], case["kind"])
        torch.manual_seed(case["params"] + 1)
        copy = archs.make_model(a, case["layers"])
        copy.eval()
        whole = predictions(model, done)
        f = io.BytesIO()
        torch.save(model.state_dict(), f)
        f.seek(0)
        copy.load_state_dict(torch.load(f))
        again = predictions(copy, done)
        for h in whole:
            x, y = whole[h][0], again[h][0]
            if x.shape != y.shape or not np.abs(x - y).max(initial=0) <= 1e-4 * np.abs(x[x > -1e8]).max(initial=1):
                raise Violation(f"{a}, {h}: a model restored from the saved parameters predicts something else")
        heads = list(whole)
        params = dict(model.named_parameters())
        saved = set(model.state_dict())
        for n in params:
            if n not in saved:
                raise Violation(f"{a}: the parameter {n} is not saved")
        if len(heads) == len(HEADS):
            self.layers(a, case, done, stats)
        rng = np.random.default_rng(case["draw"])
        head = heads[int(rng.integers(len(heads)))] if heads else None
        if head is not None:
            self.slopes(a, model, done, head, heads, params, rng, stats)
        if stats is not None:
            stats.note(a)
            stats.case(case, len(heads) >= 2, lambda: [a] + [brief(g, 12) for g in case["games"]])

    def loss(self, model, done, head, heads):
        for h, (_, loss) in zip(heads, model([g[0] for g in done], [g[1] for g in done])):
            if h == head:
                return loss

    def layers(self, a, case, done, stats):
        """Every member of a row of larger modules (layers, attention heads) takes part."""
        torch = torch1()
        idle = None
        for k in range(5):
            model = randomised(a, case["layers"], case["params"] + 7 * k, case["kind"])
            sum(loss for _, loss in model([g[0] for g in done], [g[1] for g in done])).backward()
            still = set()
            for name, row in model.named_modules():
                if not isinstance(row, (torch.nn.ModuleList, torch.nn.Sequential, torch.nn.ModuleDict)):
                    continue
                for part, member in row.named_children():
                    if list(member.children()) and list(member.parameters()) and not any(
                            p.grad is not None and bool((p.grad != 0).any()) for p in member.parameters()):
                        still.add(f"{name}.{part}")
            idle = still if idle is None else idle & still
            if not idle:
                break
        if stats is not None:
            stats.note("layers and attention heads looked at")
        if idle:
            raise Violation(f"{a}: no loss depends on {sorted(idle)[0]}")

    def slopes(self, a, model, done, head, heads, params, rng, stats):
        torch = torch1()
        # the same parameters in double precision; what a layer gets is converted
        model.double()

        def widen(module, args):
            return tuple(x.double() if isinstance(x, torch.Tensor) and x.is_floating_point() else x for x in args)
        for m in model.modules():
            if list(m.parameters(recurse=False)):
                m.register_forward_pre_hook(widen)

        def value():
            with torch.no_grad():
                return self.loss(model, done, head, heads)
        try:
            first = value()
            fine = first.dtype == torch.float64 and float(first) != float(first.float())
        except RuntimeError:                              # mixes precisions
            fine = False
        if not fine:
            model.float()
            for m in model.modules():
                m._forward_pre_hooks.clear()
        model.zero_grad(set_to_none=True)
        self.loss(model, done, head, heads).backward()
        grads = {n: None if p.grad is None else p.grad.detach().clone() for n, p in params.items()}
        names = sorted(params)
        least, two_agree, right = (1e-6, 0.01, 0.03) if fine else (2e-3, 0.03, 0.15)

        def length(n):
            return 0.0 if grads[n] is None else float(grads[n].norm())
        order = [names[i] for i in rng.permutation(len(names))]
        large = [n for n in order if length(n) >= least]       # measurable, most likely
        none = [n for n in order if not length(n)]
        chosen = large[:14 if fine else 5] + none[:2]
        base = float(value())
        for n in chosen:
            p, g = params[n], grads[n]
            flat = g is None or not bool((g != 0).any())
            d = torch.tensor(rng.standard_normal(tuple(p.shape)), dtype=p.dtype) if flat else g
            d = d / d.norm()
            slope = 0.0 if flat else float(g.norm())
            old, found, straight = p.detach().clone(), [], None
            try:
                for s in self.STEPS if fine else self.COARSE:
                    sides = []
                    for sign in (1, -1):
                        with torch.no_grad():
                            p.copy_(old + sign * s * d)
                        sides.append(float(value()))
                    up, down = sides
                    there = (up - down) / (2 * s)
                    if fine:
                        good = max(abs(there), slope) >= least
                    else:
                        good = (max(abs(up - down), 2 * s * slope) >= 4e-4 * max(1.0, abs(base))
                                and abs(up + down - 2 * base) < 0.05 * abs(up - down))
                    found.append(there if good else None)
                    # in a smooth stretch, two step widths measure the same slope
                    if len(found) > 1:
                        x, y = found[-2:]
                        if x and y and abs(x - y) < two_agree * abs(y):
                            straight = y
                            if fine:
                                break
            finally:
                with torch.no_grad():
                    p.copy_(old)
            if stats is not None:
                stats.note("no influence on this loss" if flat and not straight else
                           "slope measured" if straight else "slope too small to measure")
            if straight and abs(straight - slope) > right * abs(straight):
                if flat:
                    raise Violation(f"{a}, {head}: the loss depends on {n} (slope {straight}), but gets no "
                                    "gradient")
                raise Violation(f"{a}, {head}: the slope along the gradient of {n} is {straight}, its length "
                                f"says {slope}")


# ------------------------------------------------------------------ C34
FIELDS = ("hand_tensor", "remaining_tiles_pov", "sutehai_tensors", "scores", "parent_tensor",
          "parent_rounds_remaining", "double_reaches", "reaches", "ippatsu", "is_menzen", "remaining_tsumo",
          "kyotaku", "honba", "rounds_remaining", "history", "later")


class C34(BatchCheck):
    id = "C34"
    rule = ("One evaluation is an architecture with random parameters, a game, and a few changes of single "
            "facts: one field of the position of one decision, one entry of the history before or after it. "
            "Non-trivial: some fact was changed that the decision sees.")
    assumptions = ["a fact counts as used if for one of six draws of large random parameters a score of the "
                   "decision changes", "the history is seen by the decisions after the entry, the position by "
                   "the one it belongs to", "scores that should not change are compared up to 0.2 % of the "
                   "largest one"]
    quick = 240
    thorough = 5000
    tape_len = 1400

    def gen(self, tape):
        m = gen_model(tape)
        g, _ = gen_game(tape, 1, lambda t: t.pick(self.profiles), max_events=tape.pick([15, 30, 8, 45]))
        case = dict(m, games=[g], changes=[[tape.pick(FIELDS + ("history",) * 3), tape.below(1 << 16)]
                                           for _ in range(6)])
        if tape.chance(110):
            case["before"] = [1 + tape.below(149), tape.below(1 << 16)]
        return case

    def smaller(self, case):
        if len(case["changes"]) > 1:
            for c in case["changes"]:
                yield dict(case, changes=[c])
        for g in smaller_games(case["games"][0]):
            yield dict(case, games=[g])
        if "before" in case:
            yield {k: v for k, v in case.items() if k != "before"}

    def check_case(self, case, stats=None):
        turns, tokens = process_game(case["games"][0])
        if "before" in case:            # a longer history, of events that a log can have
            n, draw = case["before"]
            n = max(0, min(n, 149 - len(tokens[0])))
            legal = [t for t, _ in valid_tokens()]
            tokens = [[legal[int(i)] for i in np.random.default_rng(draw).integers(len(legal), size=n)]
                      + list(tokens[0])]
            for t in turns[0]:
                t.encoding_idx += n
        a = case["arch"]
        rows = []          # (head, index within its type, turn index, seat)
        count = {h: 0 for h in HEADS}
        for i, t in enumerate(turns[0]):
            for h, v in expected_samples([t]).items():
                for _, p, _, _ in v:
                    rows.append((h, count[h], i, p))
                    count[h] += 1
        done = 0
        if rows:
            models = [randomised(a, case["layers"], case["params"] + k, 1) for k in range(6)]
            base = {}
            for field, draw in case["changes"]:
                changed = self.change(a, field, np.random.default_rng(draw), turns[0], tokens[0], rows)
                if changed is None:
                    continue
                what, ts, tk, sees = changed
                done += bool(sees)
                self.compare(f"{a}: {what}", models, base, turns, tokens, ts, tk, rows, sees)
                if stats is not None:
                    stats.note(field)
        if stats is not None:
            stats.note(a)
            stats.case(case, done, lambda: [a, case["changes"]] + [brief(g, 12) for g in case["games"]])

    def change(self, a, field, rng, turns, tokens, rows):
        """-> (description, turns, tokens, rows that see the change) or None."""
        import copy
        if field in ("history", "later"):
            h, n, i, p = rows[int(rng.integers(len(rows)))]
            idx = int(turns[i].encoding_idx)
            tokens = list(tokens)
            lo, hi = (0, idx) if field == "history" else (idx, len(tokens))
            if lo >= hi:
                return None
            j = int(rng.integers(lo, hi))
            legal = [t for t, _ in valid_tokens() if t != int(tokens[j])]
            new = legal[int(rng.integers(len(legal)))]
            was, tokens[j] = tokens[j], new
            sees = [k for k, r in enumerate(rows) if int(turns[r[2]].encoding_idx) > j]
            return f"history entry {j} changed from {int(was)} to {new}", turns, tokens, sees
        k = int(rng.integers(len(rows)))
        h, n, i, p = rows[k]
        # only this seat's snapshot: those of one turn may share what is the same for all
        turn = copy.copy(turns[i])
        if h == "post":
            turn.stateObjs = list(turn.stateObjs)
            s = turn.stateObjs[p] = copy.deepcopy(turn.stateObjs[p])
        else:
            s = turn.stateObj = copy.deepcopy(turn.stateObj)
        v = getattr(s, field)
        sees = [k]
        where = ""
        if field in ("remaining_tsumo", "kyotaku", "honba", "rounds_remaining"):
            new = int(v) + 1 if not int(v) or rng.integers(2) else int(v) - 1
            setattr(s, field, new)
            where = f"{int(v)} -> {new}"
        else:
            if field == "sutehai_tensors":
                q = p if not seat_relative(a) else int(rng.integers(4))
                row = v[q]
                where = f"seat {q}, "
            else:
                row = v
            options = range(len(row))
            if field == "hand_tensor" and h == "discard":
                options = [o for o in options if row[o] >= 1]      # the mask stays as it is
            o = options[int(rng.integers(len(options)))]
            old = row[o]
            if field in ("parent_tensor", "double_reaches", "reaches", "ippatsu", "is_menzen"):
                row[o] = 0 if old else 1
            elif field in ("scores", "parent_rounds_remaining"):
                row[o] = old + 1
            elif field == "hand_tensor" and h == "discard":
                row[o] = old + 1 if old < 4 else old - 1
            else:
                row[o] = old + 1 if old < 4 and (old == 0 or rng.integers(2)) else old - 1
            where += f"{o}: {int(old)} -> {int(row[o])}"
        turns = list(turns)
        turns[i] = turn
        return f"{field} of {h} decision {n} (seat {p}) {where}", turns, tokens, sees

    def compare(self, what, models, base, turns, tokens, ts, tk, rows, sees):
        open_ = set(sees)
        for m, model in enumerate(models):
            if m not in base:
                base[m] = predictions(model, [(turns, tokens)])
            new = predictions(model, [([ts], [tk])])
            for k, (h, n, i, p) in enumerate(rows):
                x, y = base[m][h][0][n], new[h][0][n]
                if k not in sees:
                    ok = x > -1e8
                    scale = max(1.0, float(np.abs(base[m][h][0][base[m][h][0] > -1e8]).max(initial=1)))
                    if not close(x[ok], y[ok], scale) or (ok != (y > -1e8)).any():
                        raise Violation(f"{what} changes the prediction of {h} decision {n}, which does not "
                                        "see it")
                elif k in open_ and (x != y).any():
                    open_.discard(k)
            if not open_:
                return
        h, n, i, p = rows[min(open_)]
        raise Violation(f"{what} changes no score of {h} decision {n} for any parameters")
