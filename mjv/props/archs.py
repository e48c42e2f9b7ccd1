"""The model architectures and what their batches are made of."""
import importlib

import numpy as np

from ..core import Violation
from .common import DISCARD, DURING, POST

# name -> (module, class, arguments, layers vary)
ARCHS = {
    "transformer": ("transformer", "TransformerModel", ()),
    "transformer_conv": ("transformer_conv", "TransformerConvModel", ()),
    "transformer_conv_large": ("transformer_conv_large", "TransformerConvLargeModel", (2,)),
    "transformer_conv_ordered": ("transformer_conv_ordered", "TransformerConvOrderedModel", (1,)),
}
HEADS = ("during", "discard", "post")
DIMS = {"during": 71, "discard": 37, "post": 154}
SEQ = 150


def torch1():
    import torch
    torch.set_num_threads(1)
    return torch


def make_model(name, layers=None):
    mod, cls, args = ARCHS[name]
    m = importlib.import_module("MahjongAI.agents." + mod)
    if args and layers:
        args = (layers,)
    return getattr(m, cls)(*args)


_PROC = {}


def processor(name):
    """The tensor processor a model of this architecture uses."""
    if name not in _PROC:
        _PROC[name] = make_model(name).tensor_processor
    return _PROC[name]


def seat_relative(name):
    return name == "transformer_conv_ordered"


def batches(name, turns_list, tokens_list):
    """-> {head: {"hist", "x1", "x2", "x3", "mask", "y", ["seat"]}} of numpy arrays."""
    res = processor(name).prepare_batches(turns_list, tokens_list)
    if len(res) != 3:
        raise Violation(f"{name}: {len(res)} groups of tensors instead of 3")
    out = {}
    for head, t in zip(HEADS, res):
        d = {"hist": t[0], "x1": t[1][0], "x2": t[1][1], "x3": t[1][2], "mask": t[2], "y": t[3]}
        if seat_relative(name):
            d["seat"] = t[4]
        out[head] = {k: v.detach().cpu().numpy() for k, v in d.items()}
    return out


def expected_samples(turns):
    """The samples of one round: {head: [(turn, seat, mask set or None, label)]}, from the decisions."""
    out = {h: [] for h in HEADS}
    for t in turns:
        if t.type_ == DISCARD:
            d = int(t.discarded_tile)
            allowed = {i for i, c in enumerate(t.stateObj.hand_tensor) if c > 0}
            out["discard"].append((t, t.player, allowed, d // 4))
        elif t.type_ == DURING:
            m, y = choices(t.decisions, "get_during_turn_filter_idx")
            if len(m) > 1:
                out["during"].append((t, t.player, m, y or 0))
        elif t.type_ == POST:
            for i in (1, 2, 3):
                p = (t.player + i) % 4
                m, y = choices(t.decisions[p], "get_post_turn_filter_idx")
                if len(m) > 1:
                    out["post"].append((t, p, m, y or 0))
                    if y is not None:
                        break
    return out


def choices(decisions, slot):
    """Allowed action slots (pass included) and the slot taken, None if nothing was."""
    agari, reach, naki = decisions
    mask, y = {0}, None
    for ds, s in ((agari, 1), (reach, 2)):
        if ds:
            mask.add(s)
            if any(d.executed for d in ds):
                y = s
    for d in naki:
        s = int(getattr(d.naki, slot)())
        mask.add(s)
        if d.executed:
            y = s
    return mask, y


def mask_set(row):
    return {int(i) for i in np.nonzero(row)[0]}
