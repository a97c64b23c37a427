"""Gradient accumulation."""

import itertools

import torch

from mc.core import KnownDeviation, Violation, arr, close, require
from mc.sim import SELECTABLE, XSINGD, Sim, hyper, loss_fn, make_batch, make_net
from mc.sim import DEFAULTS
from mc.words import grid

LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of all ways to split every step's batch into micro-batches "
    "(number, order, interleaving of forward and backward passes), executed on the real "
    "optimizer and compared with the single-batch execution"
)
RULE = (
    "One case is one configuration and one word of per-step splits. words: all words over "
    "{whole batch, 2 micro-batches in either order, 2 micro-batches forwarded before the "
    "first backward pass, 4 micro-batches, 4 forwarded first, one backward pass on the sum "
    "of 2 micro-batch losses, gradient-free forward passes in between}. orders: all 24 "
    "orders of 4 micro-batches, times 3 interleavings. After every step all parameters and "
    "pre-conditioners must equal those of the run which never splits. known: update rules "
    "or losses whose statistics depend on the split (recorded finding) must be exactly the "
    "documented sums. Non-trivial: distinct configuration and word with at least one split."
)
BOUNDS = {
    "quick": "batches of 4 samples; words of length 3 over 7 splits for 8 configurations, "
    "all orders for 60 configurations",
    "thorough": "batches of 4 samples; words of length 4 over 7 splits for 24 "
    "configurations, all orders for 162 configurations",
}
ASSUMPTIONS = [
    "two float32 executions are compared up to 3e-4 of the largest entry",
    "statistics of kfac_like=True and loss_average=None under accumulation are a recorded "
    "finding; for them the documented sums over backward passes are checked instead",
]
B = 4
SPLITS = ["1", "2", "2r", "2f", "4", "4f", "2s"]


def chunks(m):
    return [list(range(k * B // m, (k + 1) * B // m)) for k in range(m)]


def plan(split):
    """(list of micro-batches in order, mode)."""
    if isinstance(split, list):
        return [chunks(4)[k] for k in split[0]], split[1]
    m = int(split[0])
    parts = chunks(m)
    if split.endswith("r"):
        parts = parts[::-1]
    return parts, {"f": "fwd", "s": "sum"}.get(split[-1], "seq")


class Acc:
    """The real optimizer, driven with split batches."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.net = make_net(cfg["net"])
        hp = hyper({**DEFAULTS, **cfg["hp"]})
        self.avg = hp["loss_average"]
        self.scale = cfg.get("scale", 1.0)
        self.opt = XSINGD(self.net, None, init_grad_scale=self.scale, **hp)
        self.p0 = [p.detach().clone() for p in self.net.parameters()]

    def loss(self, part, i, m):
        x, y = make_batch(self.cfg["net"], i, size=B)
        w = 1.0 if self.avg is None else 1.0 / m
        return loss_fn(self.net(x[part]), y[part], self.avg) * (w * self.scale)

    def step(self, i, split):
        parts, mode = plan(split)
        m = len(parts)
        self.opt.zero_grad()
        if mode == "seq":
            for p in parts:
                self.loss(p, i, m).backward()
        elif mode == "nograd":
            for p in parts:
                with torch.no_grad():
                    self.loss(p, i + 1, m)
                self.loss(p, i, m).backward()
        elif mode == "sum":
            sum(self.loss(p, i, m) for p in parts).backward()
        else:
            for loss in [self.loss(p, i, m) for p in parts]:
                loss.backward()
        if self.scale != 1.0:
            self.opt.set_current_grad_scale(self.scale)
        self.opt.step()

    def quantities(self):
        out = [(n, p.detach().clone()) for n, p in self.net.named_parameters()]
        for what in ("Ks", "Cs"):
            for n, mat in getattr(self.opt, what).items():
                out.append((f"{what}[{n}]", mat.to_dense().clone()))
        return out


def base_configs(tier):
    out = []
    for net, s in [("mlp", "dense"), ("conv1", "diagonal"), ("seq", "triltoeplitz")]:
        for T in (1, 2):
            out.append({"net": net, "hp": {"structures": [s, "dense"], "T": T}})
    out.append({"net": "seq", "hp": {"T": 1, "loss_average": "batch+sequence"}})
    out.append(
        {"net": "two", "scale": 8.0, "hp": {"T": 2, "normalize_lr_cov": True, "alpha1": 0.0}}
    )
    if tier == "thorough":
        for s in SELECTABLE + ["block2", "hier12", "nested", "tr_hier_block"]:
            out.append({"net": "mlp", "hp": {"structures": [s, s], "T": 1}})
        for avg in ("batch", "batch+sequence"):
            for ap in ("expand", "reduce"):
                out.append({"net": "seq", "hp": {"T": 3, "loss_average": avg,
                                                 "kfac_approx": ap}})  # fmt: skip
        out.append({"net": "two", "hp": {"T": 1, "lr_cov": "ramp"}})
        out.append({"net": "conv", "hp": {"T": 1, "kfac_approx": "reduce"}})
    return out


def order_configs(tier):
    nets = ["mlp", "seq", "conv1"] + (["conv", "seq3", "wide"] if tier == "thorough" else [])
    for c in grid(net=nets, s=SELECTABLE, T=[1, 2] + ([3] if tier == "thorough" else [])):
        hp = {"structures": [c["s"], SELECTABLE[(SELECTABLE.index(c["s"]) + 2) % 6]],
              "T": c["T"], "kfac_approx": "reduce" if c["T"] == 2 else "expand"}  # fmt: skip
        if c["net"] == "wide":
            hp["lr"] = 0.01
        yield {"net": c["net"], "hp": hp}
    for avg, ap, norm in itertools.product(
        ["batch", "batch+sequence"], ["expand", "reduce"], [False, True]
    ):
        for alpha1, damp, scale in [(0.5, 0.3, 1.0), (0.0, 0.0, 4.0), (0.7, 0.1, 0.5)]:
            yield {"net": "seq3", "scale": scale,
                   "hp": {"loss_average": avg, "kfac_approx": ap, "normalize_lr_cov": norm,
                          "alpha1": alpha1, "damping": damp}}  # fmt: skip


KNOWN = [
    ("like-2", {"kfac_like": True, "alpha1": 0.0}, "mlp", ["2", "2", "2"]),
    ("like-4", {"kfac_like": True, "alpha1": 0.0}, "conv1", ["4", "1", "4"]),
    ("like-T2", {"kfac_like": True, "alpha1": 0.0, "T": 2}, "mlp", ["2f", "2", "4"]),
    ("like-norm", {"kfac_like": True, "alpha1": 0.0, "normalize_lr_cov": True}, "seq",
     ["2r", "4f", "2"]),
    ("sum-2", {"loss_average": None, "lr": 0.01}, "mlp", ["2", "2", "2"]),
    ("sum-4", {"loss_average": None, "lr": 0.01}, "two", ["4", "1", "4"]),
    ("sum-T2", {"loss_average": None, "lr": 0.01, "T": 2}, "mlp", ["2f", "2", "4"]),
    ("sum-reduce", {"loss_average": None, "lr": 0.005, "kfac_approx": "reduce"}, "seq",
     ["2r", "4f", "2"]),
]  # fmt: skip


def cases(tier):
    out = []
    n = 4 if tier == "thorough" else 3
    for ci, cfg in enumerate(base_configs(tier)):
        for first in itertools.product(SPLITS, repeat=n - 1):
            out.append(
                {"id": f"word/{ci}/{'-'.join(first)}-*", "kind": "word", "cfg": cfg,
                 "words": [list(first) + [s] for s in SPLITS]}
            )  # fmt: skip
    for ci, cfg in enumerate(order_configs(tier)):
        for mode in ("seq", "fwd", "nograd"):
            perms = [list(p) for p in itertools.permutations(range(4))]
            out.append(
                {"id": f"order/{ci}/{mode}", "kind": "word", "cfg": cfg,
                 "words": [["4", [p, mode], "2" if k % 2 else [p, mode]]
                           for k, p in enumerate(perms)]}
            )  # fmt: skip
    for name, hp, net, word in KNOWN:
        out.append({"id": f"known/{name}", "kind": "known", "cfg": {"net": net, "hp": hp},
                    "word": word})  # fmt: skip
    return out


def reference(cfg, n):
    ref = Acc(cfg)
    trail = []
    for i in range(n):
        ref.step(i, "1")
        trail.append(ref.quantities())
    for (name, q), p0 in zip(trail[-1], ref.p0):
        require(not torch.equal(q, p0), f"{name} was not trained")
    return trail


def compare(have, want, what, tol=3e-4):
    require([n for n, _ in have] == [n for n, _ in want], f"{what}: different quantities")
    for (n, a), (_, b) in zip(have, want):
        close(a, arr(b), f"{n} {what}", max(float(b.abs().max()), 1e-2), tol)


def run(spec, st):
    cfg = spec["cfg"]
    if spec["kind"] == "known":
        return run_known(spec, st)
    trail = reference(cfg, max(len(w) for w in spec["words"]))
    for w in spec["words"]:
        st.case((spec["id"], str(w)), any(s != "1" for s in w))
        acc = Acc(cfg)
        for i, split in enumerate(w):
            acc.step(i, split)
            st.transitions += 1
            q = acc.quantities()
            st.state(b"".join(t.numpy().tobytes() for _, t in q))
            compare(q, trail[i], f"after step {i} of {w} vs. un-split batches")
        st.outcome(b"".join(t.numpy().tobytes() for _, t in q))
        st.traces += 1
    st.sample({"cfg": cfg, "word": spec["words"][-1]})


def run_known(spec, st):
    cfg, word = spec["cfg"], spec["word"]
    st.case(spec["id"])
    sim = Sim(cfg, st)
    avg = sim.layers[0].hp["loss_average"]
    trail, dev = reference(cfg, len(word)), None
    for i, split in enumerate(word):
        parts, mode = plan(split)
        w = 1.0 if avg is None else 1.0 / len(parts)
        x, y = make_batch(cfg["net"], i, size=B)
        sim.zero_grad()
        for p in parts:
            sim.forward((x[p], y[p]), weight=w)
            if mode == "seq":
                sim.backward()
        while sim.pending:
            sim.backward()
        sim.step()
        have = [(n, p.detach()) for n, p in sim.net.named_parameters()]
        for what in ("Ks", "Cs"):
            for n, mat in getattr(sim.opt, what).items():
                have.append((f"{what}[{n}]", mat.to_dense()))
        try:
            compare(have, trail[i], f"after step {i} of {word} vs. un-split batches")
        except Violation as v:
            dev = dev or str(v)
    st.traces += 1
    if dev:
        raise KnownDeviation(dev)
