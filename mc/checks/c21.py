"""Direction of the update."""

import itertools

import numpy as np
import torch
from torch import nn

from mc import spec as S
from mc.core import arr, require, rng, same
from mc.mats import construct
from mc.sim import SELECTABLE, STRUCTS, XSINGD, Sim

LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of small integer pre-conditioners and gradients, on which the "
    "real step is executed in exact arithmetic, and enumeration of training histories with "
    "monitoring of the inner product at every step"
)
RULE = (
    "One case is one pair of pre-conditioners or one history. exact: all members with "
    "entries in {-1, 0, 1} of every structure of size 1-3 (all basis elements and pairwise sums of "
    "bases where there are more than 81 or, thorough, 729) as K and as C, with all gradients that "
    "determine a quadratic form; the change of the parameters times the gradient must be "
    "exactly minus the squared norm of C'GK, zero gradients must change nothing. history: "
    "training with every structure, precision, update rule and aggressive options; in every "
    "step each layer's inner product must be non-negative up to rounding. Non-trivial: "
    "distinct pair or history."
)
BOUNDS = {
    "quick": "sizes 1-3, linear layers with and without bias and convolutions; histories of "
    "8 steps",
    "thorough": "sizes 1-4, linear and convolution layers; histories of 40 steps",
}
ASSUMPTIONS = ["integers of this size are represented exactly by float32"]


def ternary(name, n, limit):
    """Members with entries in {-1, 0, 1}, or a generating subset of them."""
    B = [np.asarray(b) for b in S.basis(STRUCTS[name][1], n)]
    if 3 ** len(B) <= limit:
        for co in itertools.product([-1, 0, 1], repeat=len(B)):
            yield sum((c * b for c, b in zip(co, B)), np.zeros((n, n)))
        return
    yield np.zeros((n, n))
    for b in B:
        yield b
        yield -b
    for a, b in itertools.combinations(B, 2):
        yield a + b
        yield a - b
    yield sum(B)


def gradients(r, c):
    """E_i and E_i + E_j: these determine a quadratic form."""
    E = []
    for i in range(r * c):
        e = np.zeros(r * c)
        e[i] = 1
        E.append(e.reshape(r, c))
    yield np.zeros((r, c))
    yield from E
    for a, b in itertools.combinations(E, 2):
        yield a + b


class Probe:
    """One layer whose pre-conditioner and gradient are set from outside."""

    def __init__(self, name_K, name_C, dK, dC, layer):
        if layer == "conv":  # dK input channels, 1x1 kernel
            self.mod = nn.Conv2d(dK, dC, 1, bias=False)
        elif layer == "bias":
            self.mod = nn.Linear(dK - 1, dC)
        else:
            self.mod = nn.Linear(dK, dC, bias=False)
        self.net = nn.Sequential(self.mod)
        self.opt = XSINGD(self.net, lr=1.0, momentum=0.0, weight_decay=0.0, T=1000000,
                          structures=(name_K, name_C))  # fmt: skip
        self.names = name_K, name_C

    def step(self, K, C, G):
        """Returns the change of the parameters as matrix."""
        for mats, M, name in ((self.opt.Ks, K, self.names[0]), (self.opt.Cs, C, self.names[1])):
            cls, s = STRUCTS[name]
            mats["0"] = construct(cls, s, M)
        ps = list(self.mod.parameters())
        split = [G] if len(ps) == 1 else [G[:, :-1], G[:, -1]]
        for p, g in zip(ps, split):
            p.data.zero_()
            p.grad = torch.from_numpy(np.ascontiguousarray(g)).float().reshape(p.shape)
        self.opt.step()
        out = [arr(p).reshape(G.shape[0], -1) for p in ps]
        return np.concatenate(out, axis=1)


def cases(tier):
    out = []
    th = tier == "thorough"
    top = 4 if th else 3
    for name in STRUCTS:
        for n in range(1, top + 1):
            for layer in ("linear", "conv", "bias"):
                if layer != "linear" and (n == 1 or (n == 3 and not th)):
                    continue
                for side in "KC":
                    out.append({"id": f"exact/{name}/{n}/{layer}/{side}", "kind": "exact",
                                "s": name, "n": n, "layer": layer, "side": side,
                                "limit": 729 if th else 81})  # fmt: skip
    for sK, sC in itertools.product(SELECTABLE, repeat=2):
        out.append({"id": f"pairs/{sK}/{sC}", "kind": "pairs", "sK": sK, "sC": sC})
    steps = 40 if th else 8
    for net, name in itertools.product(["mlp", "conv", "seq", "wide"], STRUCTS):
        for like, norm, pd, big in itertools.product(
            [False, True], [False, True], [None, "bfloat16"], [False, True]
        ):
            out.append({"id": f"history/{net}/{name}/{like}/{norm}/{pd}/{big}",
                        "kind": "history", "net": net, "s": name, "like": like, "norm": norm,
                        "pd": pd, "big": big, "steps": steps})  # fmt: skip
    return out


def check_exact(probe, K, C, st, label):
    dC, dK = C.shape[0], K.shape[0]
    for G in gradients(dC, dK):
        change = probe.step(K, C, G)
        inner, want = float((change * G).sum()), -float(((C.T @ G @ K) ** 2).sum())
        require(
            inner == want,
            f"{label}: inner product of update and gradient is {inner}, expected {want} "
            f"for K={K.tolist()}, C={C.tolist()}, G={G.tolist()}",
        )
        if not G.any():
            require(not change.any(), f"{label}: zero gradients change parameters")
        st.transitions += 1


def run(spec, st):
    kind = spec["kind"]
    if kind == "exact":
        name, n, side = spec["s"], spec["n"], spec["side"]
        m = 2
        if side == "K":
            probe = Probe(name, "dense", n, m, spec["layer"])
        else:
            probe = Probe("dense", name, m, n, spec["layer"])
        others = [np.array([[1.0, -1.0], [2.0, 1.0]]), np.array([[1.0, 2.0], [0, 0]])]
        for M in ternary(name, n, spec["limit"]):
            for O in others:
                st.case((spec["id"], M.tobytes(), O.tobytes()))
                st.state(name, M.tobytes(), O.tobytes(), spec["layer"])
                K, C = (M, O) if side == "K" else (O, M)
                check_exact(probe, K, C, st, spec["id"])
        st.outcome(M.tobytes())
        st.traces += 1
    elif kind == "pairs":
        for n, m in [(2, 2), (3, 2), (2, 3), (4, 5)]:
            probe = Probe(spec["sK"], spec["sC"], n, m, "linear")
            rs = rng("c21", spec["id"], n, m)
            for _ in range(6):
                K = S.random_member(STRUCTS[spec["sK"]][1], n, rs)
                C = S.random_member(STRUCTS[spec["sC"]][1], m, rs)
                st.case((spec["id"], K.tobytes(), C.tobytes()))
                st.state(spec["sK"], spec["sC"], K.tobytes(), C.tobytes())
                check_exact(probe, K, C, st, spec["id"])
        st.traces += 1
    else:
        run_history(spec, st)


def run_history(spec, st):
    st.case(spec["id"])
    hp = dict(
        structures=[spec["s"], spec["s"]],
        kfac_like=spec["like"],
        normalize_lr_cov=spec["norm"],
        alpha1=0.0 if spec["like"] else 0.6,
        lr=1e-3,
        momentum=0.0,
        weight_decay=0.0,
        damping=1.0 if spec["big"] else 0.01,
        # large steps of the pre-conditioner may make it indefinite
        lr_cov=0.9 if spec["big"] else 0.1,
        T=1,
    )
    cfg = {"net": spec["net"], "hp": hp}
    if spec["pd"]:
        cfg["pdtype"] = [spec["pd"], spec["pd"]]
    # float64 accumulation of the float32 differences; the operator of the step is
    # recovered from the momentum-free update of the parameters
    sim = Sim(cfg, None, pre=False, par=False, tol=1e3)
    eps = torch.finfo(getattr(torch, spec["pd"] or "float32")).eps
    for i in range(spec["steps"]):
        sim.zero_grad()
        x, y = sim.batch(i)
        sim.forward((0.5 * x, 0.5 * y))
        sim.backward()
        # parameters at zero, so that their change is not rounded
        saved = [p.detach().clone() for p in sim.net.parameters()]
        for p in sim.net.parameters():
            p.data.zero_()
        sim.opt.step()
        for la in sim.layers:
            G = la.matrix([arr(p.grad) for _, p in la.params()])
            D = la.matrix([arr(p.detach()) for _, p in la.params()]) / -hp["lr"]
            if not np.isfinite(D).all():
                return  # the options are deliberately aggressive
            K = np.abs(arr(sim.opt.Ks[la.name].to_dense()))
            C = np.abs(arr(sim.opt.Cs[la.name].to_dense()))
            size = float((np.abs(G) * (C @ (C.T @ np.abs(G) @ K) @ K.T)).sum())
            inner = float((D * G).sum())
            require(
                inner >= -8 * eps * size,
                f"layer {la.name}, step {i}: inner product of the natural gradient and the "
                f"gradient is {inner:.4g} (rounding explains {-8 * eps * size:.3g})",
            )
            st.state(D.tobytes())
        for p, q in zip(sim.net.parameters(), saved):
            p.data.add_(q)
        st.transitions += 1
    # zero gradients
    before = [p.detach().clone() for p in sim.net.parameters()]
    for p in sim.net.parameters():
        p.grad = torch.zeros_like(p)
    sim.opt.step()
    for k, (p, q) in enumerate(zip(sim.net.parameters(), before)):
        same(p.detach() + 0.0, q + 0.0, f"parameter {k} after a step with zero gradients")
    st.outcome([p.numpy().tobytes() for p in before])
    st.traces += 1
