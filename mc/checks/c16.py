"""Structure, precision and size of everything the optimizer holds."""

import itertools

import numpy as np
import torch

from mc.core import arr, close, require
from mc.sim import SELECTABLE, STRUCTS, Sim

LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of precisions, structures and words of events on the real "
    "optimizer; type invariants are checked in every state, values in lockstep with an "
    "executable specification up to the rounding of the configured precisions"
)
RULE = (
    "One case is one history: parameter precision x precision of K x precision of C x "
    "autocast precision x structures x word of events (train, accumulate, skipped step, "
    "idle step, checkpoint and restore). After every event (also between backward pass "
    "and step) class, data type and size of K, C, their momenta and the pending statistics "
    "must be the configured ones, and parameters, gradients and momentum buffers must have "
    "the parameter's data type and shape. Every step is compared with the recursion in "
    "float64; a last step with zero gradients applies weight decay and momentum up to the "
    "rounding of the parameters' precision. Non-trivial: distinct combination and word."
)
BOUNDS = {
    "quick": "4 parameter precisions, 5 preconditioner precisions each for K and C, 21 "
    "structures; words of length 3 over 5 events",
    "thorough": "as quick for all pairs of selectable structures; words of length 5",
}
ASSUMPTIONS = [
    "float64 is only explored for dense and diagonal pre-conditioners (the others raise "
    "NotImplementedError by design); float16 runs without oneDNN, whose JIT does not "
    "terminate for some of these convolutions"
]
ALPHABET = ["train", "acc", "skip", "idle", "ckpt"]
DTYPES = [None, "float32", "bfloat16", "float16", "float64"]
TOL = {"float64": 1e-9, "float32": 1e-4, "float16": 1.2e-2, "bfloat16": 8e-2}


class TypedSim(Sim):
    def check_types(self, where):
        opt = self.opt
        for la in self.layers:
            pd = self.cfg.get("pdtype", [None, None])
            sK, sC = la.hp["structures"]
            for what, s, dt, dim in (("K", sK, pd[0], la.dK), ("C", sC, pd[1], la.dC)):
                dtype = self.dtype if dt is None else getattr(torch, dt)
                for prefix in ("", "m_", "H_"):
                    mats = getattr(opt, f"{prefix}{what}s")
                    name = f"{prefix}{what} of {la.name} {where}"
                    if la.name not in mats:
                        wanted = prefix == "" or (prefix == "m_" and la.hp["alpha1"] != 0.0)
                        require(not wanted, f"{name} is missing")
                        continue
                    mat = mats[la.name]
                    cls = STRUCTS[s][0]
                    require(type(mat) is cls, f"{name} is a {type(mat).__name__}")
                    dense = mat.to_dense()
                    require(tuple(dense.shape) == (dim, dim), f"{name}: {dense.shape}")
                    for t in [dense] + [t for _, t in mat.named_tensors()]:
                        require(t.dtype == dtype, f"{name} has {t.dtype}, not {dtype}")
                        require(not t.requires_grad, f"{name} requires gradients")
        for n, p in self.net.named_parameters():
            require(p.dtype == self.dtype, f"parameter {n} has {p.dtype} {where}")
            if p.grad is not None:
                require(p.grad.dtype == self.dtype, f"gradient of {n}: {p.grad.dtype} {where}")
            buf = opt.state.get(p, {}).get("momentum_buffer")
            if buf is not None:
                require(
                    buf.dtype == self.dtype and buf.shape == p.shape,
                    f"momentum of {n}: {buf.dtype}, {tuple(buf.shape)} {where}",
                )

    def do(self, e, i):
        if e in ("train", "acc", "skip"):
            self.zero_grad()
            for k in range(2 if e == "acc" else 1):
                self.forward(i + k, weight=0.5 if e == "acc" else 1.0)
                self.backward()
                self.check_types(f"after backward pass {k} of event {i} ({e})")
            self.step(found_inf=True if e == "skip" else None)
        elif e == "idle":
            self.zero_grad()
            self.step()
        else:
            self.opt.load_state_dict(self.opt.state_dict())
        self.check_types(f"after event {i} ({e})")


    def decay(self):
        """Without gradients, weight decay and momentum have the parameters' precision."""
        ps, before = list(self.net.parameters()), []
        for p in ps:
            p.grad = torch.zeros_like(p)
            m = self.opt.state.get(p, {}).get("momentum_buffer", torch.zeros_like(p))
            before.append((arr(p.detach()), arr(m)))
        hp = {**self.layers[0].hp, "lr": 0.5}
        self.opt.param_groups[0]["lr"] = 0.5
        self.opt.step()
        eps = torch.finfo(self.dtype).eps
        for k, (p, (q, m)) in enumerate(zip(ps, before)):
            if not max(np.abs(q).max(), np.abs(m).max()) < 1e3:
                return
            step = hp["momentum"] * m + hp["weight_decay"] * q
            size = np.abs(q).max() + np.abs(m).max() + float(self.dtype == torch.float16)
            what = f"parameter {k} after a step with zero gradients"
            close(arr(p.detach()), q - hp["lr"] * step, what, size, 4 * eps)


def supported(dtype, pd, s):
    """float64 is not implemented by all structures."""
    for d, name in zip(pd, s):
        if (d or dtype) == "float64" and name not in ("dense", "diagonal"):
            return False
    return True


def cases(tier):
    out = []
    th = tier == "thorough"
    nxt = dict(zip(SELECTABLE, SELECTABLE[1:] + SELECTABLE[:1]))
    pairs = [(s, nxt.get(s, s)) for s in STRUCTS] + [("dense", "dense"), ("diagonal", "dense")]
    if th:
        pairs += [p for p in itertools.product(SELECTABLE, repeat=2) if p not in pairs]
    for dtype, dK, dC, s in itertools.product(DTYPES[1:], DTYPES, DTYPES, pairs):
        if not supported(dtype, (dK, dC), s):
            continue
        out.append({"id": f"grid/{dtype}/{dK}/{dC}/{s[0]},{s[1]}", "net": "seq",
                    "dtype": dtype, "pdtype": [dK, dC], "s": list(s),
                    "words": [["train", "acc", "ckpt", "train"]]})  # fmt: skip
    for dtype, pd, ac in [
        ("float32", ["bfloat16", None], None),
        ("bfloat16", ["float32", "float32"], None),
        ("float32", [None, "float16"], "bfloat16"),
        ("float32", [None, None], "bfloat16"),
        ("float32", ["bfloat16", "bfloat16"], "bfloat16"),
        ("bfloat16", [None, "float32"], None),
    ]:
        for net, s, T in [("mlp", ("dense", "diagonal"), 1), ("conv", ("block2", "hier12"), 2),
                          ("seq", ("triltoeplitz", "nested"), 1)]:  # fmt: skip
            ws = [list(w) for w in itertools.product(ALPHABET, repeat=5 if th else 3)]
            for k in range(0, len(ws), 25):
                out.append({"id": f"word/{dtype}/{pd}/{ac}/{net}/{k}", "net": net, "dtype": dtype,
                            "pdtype": pd, "autocast": ac, "s": list(s), "T": T,
                            "words": ws[k : k + 25]})  # fmt: skip
    for s, net, ac in itertools.product(SELECTABLE, ["wide", "conv1"], [None, "bfloat16"]):
        for dtype, pd in [("float32", ["bfloat16", "bfloat16"]), ("bfloat16", ["float32", None])]:
            if ac and dtype != "float32":
                continue
            out.append({"id": f"big/{s}/{net}/{ac}/{dtype}", "net": net, "dtype": dtype,
                        "pdtype": pd, "autocast": ac, "s": [s, s],
                        "words": [["train", "train", "acc", "train"]]})  # fmt: skip
    return out


def run(spec, st):
    names = [spec["dtype"], spec.get("autocast")] + spec["pdtype"]
    tol = max(TOL[n] for n in names if n)
    for w in spec["words"]:
        st.case((spec["id"], str(w)))
        hp = dict(structures=spec["s"], T=spec.get("T", 1), lr=0.01, damping=0.1, lr_cov=0.1)
        cfg = {k: spec[k] for k in ("net", "dtype", "pdtype", "autocast") if k in spec}
        cfg["hp"] = hp
        with torch.backends.mkldnn.flags(enabled="float16" not in names):
            sim = TypedSim(cfg, st, tol=tol)
            sim.check_types("after construction")
            for i, e in enumerate(w):
                sim.do(e, i)
            sim.decay()
        st.traces += 1
        st.outcome([p.detach().float().numpy().tobytes() for p in sim.net.parameters()])
    st.sample(spec)
