"""The optimizer must not disturb the model."""

import itertools

import torch
from torch import nn
from torch.utils.checkpoint import checkpoint

from mc.core import require, rng, same
from mc.sim import DEFAULTS, SELECTABLE, XSINGD, hyper

LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of words of forward/backward/step events, each executed on the "
    "real optimizer's model and on an unobserved twin and compared bitwise"
)
RULE = (
    "One case is one network, activation, structure, loss averaging, approximation, initial "
    "gradient scale and word over 15 events: forward and "
    "backward, repeated backward, higher-order backward, gradients of selected tensors, "
    "of the input, two graphs at once, gradient-free and inference forward passes, "
    "evaluation mode, activation checkpointing (both kinds), autocast, the user's own "
    "hooks, zero_grad, step. After every event outputs, losses, gradients, buffers and the "
    "random number generator must be bitwise those of the same model without optimizer; a "
    "step must change nothing but trained parameters. Every word is executed twice and "
    "must reproduce bitwise. Non-trivial: distinct configuration and word."
)
BOUNDS = {
    "quick": "words of length 2 over 15 events for 28 configurations, length 3 for 2, length 1 for 32",
    "thorough": "words of length 3 over 15 events for 42 configurations, length 4 for 1, length 1 for 32",
}
ASSUMPTIONS = ["CPU kernels are deterministic; one thread"]


class Inplace(nn.Module):
    """In-place arithmetic on the output of a layer."""

    def forward(self, x):
        return x.mul_(0.7).add_(0.1).tanh_()


ACTS = {
    "tanh": nn.Tanh,
    "relu": lambda: nn.ReLU(inplace=False),
    "relu_": lambda: nn.ReLU(inplace=True),
    "arith_": Inplace,
}


class Branches(nn.Module):
    """Layers that share their input and receive the same output gradient."""

    def __init__(self, act):
        super().__init__()
        self.one, self.two, self.last = nn.Linear(3, 3, bias=False), nn.Linear(3, 3), nn.Linear(3, 2)
        self.act = act()

    def forward(self, x):
        return self.last(self.act(self.one(x) + self.two(x) + x))


def build(net, act):
    a = ACTS[act]
    if net == "branch":
        m, shape = Branches(a), (3,)
    elif net == "drop":
        m = nn.Sequential(nn.Linear(3, 4), a(), nn.Dropout(0.4), nn.Linear(4, 3, bias=False),
                          a(), nn.Linear(3, 2))  # fmt: skip
        shape = (3,)
    elif net == "conv":
        m = nn.Sequential(nn.Conv2d(1, 2, 2), nn.BatchNorm2d(2), a(), nn.Flatten(),
                          nn.Linear(8, 2), a())  # fmt: skip
        shape = (1, 3, 3)
    else:
        m = nn.Sequential(nn.Linear(2, 3), a(), nn.LayerNorm(3), nn.Linear(3, 2))
        shape = (3, 2)
    rs = rng("c11", net)
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.from_numpy(rs.uniform(-0.8, 0.8, size=tuple(p.shape))))
    return m, shape


# loss averaging, approximation, initial gradient scale
HPS = [
    ("batch", "expand", 1.0),
    (None, "reduce", 8.0),
    (None, "expand", 1.0),
    ("batch+sequence", "expand", 8.0),
    ("batch", "reduce", 1.0),
]

ALPHABET = ["F", "2B", "HO", "AG", "IG", "2F", "NG", "IM", "EV", "CK", "CR", "AC", "HK", "Z", "S"]


def double(mod, inputs, out):
    return out * 2.0


def flags(t):
    """What autograd knows about a tensor."""
    kept = t.grad if t.is_leaf or t.retains_grad else None
    return torch.tensor([
        t.requires_grad, t.is_leaf, t.retains_grad, kept is not None, t.is_inference(),
        t.is_contiguous(), t.is_inference() or t._version,
    ]).int()  # fmt: skip


def event(e, model, shape, t, names):
    """Execute an event on a model; returns everything observable."""
    rs = rng("c11data", shape, t)
    x = torch.from_numpy(rs.uniform(-1, 1, size=(3,) + shape)).float()
    x0 = x.clone()
    obs = []

    def loss_of(out):
        return 0.1 * (out**2).sum(dim=-1).mean()

    params = list(model.parameters())
    if e in ("F", "EV", "HK", "2B", "HO", "AG", "IG"):
        handles = []
        if e == "EV":
            model.eval()
        if e == "HK":
            lin = [m for m in model.modules() if isinstance(m, (nn.Linear, nn.Conv2d))]
            handles = [m.register_forward_hook(double) for m in lin]
        if e == "IG":
            x.requires_grad_(True)
        out = model(x)
        loss = loss_of(out)
        obs += [out, loss, flags(out)]
        if e == "2B":
            loss.backward(retain_graph=True)
            loss.backward()
        elif e == "HO":
            gs = torch.autograd.grad(loss, params, create_graph=True)
            obs += list(gs)
            (loss + 0.01 * sum((g**2).sum() for g in gs)).backward()
        elif e == "AG":
            obs += list(torch.autograd.grad(loss, [params[0], params[-1]]))
        else:
            loss.backward()
        obs += [flags(out), flags(x)]
        if e == "IG":
            obs.append(x.grad)
        for h in handles:
            h.remove()
        model.train()
    elif e == "2F":
        l1, l2 = loss_of(model(x)), loss_of(model(0.5 * x))
        l2.backward()
        l1.backward()
        obs += [l1, l2]
    elif e == "NG":
        with torch.no_grad():
            out = model(x)
        obs += [out, flags(out)]
    elif e == "IM":
        with torch.inference_mode():
            out = model(x)
        obs += [out.clone(), flags(out)]
    elif e in ("CK", "CR"):
        if e == "CR":
            x.requires_grad_(True)
        loss = loss_of(checkpoint(model, x, use_reentrant=e == "CR"))
        obs.append(loss)
        loss.backward()
    elif e == "AC":
        with torch.autocast("cpu", dtype=torch.bfloat16):
            out = model(x)
        loss = loss_of(out.float())
        obs += [out, loss]
        loss.backward()
    elif e == "Z":
        model.zero_grad()
    same(x.detach(), x0, f"input after event {e}")
    return [o.detach().clone() for o in obs]


def observe(model):
    out = [(f"buffer {n}", b.clone()) for n, b in model.named_buffers()]
    out.append(("random number generator", torch.get_rng_state()))
    for n, p in model.named_parameters():
        if p.grad is not None:
            out.append((f"gradient of {n}", p.grad.detach().clone()))
    return out


def compare(a, b, what):
    require([n for n, _ in a] == [n for n, _ in b], f"{what}: different quantities")
    for (n, x), (_, y) in zip(a, b):
        same(x, y, f"{n} {what}")


def execute(spec, w, st):
    model, shape = build(spec["net"], spec["act"])
    twin, _ = build(spec["net"], spec["act"])
    hp = {**DEFAULTS, "structures": spec["s"], "T": spec["T"], "lr": 1e-3, "lr_cov": 0.02,
          "loss_average": spec["avg"], "kfac_approx": spec["approx"]}  # fmt: skip
    torch.manual_seed(3)
    state = torch.get_rng_state()
    opt = XSINGD(
        model, warn_unsupported=False, init_grad_scale=spec["scale"], **hyper(hp)
    )
    require(torch.equal(torch.get_rng_state(), state), "the constructor draws random numbers")
    names = [n for n, _ in model.named_parameters()]
    compare(
        [(n, p.detach()) for n, p in model.named_parameters()],
        [(n, p.detach()) for n, p in twin.named_parameters()],
        "after construction",
    )
    for t, e in enumerate(w):
        where = f"after event {t} of {w}"
        if e == "S":
            before = observe(model)
            frozen = {
                n: p.detach().clone()
                for n, p in model.named_parameters()
                if p.grad is None
            }
            opt.step()
            compare(before, observe(model), f"{where} (a step changes it)")
            for n, p in model.named_parameters():
                if n in frozen:
                    same(p.detach(), frozen[n], f"{n} {where}")
            with torch.no_grad():
                for p, q in zip(model.parameters(), twin.parameters()):
                    q.copy_(p)
        else:
            state = torch.get_rng_state()
            a = event(e, model, shape, t, names)
            after = torch.get_rng_state()
            torch.set_rng_state(state)
            b = event(e, twin, shape, t, names)
            require(torch.equal(after, torch.get_rng_state()), f"RNG differs {where}")
            for k, (x, y) in enumerate(zip(a, b)):
                same(x, y, f"observation {k} {where} with vs. without optimizer")
            compare(observe(model), observe(twin), f"{where} with vs. without optimizer")
        st.transitions += 1
    out = [p.detach().clone() for p in model.parameters()]
    for mats in (opt.Ks, opt.Cs, opt.m_Ks, opt.m_Cs, opt.H_Ks, opt.H_Cs):
        out += [m.to_dense().clone() for _, m in sorted(mats.items())]
    return out


def cases(tier):
    out = []
    th = tier == "thorough"
    n = 3 if th else 2
    configs = []
    for net, act in itertools.product(["drop", "conv", "seq", "branch"], ACTS):
        kinds = [("dense", 1), ("triltoeplitz", 2), ("diagonal", 1)]
        for k, (s, T) in enumerate(kinds if th else kinds[:2]):
            if act in ("relu", "arith_") and net == "branch":
                continue
            avg, approx, scale = HPS[len(configs) % len(HPS)]
            configs.append({"net": net, "act": act, "s": [s, SELECTABLE[k + 3]], "T": T,
                            "avg": avg, "approx": approx, "scale": scale})  # fmt: skip
    # every processing path of the hooks, with the events in which they are observable
    for net, avg, approx, scale in itertools.product(
        ["drop", "conv", "seq", "branch"], [None, "batch"], ["expand", "reduce"], [1.0, 8.0]
    ):
        c = {"net": net, "act": "tanh", "s": ["dense", "dense"], "T": 1, "avg": avg,
             "approx": approx, "scale": scale}  # fmt: skip
        out.append({"id": "path/" + ",".join(str(v) for v in c.values()), "first": [], "n": 1,
                    **c})  # fmt: skip
    for ci, c in enumerate(configs):
        for first in ALPHABET:
            out.append({"id": f"word/{ci}/{first}", "first": [first], "n": n, **c})
    deep = configs[8:9] if th else [configs[4], configs[15]]
    for ci, c in enumerate(deep):
        for first in itertools.product(ALPHABET, repeat=2):
            out.append({"id": f"deep/{ci}/{'-'.join(first)}", "first": list(first), "n": n + 1,
                        **c})  # fmt: skip
    return out


def run(spec, st):
    for rest in itertools.product(ALPHABET, repeat=spec["n"] - len(spec["first"])):
        w = spec["first"] + list(rest)
        if spec["n"] <= 2:
            w = w + ["S", "F", "S"]
        else:
            w = w + ["S"]
        st.case((spec["id"], str(w)))
        one, two = execute(spec, w, st), execute(spec, w, st)
        require(len(one) == len(two), "two runs hold different quantities")
        for k, (a, b) in enumerate(zip(one, two)):
            same(a, b, f"quantity {k} of two identical runs of {w}")
        st.state(*(t.numpy().tobytes() for t in one))
        st.outcome([t.numpy().tobytes() for t in one])
        st.traces += 1
    st.sample({k: spec[k] for k in ("net", "act", "s", "T", "avg")} | {"word": w})
