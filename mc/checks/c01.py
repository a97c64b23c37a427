"""Parameter update relation."""

import torch

from mc.sim import SELECTABLE, Sim
from mc.words import grid, words

LEVEL = "model_checking"
RULE = (
    "One case is one history. grid: every combination of network, structure pair, weight "
    "decay, momentum, T, approximation. words: every event word of the given length over "
    "{train on batch 0/1, train with zero gradients, accumulate without zeroing, step again, change lr, toggle "
    "weight decay, toggle momentum}. large: layers of up to 130 features, images, sequences, "
    "mini-batches of up to 300. magnitude: large and small (or zero) weights, inputs and "
    "losses, partly frozen layers. scheduler: learning rate schedulers of PyTorch. After "
    "every step each parameter is compared with old - lr * buffer, where buffer = momentum "
    "* buffer + C C' G K K' + weight_decay * old, from the pre-conditioner the optimizer "
    "holds. Non-trivial: distinct configuration or word."
)
BOUNDS = {
    "quick": "histories of 4 steps (24 for the long ones); event words of length 4 over 8 events, 2 configurations",
    "thorough": "histories of 6 steps (80 for the long ones); event words of length 5 over 8 events, 3 configurations",
}
ASSUMPTIONS = [
    "float32 compared with a float64 reference, relative tolerance 1e-4 of the summed "
    "magnitudes; layers of at most 130 features",
]
ALPHABET = ["A", "B", "zero", "acc", "again", "lr", "wd", "mom"]
NEXT = dict(zip(SELECTABLE, SELECTABLE[1:] + SELECTABLE[:1]))


def cases(tier):
    out = []
    thorough = tier == "thorough"
    for c in grid(
        net=["mlp", "seq", "conv", "wide"],
        s=SELECTABLE,
        other=[False, True],
        wd=[0.0, 0.1],
        mom=[0.0, 0.9],
        T=[1, 2],
        approx=["expand", "reduce"],
    ):
        c["kind"] = "grid"
        c["steps"] = 6 if thorough else 4
        c["id"] = "grid/" + ",".join(str(v) for v in c.values())
        out.append(c)
    for net, batch, s, other in [
        (n, b, s, o)
        for n, b in [("huge", None), ("long", None), ("image", None), ("seq", 130), ("two", 300)]
        for s in SELECTABLE
        for o in (False, True)
    ]:
        out.append(
            {"id": f"large/{net}/{s}/{other}", "kind": "grid", "net": net, "s": s, "wd": 0.05,
             "other": other, "mom": 0.5, "T": 1, "approx": "expand", "batch": batch,
             "steps": 3, "lr": 0.01}
        )  # fmt: skip
    # magnitudes of weights, inputs and losses; layers of which a part is frozen
    for net, mags, s in [
        (n, m, s)
        for n in ("lin", "nest", "seq", "conv1")
        for m in (
            {"lscale": 1e5, "lr": 1e-6, "norm": True},
            {"lscale": 1e-5, "xscale": 1e3, "lr": 1e-4, "norm": True},
            {"lscale": 1e-7, "xscale": 0.01, "wscale": 1e-7, "lr": 10.0},
            {"wscale": 0.0},
            {"wscale": 0.0, "lscale": 1e-4},
            {"wscale": 30.0, "lscale": 1e-3, "lr": 1e-3},
            {"xscale": 0.0},
            {"frozen": [[0, "weight"]]},
            {"frozen": [[0, "bias"]], "freeze_late": True},
        )
        for s in SELECTABLE
    ]:
        out.append(
            {"id": f"magnitude/{net}/{s}/" + ",".join(f"{k}={v}" for k, v in mags.items()),
             "kind": "grid", "net": net, "s": s, "other": False, "wd": 0.0 if "wscale" in mags else 0.05,
             "mom": 0.9, "T": 1, "approx": "expand", "steps": 4, "lr": mags.get("lr", 0.05),
             "cfg": {k: v for k, v in mags.items() if k not in ("lr", "norm")},
             "norm": mags.get("norm", False)}
        )  # fmt: skip
    for c in grid(
        net=["nest", "reuse", "reuse_conv"], s=SELECTABLE, other=[False, True], mom=[0.0, 0.9], T=[1, 3]
    ):
        c.update(kind="grid", wd=0.05, approx="expand", steps=5)
        c["id"] = "grid/" + ",".join(str(v) for v in c.values())
        out.append(c)
    for c in grid(
        net=["two", "conv1", "seq3"],
        s=["dense", "block30diagonal", "triutoeplitz"],
        mom=[0.0, 0.5],
        T=[1, 3, 10],
    ):
        c.update(kind="grid", other=False, wd=0.05, approx="expand", lr=0.01)
        c["steps"] = 80 if thorough else 24
        c["id"] = "long/" + ",".join(str(v) for v in c.values())
        out.append(c)
    confs = [("two", "dense", 1), ("conv1", "hierarchical15_15", 2), ("seq", "triltoeplitz", 1)]
    for net, s, T in confs if thorough else confs[:2]:
        for w in words(ALPHABET, 5 if thorough else 4):
            out.append(
                {"id": f"word/{net}/{s}/{T}/" + "-".join(w), "kind": "word", "net": net,
                 "s": s, "T": T, "word": w}
            )  # fmt: skip
    for sched in ["StepLR", "LambdaLR", "ExponentialLR", "CosineAnnealingLR", "OneCycleLR",
                  "MultiStepLR", "CyclicLR", "LinearLR", "WarmupLR"]:  # fmt: skip
        for mom in (0.0, 0.9):
            for groups in (1, 2):
                out.append(
                    {"id": f"scheduler/{sched}/{mom}/{groups}", "kind": "scheduler",
                     "sched": sched, "mom": mom, "groups": groups}
                )  # fmt: skip
    return out


def make_scheduler(name, opt):
    L = torch.optim.lr_scheduler
    return {
        "StepLR": lambda: L.StepLR(opt, 2, gamma=0.3),
        "LambdaLR": lambda: L.LambdaLR(opt, lambda t: 1.0 / (1 + t)),
        "ExponentialLR": lambda: L.ExponentialLR(opt, 0.5),
        "CosineAnnealingLR": lambda: L.CosineAnnealingLR(opt, 4),
        "OneCycleLR": lambda: L.OneCycleLR(opt, max_lr=0.1, total_steps=8),
        "MultiStepLR": lambda: L.MultiStepLR(opt, [1, 3], gamma=0.2),
        "CyclicLR": lambda: L.CyclicLR(
            opt, base_lr=0.01, max_lr=0.1, step_size_up=2, cycle_momentum=False
        ),
        "WarmupLR": lambda: L.LambdaLR(opt, lambda t: min(t, 3) / 3),  # starts at zero
        "LinearLR": lambda: L.LinearLR(opt, start_factor=0.2, total_iters=4),
    }[name]()


def run(spec, st):
    kind = spec["kind"]
    st.case(spec["id"])
    if kind == "grid":
        pair = (spec["s"], NEXT[spec["s"]] if spec["other"] else spec["s"])
        hp = dict(
            structures=pair,
            weight_decay=spec["wd"],
            momentum=spec["mom"],
            T=spec["T"],
            kfac_approx=spec["approx"],
            lr=spec.get("lr", 0.05),
            normalize_lr_cov=spec.get("norm", False),
        )
        sim = Sim({"net": spec["net"], "hp": hp, "batch": spec.get("batch"),
                   **spec.get("cfg", {})}, st, pre=False)
        for i in range(spec["steps"]):
            sim.train_step(i)
    elif kind == "word":
        hp = dict(structures=(spec["s"], spec["s"]), T=spec["T"])
        if spec["net"] == "conv1":
            hp["structures"] = ("dense", spec["s"])
        sim = Sim({"net": spec["net"], "hp": hp}, st, pre=False)
        sim.train_step(0)
        for e in spec["word"]:
            la = sim.layers[0]
            if e in "AB":
                sim.train_step("AB".index(e))
            elif e == "zero":  # all gradients are zero
                sim.train_step(2, weight=0.0)
            elif e == "acc":
                sim.forward(2)
                sim.backward()
                sim.step()
            elif e == "again":
                sim.step()
            elif e == "lr":
                sim.set_hp(0, "lr", 0.02 if la.hp["lr"] == 0.05 else 0.05)
            elif e == "wd":
                sim.set_hp(0, "weight_decay", 0.0 if la.hp["weight_decay"] else 0.2)
            elif e == "mom":
                sim.set_hp(0, "momentum", 0.0 if la.hp["momentum"] else 0.8)
        if spec["word"][-1] in ("lr", "wd", "mom"):
            sim.train_step(1)
    else:
        cfg = {"net": "mlp", "hp": {"momentum": spec["mom"], "T": 2}}
        if spec["groups"] == 2:
            cfg["groups"] = [{"layers": [0, 2], "hp": {"lr": 0.1}}, {"layers": [1]}]
        sim = Sim(cfg, st, pre=False)
        if spec["sched"] == "OneCycleLR" and spec["mom"] == 0.0:
            sim.opt.defaults["momentum"] = 0.0
        sched = make_scheduler(spec["sched"], sim.opt)
        for i in range(6):
            for la in sim.layers:  # schedulers write into the parameter groups
                for k in ("lr", "momentum"):
                    la.hp[k] = sim.opt.param_groups[la.group][k]
            sim.train_step(i)
            sched.step()
    st.outcome([p.numpy().tobytes() for p in sim.params()])
    st.traces += 1
    st.sample(spec)
