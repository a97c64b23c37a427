"""Gradient scaling is transparent."""

import torch

from mc.core import require
from mc.sim import Sim
from mc.words import grid, words

LEVEL = "model_checking"
RULE = (
    "One case is one history with a sequence of gradient scales. words: every sequence of "
    "scales over {1, 100, 0.5, 1024} for every initial scale, both ways to hand over the "
    "scale, refresh period, update rule. scaler: a real torch.amp.GradScaler for every "
    "initial scale, growth interval, factor, with and without unscale_ and clipping. accum: "
    "several scaled backward passes per step. mixed: every sequence of (way to hand over the "
    "scale, scale) pairs, where the user announces the scale before the forward pass, before "
    "the backward pass, between two of them, or before the step. After every step pre-conditioner and "
    "parameters are compared with the relations evaluated on the un-scaled gradients. "
    "Non-trivial: distinct sequence and configuration with at least one scale != 1."
)
BOUNDS = {
    "quick": "scale sequences of length 4 over 4 values, 3 initial scales; mixed sequences of "
    "length 3 over 12 pairs",
    "thorough": "scale sequences of length 5 over 5 values, 4 initial scales; mixed sequences "
    "of length 4 over 12 pairs",
}
ASSUMPTIONS = []


def cases(tier):
    thorough = tier == "thorough"
    out = []
    scales = [1.0, 100.0, 0.5, 1024.0] + ([65536.0] if thorough else [])
    inits = [1.0, 8.0, 65536.0] + ([0.25] if thorough else [])
    for w in words(scales, 5 if thorough else 4):
        for c in grid(
            init=inits, mech=["set", "attr"], T=[1, 2], like=[False, True]
        ):
            c.update(kind="word", scales=w)
            c["id"] = "word/" + ",".join(str(v) for v in c.values())
            out.append(c)
    for c in grid(
        init=[1.0, 16.0, 65536.0],
        scale0=[2.0, 64.0, 65536.0],
        interval=[1, 2, 3, 100],
        factor=[2.0, 4.0],
        unscale=["no", "yes", "clip"],
        T=[1, 2, 3],
        net=["two", "conv1", "seq3"],
        s=["dense", "triltoeplitz"],
    ):
        c["kind"] = "scaler"
        c["steps"] = 10 if thorough else 5
        c["id"] = "scaler/" + ",".join(str(v) for v in c.values())
        out.append(c)
    for w in words([1.0, 8.0, 256.0], 3):
        for c in grid(micro=[2, 3], T=[1, 2], norm=[False, True], avg=["batch", None]):
            c.update(kind="accum", scales=w)
            c["id"] = "accum/" + ",".join(str(v) for v in c.values())
            out.append(c)
    pairs = [
        (m, s)
        for m in ("set", "attr", "mid", "early", "between", "none")
        for s in (([1.0] if m == "none" else [8.0, 512.0]))
    ]
    pairs.append(("attr", 1.0))
    for w in words(pairs, 4 if thorough else 3):
        for init in (1.0, 16.0):
            out.append(
                {"id": f"mixed/{init}/" + "-".join(f"{m}:{s}" for m, s in w), "kind": "mixed",
                 "init": init, "word": w}
            )  # fmt: skip
    return out


def run(spec, st):
    kind = spec["kind"]
    if kind == "word":
        st.case(spec["id"], any(s != 1.0 for s in spec["scales"]))
        cfg = {
            "net": "two",
            "init_scale": spec["init"],
            "hp": {"T": spec["T"], "kfac_like": spec["like"], "structures": ("dense", "diagonal")},
        }  # fmt: skip
        sim = Sim(cfg, st)
        for i, s in enumerate(spec["scales"]):
            sim.train_step(i, scale=s, mech=spec["mech"])
    elif kind == "mixed":
        st.case(spec["id"])
        hp = {"structures": ("dense", "triltoeplitz"), "T": 1 + (spec["word"][0][0] == "mid")}
        sim = Sim({"net": "two", "init_scale": spec["init"], "hp": hp}, st)
        for i, (mech, s) in enumerate(spec["word"]):
            if mech == "between":
                sim.zero_grad()
                for k in range(2):
                    sim.forward(i + k, s, weight=0.5)
                    sim.backward()
                    if k == 0:
                        sim.opt.set_current_grad_scale(s)
                sim.step(s)
            else:
                sim.train_step(i, scale=s, mech=mech)
    elif kind == "accum":
        st.case(spec["id"], any(s != 1.0 for s in spec["scales"]))
        hp = {
            "T": spec["T"],
            "normalize_lr_cov": spec["norm"],
            "loss_average": spec["avg"],
            "structures": ("hierarchical15_15", "dense"),
        }
        sim = Sim({"net": "two", "init_scale": 4.0, "hp": hp}, st)
        for i, s in enumerate(spec["scales"]):
            sim.zero_grad()
            for k in range(spec["micro"]):
                sim.forward(i + k, s, weight=1.0 / spec["micro"])
                sim.backward()
            sim.step(s, mech="set")
    else:
        st.case(spec["id"])
        hp = {"T": spec["T"], "structures": (spec["s"], "dense")}
        sim = Sim({"net": spec["net"], "init_scale": spec["init"], "hp": hp}, st)
        scaler = torch.amp.GradScaler(
            "cpu",
            init_scale=spec["scale0"],
            growth_factor=spec["factor"],
            growth_interval=spec["interval"],
        )
        for i in range(spec["steps"]):
            s = scaler.get_scale() if i else spec["scale0"]
            sim.zero_grad()
            sim.forward(i, s)
            scaler.scale(torch.zeros(1))  # lets the scaler create its scale tensor
            sim.backward()
            inf = sim.scaler_step(
                scaler, spec["unscale"] != "no", 0.5 if spec["unscale"] == "clip" else None
            )
            require(not inf, "finite gradients were reported as overflow")
    st.outcome([p.numpy().tobytes() for p in sim.params()])
    st.traces += 1
    st.sample(spec["id"])
