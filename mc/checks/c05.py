"""Steps with overflow are skipped without a trace."""

import warnings

import torch

from mc.core import require, same
from mc.sim import Sim, full_state
from mc.words import grid, words

LEVEL = "fault_enumeration"
RULE = (
    "One case is one history with overflow injected in a subset of its steps: every word "
    "over {normal step, overflow, accumulation whose first / second micro-batch overflows}, "
    "with the flag set directly or by a real GradScaler that sees infinite gradients. In "
    "an overflow step parameters, pre-conditioner, its momenta and the momentum buffers "
    "must be bitwise unchanged, a warning issued and the step counter advanced; all other "
    "steps follow the update relations without any contribution of the skipped ones. "
    "Non-trivial: distinct word and configuration with at least one overflow."
)
BOUNDS = {
    "quick": "all overflow placements in histories of 5 steps over 2 kinds, 4 steps over 4",
    "thorough": "all overflow placements in histories of 8 steps over 2 kinds, 5 over 4",
}
ASSUMPTIONS = []


def cases(tier):
    thorough = tier == "thorough"
    out = []
    for w in words("RX", 8 if thorough else 5):
        for c in grid(
            mech=["attr", "scaler", "unscale"], T=[1, 2, 3], mom=[0.0, 0.9], alpha1=[0.0, 0.5],
            net=["two", "conv1"],
        ):  # fmt: skip
            c.update(word="".join(w), groups=0)
            out.append(c)
    for w in words("RXPQ", 5 if thorough else 4):
        for c in grid(mech=["attr", "scaler"], T=[1, 2], groups=[0, 1]):
            c.update(word="".join(w), mom=0.5, alpha1=0.4, net="two")
            out.append(c)
    for c in out:
        c["id"] = ",".join(f"{k}={v}" for k, v in c.items())
    return [c for c in {c["id"]: c for c in out}.values()]


def inf_batch(sim, i):
    x, y = sim.batch(i)
    x = x.clone()
    x.view(-1)[0] = float("inf") if i % 2 else float("nan")
    return x, y


def run(spec, st):
    w = spec["word"]
    st.case(spec["id"], set(w) != {"R"})
    hp = {"T": spec["T"], "momentum": spec["mom"], "alpha1": spec["alpha1"]}
    hp["structures"] = ("dense", "hierarchical15_15")
    cfg = {"net": spec["net"], "hp": hp, "init_scale": 4.0}
    if spec["groups"]:
        cfg["groups"] = [
            {"layers": [0], "hp": {"T": spec["T"]}},
            {"layers": [1], "hp": {"T": spec["T"] + 1}},
        ]
    sim = Sim(cfg, st)
    use_scaler = spec["mech"] != "attr"
    scaler = torch.amp.GradScaler("cpu", init_scale=4.0, growth_interval=2)
    scaler.scale(torch.zeros(1))
    # one context for the whole history: entering one resets which warnings were seen
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("default")
        history(spec, w, sim, scaler, use_scaler, rec)
    st.outcome([p.numpy().tobytes() for p in sim.params()])
    st.traces += 1
    st.sample(spec["id"])


def history(spec, w, sim, scaler, use_scaler, rec):
    for i, e in enumerate(w):
        scale = scaler.get_scale() if use_scaler else 4.0
        sim.zero_grad()
        bad = {"R": [0], "X": [1], "P": [1, 0], "Q": [0, 1]}[e]
        for k, b in enumerate(bad):
            sim.forward(inf_batch(sim, i + k) if b else i + k, scale)
            sim.backward()
        before = full_state(sim.opt, sim.net)
        overflow = any(bad)
        rec.clear()
        if use_scaler:
            seen = sim.scaler_step(scaler, spec["mech"] == "unscale")
            require(seen == overflow, "harness: overflow not injected")
        else:
            sim.step(scale, mech="attr", found_inf=overflow)
        if overflow:
            after = full_state(sim.opt, sim.net)
            require(
                [n for n, _ in before] == [n for n, _ in after],
                "a skipped step changed which quantities the optimizer holds",
            )
            for (n, a), (_, b) in zip(before, after):
                same(b, a, f"{n} after the skipped step {i}")
            require(
                any("inf" in str(r.message).lower() for r in rec),
                f"no warning about the skipped step {i}",
            )
        else:
            for n, v in full_state(sim.opt, sim.net):
                require(bool(torch.isfinite(v).all()), f"{n} not finite after step {i}")
