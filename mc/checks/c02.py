"""Pre-conditioner recursion."""

import itertools

from mc.sim import SELECTABLE, STRUCTS, Sim
from mc.words import grid, words

LEVEL = "model_checking"
RULE = (
    "One case is one history. grid: the full product of update rule, damping, Riemannian "
    "momentum, normalization, lr_cov constant/scheduled, approximation, loss averaging, "
    "network, for the pairs (K structure, C structure) of the 6 selectable structures and "
    "(s, s) of 15 further ones. pairs: all pairs of selectable structures on layers wide "
    "enough to exceed their block sizes. large: layers of up to 130 features, images of 500 "
    "pixels, sequences of length 67, mini-batches of up to 300. loss: modules that are used "
    "several times in a forward pass, expanded output gradients. schedule: lr_cov schedules "
    "with several refresh periods. start: refreshes of K and C far from the identity "
    "(all structures). magnitude: large, small and zero inputs and losses, lr_cov "
    "above one, partly frozen layers. toggles: words that switch Riemannian momentum, update "
    "rule, normalization and loss convention. words: every event word over {train on batch 0/1, "
    "two accumulated batches, change damping, lr_cov, alpha1, approximation, "
    "normalization}. After every step K and C are compared with the documented recursion "
    "applied to the previous K, C and the recorded layer inputs and output gradients. "
    "Non-trivial: distinct configuration or word."
)
BOUNDS = {
    "quick": "3 refreshes per history (12 for the long ones); words of length 4 over 8 events and over 7",
    "thorough": "5 refreshes per history (40 for the long ones); words of length 5 over 8 events and over 7",
}
ASSUMPTIONS = [
    "float32 compared with a float64 reference, relative tolerance 1e-4 of the summed "
    "magnitudes; to_dense() is trusted here (decided by C12)",
]
TOGGLES = ["A", "acc", "idle", "alpha", "like", "norm", "avg"]
ALPHABET = ["A", "B", "acc", "damp", "lrcov", "alpha", "approx", "norm"]
NEXT = dict(zip(SELECTABLE, SELECTABLE[1:] + SELECTABLE[:1]))


def cases(tier):
    thorough = tier == "thorough"
    out = []
    steps = 5 if thorough else 3
    pairs = [(s, NEXT[s]) for s in SELECTABLE]
    pairs += [(s, s) for s in STRUCTS if s not in SELECTABLE]
    for net, (sK, sC) in ((n, p) for n in ["seq", "conv", "wide"] for p in pairs):
        full = sK in SELECTABLE or (thorough and sK == sC)
        for c in grid(
            like=[False, True],
            norm=[False, True],
            alpha1=[0.0, 0.5] if full else [0.5],
            damping=[0.0, 0.3] if full else [0.3],
            lr_cov=[0.2, "ramp"] if full else ["ramp"],
            approx=["expand", "reduce"],
            avg=[None, "batch", "batch+sequence"] if full else ["batch"],
        ):
            if c["like"] and c["alpha1"]:
                continue
            if net == "wide" and (c["approx"] == "reduce" or c["avg"] == "batch+sequence"):
                continue  # no weight sharing in this network
            c.update(kind="grid", net=net, s=[sK, sC], steps=steps)
            c["id"] = "grid/" + ",".join(str(v) for v in c.values())
            out.append(c)
    for net in ["wide", "wide2", "mlp"]:
        for sK in SELECTABLE:
            for sC in SELECTABLE:
                for like in (False, True):
                    out.append(
                        {"id": f"pairs/{net}/{sK}/{sC}/{like}", "kind": "grid", "net": net,
                         "s": [sK, sC], "like": like, "norm": False, "alpha1": 0.4,
                         "damping": 0.2, "lr_cov": 0.1, "approx": "expand",
                         "avg": "batch", "steps": steps}
                    )  # fmt: skip
    for c in grid(
        net=["nest", "reuse", "reuse_conv", "seq", "two", "conv1"],
        s=SELECTABLE,
        approx=["expand", "reduce"],
        avg=[None, "batch", "batch+sequence"],
        loss=["square", "sum"],
        like=[False, True],
    ):
        if c["avg"] == "batch+sequence" and c["net"] != "seq":
            continue
        c.update(kind="grid", damping=0.1, lr_cov=0.1, norm=True, alpha1=0.0 if c["like"] else 0.5)
        c["s"] = [c["s"], NEXT[c["s"]]]
        c["steps"] = steps
        c["id"] = "loss/" + ",".join(str(v) for v in c.values())
        out.append(c)
    for c in grid(
        net=["two", "conv1"],
        s=SELECTABLE,
        lr_cov=["ramp", "alt"],
        like=[False, True],
        norm=[False, True],
        T=[2, 3, 4],
    ):
        c.update(kind="grid", damping=0.1, approx="expand", avg="batch", alpha1=0.0)
        c["s"] = [c["s"], c["s"]]
        c["steps"] = 20 if thorough else 10
        c["id"] = "schedule/" + ",".join(str(v) for v in c.values())
        out.append(c)
    # magnitudes of inputs and losses, large rates, zero statistics, partly frozen layers
    for (m, mags), net, s, like, norm, damping in itertools.product(
        enumerate(
            (
                {"lscale": 1e-5, "xscale": 1e4},
                {"lscale": 1e4, "xscale": 1e-4},
                {"lscale": 1e-4},
                {"lscale": 0.0},
                {"xscale": 0.0},
                {"lr_cov": 1.7},
                {"lr_cov": 1e-3, "lscale": 30.0},
                {"frozen": [[0, "weight"]]},
                {"frozen": [[0, "bias"]], "freeze_late": True},
            )
        ),
        ("lin", "nest", "seq", "conv1"),
        SELECTABLE,
        (False, True),
        (False, True),
        (0.0, 0.3),
    ):
        out.append(
            {"id": f"magnitude/{m}/{net}/{s}/{like}/{norm}/{damping}", "kind": "grid", "net": net,
             "s": [s, s], "like": like, "norm": norm, "alpha1": 0.0 if like else 0.5,
             "damping": damping, "lr_cov": mags.get("lr_cov", 0.2), "approx": "expand",
             "avg": "batch", "steps": steps,
             "cfg": {k: v for k, v in mags.items() if k != "lr_cov"}}
        )  # fmt: skip
    # refreshes of pre-conditioners which are far from the identity
    for c in grid(
        start=[1, 2, 3] if thorough else [1],
        net=["two", "seq", "conv", "wide", "wide2"],
        s=pairs,
        like=[False, True],
        norm=[False, True],
        damping=[0.02, 0.5],
        lr_cov=[0.05, 0.3],
        approx=["expand", "reduce"],
    ):
        if c["net"] in ("two", "wide", "wide2") and c["approx"] == "reduce":
            continue
        c.update(kind="grid", alpha1=0.0 if c["like"] else 0.4, avg="batch", steps=2)
        c["cfg"] = {"start": c["start"]}
        c["id"] = "start/" + ",".join(str(v) for v in c.values())
        out.append(c)
    # layers, images, sequences and mini-batches that are larger than usual in tests
    for net, batch in [("huge", None), ("long", None), ("image", None), ("seq", 130),
                       ("two", 300), ("conv1", 140)]:  # fmt: skip
        for sK, sC in pairs[:6]:
            for like, approx in itertools.product([False, True], ["expand", "reduce"]):
                for avg in ("batch", "batch+sequence") if net in ("long", "seq") else ("batch",):
                    out.append(
                        {"id": f"large/{net}/{sK}/{sC}/{like}/{approx}/{avg}", "kind": "grid",
                         "net": net, "s": [sK, sC], "like": like, "norm": True,
                         "alpha1": 0.0 if like else 0.4, "damping": 0.2, "lr_cov": 0.1,
                         "approx": approx, "avg": avg, "steps": steps, "batch": batch}
                    )  # fmt: skip
    for c in grid(
        net=["two", "conv1", "mlp"],
        s=SELECTABLE,
        alpha1=[0.0, 0.5],
        norm=[False, True],
        like=[False, True],
        T=[1, 5],
    ):
        if c["like"] and c["alpha1"]:
            continue
        c.update(kind="grid", damping=0.1, lr_cov=0.05, approx="expand", avg="batch")
        c["s"] = [c["s"], c["s"]]
        c["steps"] = (40 if thorough else 12) * (2 if c["T"] == 5 else 1)
        c["id"] = "long/" + ",".join(str(v) for v in c.values())
        out.append(c)
    for net, sK, sC in [("seq3", "dense", "diagonal"), ("conv1", "hier12", "block2")][
        : 2 if thorough else 1
    ]:
        for w in words(ALPHABET, 5 if thorough else 4):
            out.append(
                {"id": f"word/{net}/{sK}/" + "-".join(w), "kind": "word", "net": net,
                 "s": [sK, sC], "word": w}
            )  # fmt: skip
    for T in (1, 2):
        for w in words(TOGGLES, 5 if thorough else 4):
            out.append(
                {"id": f"toggles/{T}/" + "-".join(w), "kind": "word", "net": "seq", "T": T,
                 "s": ["triltoeplitz", "dense"], "word": w, "alpha1": 0.0}
            )  # fmt: skip
    return out


def run(spec, st):
    st.case(spec["id"])
    if spec["kind"] == "grid":
        hp = dict(
            structures=spec["s"],
            kfac_like=spec["like"],
            normalize_lr_cov=spec["norm"],
            alpha1=spec["alpha1"],
            damping=spec["damping"],
            lr_cov=spec["lr_cov"],
            kfac_approx=spec["approx"],
            loss_average=spec["avg"],
            T=spec.get("T", 1),
            lr=0.01,
            weight_decay=0.0,
        )
        if spec["avg"] is None:
            hp["lr"] = 0.005
        if spec["net"] == "wide" and spec["avg"] is None:
            hp["lr_cov"] = "ramp" if spec["lr_cov"] == "ramp" else 0.1
        sim = Sim(
            {
                "net": spec["net"],
                "hp": hp,
                "batch": spec.get("batch"),
                "loss": spec.get("loss"),
                **spec.get("cfg", {}),
            },
            st,
            par=False,
        )
        for i in range(spec["steps"]):
            sim.train_step(i)
    else:
        hp = {"structures": spec["s"], "alpha1": spec.get("alpha1", 0.5), "T": spec.get("T", 1)}
        hp["lr_cov"] = "alt" if hp["T"] == 2 else 0.2
        other = 0.5 if hp["alpha1"] == 0.0 else 0.3
        alphas = {hp["alpha1"]: other, other: hp["alpha1"]}
        sim = Sim({"net": spec["net"], "hp": hp}, st, par=False)
        sim.train_step(1)
        for e in spec["word"]:
            hp = sim.layers[0].hp
            if e in "AB":
                sim.train_step("AB".index(e))
            elif e == "acc":
                sim.zero_grad()
                for b in (1, 2):
                    sim.forward(b)
                    sim.backward()
                sim.step()
            elif e == "damp":
                sim.set_hp(0, "damping", 0.05 if hp["damping"] == 0.3 else 0.3)
            elif e == "lrcov":
                sim.set_hp(0, "lr_cov", "alt" if hp["lr_cov"] == 0.2 else 0.2)
            elif e == "alpha":
                if not hp["kfac_like"]:
                    sim.set_hp(0, "alpha1", alphas[hp["alpha1"]])
            elif e == "like":
                if hp["alpha1"] == 0.0:  # not defined with Riemannian momentum
                    sim.set_hp(0, "kfac_like", not hp["kfac_like"])
            elif e == "avg":
                sim.set_hp(0, "loss_average", None if hp["loss_average"] else "batch")
            elif e == "idle":
                sim.zero_grad()
                sim.step()
            elif e == "approx":
                other = "reduce" if hp["kfac_approx"] == "expand" else "expand"
                sim.set_hp(0, "kfac_approx", other)
            elif e == "norm":
                sim.set_hp(0, "normalize_lr_cov", not hp["normalize_lr_cov"])
        if spec["word"][-1] not in ("A", "B", "acc"):
            sim.train_step(1)
    st.outcome([sim.opt.Ks[la.name].to_dense().numpy().tobytes() for la in sim.layers])
    st.traces += 1
    st.sample(spec)
