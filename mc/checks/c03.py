"""Refresh schedule: an explicit control model, every word of which is replayed."""

from mc.sim import Sim
from mc.words import words

LEVEL = "model_checking"
RULE = (
    "One case is one event word, enumerated from an abstract control model (step index "
    "modulo the periods, pending graphs, accumulated backward passes). micro: words over "
    "{forward, backward of the oldest / newest pending graph, forward without gradients, "
    "zero_grad, step}. macro: words over {training step, accumulate, forward whose graph "
    "is dropped, step without new statistics}, also with layers whose weight or bias is "
    "not trained and with layers of equal short names. modes: words over {training step, training "
    "step in evaluation mode / with gradients computed functionally / with gradients "
    "zeroed instead of removed, two backward passes through one graph, dropped graph, "
    "forward without gradients, step}. change: words over {training step, set T}. "
    "long: plain training for every period. The real optimizer is driven in lockstep: a "
    "pre-conditioner must be bitwise unchanged unless the model says the layer refreshes, "
    "and then equal the recursion applied to exactly the statistics the model predicts; "
    "parameters follow the update relation. Non-trivial: distinct word and configuration."
)
BOUNDS = {
    "quick": "micro words of length 6 (3 period settings), macro words of length 5 (4), "
    "mode words of length 4 (2), change words of length 5, long runs of 26 steps for T = 1..13",
    "thorough": "micro words of length 7 (4 period settings), macro words of length 7 (4), "
    "mode words of length 5 (3), change words of length 6, long runs of 80 steps for T = 1..26",
}
ASSUMPTIONS = ["the backward pass of a forward pass runs before the next step"]

# period settings: one entry per parameter group (layers 0 and 1)
MICRO_T = [[2], [1, 2], [3], [2, 1]]
MACRO_T = [[2], [3], [2, 3], [3, 1]]


def micro_enabled(s, e):
    pend, acc, grads = s
    if e == "F":
        return pend < 2
    if e == "B":
        return pend >= 1
    if e == "L":
        return pend >= 2
    if e == "Z":
        return grads > 0
    return True


def micro_advance(s, e):
    pend, acc, grads = s
    if e == "F":
        return pend + 1, acc, grads
    if e in "BL":
        return pend - 1, acc + 1, 1
    if e == "Z":
        return pend, acc, 0
    if e == "S":
        return 0, 0, grads
    return s


def cases(tier):
    thorough = tier == "thorough"
    out = []

    def add(kind, T, w, tag="", **kw):
        name = ",".join(map(str, T)) + tag
        body = "".join(w) if kind != "change" else "-".join(w)
        out.append({"id": f"{kind}/T={name}/{body}", "kind": kind, "T": T, "word": w, **kw})

    for T in MICRO_T[: 4 if thorough else 3]:
        n = 7 if thorough else 6
        for w in words("FBLNZS", n, micro_enabled, (0, 0, 0), micro_advance):
            add("micro", T, w)
    for T in MACRO_T:
        for w in words("RADS", 7 if thorough else 5):
            add("macro", T, w)
    # parameters which are (from the start or later) not trained; equal short names
    frozen = [[[0, "weight"]], [[0, "bias"]], [[1, "weight"], [0, "bias"]]]
    for k, f in enumerate(frozen):
        for late in (False, True):
            for w in words("RESAN", 4 if thorough else 3):
                add("macro", [2], w, tag=f"frozen{k}{late}",
                    cfg={"frozen": f, "freeze_late": late})  # fmt: skip
    for T in ([2], [1]):
        for w in words("RADS", 5 if thorough else 4):
            add("macro", T, w, tag="nest", net="nest")
    for T in [[2], [1, 3], [3]][: 3 if thorough else 2]:
        for w in words("RESFG0DN", 5 if thorough else 4):
            add("modes", T, w)
    for w in words(["R", "T1", "T2", "T3"], 6 if thorough else 5):
        add("change", [2], w)
    for T in range(1, 27 if thorough else 14):
        for other in ([], [3]):
            add("long", [T] + other, ["R"] * (80 if thorough else 26))
    return out


def run(spec, st):
    st.case(spec["id"])
    T = spec["T"]
    hp = {"T": T[0], "structures": ("dense", "diagonal")}
    if spec["kind"] == "long":
        hp.update(lr=0.01, lr_cov=0.05)
    cfg = {"net": spec.get("net", "two"), "hp": hp, **spec.get("cfg", {})}
    if len(T) == 2:
        cfg["groups"] = [
            {"layers": [0], "hp": {"T": T[0]}},
            {"layers": [1], "hp": {"T": T[1]}},
        ]
    sim = Sim(cfg)
    fwd = 0
    if spec["kind"] == "macro":  # start from a non-initial state as well
        sim.train_step(3)
    for e in spec["word"]:
        if e in "EG0" or (e == "F" and spec["kind"] == "modes"):
            sim.net.train(e != "E")
            sim.zero_grad(set_to_none=e != "0")
            sim.forward(fwd)
            if e == "G":
                sim.backward(retain=True)
            sim.backward(how="functional" if e == "F" else "backward")
            sim.step()
            sim.net.train()
            fwd += 1
        elif e == "F":
            sim.forward(fwd)
            fwd += 1
        elif e == "B":
            sim.backward(0)
        elif e == "L":
            sim.backward(len(sim.pending) - 1)
        elif e == "N":
            sim.forward_nograd(fwd)
        elif e == "Z":
            sim.zero_grad()
        elif e == "S":
            sim.pending.clear()
            sim.step()
        elif e == "R":
            sim.train_step(fwd)
            fwd += 1
        elif e == "A":
            sim.forward(fwd)
            sim.backward()
            fwd += 1
        elif e == "D":
            sim.forward(fwd)
            sim.pending.clear()
            fwd += 1
        elif e[0] == "T":
            sim.set_hp(0, "T", int(e[1:]))
        st.transitions += 1
        st.state(
            spec["T"],
            [sim.t % la.hp["T"] for la in sim.layers],
            [len(la.acc) for la in sim.layers],
            len(sim.pending),
            sim.layers[0].module.weight.grad is not None,
        )
    if spec["word"][-1] != "S":
        sim.pending.clear()
        sim.step()
        sim.train_step(fwd)
    st.outcome([sim.opt.Ks[la.name].to_dense().numpy().tobytes() for la in sim.layers])
    st.traces += 1
    st.sample(spec["id"])
