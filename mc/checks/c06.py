"""Checkpoint and restore at every point of a history."""

import copy
import hashlib
import io
import json
import os
import subprocess
import sys
import tempfile

import torch

from mc.core import REPO, VERIF, Violation, require
from mc.sim import SELECTABLE, Runner, compare_states
from mc.words import grid

LEVEL = "fault_enumeration"
RULE = (
    "One case is one configuration and history. Every point between two events (after "
    "zero_grad, after each backward pass, after each step, after a hyper-parameter change) "
    "is a cut: the state is saved there, restored into a freshly initialized model and "
    "optimizer, and the rest of the history is executed; after every further event all "
    "parameters, pre-conditioners, momenta and buffers must be bitwise equal to the "
    "uninterrupted run. Ways to restore: torch.save/torch.load, deep copy, an optimizer "
    "constructed with other hyper-parameters, a second restore from the same dictionary, "
    "rewinding an optimizer that went on training; process: the continuation runs in a new "
    "process. The passed dictionary must stay bitwise unchanged. Non-trivial: distinct "
    "configuration, cut and way to restore."
)
BOUNDS = {
    "quick": "histories of 4 steps (11-16 cuts), 5 ways to restore",
    "thorough": "histories of 8 steps (22-32 cuts), 5 ways to restore",
}
ASSUMPTIONS = [
    "gradients held by the model at the cut are restored by the user (they are not part "
    "of the optimizer's state); no cut between a forward pass and its backward pass"
]
VARIANTS = ["file", "copy", "otherhp", "twice", "rewind"]


def history(kind, n):
    ev = []
    for i in range(n):
        ev.append(["Z"])
        if kind == "accum" and i % 2 == 0:
            ev += [["FB", i, 0.5], ["FB", i + 1, 0.5]]
        elif kind == "overflow" and i % 3 == 1:
            ev += [["FB", i, 1.0, True]]
        elif kind == "idle" and i % 3 == 1:
            pass  # a step without any gradient
        else:
            ev += [["FB", i, 1.0]]
        ev.append(["S"])
        if kind == "hp" and i == 1:
            ev += [["HP", 0, "lr", 0.02], ["HP", 0, "T", 1], ["HP", 0, "lr_cov", 0.1]]
        if kind == "hp" and i == 2:
            ev += [["HP", 0, "momentum", 0.3], ["HP", 0, "damping", 0.1]]
    return ev


def configs(tier):
    out = []
    for c in grid(s=SELECTABLE, T=[1, 2, 3], hist=["plain", "accum"]):
        out.append(
            {"net": "mlp", "hist": c["hist"],
             "hp": {"structures": [c["s"], "dense"], "T": c["T"]}}
        )  # fmt: skip
    for hist, scaler in [("overflow", True), ("plain", True), ("accum", True)]:
        for T in (1, 2, 3):
            for mom in (0.0, 0.9):
                out.append(
                    {"net": "two", "hist": hist, "scaler": scaler, "init_scale": 8.0,
                     "hp": {"structures": ["dense", "triltoeplitz"], "T": T, "momentum": mom}}
                )  # fmt: skip
    for T in (2, 3):
        out.append({"net": "nest", "hist": "accum", "hp": {"T": T}})
        out.append({"net": "seq", "hist": "hp", "hp": {"T": T, "lr_cov": "ramp"}})
        out.append({"net": "two", "hist": "idle", "hp": {"T": T, "lr_cov": "alt"}})
        out.append({"net": "two", "hist": "plain", "sched": True, "hp": {"T": T}})
        out.append({"net": "conv", "hist": "accum", "hp": {"T": T, "kfac_approx": "reduce"}})
        out.append(
            {"net": "conv1", "hist": "accum", "hp": {"T": T, "kfac_like": True, "alpha1": 0.0}}
        )
        out.append({"net": "wide", "hist": "plain",
                    "hp": {"T": T, "structures": ["block30diagonal", "hierarchical15_15"],
                           "lr": 0.01}})  # fmt: skip
        out.append({"net": "two", "hist": "plain", "hp": {"T": T, "normalize_lr_cov": True}})
        out.append({"net": "two", "hist": "plain", "hp": {"T": T, "momentum": 0.0}})
        out.append({"net": "two", "hist": "plain", "hp": {"T": T, "alpha1": 0.0}})
        out.append({"net": "two", "hist": "plain", "pdtype": ["bfloat16", None], "hp": {"T": T}})
        out.append({"net": "two", "hist": "accum", "pdtype": [None, "float16"], "hp": {"T": T}})
        out.append(
            {"net": "mlp", "hist": "hp", "hp": {"T": T},
             "groups": [
                 {"layers": [2], "hp": {"T": 2, "lr": 0.1, "structures": ["diagonal", "dense"]}},
                 {"layers": [0, 1], "hp": {"T": 3, "momentum": 0.5, "lr_cov": "alt"}}]}
        )  # fmt: skip
        for name in ("nested", "hier21", "block2", "tr_hier_block"):
            out.append({"net": "mlp", "hist": "accum", "hp": {"T": T, "structures": [name, name]}})
    return out


def cases(tier):
    out = []
    n = 8 if tier == "thorough" else 4
    for i, c in enumerate(configs(tier)):
        c["steps"] = n
        for v in VARIANTS:
            out.append({"id": f"{v}/{i}/{json.dumps(c, sort_keys=True)}", "kind": v, "cfg": c})
    picks = [c for i, c in enumerate(configs(tier)) if i % 3 == 0]
    for c in picks:
        c["steps"] = n
    out.append({"id": "process/all", "kind": "process", "cfgs": picks})
    return out


def roundtrip(state):
    f = io.BytesIO()
    torch.save(state, f)
    return f.getvalue()


def read(blob):
    return torch.load(io.BytesIO(blob), weights_only=False)


def reference(cfg, events):
    r = Runner(cfg)
    trail = []
    for e in events:
        r.do(e)
        trail.append(r.state())
    return trail


def flatten(x, path=""):
    """All leaves of a state dictionary."""
    if isinstance(x, dict):
        for k in x:
            yield from flatten(x[k], f"{path}/{k}")
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from flatten(v, f"{path}/{i}")
    elif hasattr(x, "to_dense") and hasattr(x, "named_tensors"):
        yield path, x.to_dense().clone()
    elif isinstance(x, torch.Tensor):
        yield path, x.clone()
    else:
        yield path, x


def fingerprint(state):
    return [
        (p, v.detach().numpy().tobytes() if isinstance(v, torch.Tensor)
         and v.dtype != torch.bfloat16 else repr(v))
        for p, v in flatten(state)
    ]  # fmt: skip


def digest(trail):
    h = hashlib.blake2b(digest_size=16)
    for name, t in trail:
        h.update(name.encode())
        h.update(t.float().numpy().tobytes())
    return h.hexdigest()


def go_on(runner, events, k, trail, what):
    compare_states(trail[k], runner.state(), f"right after the restore ({what})")
    for j in range(k + 1, len(events)):
        runner.do(events[j])
        compare_states(trail[j], runner.state(), f"after event {j} {events[j]} ({what})")


def run(spec, st):
    if spec["kind"] == "process":
        return run_process(spec, st)
    cfg, kind = spec["cfg"], spec["kind"]
    events = history(cfg["hist"], cfg["steps"])
    trail = reference(cfg, events)
    # the same run once more, saving after every event
    r = Runner(cfg)
    blobs = []
    for k, e in enumerate(events):
        r.do(e)
        state = r.save()
        blobs.append(copy.deepcopy(state) if kind == "copy" else roundtrip(state))
        compare_states(trail[k], r.state(), f"after event {k} of a run that saves its state")
    for k in range(len(events)):
        st.case((spec["id"], k))
        st.transitions += len(events) - k
        st.state(spec["id"], k)
        what = f"cut after event {k} {events[k]}, restored via {kind}"
        state = copy.deepcopy(blobs[k]) if kind == "copy" else read(blobs[k])
        before = fingerprint(state)
        if kind == "rewind":
            new = Runner(cfg)
            for e in events[: k + 1]:
                new.do(e)
            for e in [["Z"], ["FB", 3], ["S"], ["Z"], ["FB", 1]]:
                new.do(e)
        elif kind == "otherhp":
            other = {"lr": 0.5, "momentum": 0.1, "damping": 0.9, "T": 5, "lr_cov": 0.9,
                     "weight_decay": 0.7}  # fmt: skip
            new = Runner({**cfg, "init_scale": 2.0}, key=("other",), opt_hp=other)
        else:
            new = Runner(cfg, key=("other",))
        new.load(state)
        go_on(new, events, k, trail, what)
        after = fingerprint(state)
        require(before == after, f"the saved state was modified ({what})")
        if kind == "twice":
            again = Runner(cfg, key=("third",))
            again.load(state)
            go_on(again, events, k, trail, what + ", second restore from the same state")
    st.traces += len(events)
    st.outcome(digest(trail[-1]))
    st.sample({"cfg": cfg, "restore": kind, "cuts": len(events)})


def run_process(spec, st):
    jobs, expected = [], []
    for cfg in spec["cfgs"]:
        events = history(cfg["hist"], cfg["steps"])
        trail = reference(cfg, events)
        r = Runner(cfg)
        for k, e in enumerate(events):
            r.do(e)
            jobs.append((cfg, k, roundtrip(r.save())))
            expected.append([digest(s) for s in trail[k:]])
            st.case(("process", json.dumps(cfg, sort_keys=True), k))
            st.transitions += len(events) - k
            st.state("process", json.dumps(cfg, sort_keys=True), k)
    with tempfile.TemporaryDirectory() as tmp:
        src, dst = os.path.join(tmp, "jobs.pt"), os.path.join(tmp, "out.json")
        torch.save(jobs, src)
        code = "import sys; sys.path.insert(0, %r); from mc.checks.c06 import child; child(%r, %r)"
        p = subprocess.run(
            [sys.executable, "-c", code % (VERIF, src, dst)],
            capture_output=True,
            text=True,
            env={**os.environ, "VERIF_REPO": REPO, "PYTHONHASHSEED": "7"},
        )
        require(p.returncode == 0, f"restoring in a new process failed: {p.stderr[-300:]}")
        with open(dst) as f:
            got = json.load(f)
    for (cfg, k, _), e, g in zip(jobs, expected, got):
        if e != g:
            j = next(i for i in range(len(e)) if e[i] != g[i])
            raise Violation(
                f"{cfg}: continuation in a new process from the cut after event {k} "
                f"differs {j} events later"
            )
    st.traces += len(jobs)


def child(src, dst):
    import warnings

    warnings.simplefilter("ignore")
    out = []
    for cfg, k, blob in torch.load(src, weights_only=False):
        r = Runner(cfg, key=("child",))
        r.load(read(blob))
        events = history(cfg["hist"], cfg["steps"])
        d = [digest(r.state())]
        for e in events[k + 1 :]:
            r.do(e)
            d.append(digest(r.state()))
        out.append(d)
    with open(dst, "w") as f:
        json.dump(out, f)
