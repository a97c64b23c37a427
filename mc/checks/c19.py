"""Rejection of invalid and acceptance of valid configurations."""

import itertools

import torch
import torch.distributed as dist
from torch import nn
from torch.nn.parallel import DataParallel, DistributedDataParallel

from mc.core import Violation, require, same
from mc.sim import (
    DEFAULTS,
    SELECTABLE,
    full_state,
    hyper,
    loss_fn,
    make_batch,
    make_net,
)
from mc.words import grid
from singd.optim.optimizer import SINGD

LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of the bounded configuration space (all documented values, all "
    "catalogued invalid ones at every place where they can be given), executed on the real "
    "constructor and followed by training steps"
)
RULE = (
    "One case is one configuration. invalid: every invalid value at every place (default, "
    "each of up to 3 groups, with the other options valid), every way to spread the "
    "parameters of a layer over groups, wrapped models, closures: an exception must be "
    "raised, the model must be left bitwise unchanged, without hooks, and trainable by "
    "another optimizer. valid: the full product of documented values of the discrete "
    "options and of boundary values of numeric ones: accepted, and 3 steps change all "
    "trained parameters and keep them finite. Non-trivial: distinct configuration."
)
BOUNDS = {
    "quick": "models of 2-3 layers; all set partitions of 5 parameters into up to 3 groups; "
    "the full product of discrete options with dense/diagonal/next structure pairs",
    "thorough": "as quick, with all 36 structure pairs",
}
ASSUMPTIONS = ["the invalid values are those documented to be rejected"]
INVALID = {
    "kfac_approx": ["Expand", "", None, 3, "reduce ", "expand+reduce", True],
    "loss_average": ["mean", "sequence", "", "batch ", 1, True, False, "Batch"],
    "structures": [["dense", "foo"], ["foo", "dense"], ["Dense", "diagonal"],
                   ["", "dense"], ["dense", "block"], ["diagonal", None]],
}  # fmt: skip
NEGATIVE = ["lr", "lr_cov", "alpha1", "momentum", "weight_decay"]
NEGATIVE_VALUES = [-1, -0.1, -1e-12, float("-inf"), -7]


def fingerprint(net):
    out = []
    for n, t in itertools.chain(net.named_parameters(), net.named_buffers()):
        out.append((n, t.detach().clone()))
    return out


def n_hooks(net):
    total = 0
    for m in net.modules():
        for name, v in vars(m).items():
            if name.endswith("hooks") and isinstance(v, dict):
                total += len(v)
    for p in net.parameters():
        total += len(p._backward_hooks or {})
    return total


def rejected(make, net, what):
    before, hooks = fingerprint(net), n_hooks(net)
    flags = [p.requires_grad for p in net.parameters()]
    try:
        make()
    except Exception:
        pass
    else:
        raise Violation(f"accepted: {what}")
    require(n_hooks(net) == hooks, f"the model stays hooked after rejecting {what}")
    require(flags == [p.requires_grad for p in net.parameters()], f"{what}: requires_grad")
    for (n, a), (_, b) in zip(fingerprint(net), before):
        same(a, b, f"{n} after rejecting {what}")


def trains(opt, net, name, avg, st, steps=3, expect=None):
    p0 = {n: p.detach().clone() for n, p in net.named_parameters()}
    for i in range(steps):
        opt.zero_grad()
        x, y = make_batch(name, i)
        x, y = x.to(next(net.parameters()).dtype), y.to(next(net.parameters()).dtype)
        loss_fn(net(x), y, avg).backward()
        opt.step()
        st.transitions += 1
    for n, p in net.named_parameters():
        require(bool(torch.isfinite(p).all()), f"{n} is not finite after {steps} steps")
        changed = not torch.equal(p.detach(), p0[n])
        if expect is None or n in expect:
            require(changed, f"{n} was not trained")


class MyDP(DataParallel):
    """Users may derive from a wrapper."""


class MyDDP(DistributedDataParallel):
    """Users may derive from a wrapper."""


WRAPPERS = {
    "dp": DataParallel,
    "ddp": DistributedDataParallel,
    "my_dp": MyDP,
    "my_ddp": MyDDP,
}


def wrap(kind, net):
    """A wrapped model; if its constructor needs what is not there, just an instance."""
    cls = WRAPPERS[kind]
    try:
        if "ddp" not in kind:
            return cls(net)
        from torch.testing._internal.distributed.fake_pg import FakeStore

        dist.init_process_group("fake", store=FakeStore(), rank=0, world_size=2)
        try:
            return cls(net)
        finally:
            dist.destroy_process_group()
    except Exception:
        obj = cls.__new__(cls)
        nn.Module.__init__(obj)
        obj.module = net
        return obj


def partitions(n, groups):
    """All assignments of n items to up to `groups` groups or to none (-1)."""
    for labels in itertools.product(range(-1, groups), repeat=n):
        used = sorted(set(labels) - {-1})
        if used and used == list(range(len(used))):
            yield labels


def cases(tier):
    out = []
    for kind in WRAPPERS:
        for sub in (False, True):
            out.append({"id": f"wrapper/{kind}/{sub}", "kind": "wrapper", "wrap": kind,
                        "sub": sub})  # fmt: skip
    for name, v in itertools.product(NEGATIVE, NEGATIVE_VALUES):
        out.append({"id": f"negative/{name}/{v}", "kind": "negative", "name": name, "v": v})
    for name in INVALID:
        for v in INVALID[name]:
            out.append({"id": f"invalid/{name}/{v!r}", "kind": "invalid", "name": name, "v": v})
    for first in range(-1, 3):
        out.append({"id": f"split/{first}", "kind": "split", "first": first})
    for T, w in itertools.product([1, 2], range(3)):
        out.append({"id": f"closure/{T}/{w}", "kind": "closure", "T": T, "w": w})
    nxt = dict(zip(SELECTABLE, SELECTABLE[1:] + SELECTABLE[:1]))
    pairs = [(s, nxt[s]) for s in SELECTABLE] + [("dense", "dense"), ("diagonal", "diagonal")]
    if tier == "thorough":
        pairs = list(itertools.product(SELECTABLE, repeat=2))
    for net, s, form in itertools.product(
        ["seq", "conv1"], pairs, ["none", "list", "generator", "groups", "mixed"]
    ):
        out.append({"id": f"valid/{net}/{s[0]},{s[1]}/{form}", "kind": "valid", "net": net,
                    "s": list(s), "form": form})  # fmt: skip
    for name in EXTREME:
        out.append({"id": f"extreme/{name}", "kind": "extreme", "name": name})
    for s in SELECTABLE:
        out.append({"id": f"numeric/{s}", "kind": "numeric", "s": [s, nxt[s]]})
    return out


EXTREME = {
    "lr": [0.0, 0, -0.0, 5e-324, 1e-12],
    "lr_cov": [0.0, 0, -0.0, 5e-324, 1e-12, 1.0],
    "alpha1": [0.0, 0, -0.0, 5e-324, 0.999],
    "momentum": [0.0, 0, -0.0, 5e-324, 0.999, 1.0],
    "weight_decay": [0.0, 0, -0.0, 5e-324, 1.0],
    "damping": [0.0, 0, 1e-12, 1.0],
    "T": [1, 2, 10**6],
    "init_grad_scale": [1, 1.0, 0.5, 2.0**16],
}


def param_forms(net, form, hp):
    layers = [m for m in net.layers]
    if form == "none":
        return None
    if form == "list":
        return list(net.parameters())
    if form == "generator":
        return (p for p in net.parameters())
    if form == "groups":
        return [{"params": list(m.parameters())} for m in layers]
    return [{"params": list(layers[0].parameters()), "T": 1, **hp}] + [
        {"params": m.parameters()} for m in layers[1:]
    ]


def run(spec, st):
    globals()["run_" + spec["kind"]](spec, st)
    st.traces += 1


def run_wrapper(spec, st):
    st.case(spec["id"])
    net = make_net("mlp")
    model = wrap(spec["wrap"], net)
    params = list(net.parameters()) if spec["sub"] else None
    rejected(lambda: SINGD(model, params), model, f"a model wrapped in {spec['wrap']}")
    st.state(spec["id"])
    trains(SINGD(net, lr=0.05), net, "mlp", "batch", st)


def run_negative(spec, st):
    name, v = spec["name"], spec["v"]
    for form, kw in itertools.product(
        ["none", "list", "groups"], [{}, {"kfac_like": True, "alpha1": 0.0}, {"T": 1}]
    ):
        if name in kw:
            continue
        st.case((spec["id"], form, str(kw)))
        st.state(spec["id"], form, str(kw))
        net = make_net("mlp")
        what = f"{name}={v}"
        rejected(
            lambda: SINGD(net, param_forms(net, form, {}), **{name: v}, **kw), net, what
        )
        trains(SINGD(net, lr=0.05), net, "mlp", "batch", st)


def run_invalid(spec, st):
    name, v = spec["name"], spec["v"]
    bad = tuple(v) if isinstance(v, list) else v
    for place in ["default", 0, 1, 2, "both"]:
        for form in ["none", "list", "groups"] if place == "default" else ["groups"]:
            st.case((spec["id"], place, form))
            st.state(spec["id"], place, form)
            net = make_net("mlp")
            params, kw = param_forms(net, form, {}), {}
            if place in ("default", "both"):
                kw[name] = bad
            if place == "both":
                params[1][name] = hyper(DEFAULTS)[name]  # one group is fine
            elif place != "default":
                params[place][name] = bad
            what = f"{name}={v!r} as {place}"
            rejected(lambda: SINGD(net, params, **kw), net, what)
            trains(SINGD(net, lr=0.05), net, "mlp", "batch", st)


# parameters of the layers of "mlp" (linear, linear without bias, linear)
LAYERS = [[0, 1], [2], [3, 4]]


def run_split(spec, st):
    for labels in partitions(5, 3):
        if labels[0] != spec["first"]:
            continue
        ok = all(len({labels[i] for i in la} - {-1}) <= 1 for la in LAYERS)
        groups = [
            [i for i, x in enumerate(labels) if x == g] for g in range(max(labels) + 1)
        ]
        st.case((spec["id"], labels))
        st.state(labels)
        net = make_net("mlp")
        ps = list(net.parameters())
        names = [n for n, _ in net.named_parameters()]
        entries = [{"params": [ps[i] for i in g], "lr": 0.05 / (k + 1)} for k, g in enumerate(groups)]  # fmt: skip
        if ok:
            expect = {names[i] for g in groups for i in g}
            trains(SINGD(net, entries), net, "mlp", "batch", st, 2, expect)
        else:
            rejected(lambda: SINGD(net, entries), net, f"parameters in groups {labels}")
            trains(SINGD(net, lr=0.05), net, "mlp", "batch", st, 1)


def run_closure(spec, st):
    """Next to a twin which never sees a closure."""
    st.case(spec["id"])
    called = []

    def closure():
        called.append(1)
        return torch.zeros(())

    runs = []
    for attempt in (False, True):
        net = make_net("mlp")
        opt = SINGD(net, T=spec["T"], lr=0.05, init_grad_scale=2.0)

        def train(i, scale):
            opt.zero_grad()
            x, y = make_batch("mlp", i)
            (loss_fn(net(x), y, "batch") * scale).backward()
            if scale != 2.0:  # another scale is announced before the failing attempt
                opt.grad_scale = torch.tensor(8.0)
            if attempt:
                before, steps = fingerprint(net), opt.steps
                rejected(lambda: opt.step(closure), net, "a closure")
                rejected(lambda: opt.step(closure=closure), net, "a closure")
                require(opt.steps == steps, "the step with a closure was counted")
                require(not called, "the closure was called")
                for (n, a), (_, b) in zip(fingerprint(net), before):
                    same(a, b, f"{n} after a step with a closure")
            opt.grad_scale = torch.tensor(scale)
            opt.step()
            del opt.grad_scale
            st.transitions += 1

        for i in range(spec["w"]):
            train(i, 2.0)
        for scale in (4.0, 2.0, 4.0):
            train(0, scale)
        runs.append((net, opt))
    for (n, a), (_, b) in zip(full_state(*runs[1][::-1]), full_state(*runs[0][::-1])):
        same(a, b, f"{n} after rejected steps with a closure, vs. without them")
    st.state(spec["id"])


def run_valid(spec, st):
    for c in grid(
        avg=[None, "batch", "batch+sequence"],
        approx=["expand", "reduce"],
        like=[False, True],
        norm=[False, True],
        pd=[(None, None), (torch.float32, None), (None, torch.bfloat16)],
    ):
        st.case((spec["id"], str(c)))
        st.state(spec["id"], str(c))
        net = make_net(spec["net"])
        hp = dict(
            loss_average=c["avg"],
            kfac_approx=c["approx"],
            kfac_like=c["like"],
            normalize_lr_cov=c["norm"],
            preconditioner_dtype=c["pd"],
            structures=tuple(spec["s"]),
        )
        opt = SINGD(net, param_forms(net, spec["form"], hp), **hp)
        trains(opt, net, spec["net"], c["avg"], st)
    st.outcome([p.detach().numpy().tobytes() for p in net.parameters()])
    st.sample({**spec, **{k: str(v) for k, v in c.items()}})


def run_extreme(spec, st):
    """Boundary values are valid as a default and in each group, also for a step."""
    name = spec["name"]
    for v, place in itertools.product(EXTREME[name], ["default", 0, 1, 2]):
        if name == "init_grad_scale" and place != "default":
            continue
        for form in ["none", "list", "groups"] if place == "default" else ["groups"]:
            st.case((spec["id"], repr(v), place, form))
            st.state(spec["id"], repr(v), place, form)
            net = make_net("mlp")
            params = param_forms(net, form, {})
            if place == "default":
                kw = {name: v}
            else:
                kw = {}
                params[place][name] = v
            if name != "lr":
                kw["lr"] = 0.05
            opt = SINGD(net, params, **kw)
            for i, group in enumerate(opt.param_groups):
                if place in ("default", i) and name != "init_grad_scale":
                    require(group[name] == v, f"{name}={v!r} became {group[name]!r}")
            before = fingerprint(net)
            x, y = make_batch("mlp", 0)
            scale = v if name == "init_grad_scale" else 1.0
            (loss_fn(net(x), y, "batch") * scale).backward()
            opt.step()
            st.transitions += 1
            frozen = []
            if name == "lr" and v == 0:
                frozen = range(3) if place == "default" else [place]
            owner = [i for i, la in enumerate(LAYERS) for _ in la]
            for k, ((n, a), (_, b)) in enumerate(zip(fingerprint(net), before)):
                require(bool(torch.isfinite(a).all()), f"{n} with {name}={v!r} ({place})")
                if owner[k] in frozen:
                    same(a, b, f"{n} with learning rate {v!r} ({place})")
    st.outcome([p.detach().numpy().tobytes() for p in net.parameters()])


def run_numeric(spec, st):
    for c in grid(
        lr=[1, 0.05, 1e-6],
        momentum=[0, 0.9, 1],
        damping=[0, 0.1, 1],
        alpha1=[0, 0.5],
        weight_decay=[0, 0.1],
        T=[1, 2],
        lr_cov=[0, 0.05, lambda t: 0.01 * t],
        warn=[False, True],
    ):
        key = {**c, "lr_cov": "callable" if callable(c["lr_cov"]) else c["lr_cov"]}
        st.case((spec["id"], str(key)))
        st.state(spec["id"], str(key))
        net = make_net("two")
        for p in net.parameters():
            p.data.mul_(0.1)
        c = dict(c)
        c["warn_unsupported"] = c.pop("warn")
        opt = SINGD(net, structures=tuple(spec["s"]), **c)
        trains(opt, net, "two", "batch", st, 2)
    st.outcome([p.detach().numpy().tobytes() for p in net.parameters()])
