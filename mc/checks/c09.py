"""Parameter groups."""

import itertools

import torch

from mc.core import require, same
from mc.sim import DEFAULTS, XSINGD, Sim, hyper, loss_fn, make_batch, make_net

LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of the assignments of layers to groups and of option values to "
    "groups; every history is executed on the real optimizer and compared bitwise with "
    "independent optimizers and in lockstep with an executable specification"
)
RULE = (
    "One case is one network, one assignment of option values to layers, one order of "
    "groups and parameters. single: for each of 13 hyper-parameters all assignments of its "
    "values to 3 layers. pair: for all pairs of hyper-parameters two groupings that mix "
    "their values. partition: all 13 ordered partitions of 3 layers times all orders of "
    "parameters inside groups, every group with other values for everything. default: an "
    "option set as default, per group, or both. Histories contain accumulation, idle "
    "steps and changes of one group's options. After every step, everything the optimizer "
    "holds must be bitwise equal to that of independent optimizers (one per group). "
    "Non-trivial: distinct assignment and order with at least two groups."
)
BOUNDS = {
    "quick": "3 layers, up to 3 groups, 5 steps, 3 values per option; at most 12 parameter orders per partition",
    "thorough": "3 layers, up to 3 groups, 9 steps, 3 values per option; all parameter orders",
}
ASSUMPTIONS = ["whole layers are assigned to groups (other assignments must be rejected, C19)"]

VALUES = {
    "lr": [0.05, 0.013, 0.0],
    "momentum": [0.9, 0.0, 0.4],
    "damping": [0.3, 0.05, 0.0],
    "alpha1": [0.5, 0.0, 0.8],
    "weight_decay": [0.1, 0.0, 0.02],
    "T": [1, 2, 3],
    "loss_average": ["batch", "batch+sequence", "batch"],
    "lr_cov": [0.2, "ramp", "alt"],
    "structures": [["dense", "dense"], ["diagonal", "triltoeplitz"], ["hier12", "block2"]],
    "kfac_approx": ["expand", "reduce", "expand"],
    "kfac_like": [False, True, False],
    "preconditioner_dtype": [[None, None], ["float64", "bfloat16"], ["bfloat16", "float32"]],
    "normalize_lr_cov": [False, True, False],
}


def resolve(hp):
    out = hyper(hp)
    if "preconditioner_dtype" in out:
        out["preconditioner_dtype"] = tuple(
            None if d is None else getattr(torch, d) for d in out["preconditioner_dtype"]
        )
    if out.get("kfac_like"):
        out["alpha1"] = 0.0
    return out


class Run:
    """groups: [{layers, hp, order}]; `split`: one optimizer per group."""

    def __init__(self, cfg, split):
        self.cfg = cfg
        self.net = make_net(cfg["net"])
        base = hyper({**DEFAULTS, **cfg.get("hp", {})})
        self.avg = base["loss_average"]
        scale = cfg.get("scale", 1.0)
        self.opts = []
        entries = []
        for g in cfg["groups"]:
            ps = [p for li in g["layers"] for p in self.net.layers[li].parameters()]
            if g.get("order"):
                ps = [ps[k] for k in g["order"]]
            hp = resolve(g["hp"])
            if not split and "alpha1" not in g["hp"]:
                hp.pop("alpha1", None)  # the optimizer itself ignores it if kfac_like
            entries.append({"params": ps, **hp})
        if split:
            for e in entries:
                kw = {**base, **e}
                kw.pop("params")
                self.opts.append(XSINGD(self.net, e["params"], init_grad_scale=scale, **kw))
        else:
            self.opts.append(XSINGD(self.net, entries, init_grad_scale=scale, **base))
        self.split = split
        self.scale = scale

    def backward(self, i, w=1.0):
        x, y = make_batch(self.cfg["net"], i)
        (loss_fn(self.net(x), y, self.avg) * (w * self.scale)).backward()

    def do(self, e):
        kind = e[0]
        if kind == "train":
            self.net.zero_grad()
            self.backward(e[1])
        elif kind == "acc":
            self.net.zero_grad()
            self.backward(e[1], 0.5)
            self.backward(e[1] + 1, 0.5)
        elif kind == "idle":
            self.net.zero_grad()
        elif kind == "hp":
            opt, k = (self.opts[e[1]], 0) if self.split else (self.opts[0], e[1])
            opt.param_groups[k][e[2]] = hyper({e[2]: e[3]})[e[2]]
            return
        for o in self.opts:
            if self.scale != 1.0:
                o.set_current_grad_scale(self.scale)
            o.step()

    def quantities(self):
        out = {f"param {n}": p.detach().clone() for n, p in self.net.named_parameters()}
        for o in self.opts:
            for what in ("Ks", "Cs", "m_Ks", "m_Cs"):
                for n, mat in getattr(o, what).items():
                    require(f"{what}[{n}]" not in out, f"{what}[{n}] held twice")
                    out[f"{what}[{n}]"] = mat.to_dense().clone()
            for n, p in self.net.named_parameters():
                for k, v in o.state.get(p, {}).items():
                    if isinstance(v, torch.Tensor):
                        out[f"state[{n}][{k}]"] = v.clone()
        return out


def history(tier, hp=True):
    ev = [["train", 0], ["acc", 1], ["train", 3]]
    if hp:
        ev += [["hp", 0, "lr", 0.031], ["hp", 0, "damping", 0.11]]
    ev += [["idle"], ["train", 2]]
    if tier == "thorough":
        ev += [["hp", 0, "lr_cov", 0.07], ["acc", 0], ["train", 1], ["train", 3], ["acc", 2]]
    return ev


def by_value(assignment, name, extra=None):
    """Groups of layers with the same value."""
    groups = []
    for v in sorted(set(assignment)):
        hp = {name: VALUES[name][v]}
        groups.append({"layers": [i for i, a in enumerate(assignment) if a == v], "hp": hp})
    return groups


def ordered_partitions(items):
    for k in range(1, len(items) + 1):
        for labels in itertools.product(range(k), repeat=len(items)):
            if len(set(labels)) == k:
                yield [[x for x, la in zip(items, labels) if la == j] for j in range(k)]


def cases(tier):
    out = []
    ev = history(tier)
    nvals = 3
    nets = ["mlp", "conv"]
    for net, name in itertools.product(nets, VALUES):
        for a in itertools.product(range(nvals), repeat=3):
            groups = by_value(a, name)
            for rev in [False, True] if len(groups) > 1 else [False]:
                g = groups[::-1] if rev else groups
                out.append({"id": f"single/{net}/{name}/{a}/{rev}", "net": net, "groups": g,
                            "ev": ev})  # fmt: skip
    for n1, n2 in itertools.combinations(VALUES, 2):
        for va, vb in [((0, 1, 0), (0, 0, 1)), ((1, 1, 0), (1, 0, 1))]:
            groups = [
                {"layers": [i], "hp": {n1: VALUES[n1][va[i]], n2: VALUES[n2][vb[i]]}}
                for i in range(3)
            ]
            for order in [(0, 1, 2), (2, 0, 1)]:
                out.append({"id": f"pair/{n1}/{n2}/{va}/{order}", "net": "mlp",
                            "groups": [groups[k] for k in order], "ev": ev,
                            "scale": 4.0 if va[0] else 1.0})  # fmt: skip
    profile = [
        {"lr": 0.02, "momentum": 0.5, "T": 1, "structures": ["dense", "diagonal"],
         "damping": 0.1, "lr_cov": "ramp", "weight_decay": 0.0},
        {"lr": 0.05, "momentum": 0.0, "T": 2, "structures": ["hier12", "triutoeplitz"],
         "damping": 0.4, "kfac_like": True, "kfac_approx": "reduce"},
        {"lr": 0.01, "momentum": 0.9, "T": 3, "structures": ["block2", "nested"],
         "normalize_lr_cov": True, "alpha1": 0.3, "lr_cov": 0.05, "weight_decay": 0.3},
    ]  # fmt: skip
    nets3 = {"mlp": (2, 1, 2), "conv": (2, 1, 2), "nest": (2, 2, 2, 2)}
    for net, sizes in nets3.items():
        for part in ordered_partitions(list(range(len(sizes)))):
            if len(part) > len(profile):
                continue
            orders = [
                list(itertools.permutations(range(sum(sizes[i] for i in g)))) for g in part
            ]
            n = max(len(o) for o in orders) if len(sizes) == 3 else 1
            step = 1 if tier == "thorough" else max(1, n // 12)
            for k in range(0, n, step):
                groups = [
                    {"layers": g, "hp": profile[j], "order": list(orders[j][k % len(orders[j])])}
                    for j, g in enumerate(part)
                ]
                out.append({"id": f"partition/{net}/{part}/{k}", "net": net, "groups": groups,
                            "ev": ev})  # fmt: skip
    # many groups, in any order
    for order in itertools.permutations(range(4)):
        for shift in range(3):
            groups = [{"layers": [i], "hp": many(i + shift)} for i in order]
            out.append({"id": f"many/{order}/{shift}", "net": "nest", "groups": groups,
                        "ev": ev})  # fmt: skip
    for name in VALUES:
        for v in range(nvals):
            out.append({"id": f"default/{name}/{v}", "net": "mlp", "default": name,
                        "value": VALUES[name][v], "other": VALUES[name][v - 1],
                        "ev": history(tier, False)})  # fmt: skip
    return out


def many(i):
    """Distinct values of all options but data types for the i-th group."""
    return {
        n: [*v, *v][(i + k) % 4] if isinstance(v[0], (str, list)) else v[(i + k) % 3]
        for k, (n, v) in enumerate(VALUES.items())
        if n != "preconditioner_dtype"
    } | {"lr": 0.01 * (i + 1), "damping": 0.07 * (i + 1)}


def compare(a, b, what):
    require(set(a) == set(b), f"{what}: different quantities {set(a) ^ set(b)}")
    for n in a:
        same(a[n], b[n], f"{n} {what}")


def execute(run, ev, st):
    trail = []
    for e in ev:
        run.do(e)
        if e[0] != "hp":
            trail.append(run.quantities())
            st.transitions += 1
    return trail


def run(spec, st):
    st.case(spec["id"], len(spec.get("groups", [0, 0])) > 1)
    ev = spec["ev"]
    if "default" in spec:
        name = spec["default"]
        val, other = spec["value"], spec["other"]
        layers = [{"layers": [0, 1, 2], "hp": {}}]
        explicit = [{"layers": [0, 1, 2], "hp": {name: val}}]
        runs = []
        for hp, groups in [({name: val}, layers), ({}, explicit), ({name: other}, explicit)]:
            r = DefaultRun({"net": spec["net"], "groups": groups, "hp": hp})
            r.avg = "batch"
            runs.append(execute(r, ev, st))
        for t1, t2 in zip(runs, runs[1:]):
            for i, (a, b) in enumerate(zip(t1, t2)):
                compare(a, b, f"after step {i}: {name} as default vs. per group")
    else:
        cfg = {k: spec[k] for k in ("net", "groups", "scale") if k in spec}
        t1 = execute(Run(cfg, False), ev, st)
        t2 = execute(Run(cfg, True), ev, st)
        for i, (a, b) in enumerate(zip(t1, t2)):
            compare(a, b, f"after step {i}: groups vs. independent optimizers")
            st.state(*(t.float().numpy().tobytes() for t in a.values()))
        lockstep(spec, st)
        st.outcome([t.float().numpy().tobytes() for t in t1[-1].values()])
    st.traces += 1
    st.sample(spec)


class DefaultRun(Run):
    """One optimizer; the defaults are resolved as well."""

    def __init__(self, cfg):
        hp = resolve(cfg["hp"])
        if "alpha1" not in cfg["hp"]:
            hp.pop("alpha1", None)  # the optimizer itself ignores it if kfac_like
        cfg = {**cfg, "hp": hp}
        super().__init__(cfg, False)


def lockstep(spec, st):
    """The grouped optimizer against the executable specification."""
    if spec.get("scale", 1.0) != 1.0 or any(
        "preconditioner_dtype" in g["hp"] for g in spec["groups"]
    ):
        return
    groups = [
        {"layers": g["layers"],
         "hp": {**g["hp"], **({"alpha1": 0.0} if g["hp"].get("kfac_like") else {})}}
        for g in spec["groups"]
    ]  # fmt: skip
    sim = Sim({"net": spec["net"], "groups": groups, "hp": {}}, st)
    for e in spec["ev"]:
        if e[0] == "train":
            sim.train_step(e[1])
        elif e[0] == "acc":
            sim.zero_grad()
            for k in (0, 1):
                sim.forward(e[1] + k, weight=0.5)
                sim.backward()
            sim.step()
        elif e[0] == "idle":
            sim.zero_grad()
            sim.step()
        elif e[0] == "hp":
            sim.set_hp(e[1], e[2], e[3])
