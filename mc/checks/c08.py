"""Distributed training."""

import itertools

import torch
import torch.distributed as dist

from mc.core import arr, close, require, rng, same
from mc.mats import tensor
from mc.sim import DEFAULTS, SELECTABLE, STRUCTS, XSINGD, hyper, loss_fn, make_batch, make_net
from mc.words import grid
from mc.world import World, all_schedules

LEVEL = "model_checking"
TECHNIQUE = (
    "stateless exploration of the real optimizer on several ranks under a controlled "
    "scheduler and process group, enumerating the orders in which ranks reach collectives"
)
RULE = (
    "One case is one configuration and schedule. Every rank runs the real optimizer on its "
    "own model and shard in a thread; a scheduler decides at every collective which rank "
    "continues, and a process group model matches collectives in issue order, detects "
    "mismatches and deadlocks, and delivers results of asynchronous collectives as early "
    "or as late as allowed. orders: all schedules. grid: the product of options under "
    "three scheduling policies. After every step all ranks must be bitwise equal and agree "
    "with one process on the union batch. matrix: all_reduce of every structured matrix "
    "(any memory layout, SUM and AVG, synchronous and asynchronous) under all schedules. "
    "Non-trivial: distinct configuration and schedule with at least two ranks."
)
BOUNDS = {
    "quick": "all schedules for 2 ranks up to 7 collectives and 3 ranks up to 3 collectives; "
    "1-4 ranks, 3 policies, 3 steps otherwise",
    "thorough": "all schedules for 2 ranks up to 12 collectives and 3 ranks up to 4 "
    "collectives; 1-4 ranks, 3 policies, 6 steps otherwise",
}
ASSUMPTIONS = [
    "ranks only interact through collectives (threads stand for processes); results of "
    "collectives are equal on all ranks; tensors must be contiguous (as for NCCL, the "
    "backend which offers averaging)",
    "equal shards and the same sequence of forward and backward passes on all ranks",
]


def policy(name):
    n_calls = [0]

    def choose(n):
        n_calls[0] += 1
        return {"first": 0, "last": n - 1, "rotate": n_calls[0] % n}[name]

    return choose


class Worker:
    """One training process."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.net = make_net(cfg["net"])
        hp = hyper({**DEFAULTS, **cfg["hp"]})
        self.avg = hp["loss_average"]
        params = None
        if "groups" in cfg:
            ls = self.net.layers
            params = [
                {"params": [p for li in g["layers"] for p in ls[li].parameters()],
                 **hyper(g["hp"])} for g in cfg["groups"]
            ]  # fmt: skip
        self.opt = XSINGD(self.net, params, init_grad_scale=cfg.get("scale", 1.0), **hp)

    def step(self, i, parts):
        """One step on the given parts of the batch (one backward pass for each)."""
        scale = self.cfg.get("scale", 1.0)
        x, y = make_batch(self.cfg["net"], i, size=self.cfg["total"])
        v = sample_weights(self.cfg, i).reshape(-1, *[1] * (y.ndim - 1))
        self.opt.zero_grad()
        for part in parts:
            out = self.net(x[part]) * v[part]
            (loss_fn(out, y[part] * v[part], self.avg) * (scale / len(parts))).backward()
        if scale != 1.0:
            self.opt.set_current_grad_scale(scale)
        inf = self.cfg.get("inf") == i
        if inf:
            self.opt.found_inf = torch.tensor(1.0)
        self.opt.step()
        if inf:
            del self.opt.found_inf

    def quantities(self):
        out = [(n, p.detach().clone()) for n, p in self.net.named_parameters()]
        for what in ("Ks", "Cs", "m_Ks", "m_Cs"):
            for n, mat in getattr(self.opt, what).items():
                out.append((f"{what}[{n}]", mat.to_dense().clone()))
        return out


def shards(total, ranks, micro):
    """parts[rank][micro-batch] of the union batch."""
    per = total // (ranks * micro)
    idx = [list(range(k * per, (k + 1) * per)) for k in range(ranks * micro)]
    # micro-batch j of the union consists of the j-th micro-batches of all ranks
    return [[idx[j * ranks + r] for j in range(micro)] for r in range(ranks)]


def sample_weights(cfg, i):
    """Samples of shards without gradients (zero: [step, ranks]) do not count."""
    v = torch.ones(cfg["total"])
    for step, ranks in cfg.get("zero", []):
        if step == i:
            for r in ranks:
                for part in shards(cfg["total"], cfg["ranks"], cfg.get("micro", 1))[r]:
                    v[part] = 0.0
    return v


def reference(cfg):
    """A single process on the union batch."""
    w = Worker(cfg)
    trail = []
    parts = shards(cfg["total"], cfg["ranks"], cfg.get("micro", 1))
    for i in range(cfg["steps"]):
        w.step(i, [sum((p[j] for p in parts), []) for j in range(cfg.get("micro", 1))])
        trail.append(w.quantities())
    return trail


def execute(cfg, choose, trail, st, late=True):
    ranks = cfg["ranks"]
    world = World(ranks, choose, late)
    parts = shards(cfg["total"], ranks, cfg.get("micro", 1))
    trails = [[] for _ in range(ranks)]

    def rank_main(r):
        w = Worker(cfg)
        for i in range(cfg["steps"]):
            w.step(i, parts[r])
            trails[r].append(w.quantities())

    world.run(rank_main)
    require(world.collectives > 0, "no collective was issued")
    for i in range(cfg["steps"]):
        for r in range(1, ranks):
            for (n, a), (_, b) in zip(trails[0][i], trails[r][i]):
                same(b, a, f"{n} of rank {r} vs. rank 0 after step {i}")
        for (n, a), (_, b) in zip(trails[0][i], trail[i]):
            scale = max(float(b.abs().max()), 1e-2)
            close(a, arr(b), f"{n} after step {i}, {ranks} ranks vs. one process", scale, 3e-4)
    st.transitions += world.collectives
    st.traces += 1
    st.outcome([t.numpy().tobytes() for _, t in trails[0][-1]])


def orders(tier):
    th = tier == "thorough"
    D = ["dense", "dense"]
    yield {"net": "lin", "ranks": 2, "steps": 2, "total": 4, "hp": {"structures": D}}, 3
    yield {"net": "two", "ranks": 2, "steps": 1, "total": 4,
           "hp": {"structures": ["triltoeplitz", "dense"], "loss_average": None, "lr": 0.01}}, 3  # fmt: skip
    yield {"net": "lin", "ranks": 2, "steps": 3, "total": 4,
           "hp": {"structures": ["dense", "diagonal"], "T": 2}}, 3  # fmt: skip
    yield {"net": "lin", "ranks": 2, "steps": 1, "total": 8, "micro": 2,
           "hp": {"structures": ["block2", "dense"]}}, 3  # fmt: skip
    yield {"net": "lin", "ranks": 3, "steps": 1, "total": 6, "hp": {"structures": D}}, 1
    if th:
        yield {"net": "mlp", "ranks": 2, "steps": 2, "total": 4,
               "hp": {"structures": D, "T": 2}}, 6  # fmt: skip
        yield {"net": "lin", "ranks": 2, "steps": 3, "total": 8, "micro": 2,
               "hp": {"structures": D}}, 6  # fmt: skip
        yield {"net": "lin", "ranks": 3, "steps": 2, "total": 6,
               "hp": {"structures": D, "T": 2}}, 2  # fmt: skip
        yield {"net": "lin", "ranks": 4, "steps": 1, "total": 4,
               "hp": {"structures": D, "T": 1}}, 1  # fmt: skip


def grid_configs(tier):
    steps = 6 if tier == "thorough" else 3
    for c in grid(
        net=["seq", "conv1"],
        avg=[None, "batch", "batch+sequence"],
        approx=["expand", "reduce"],
        like=[False, True],
        T=[1, 2],
        micro=[1, 2],
    ):
        hp = {"loss_average": c["avg"], "kfac_approx": c["approx"], "kfac_like": c["like"],
              "T": c["T"], "alpha1": 0.0 if c["like"] else 0.5, "damping": 0.2,
              "lr_cov": "ramp"}  # fmt: skip
        if c["avg"] is None:
            hp.update(lr=0.002, lr_cov=0.02)
        yield {"net": c["net"], "micro": c["micro"], "hp": hp, "steps": steps}
    for s in STRUCTS:
        for s2 in [s, "dense", "diagonal"]:
            yield {"net": "mlp", "steps": steps, "hp": {"structures": [s, s2], "T": 1}}
    for s in SELECTABLE:
        yield {"net": "wide", "steps": steps, "hp": {"structures": [s, s], "lr": 0.01}}
    for norm, scale, alpha1, T in itertools.product([False, True], [1.0, 8.0], [0.0, 0.5], [1, 3]):
        yield {"net": "two", "steps": steps, "scale": scale, "inf": 1 if T == 1 else None,
               "hp": {"normalize_lr_cov": norm, "alpha1": alpha1, "T": T}}  # fmt: skip
    # the gradients of some ranks are zero in some steps
    for zero in ([[0, [0]]], [[1, [1]]], [[0, [1]], [1, [0]], [2, [0, 1]]]):
        for net, T, micro in (("two", 1, 1), ("conv1", 2, 1), ("nest", 1, 2)):
            yield {"net": net, "steps": steps, "zero": zero, "micro": micro, "hp": {"T": T}}
    yield {"net": "mlp", "steps": steps, "hp": {},
           "groups": [{"layers": [2], "hp": {"T": 2, "lr": 0.1, "structures": ["diagonal", "dense"]}},
                      {"layers": [0, 1], "hp": {"T": 1, "lr_cov": "alt"}}]}  # fmt: skip


def cases(tier):
    out = []
    for ci, (cfg, depth) in enumerate(orders(tier)):
        for prefix in itertools.product(range(2), repeat=depth) if cfg["ranks"] == 2 else (
            [(i,) + rest for i in range(cfg["ranks"])
             for rest in itertools.product(range(2), repeat=depth - 1)]
        ):  # fmt: skip
            # with 2 ranks every second choice is forced (one rank waits)
            if cfg["ranks"] == 2:
                p = [v for c in prefix for v in (c, 0)]
            else:
                p = list(prefix)
            out.append({"id": f"orders/{ci}/{p}", "kind": "orders", "cfg": cfg, "prefix": p})
    for ci, cfg in enumerate(grid_configs(tier)):
        for ranks in (2, 3, 4) if "zero" in cfg else (1, 2, 3, 4):
            c = {**cfg, "ranks": ranks}
            c["total"] = ranks * c.get("micro", 1) * (2 if ranks < 3 else 1)
            for pol in ["rotate"] if tier == "quick" else ["first", "last", "rotate"]:
                out.append({"id": f"grid/{ci}/{ranks}/{pol}", "kind": "grid", "cfg": c,
                            "policy": pol})  # fmt: skip
    for name in STRUCTS:
        for ranks in (2, 3) if tier == "quick" else (2, 3, 4):
            for dim in (1, 2, 5, 9):
                out.append({"id": f"matrix/{name}/{ranks}/{dim}", "kind": "matrix",
                            "s": name, "ranks": ranks, "dim": dim,
                            "all": 4 if tier == "quick" else 8})  # fmt: skip
    return out


def run(spec, st):
    kind = spec["kind"]
    if kind == "orders":
        cfg = spec["cfg"]
        trail = reference(cfg)
        for sched in all_schedules(lambda ch: execute(cfg, ch, trail, st), spec["prefix"]):
            st.case((spec["id"], str(sched)))
            st.state(spec["cfg"], sched)
        st.sample({"cfg": cfg, "schedule": sched})
    elif kind == "grid":
        st.case(spec["id"], spec["cfg"]["ranks"] > 1)
        st.state(spec["id"])
        execute(spec["cfg"], policy(spec["policy"]), reference(spec["cfg"]), st)
    else:
        run_matrix(spec, st)


def fresh(cls, desc, dim, r, noncontiguous):
    """A matrix with rank-specific content, optionally stored with other strides."""
    comps_rng = rng("dist", cls.__name__, dim, r)
    dense = comps_rng.uniform(-1, 1, size=(dim, dim))
    mat = cls.from_dense(tensor(dense + dense.T))
    if noncontiguous:
        for _, t in mat.named_tensors():
            big = torch.zeros(tuple(t.shape) + (2,), dtype=t.dtype)
            big[..., 0] = t
            t.data = big[..., 0]
    return mat


def run_matrix(spec, st):
    cls, desc = STRUCTS[spec["s"]]
    ranks, dim = spec["ranks"], spec["dim"]
    for op, nonc, mode in itertools.product(
        [dist.ReduceOp.SUM, dist.ReduceOp.AVG, None], [False, True], ["sync", "early", "late"]
    ):
        mats = [fresh(cls, desc, dim, r, nonc) for r in range(ranks)]
        want = sum(arr(m.to_dense()) for m in mats)
        if op != dist.ReduceOp.SUM:  # averages by default
            want = want / ranks
        n_tensors = sum(1 for _ in mats[0].named_tensors())

        def execute_(choose):
            mats = [fresh(cls, desc, dim, r, nonc) for r in range(ranks)]

            def main(r):
                kw = {} if op is None else {"op": op}
                if mode == "sync":
                    require(mats[r].all_reduce(**kw) is None, "all_reduce returned a value")
                else:
                    for h in mats[r].all_reduce(async_op=True, **kw):
                        h.wait()

            world = World(ranks, choose, late=mode != "early")
            world.run(main)
            for r in range(ranks):
                close(mats[r].to_dense(), want, f"all_reduce of {spec['s']}, rank {r}", 2.0, 1e-5)
                same(mats[r].to_dense(), mats[0].to_dense(), "ranks after all_reduce")
            st.transitions += world.collectives
            st.traces += 1

        # all schedules for matrices made of few tensors, rotations otherwise
        if n_tensors * ranks <= spec["all"]:
            scheds = all_schedules(execute_)
        else:
            scheds = (execute_(policy(p)) or p for p in ("first", "last", "rotate"))
        for sched in scheds:
            st.case((spec["id"], str(op), nonc, mode, str(sched)))
            st.state(spec["id"], str(sched))
    st.outcome(want.tobytes())
