"""Memory held by the optimizer and by structured matrices."""

import copy
import gc
import itertools

import torch
from torch import nn

from mc import spec as S
from mc.core import require, rng
from mc.mats import build, members, tensor
from mc.sim import DEFAULTS, SELECTABLE, STRUCTS, XSINGD, Layer, NETS, hyper, loss_fn
from mc.sim import make_batch, make_net
from mc.words import grid

LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of event words; each is repeated on the real optimizer while all "
    "live tensors and everything reachable from the optimizer are measured"
)
RULE = (
    "One case is one configuration and event word. train: all words over {training step, "
    "accumulated backward passes, dropped graph, forward pass without gradients, step "
    "without gradients, overflowing step, step with a gradient scale, checkpoint, restore}; "
    "after every event the storage reachable from the optimizer must not exceed what the "
    "structures of factors, momenta and pending statistics (as predicted by a control model) "
    "and the momentum buffers need; the word is repeated until all refresh periods are in "
    "phase again, after which the storage of all live tensors in the process, the number of "
    "entries of the optimizer's containers and the number of hooks must be the same as one "
    "and two such rounds earlier. operations: the results of all operations on structured "
    "matrices hold exactly the free entries of their structure. Non-trivial: distinct "
    "configuration and word, or structure, size and operation."
)
BOUNDS = {
    "quick": "words of length 2 over 9 events for 120 configurations, of length 3 for 6; "
    "21 structures, sizes 1-8 and 5 large ones",
    "thorough": "words of length 3 over 9 events for 120 configurations, of length 4 for 6; "
    "21 structures, sizes 1-16 and 5 large ones",
}
ASSUMPTIONS = [
    "storage of Python and autograd book-keeping other than tensors is only counted",
    "structures which are not selectable by name are measured by entries, not by storage, "
    "since generic fallbacks extract them as views of a dense matrix",
]
EVENTS = ["R", "A", "D", "N", "Z", "I", "G", "C", "L"]
SLACK = 64  # bytes per layer, for scalars


def cases(tier):
    th = tier == "thorough"
    out = []
    nxt = dict(zip(SELECTABLE, SELECTABLE[1:] + SELECTABLE[:1]))
    for c in grid(
        net=["mlp", "conv1", "reuse", "seq", "nest"],
        s=SELECTABLE,
        profile=["plain", "like", "period", "norm"],
    ):
        for w in itertools.product(EVENTS, repeat=3 if th else 2):
            out.append({"kind": "train", **c, "s": [c["s"], nxt[c["s"]]], "word": list(w)})
    for c in grid(net=["two"], s=SELECTABLE, profile=["period"]):
        for w in itertools.product(EVENTS, repeat=4 if th else 3):
            out.append({"kind": "train", **c, "s": [nxt[c["s"]], c["s"]], "word": list(w)})
    for c in grid(net=["two", "conv1"], s=list(STRUCTS)[6:], profile=["plain", "half"]):
        for w in itertools.product("RALI", repeat=2):
            out.append({"kind": "train", **c, "s": [c["s"], c["s"]], "word": list(w)})
    for c in grid(net=["wide", "wide2"], s=SELECTABLE, profile=["plain", "half", "like", "norm"]):
        for w in itertools.product("RA", repeat=1):
            out.append({"kind": "train", **c, "s": [c["s"], nxt[c["s"]]], "word": list(w)})
    for s in STRUCTS:
        for n in list(range(1, 17 if th else 9)) + [29, 31, 45, 61, 100]:
            out.append({"kind": "operations", "s": s, "n": n})
    for c in out:
        vals = [v if isinstance(v, (str, int)) else ",".join(v) for v in c.values()]
        c["id"] = "/".join(map(str, vals))
    return out


PROFILES = {
    "plain": {"T": 1, "lr_cov": 0.05, "damping": 0.1},
    "like": {"T": 1, "kfac_like": True, "alpha1": 0.0, "momentum": 0.0, "lr_cov": 0.05},
    "period": {"T": 2, "lr_cov": "alt", "normalize_lr_cov": True, "kfac_approx": "reduce"},
    "norm": {"T": 1, "alpha1": 0.0, "normalize_lr_cov": True, "kfac_approx": "reduce"},
    "half": {"T": 1, "lr_cov": 0.05, "preconditioner_dtype": (torch.bfloat16, torch.float16)},
}


def reachable(root):
    """Tensors and number of container entries reachable from the optimizer's attributes."""
    seen, todo, tensors, entries = set(), [root], [], 0
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, torch.Tensor):
            tensors.append(o)
        elif isinstance(o, dict):
            entries += len(o)
            todo += list(o.keys()) + list(o.values())
        elif isinstance(o, (list, tuple, set, frozenset)):
            entries += len(o)
            todo += list(o)
        elif isinstance(o, nn.Module) or isinstance(o, type) or callable(o):
            continue
        elif hasattr(o, "__dict__") and not isinstance(o, torch.optim.Optimizer):
            entries += len(vars(o))
            todo.append(vars(o))
    return tensors, entries


def storage(tensors):
    seen = {}
    for t in tensors:
        s = t.untyped_storage()
        seen[s.data_ptr() if s.nbytes() else id(t)] = s.nbytes()
    return sum(seen.values())


def live():
    gc.collect()
    return storage([o for o in gc.get_objects() if issubclass(type(o), torch.Tensor)])


def free_entries(s, n):
    return int(S.count(STRUCTS[s][1], n))


def run(spec, st):
    globals()[spec["kind"]](spec, st)
    st.sample(spec["id"])


def train(spec, st):
    st.case(spec["id"])
    hp = hyper({**DEFAULTS, "lr": 0.01, **PROFILES[spec["profile"]], "structures": spec["s"]})
    with torch.backends.mkldnn.flags(enabled=spec["profile"] != "half"):
        walk(spec, st, hp)


def walk(spec, st, hp):
    net = make_net(spec["net"])
    batches = [make_batch(spec["net"], i) for i in range(2)]
    gc.collect()
    gc.freeze()  # objects which exist now are never looked at again
    opt = XSINGD(net, **hp)
    opt.zero_grad()
    dtypes = hp.get("preconditioner_dtype", (None, None))
    half = dtypes[0] is not None
    layers = [Layer("", m, c, hp, 0) for m, c in zip(net.layers, NETS[spec["net"]][0])]
    factor, extra = [], 0
    for la in layers:
        sizes = zip(spec["s"], (la.dK, la.dC))
        factor.append(sum(free_entries(s, n) * (2 if half else 4) for s, n in sizes))
        if hp["momentum"] != 0.0:
            extra += sum(p.numel() * 4 for p in la.module.parameters())
    own = {id(p) for p in net.parameters()}
    exact = all(s in SELECTABLE for s in spec["s"])
    t, pending, saved, hooks = 0, False, opt.state_dict(), None
    saved = copy.deepcopy(saved)

    def check(what):
        tensors, entries = reachable(vars(opt))
        mine = [x for x in tensors if id(x) not in own]
        held = storage(mine) if exact else sum(x.numel() * x.element_size() for x in mine)
        times = 1 + (hp["alpha1"] != 0.0) + pending
        bound = sum(factor) * times + extra + SLACK * len(layers)
        require(
            held <= bound,
            f"{held} bytes reachable from the optimizer, expected at most {bound}, {what}",
        )
        return entries

    def loss(i, scale=1.0):
        x, y = batches[i % 2]
        return loss_fn(net(x), y, hp["loss_average"]) * scale

    def event(e):
        nonlocal t, pending
        on = t % hp["T"] == 0
        if e in "RAGI":
            opt.zero_grad()
            for k in range(2 if e == "A" else 1):
                loss(k, 4.0 if e == "G" else 1.0).backward()
            pending = pending or on
            check("before the step")
            if e == "G":
                opt.set_current_grad_scale(4.0)
            if e == "I":
                opt.found_inf = torch.tensor(1.0)
            opt.step()
            if e == "I":
                del opt.found_inf
            pending = pending and not on and e != "I"
            t += 1
        elif e == "Z":
            opt.zero_grad()
            opt.step()
            pending = pending and not on
            t += 1
        elif e == "D":
            loss(0)
        elif e == "N":
            with torch.no_grad():
                loss(0)
        elif e == "C":
            copy.deepcopy(opt.state_dict())
        elif e == "L":
            opt.load_state_dict(copy.deepcopy(opt.state_dict()))
        st.transitions += 1

    word = spec["word"] * hp["T"]
    if not set(word) & set("RAGIZ"):
        word = word + ["R"] * hp["T"]
    for i in range(hp["T"]):  # all buffers exist from now on
        event("R")
    before = None
    for rnd in range(3):
        for k, e in enumerate(word):
            event(e)
            entries = check(f"after event {k} ({e}) in round {rnd}")
        opt.zero_grad()
        hooks = sum(
            len(h)
            for m in net.modules()
            for n, h in vars(m).items()
            if n.endswith("_hooks") and h is not None
        )
        now = {"bytes of live tensors": live(), "container entries": entries, "hooks": hooks}
        if before is not None:
            for what, value in now.items():
                require(
                    value <= before[what],
                    f"{what}: {before[what]} before, {value} after repeating {word}",
                )
        before = now
    st.state(spec["id"], t, pending)
    st.outcome((spec["net"], str(now)))
    st.traces += 1


def operations(spec, st):
    s, n = spec["s"], spec["n"]
    cls = STRUCTS[s][0]
    rs = rng("c24", s, n)
    A, B = (build(s, M) for M in members(s, n, rs, 2))
    Q, X = tensor(rs.uniform(-1, 1, (n, n))), tensor(rs.uniform(-1, 1, (n, 5)))
    Q = Q + Q.T
    ops = {
        "eye": lambda: cls.eye(n),
        "zeros": lambda: cls.zeros(n),
        "from_dense": lambda: cls.from_dense(Q),
        "from_inner": lambda: A.from_inner(),
        "from_inner of a tensor": lambda: A.from_inner(X=X),
        "product": lambda: A @ B,
        "sum": lambda: A + B,
        "multiple": lambda: A * 2.0,
        "in-place sum": lambda: (A * 1.0).add_(B, alpha=2.0),
        "in-place multiple": lambda: (A * 1.0).mul_(2.0),
        "shift": lambda: (A * 1.0).diag_add_(2.0),
        "copy": lambda: copy.deepcopy(A),
    }
    want = 4 * free_entries(s, n)
    for name, fn in ops.items():
        st.case((spec["id"], name))
        tensors, _ = reachable(fn())
        if s in SELECTABLE and name != "from_dense":
            held = storage(tensors)
        else:
            held = sum(x.numel() * x.element_size() for x in tensors)
        require(held <= want, f"{name} of {s}, size {n}: {held} bytes, expected {want}")
    st.outcome((spec["id"], want))
