"""Which parameters a step may change."""

import itertools
import warnings

import numpy as np
import torch
from torch import nn
from torch.nn.utils import parametrizations

from mc import spec as S
from mc.core import arr, close, require, rng, same
from mc.sim import DEFAULTS, XSINGD, hyper, linear

LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of parameter subsets, trainability masks and words of events "
    "(which layers take part, freezing, stale or zeroed gradients), executed on the real "
    "optimizer against an oracle of which parameters change and how"
)
RULE = (
    "One case is one history. subset: all non-empty subsets of 5 parameters handed over x "
    "all 32 masks of trainable parameters, with a mask change in between. word: all words "
    "over the layers that take part (every subset of 3), steps without backward pass, "
    "zeroing instead of dropping gradients, keeping stale gradients and toggling "
    "parameters; both with and without a gradient for the input of the first layer. tree: "
    "all pairs of 13 kinds of modules in a nested tree, default and "
    "explicit selection, with and without warnings. After every step, each parameter that was not "
    "handed over or has no gradient must be bitwise unchanged, with its momentum; all "
    "others must follow the update rule with zeros in place of untrained gradients; "
    "buffers must not change. Non-trivial: distinct history or tree."
)
BOUNDS = {
    "quick": "992 subset/mask pairs of 5 parameters; words of length 3 over 14 events for "
    "4 subsets; 338 trees",
    "thorough": "992 subset/mask pairs for 3 structures and periods; words of length 4 over "
    "14 events for 4 subsets; 338 trees",
}
ASSUMPTIONS = ["float32 compared with a float64 reference (relative tolerance 1e-4)"]

MASKS = ["111", "110", "101", "011", "100", "010", "001"]
ALPHABET = MASKS + ["none", "stale", "zero", "t0", "t1", "t2", "t4"]
CONFS = [linear(3, 3), linear(3, 3, False), linear(3, 3)]
# position of the layers' parameters in the list of 5 parameters
PARAMS = {0: [0, 1], 1: [2], 2: [3, 4]}


class Skippable(nn.Module):
    """Layers that can be left out; carries a buffer and an unsupported layer."""

    def __init__(self, key):
        super().__init__()
        self.layers = nn.ModuleList(
            nn.Linear(c["in"], c["out"], bias=c["bias"]) for c in CONFS
        )
        self.norm = nn.BatchNorm1d(3)
        rs = rng("skippable", key)
        with torch.no_grad():
            for p in self.layers.parameters():
                p.copy_(torch.from_numpy(rs.uniform(-0.8, 0.8, size=tuple(p.shape))))

    def forward(self, x, mask):
        x = self.norm(x)
        for m, layer in zip(mask, self.layers):
            if m == "1":
                x = layer(x).tanh()
        return x


class Machine:
    """The real optimizer and the oracle of its parameter updates."""

    def __init__(self, hp, handed, trainable, st, first=False):
        """first: whether no gradient is propagated to the input of the first layer."""
        self.st = st
        self.net = Skippable("net")
        self.net.norm.requires_grad_(not first)
        self.params = list(self.net.layers.parameters())
        self.handed = handed
        self.hp = {**DEFAULTS, **hp}
        self.set_mask(trainable)
        ps = None if handed is None else [self.params[i] for i in handed]
        if handed is None:
            self.handed = [i for i in range(5) if trainable[i]]
        self.opt = XSINGD(self.net, ps, warn_unsupported=False, **hyper(self.hp))
        self.buf = {}
        self.t = 0

    def set_mask(self, mask):
        for p, m in zip(self.params, mask):
            p.requires_grad_(bool(m))

    def toggle(self, i):
        p = self.params[i]
        p.requires_grad_(not p.requires_grad)
        if not p.requires_grad:
            p.grad = None

    def backward(self, mask):
        rs = rng("skipdata", self.t)
        x = torch.from_numpy(rs.uniform(-1, 1, size=(3, 3))).float()
        y = torch.from_numpy(rs.uniform(-1, 1, size=(3, 3))).float()
        loss = 0.5 * ((self.net(x, mask) - y) ** 2).sum() / 3
        if loss.requires_grad:
            loss.backward()

    def do(self, e):
        if e[0] == "t":
            self.toggle(int(e[1]))
            return
        if e in MASKS:
            self.net.zero_grad()
            self.backward(e)
        elif e == "none":
            self.net.zero_grad()
        elif e == "zero":
            self.net.zero_grad(set_to_none=False)
            self.backward("100")
        elif e == "stale":
            self.backward("001")
        self.step()

    def step(self):
        old = [p.detach().clone() for p in self.params]
        grads = [None if p.grad is None else p.grad.clone() for p in self.params]
        rest = {
            n: t.detach().clone()
            for n, t in itertools.chain(
                self.net.norm.named_parameters(), self.net.norm.named_buffers()
            )
        }
        old_buf = [self.buffer(i) for i in range(5)]
        self.opt.step()
        for n, t in itertools.chain(
            self.net.norm.named_parameters(), self.net.norm.named_buffers()
        ):
            same(t.detach(), rest[n], f"norm.{n} after step {self.t}")
        hp = self.hp
        for li, idx in PARAMS.items():
            trained = [i for i in idx if i in self.handed and grads[i] is not None]
            for i in idx:
                if i not in trained:
                    what = f"parameter {i}, not to be trained, after step {self.t}"
                    same(self.params[i].detach(), old[i], what)
                    now = self.buffer(i)
                    require((now is None) == (old_buf[i] is None), f"momentum of {what}")
                    if now is not None:
                        same(now, old_buf[i], f"momentum of {what}")
            if not trained:
                continue
            mat = [arr(grads[i] if i in trained else torch.zeros_like(old[i])) for i in idx]
            G = mat[0] if len(mat) == 1 else np.concatenate([mat[0], mat[1][:, None]], 1)
            name = f"layers.{li}"
            K, C = arr(self.opt.Ks[name].to_dense()), arr(self.opt.Cs[name].to_dense())
            nat, mag = S.natural_gradient(K, C, G)
            parts = [nat] if len(idx) == 1 else [nat[:, :-1], nat[:, -1]]
            for i, d in zip(idx, parts):
                if i not in trained:
                    continue
                q = arr(old[i])
                step = d + hp["weight_decay"] * q + hp["momentum"] * self.buf.get(i, 0.0)
                self.buf[i] = step
                size = hp["lr"] * (mag + np.abs(step).max()) + 4e-3 * np.abs(q).max()
                close(
                    self.params[i],
                    q - hp["lr"] * step,
                    f"parameter {i} after step {self.t}",
                    size,
                )
        self.t += 1
        self.st.transitions += 1
        self.st.state(*(p.detach().numpy().tobytes() for p in self.params))

    def buffer(self, i):
        b = self.opt.state.get(self.params[i], {}).get("momentum_buffer")
        return None if b is None else b.clone()


# -------------------------------------------------------------------------- module trees


class Holder(nn.Module):
    """Holds parameters directly."""

    def __init__(self):
        super().__init__()
        self.scale = nn.Parameter(torch.ones(3))


class SubLinear(nn.Linear):
    """A user's own linear layer."""


class LoraLinear(nn.Linear):
    """A linear layer which contains another one."""

    def __init__(self, i, o):
        super().__init__(i, o)
        self.adapter = nn.Linear(i, o, bias=False)


def frozen(layer, which):
    for n, p in layer.named_parameters():
        if n in which:
            p.requires_grad_(False)
    return layer


KINDS = {
    "linear": lambda: nn.Linear(3, 2),
    "nobias": lambda: nn.Linear(2, 3, bias=False),
    "conv2d": lambda: nn.Conv2d(2, 2, 2),
    "frozen": lambda: frozen(nn.Linear(3, 2), ("weight", "bias")),
    "frozenbias": lambda: frozen(nn.Conv2d(1, 2, 2), ("bias",)),
    "sublinear": lambda: SubLinear(2, 2),
    "layernorm": lambda: nn.LayerNorm(3),
    "batchnorm": lambda: nn.BatchNorm2d(2),
    "conv1d": lambda: nn.Conv1d(2, 2, 2),
    "embedding": lambda: nn.Embedding(3, 2),
    "holder": lambda: Holder(),
    "lora": lambda: LoraLinear(2, 2),
    "weightnorm": lambda: parametrizations.weight_norm(nn.Linear(2, 2)),
}


def tree(a, b, own):
    inner = nn.Module()
    inner.add_module("leaf_b", KINDS[b]())
    inner.add_module("always", nn.Linear(2, 2))
    if own:
        inner.register_parameter("own", nn.Parameter(torch.ones(2)))
    root = nn.Module()
    root.add_module("leaf_a", KINDS[a]())
    root.add_module("inner", inner)
    return root


def trained_by_default(root):
    """Names of parameters that have to be trained, names of modules to warn about."""
    trained, warned = set(), set()
    for name, mod in root.named_modules():
        leaf = not list(mod.children())
        own = [n for n, p in mod.named_parameters(recurse=False) if p.requires_grad]
        if isinstance(mod, (nn.Linear, nn.Conv2d)) and leaf:
            trained |= {f"{name}.{n}" for n in own}
        elif own:
            warned.add(name)
    return trained, warned


def hand_over(root, form):
    """All parameters of a tree: one list, or groups that spread those not trained."""
    params = [p for p in root.parameters() if p.requires_grad]
    if form != "spread":
        return params
    groups = [[], [], []]
    for mod in root.modules():
        leaf = isinstance(mod, (nn.Linear, nn.Conv2d)) and not list(mod.children())
        for i, p in enumerate(mod.parameters(recurse=False)):
            if p.requires_grad:
                groups[0 if leaf else 1 + i % 2].append(p)
    return [{"params": g} for g in groups if g]


def run_tree(spec, st):
    for own, warn, form in itertools.product(
        [False, True], [None, False, True], ["default", "list", "spread"]
    ):
        if form != "default" and {"lora", "weightnorm"} & {spec["a"], spec["b"]}:
            continue  # whether they are layers is only specified for the default
        st.case((spec["id"], own, warn, form))
        root = tree(spec["a"], spec["b"], own)
        trained, warned = trained_by_default(root)
        kw = {} if warn is None else {"warn_unsupported": warn}
        warn = warn is not False and form == "default"  # the default is to warn
        params = None if form == "default" else hand_over(root, form)
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            opt = XSINGD(root, params, lr=0.1, T=1, **kw)
        messages = [str(w.message) for w in log]
        if warn:
            for name in warned:
                require(
                    any(name in m for m in messages),
                    f"no warning names module '{name}' whose parameters are not trained",
                )
        if not warn or not warned:
            require(not messages, f"unexpected warnings: {messages}")
        held = {id(p) for g in opt.param_groups for p in g["params"]}
        # one step with gradients for all parameters
        for mod in root.modules():
            if isinstance(mod, nn.Linear) and not isinstance(mod, LoraLinear):
                out = mod(torch.ones(2, mod.in_features))
            elif isinstance(mod, nn.Conv2d):
                out = mod(torch.ones(2, mod.in_channels, 3, 3))
            else:
                continue
            if out.requires_grad:
                out.sum().backward()
        before = {}
        for n, p in root.named_parameters():
            p.grad = torch.full_like(p, 0.5)
            before[n] = p.detach().clone()
        buffers = {n: t.clone() for n, t in root.named_buffers()}
        opt.step()
        for n, p in root.named_parameters():
            changed = not torch.equal(before[n], p.detach())
            handed = p.requires_grad if params is not None else n in trained
            require((id(p) in held) == handed, f"{n}: held by the optimizer or not")
            require(changed == (n in trained), f"{n}: changed is {changed}")
        for n, t in root.named_buffers():
            same(t, buffers[n], f"buffer {n}")
        st.transitions += 1
        st.traces += 1
        st.state(sorted(trained), sorted(warned))
        st.outcome((sorted(trained), sorted(warned)))


# --------------------------------------------------------------------------------- cases


def cases(tier):
    out = []
    th = tier == "thorough"
    hps = [{"structures": ["dense", "dense"], "T": 1}]
    if th:
        hps += [{"structures": ["diagonal", "triltoeplitz"], "T": 2},
                {"structures": ["hier12", "block2"], "T": 1, "kfac_like": True, "alpha1": 0.0}]  # fmt: skip
    masks = list(itertools.product([0, 1], repeat=5))
    for h, hp in enumerate(hps):
        for k in range(1, 6):
            for handed in itertools.combinations(range(5), k):
                out.append({"id": f"subset/{h}/{handed}", "kind": "subset", "hp": hp,
                            "handed": list(handed)})  # fmt: skip
        out.append({"id": f"subset/{h}/default", "kind": "subset", "hp": hp, "handed": None})
    n = 4 if th else 3
    for hi, handed in enumerate([None, [0, 1, 2, 3], [4, 2, 0], [1, 3, 4]]):
        hp = {"structures": ["dense", "diagonal"], "T": 1 + hi % 2}
        for first in itertools.product(ALPHABET, repeat=n - 2):
            out.append({"id": f"word/{handed}/{'-'.join(first)}", "kind": "word", "hp": hp,
                        "handed": handed, "prefix": list(first)})  # fmt: skip
    for a, b in itertools.product(KINDS, repeat=2):
        out.append({"id": f"tree/{a}/{b}", "kind": "tree", "a": a, "b": b})
    return out


def run(spec, st):
    if spec["kind"] == "tree":
        return run_tree(spec, st)
    hp = spec["hp"]
    if spec["kind"] == "subset":
        masks = list(itertools.product([0, 1], repeat=5))
        for (mi, mask), first in itertools.product(enumerate(masks), (False, True)):
            if spec["handed"] is None and not any(mask):
                continue
            st.case((spec["id"], mask, first))
            m = Machine(hp, spec["handed"], mask, st, first)
            m.do("111")
            m.do("111")
            other = masks[(mi * 11 + 5) % 32]  # a different mask afterwards
            m.net.zero_grad()
            m.set_mask(other)
            m.do("111")
            m.do("110")
            m.set_mask((1, 1, 1, 1, 1))
            m.do("111")
            st.traces += 1
            st.outcome([p.detach().numpy().tobytes() for p in m.params])
        st.sample({"hp": hp, "handed": spec["handed"], "mask": mask, "then": other})
    else:
        for *rest, first in itertools.product(ALPHABET, ALPHABET, (False, True)):
            w = spec["prefix"] + list(rest)
            st.case((spec["id"], str(w), first))
            m = Machine(hp, spec["handed"], (1,) * 5, st, first)
            for e in w + (["111"] if w[-1][0] == "t" else []):
                m.do(e)
            st.traces += 1
            st.outcome([p.detach().numpy().tobytes() for p in m.params])
        st.sample({"hp": hp, "handed": spec["handed"], "word": w})
