"""Equivalent presentations of the same training problem."""

import itertools

import numpy as np
import torch
from torch import nn
from torch.nn import functional as F

from mc import spec as S
from mc.core import arr, close, rng
from mc.sim import DEFAULTS, SELECTABLE, STRUCTS, XSINGD, hyper
from mc.words import grid

LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of a catalogue of presentation changes (all permutations of "
    "samples, features and layers, all equivalent structures, layer rewrites); both "
    "presentations are trained by the real optimizer and compared after every step"
)
RULE = (
    "One case is one training problem and two presentations of it. samples: all 24 orders "
    "of a batch, duplicated batches. order: all registration orders and nestings of layers. "
    "dims: linear layers with split or unit shared dimensions. layer: 1x1 and full-size "
    "convolutions vs. linear layers; padding inside vs. in front of a convolution, named "
    "padding; strided 1x1 convolutions vs. sub-sampling. structure: all pairs of structures "
    "which describe the same set of matrices at a size. features: all permutations of "
    "input features and output units for dense and diagonal pre-conditioners, rotations "
    "for dense ones. option: loss averaging and approximation options which coincide "
    "without shared dimensions. layout: other memory layouts of parameters, inputs, gradients "
    "(channels last, strided, views of one buffer, broadcast), also replaced between two "
    "steps. call: inputs passed by keyword, un-batched inputs vs. batches of one. Parameters "
    "must agree up to rounding after every step. "
    "Non-trivial: distinct pair of presentations."
)
BOUNDS = {"quick": "4 steps", "thorough": "12 steps"}
ASSUMPTIONS = ["two float32 executions are compared up to 3e-4 of the largest entry"]


class Problem:
    """A model with data, trained by the real optimizer.

    inputs(i) -> x, y; read() -> list of matrices to be compared.
    """

    def __init__(self, net, hp, data, read, loss=None, params=None):
        self.net, self.data, self.read = net, data, read
        self.hp = hyper({**DEFAULTS, "lr": 0.02, "lr_cov": 0.02, "damping": 0.1, **hp})
        self.opt = XSINGD(net, params, **self.hp)
        self.loss = loss or self.default_loss

    def default_loss(self, out, y):
        loss = 0.5 * ((out - y) ** 2).sum()
        if self.hp["loss_average"] is not None:
            loss = loss / out.shape[0]
        if self.hp["loss_average"] == "batch+sequence":
            loss = loss / out.shape[1:-1].numel()
        return loss

    def step(self, i):
        x, y = self.data(i)
        self.opt.zero_grad()
        self.loss(self.net(x), y).backward()
        self.opt.step()


def compare(a, b, steps, what, st):
    for i in range(steps):
        a.step(i)
        b.step(i)
        ra, rb = a.read(), b.read()
        for k, (x, y) in enumerate(zip(ra, rb)):
            if not float(np.abs(np.nan_to_num(arr(y), nan=1e9)).max()) < 1e3:
                return  # rounding errors of a diverging problem are amplified
            scale = max(float(np.abs(arr(y)).max()), 1e-2)
            close(x, arr(y), f"quantity {k} after step {i}: {what}", scale, 3e-4)
        st.transitions += 1
    st.traces += 1
    st.state(*(arr(x).tobytes() for x in ra))
    st.outcome([arr(x).tobytes() for x in ra])


def values(*key, shape, amp=0.8):
    return torch.from_numpy(rng("c23", *key).uniform(-amp, amp, size=shape)).float()


def filled(net, key="w"):
    with torch.no_grad():
        for n, p in net.named_parameters():
            p.copy_(values(key, n, tuple(p.shape), shape=tuple(p.shape)))
    return net


def mlp(bias=True, act=nn.Tanh):
    return nn.Sequential(nn.Linear(3, 4, bias=bias), act(), nn.Linear(4, 2))


def params(net):
    return lambda: [p.detach() for p in net.parameters()]


def batch(i, shape, out, n=4):
    return values("x", i, shape=(n,) + shape), values("y", i, shape=(n,) + out)


# ------------------------------------------------------------------------ the variants


def samples(spec, st, steps):
    net_shapes = {"flat": ((3,), (2,)), "seq": ((2, 3), (2, 2))}
    shape, out = net_shapes[spec["net"]]
    for perm in itertools.permutations(range(4)):
        st.case((spec["id"], perm))
        nets = filled(mlp()), filled(mlp())
        perm = list(perm)

        def shuffled(i):
            x, y = batch(i, shape, out)
            # another order in every step
            p = perm if i % 2 == 0 else perm[::-1]
            return x[p], y[p]

        a = Problem(nets[0], spec["hp"], shuffled, params(nets[0]))
        b = Problem(nets[1], spec["hp"], lambda i: batch(i, shape, out), params(nets[1]))
        compare(a, b, steps, f"samples in order {perm}", st)
    if spec["hp"]["loss_average"] is None:
        return
    for copies in (2, 3):
        st.case((spec["id"], "copies", copies))
        nets = filled(mlp()), filled(mlp())

        def repeated(i):
            x, y = batch(i, shape, out)
            return torch.cat([x] * copies), torch.cat([y] * copies)

        a = Problem(nets[0], spec["hp"], repeated, params(nets[0]))
        b = Problem(nets[1], spec["hp"], lambda i: batch(i, shape, out), params(nets[1]))
        compare(a, b, steps, f"every sample {copies} times", st)


class Ordered(nn.Module):
    """The same three layers, registered in any order and nesting."""

    def __init__(self, order, nest, odd=True):
        super().__init__()
        sizes = [(3, 4, True), (4, 4, False), (4, 2, True)] if odd else [(4, 4, True)] * 3
        layers = [nn.Linear(i, o, bias=b) for i, o, b in sizes]
        for k, layer in enumerate(layers):
            with torch.no_grad():
                for n, p in layer.named_parameters():
                    p.copy_(values("ord", k, n, shape=tuple(p.shape)))
        if nest:
            self.inner = nn.Module()
        for k in order:
            if nest == "same name":  # in several containers
                parent = nn.Module()
                self.add_module("cab"[k], parent)
                parent.add_module("fc", layers[k])
                continue
            parent = self.inner if nest and k != 1 else self
            parent.add_module(f"{'zyx'[k] if nest else 'abc'[k]}_layer", layers[k])
        self.chain = [lambda x, la=la: la(x) for la in layers]
        self.get = lambda: [p.detach() for la in layers for p in la.parameters()]

    def forward(self, x):
        for k, f in enumerate(self.chain):
            x = f(x).tanh() if k < 2 else f(x)
        return x


def order(spec, st, steps):
    for perm in itertools.permutations(range(3)):
        for nest in (False, True, "same name"):
            st.case((spec["id"], perm, nest))
            for odd in (True, False):  # layers of different or equal shapes
                io = ((3,), (2,)) if odd else ((4,), (4,))
                n1, n2 = Ordered(perm, nest, odd), Ordered((0, 1, 2), False, odd)
                a = Problem(n1, spec["hp"], lambda i: batch(i, *io), n1.get)
                b = Problem(n2, spec["hp"], lambda i: batch(i, *io), n2.get)
                compare(a, b, steps, f"layers registered as {perm}, nested: {nest}", st)


def dims(spec, st, steps):
    shapes = {1: [(1,), (1, 1), ()], 6: [(6,), (2, 3), (3, 2), (1, 6), (6, 1), (2, 1, 3)]}
    for n, alternatives in shapes.items():
        for s1, s2 in itertools.combinations(alternatives, 2):
            st.case((spec["id"], s1, s2))
            probs = []
            for s in (s1, s2):
                net = filled(mlp())

                def data(i, s=s):
                    x, y = batch(i, (n, 3), (n, 2))
                    return x.reshape((4,) + s + (3,)), y.reshape((4,) + s + (2,))

                probs.append(Problem(net, spec["hp"], data, params(net)))
            compare(*probs, steps, f"shared dimensions {s1} vs. {s2}", st)


class Front(nn.Module):
    """`front` (no parameters), then one layer, then flattening and a linear layer."""

    def __init__(self, front, layer, head, post):
        super().__init__()
        self.layer, self.head = layer, head
        self.front, self.post = front, post

    def forward(self, x):
        return self.head(self.post(self.layer(self.front(x))).flatten(start_dim=1))

    def get(self):
        out = [self.layer.weight.detach().flatten(start_dim=1)]
        if self.layer.bias is not None:
            out.append(self.layer.bias.detach())
        return out + [p.detach() for p in self.head.parameters()]


def rewrites(bias):
    """name -> (shape, [(front, layer, post), (front, layer, post)], shared dims agree)"""
    def nop(x):
        return x.tanh()

    def cl(x):  # channels last, for linear layers over all locations
        return x.permute(0, 2, 3, 1)

    def clback(x):
        return x.permute(0, 3, 1, 2).tanh()

    def flat(x):
        return x.flatten(start_dim=1)

    conv = lambda *a, **k: nn.Conv2d(*a, bias=bias, **k)  # noqa: E731
    lin = lambda i, o: nn.Linear(i, o, bias=bias)  # noqa: E731
    return {
        "1x1": ((2, 2, 3), (lambda x: x, conv(2, 3, 1), nop), (cl, lin(2, 3), clback)),
        "full": ((2, 2, 3), (lambda x: x, conv(2, 3, (2, 3)), nop), (flat, lin(12, 3), nop)),
        "single": ((3, 1, 1), (lambda x: x, conv(3, 4, 1), nop), (flat, lin(3, 4), nop)),
        "fullpad": ((1, 2, 2), (lambda x: x, conv(1, 3, (4, 4), padding=1), nop),
                    (lambda x: F.pad(x, (1, 1, 1, 1)).flatten(start_dim=1), lin(16, 3), nop)),
        "padding": ((2, 3, 2), (lambda x: x, conv(2, 2, (2, 3), padding=(1, 2)), nop),
                    (lambda x: F.pad(x, (2, 2, 1, 1)), conv(2, 2, (2, 3)), nop)),
        "same": ((2, 3, 3), (lambda x: x, conv(2, 2, 3, padding="same"), nop),
                 (lambda x: x, conv(2, 2, 3, padding=1), nop)),
        "valid": ((2, 3, 3), (lambda x: x, conv(2, 2, 2, padding="valid"), nop),
                  (lambda x: x, conv(2, 2, 2), nop)),
        "circular": ((2, 3, 3), (lambda x: x, conv(2, 2, 3, padding=1, padding_mode="circular"), nop),
                     (lambda x: F.pad(x, (1, 1, 1, 1), mode="circular"), conv(2, 2, 3), nop)),
        "reflect": ((1, 3, 3), (lambda x: x, conv(1, 2, 2, padding=(1, 0), padding_mode="reflect"), nop),
                    (lambda x: F.pad(x, (0, 0, 1, 1), mode="reflect"), conv(1, 2, 2), nop)),
        "stride": ((2, 4, 3), (lambda x: x, conv(2, 3, 1, stride=(2, 1)), nop),
                   (lambda x: x[:, :, ::2], conv(2, 3, 1), nop)),
        "dilation": ((1, 4, 3), (lambda x: x, conv(1, 2, (2, 1), dilation=(3, 1)), nop),
                     (lambda x: x[:, :, ::3], conv(1, 2, (2, 1)), nop)),
        "crop": ((1, 6, 6), (lambda x: x, conv(1, 2, 2, stride=3), nop),
                 (lambda x: x[:, :, :5, :5], conv(1, 2, 2, stride=3), nop)),
    }  # fmt: skip


def layer(spec, st, steps):
    st.case(spec["id"])
    shape, *variants = rewrites(spec["bias"])[spec["name"]]
    probs = []
    for front, mod, post in variants:
        with torch.no_grad():
            n_out = post(mod(front(torch.zeros((1,) + shape)))).numel()
        net = Front(front, mod, nn.Linear(n_out, 2), post)
        with torch.no_grad():
            for n, p in net.named_parameters():
                key = (n, p.numel())
                p.copy_(values("rw", *key, shape=(p.numel(),)).reshape(p.shape))
        # positions of locations may differ in the flattened features, the head not
        probs.append(
            Problem(net, spec["hp"], lambda i: batch(i, shape, (2,)), net.get)
        )
    compare(*probs, steps, spec["id"], st)


def small_conv():
    return nn.Sequential(
        nn.Conv2d(2, 4, (3, 2), padding=(1, 0), groups=2),
        nn.Tanh(),
        nn.Conv2d(4, 3, 2, stride=(1, 2), bias=False),
        nn.Flatten(),
        nn.Linear(12, 2),
    )


def strided(t):
    big = torch.full(tuple(t.shape) + (2,), 9.0)
    big[..., 1] = t
    return big[..., 1]


def flat_buffer(net):
    """All parameters are views of one buffer."""
    ps = list(net.parameters())
    buf = torch.cat([p.detach().flatten() for p in ps])
    for p, v in zip(ps, buf.split([p.numel() for p in ps])):
        p.data = v.view_as(p)


def transposed_storage(net):
    for p in net.parameters():
        if p.ndim > 1:
            p.data = p.data.transpose(0, 1).contiguous().transpose(0, 1)


LAYOUTS = {  # change of the model, change of the inputs, change of the gradients
    "channels_last": (
        lambda net: net.to(memory_format=torch.channels_last),
        lambda x: x.contiguous(memory_format=torch.channels_last) if x.ndim == 4 else x,
        None,
    ),
    "strided inputs": (None, strided, None),
    "flat buffer": (flat_buffer, None, None),
    "transposed storage": (transposed_storage, lambda x: x.transpose(0, 1).contiguous().transpose(0, 1), None),
    "strided gradients": (None, None, strided),
    "broadcast inputs": (None, None, None),
}  # fmt: skip


def moved(net):
    for p in net.parameters():
        p.data = p.data.clone()


def vector_round_trip(net):
    vec = nn.utils.parameters_to_vector(net.parameters()).detach().clone()
    nn.utils.vector_to_parameters(vec, net.parameters())


LATE = {  # changes of the model between two steps
    "moved data": moved,
    "vector round trip": vector_round_trip,
    "late flat buffer": flat_buffer,
    "late channels_last": LAYOUTS["channels_last"][0],
    "late transposed storage": transposed_storage,
}


class Laid(Problem):
    def step(self, i):
        if self.change_late is not None:
            self.change_late(self.net)
        if self.change_grad is None:
            return super().step(i)
        x, y = self.data(i)
        self.opt.zero_grad()
        self.loss(self.net(x), y).backward()
        for p in self.net.parameters():
            p.grad = self.change_grad(p.grad)
        self.opt.step()


def layout(spec, st, steps):
    shape, make, out = {
        "flat": ((3,), mlp, (2,)),
        "seq": ((2, 3), mlp, (2, 2)),
        "conv": ((2, 3, 5), small_conv, (2,)),
    }[spec["net"]]
    change_net, change_x, change_grad = LAYOUTS.get(spec["what"], (None, None, None))
    st.case(spec["id"])
    probs = []
    for changed in (True, False):
        net = filled(make())
        if changed and change_net is not None:
            change_net(net)

        def data(i, changed=changed):
            x, y = batch(i, shape, out)
            if spec["what"] == "broadcast inputs":  # all samples are the same tensor
                x = x[:1].expand_as(x) if changed else x[:1].repeat(4, *[1] * len(shape))
            elif changed and change_x is not None:
                x = change_x(x)
            return x, y

        prob = Laid(net, spec["hp"], data, params(net))
        prob.change_grad = change_grad if changed else None
        prob.change_late = LATE.get(spec["what"]) if changed else None
        probs.append(prob)
    compare(*probs, steps, spec["id"], st)


def equivalent(n):
    """Pairs of structures describing the same matrices of size n."""
    toep = ("triltoeplitz", "triutoeplitz", "tr_triu")
    for a, b in itertools.combinations(STRUCTS, 2):
        sa, sb = STRUCTS[a][1], STRUCTS[b][1]
        if n > 1 and (a in toep or b in toep):
            continue
        if (S.mask(sa, n) == S.mask(sb, n)).all():
            yield a, b


def structure(spec, st, steps):
    dK, dC = spec["dK"], spec["dC"]
    a, b = spec["pair"]
    for side in ("K", "C"):
        st.case((spec["id"], side))
        probs = []
        for s in (a, b):
            net = filled(nn.Sequential(nn.Linear(dK, dC, bias=False)))
            hp = {**spec["hp"]}
            hp["structures"] = [s, "dense"] if side == "K" else ["dense", s]
            probs.append(Problem(net, hp, lambda i: batch(i, (dK,), (dC,)), params(net)))
        compare(*probs, steps, f"structures {a} and {b} for {side}, sizes {dK}, {dC}", st)


def features(spec, st, steps):
    def build(P, Q):
        """Input features rotated by P, hidden units by Q."""
        net = filled(nn.Sequential(nn.Linear(3, 3), nn.Identity(), nn.Linear(3, 2)))
        with torch.no_grad():
            net[0].weight.copy_(Q @ net[0].weight @ P.T)
            net[0].bias.copy_(Q @ net[0].bias)
            net[2].weight.copy_(net[2].weight @ Q.T)

        def data(i):
            x, y = batch(i, (3,), (2,))
            return x @ P.T, y

        def read():
            return [
                Q.T @ net[0].weight.detach() @ P,
                Q.T @ net[0].bias.detach(),
                net[2].weight.detach() @ Q,
                net[2].bias.detach(),
            ]

        return Problem(net, spec["hp"], data, read)

    eye = torch.eye(3)
    if spec["what"] == "perm":
        mats = [eye[list(p)] for p in itertools.permutations(range(3))]
    else:
        mats = []
        for i, j in [(0, 1), (0, 2), (1, 2)]:
            for t in (0.3, 1.1):
                R = torch.eye(3)
                c, s = float(np.cos(t)), float(np.sin(t))
                R[i, i] = R[j, j] = c
                R[i, j], R[j, i] = -s, s
                mats.append(R)
    for P, Q in itertools.product(mats, repeat=2):
        st.case((spec["id"], str(P.tolist()), str(Q.tolist())))
        compare(build(P, Q), build(eye, eye), steps, f"{spec['what']} of features", st)


class Called(nn.Module):
    """Layers that are called in another way."""

    def __init__(self, layers, how, conv):
        super().__init__()
        self.layers, self.how = nn.ModuleList(layers), how
        self.conv = conv

    def forward(self, x):
        if "unbatched" in self.how:
            x = x.squeeze(0)
        for k, la in enumerate(self.layers):
            if k == 1 and self.conv:
                x = x.flatten(start_dim=x.ndim - 3)
            x = la(input=x) if "keyword" in self.how else la(x)
            x = x.tanh() if k == 0 else x
        return x.unsqueeze(0) if "unbatched" in self.how else x


def call(spec, st, steps):
    n = 1 if "unbatched" in spec["how"] else 4
    io = ((2, 3, 3), (2,)) if spec["conv"] else ((3,), (2,))
    probs = []
    st.case(spec["id"])
    for how in (spec["how"], ""):
        first = nn.Conv2d(2, 3, 2, bias=spec["bias"]) if spec["conv"] else nn.Linear(3, 4)
        second = nn.Linear(12 if spec["conv"] else 4, 2, bias=spec["bias"])
        net = filled(Called([first, second], how, spec["conv"]))
        probs.append(Problem(net, spec["hp"], lambda i: batch(i, *io, n=n), params(net)))
    compare(*probs, steps, f"layers called by/on {spec['how']}", st)


def option(spec, st, steps):
    shape, make, out = {
        "flat": ((3,), mlp, (2,)),
        "conv": ((2, 2, 2), lambda: nn.Sequential(nn.Conv2d(2, 3, 2), nn.Flatten(), nn.Linear(3, 2)), (2,)),
    }[spec["net"]]  # fmt: skip
    st.case(spec["id"])
    probs = []
    for hp in (spec["one"], spec["two"]):
        net = filled(make())

        def loss(o, y):
            return 0.5 * ((o - y) ** 2).sum() / o.shape[0]

        probs.append(
            Problem(net, {**spec["hp"], **hp}, lambda i: batch(i, shape, out), params(net), loss)
        )
    compare(*probs, steps, f"{spec['one']} vs. {spec['two']}", st)


def cases(tier):
    th = tier == "thorough"
    out = []
    base = list(
        grid(like=[False, True], norm=[False, True], T=[1, 2], avg=["batch", "batch+sequence"])
    )
    nxt = dict(zip(SELECTABLE, SELECTABLE[1:] + SELECTABLE[:1]))

    def hp(c, s):
        return {"kfac_like": c["like"], "alpha1": 0.0 if c["like"] else 0.5,
                "normalize_lr_cov": c["norm"], "T": c["T"], "loss_average": c["avg"],
                "structures": [s, nxt.get(s, s)], "kfac_approx": c.get("ap", "expand")}  # fmt: skip

    def add(kind, tag_, **kw):
        out.append({"id": f"{kind}/{tag_}", "kind": kind, "steps": 12 if th else 4, **kw})

    for c, s in itertools.product(base, SELECTABLE + ["block2", "hier12", "nested"]):
        tag = ",".join(str(v) for v in c.values()) + f"/{s}"
        if c["avg"] == "batch" and (th or c["T"] == 1 or not c["like"]):
            add("samples", f"flat/{tag}", net="flat", hp=hp(c, s))
            add("order", tag, hp=hp(c, s))
        for ap in ("expand", "reduce"):
            h = {**hp(c, s), "kfac_approx": ap}
            if s in SELECTABLE[::2] and (th or not c["norm"]):
                add("samples", f"seq/{tag}/{ap}", net="seq", hp=h)
            add("dims", f"{tag}/{ap}", hp=h)
            for bias in (False, True):
                for name in rewrites(True):
                    if not th and (c["norm"] or s in ("hier12", "nested") or c["T"] == 2 - bias):
                        continue
                    add("layer", f"{name}/{bias}/{tag}/{ap}", name=name, bias=bias, hp=h)
    for h in [{"loss_average": None, "lr": 0.005, "kfac_approx": a} for a in ("expand", "reduce")]:
        for net in ("flat", "seq"):
            add("samples", f"{net}/sum/{h['kfac_approx']}", net=net, hp=h)
    for n in range(1, 7 if not th else 9):
        for pair in equivalent(n):
            for like, norm in itertools.product([False, True], repeat=2):
                h = {"kfac_like": like, "alpha1": 0.0 if like else 0.6, "normalize_lr_cov": norm}
                add("structure", f"{n}/{pair}/{like}/{norm}", pair=list(pair), dK=n, dC=n, hp=h)
    for s in ("dense", "diagonal"):
        for like, norm, T in itertools.product([False, True], [False, True], [1, 2]):
            h = {"kfac_like": like, "alpha1": 0.0 if like else 0.6, "T": T,
                 "normalize_lr_cov": norm, "structures": [s, s]}  # fmt: skip
            add("features", f"perm/{s}/{like}/{norm}/{T}", what="perm", hp=h)
            if s == "dense" and not norm:
                add("features", f"rotation/{like}/{T}", what="rotation", hp=h)
    for net, what, s, like, ap in itertools.product(
        ["flat", "seq", "conv"], [*LAYOUTS, *LATE], SELECTABLE, [False, True], ["expand", "reduce"]
    ):
        h = {"kfac_like": like, "alpha1": 0.0 if like else 0.5, "structures": [s, nxt[s]],
             "kfac_approx": ap}  # fmt: skip
        add("layout", f"{net}/{what}/{s}/{like}/{ap}", net=net, what=what, hp=h)
    for how, conv, bias, s, like, ap, avg in itertools.product(
        ["keyword", "unbatched", "keyword unbatched"], [False, True], [False, True], SELECTABLE,
        [False, True], ["expand", "reduce"], [None, "batch", "batch+sequence"],
    ):  # fmt: skip
        h = {"kfac_like": like, "alpha1": 0.0 if like else 0.5, "structures": [s, nxt[s]],
             "kfac_approx": ap, "loss_average": avg, "lr": 0.02 if avg else 0.005}  # fmt: skip
        tag = f"{how}/{conv}/{bias}/{s}/{like}/{ap}/{avg}"
        add("call", tag, how=how, conv=conv, bias=bias, hp=h)
    for net, s, like in itertools.product(["flat", "conv"], SELECTABLE, [False, True]):
        h = {"kfac_like": like, "alpha1": 0.0 if like else 0.5, "structures": [s, nxt[s]]}
        opts = [{"loss_average": a, "kfac_approx": k}
                for a in ("batch", "batch+sequence") for k in ("expand", "reduce")]  # fmt: skip
        for k, other in enumerate(opts[1:]):
            add("option", f"{net}/{s}/{like}/{k}", net=net, hp=h, one=opts[0], two=other)
    return out


def run(spec, st):
    globals()[spec["kind"]](spec, st, spec["steps"])
    st.sample(spec)
