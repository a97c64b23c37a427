"""Drives the real optimizer and the executable specification in lockstep.

One event of a history is executed on the implementation; the specification predicts
the successor state from the implementation's current state (so errors do not add
up) and from the inputs and output gradients recorded by the harness's own hooks.
"""


import numpy as np
import torch
from torch import nn

from mc import spec as S
from mc.core import EndOfHistory, arr, close, require, rng, same
from singd.optim.optimizer import SINGD
from singd.structures.blockdiagonal import (
    Block3DiagonalMatrix,
    BlockDiagonalMatrixTemplate,
)
from singd.structures.dense import DenseMatrix
from singd.structures.diagonal import DiagonalMatrix
from singd.structures.hierarchical import (
    Hierarchical3_2Matrix,
    HierarchicalMatrixTemplate,
)
from singd.structures.recursive import (
    RecursiveBottomLeftMatrixTemplate,
    RecursiveTopRightMatrixTemplate,
)
from singd.structures.trilbottomrightdiag import TrilBottomRightDiagonalMatrix
from singd.structures.triltoeplitz import TrilToeplitzMatrix
from singd.structures.triltopleftdiag import TrilTopLeftDiagonalMatrix
from singd.structures.triubottomrightdiag import TriuBottomRightDiagonalMatrix
from singd.structures.triutoeplitz import TriuToeplitzMatrix
from singd.structures.triutopleftdiag import TriuTopLeftDiagonalMatrix

INF = float("inf")


class Block1(BlockDiagonalMatrixTemplate):
    BLOCK_DIM = 1


class Block2(BlockDiagonalMatrixTemplate):
    BLOCK_DIM = 2


class Hier12(HierarchicalMatrixTemplate):
    MAX_K1, MAX_K2 = 1, 2


class Hier21(HierarchicalMatrixTemplate):
    MAX_K1, MAX_K2 = 2, 1


class TopRightDenseDiag(RecursiveTopRightMatrixTemplate):
    MAX_DIMS, CLS_A, CLS_C = (2, INF), DenseMatrix, DiagonalMatrix


class BottomLeftDiagDense(RecursiveBottomLeftMatrixTemplate):
    MAX_DIMS, CLS_A, CLS_C = (INF, 2), DiagonalMatrix, DenseMatrix


class TopRightTriu(RecursiveTopRightMatrixTemplate):
    MAX_DIMS, CLS_A, CLS_C = (2, INF), TriuToeplitzMatrix, TriuToeplitzMatrix


class NestedInner(RecursiveBottomLeftMatrixTemplate):
    MAX_DIMS, CLS_A, CLS_C = (1, INF), DiagonalMatrix, DenseMatrix


class Nested(RecursiveTopRightMatrixTemplate):
    MAX_DIMS, CLS_A, CLS_C = (2, INF), DenseMatrix, NestedInner


class TopRightHierBlock(RecursiveTopRightMatrixTemplate):
    MAX_DIMS, CLS_A, CLS_C = (INF, 3), Hier12, Block2


for _c in (
    TopRightDenseDiag,
    BottomLeftDiagDense,
    TopRightTriu,
    NestedInner,
    Nested,
    TopRightHierBlock,
):
    _c.WARN_NAIVE = False

D, G, T_L, T_U = ("dense",), ("diag",), ("tril",), ("triu",)

# name -> (class, descriptor); the first six are the structures users can select
STRUCTS = {
    "dense": (DenseMatrix, D),
    "diagonal": (DiagonalMatrix, G),
    "block30diagonal": (SINGD.SUPPORTED_STRUCTURES["block30diagonal"], ("block", 30)),
    "hierarchical15_15": (
        SINGD.SUPPORTED_STRUCTURES["hierarchical15_15"],
        ("hier", 15, 15),
    ),
    "triltoeplitz": (TrilToeplitzMatrix, T_L),
    "triutoeplitz": (TriuToeplitzMatrix, T_U),
    "block1": (Block1, ("block", 1)),
    "block2": (Block2, ("block", 2)),
    "block3": (Block3DiagonalMatrix, ("block", 3)),
    "hier12": (Hier12, ("hier", 1, 2)),
    "hier21": (Hier21, ("hier", 2, 1)),
    "hier32": (Hierarchical3_2Matrix, ("hier", 3, 2)),
    "trilbottomrightdiag": (TrilBottomRightDiagonalMatrix, ("bl", (1, INF), D, G)),
    "triltopleftdiag": (TrilTopLeftDiagonalMatrix, ("bl", (INF, 1), G, D)),
    "triubottomrightdiag": (TriuBottomRightDiagonalMatrix, ("tr", (1, INF), D, G)),
    "triutopleftdiag": (TriuTopLeftDiagonalMatrix, ("tr", (INF, 1), G, D)),
    "tr_dense_diag": (TopRightDenseDiag, ("tr", (2, INF), D, G)),
    "bl_diag_dense": (BottomLeftDiagDense, ("bl", (INF, 2), G, D)),
    "tr_triu": (TopRightTriu, ("tr", (2, INF), T_U, T_U)),
    "nested": (Nested, ("tr", (2, INF), D, ("bl", (1, INF), G, D))),
    "tr_hier_block": (
        TopRightHierBlock,
        ("tr", (INF, 3), ("hier", 1, 2), ("block", 2)),
    ),
}


SELECTABLE = list(STRUCTS)[:6]


class XSINGD(SINGD):
    """The optimizer, with further structures registered (documented extension point)."""

    SUPPORTED_STRUCTURES = {
        **SINGD.SUPPORTED_STRUCTURES,
        **{name: cls for name, (cls, _) in STRUCTS.items()},
    }


# ------------------------------------------------------------------------------ nets


def linear(i, o, bias=True):
    return {"kind": "linear", "in": i, "out": o, "bias": bias}


def conv(ci, co, kernel, bias=True, stride=(1, 1), pads=(0, 0), dilation=(1, 1), groups=1):
    return {
        "kind": "conv",
        "in": ci,
        "out": co,
        "kernel": kernel,
        "stride": stride,
        "padding": pads,
        "pads": tuple((p, p) for p in pads),
        "dilation": dilation,
        "groups": groups,
        "bias": bias,
        "padding_mode": "zeros",
    }


def build_layer(conf):
    if conf["kind"] == "linear":
        return nn.Linear(conf["in"], conf["out"], bias=conf["bias"])
    return nn.Conv2d(
        conf["in"],
        conf["out"],
        conf["kernel"],
        stride=conf["stride"],
        padding=conf["padding"],
        dilation=conf["dilation"],
        groups=conf["groups"],
        bias=conf["bias"],
        padding_mode=conf["padding_mode"],
    )


# layers, input shape (without batch)
NETS = {
    "lin": ([linear(3, 2)], (3,)),
    "mlp": ([linear(3, 4), linear(4, 3, False), linear(3, 2)], (3,)),
    "two": ([linear(3, 3), linear(3, 2)], (3,)),
    "nest": ([linear(3, 3), linear(3, 3), linear(3, 3), linear(3, 2)], (3,)),
    "reuse": ([{**linear(3, 3), "repeat": 2}, linear(3, 2)], (3,)),
    "reuse_conv": (
        [{**conv(2, 2, (3, 3), pads=(1, 1)), "repeat": 3}, linear(18, 2)],
        (2, 3, 3),
    ),
    "seq": ([linear(3, 4), linear(4, 2, False)], (2, 3)),
    "seq3": ([linear(2, 3, False), linear(3, 2)], (2, 3, 2)),
    "conv": (
        [
            conv(2, 4, (2, 3), stride=(2, 1), pads=(1, 0), groups=2),
            conv(4, 2, (2, 1), bias=False, dilation=(1, 2)),
            linear(16, 2),
        ],
        (2, 4, 6),
    ),
    "conv1": ([conv(2, 3, (2, 2)), linear(12, 2)], (2, 3, 3)),
    "wide": ([linear(32, 33), linear(33, 2)], (32,)),
    "wide2": ([linear(61, 31, False), linear(31, 30)], (61,)),
    "huge": ([linear(70, 130), linear(130, 2, False)], (70,)),
    "long": ([linear(3, 4), linear(4, 2)], (67, 3)),
    "image": ([conv(3, 5, (3, 3), pads=(1, 1)), conv(5, 2, (4, 4), stride=(3, 3)), linear(98, 2)],
              (3, 23, 22)),
}


# amplitudes of inputs and weights (the wide layers would diverge otherwise)
AMPLITUDE = {
    "wide": (0.3, 0.15),
    "wide2": (0.2, 0.1),
    "huge": (0.2, 0.08),
    "long": (0.6, 0.5),
    "image": (0.4, 0.15),
}


class Net(nn.Module):
    """Layers with tanh in between (flattening in front of linear layers if needed)."""

    def __init__(self, confs, act="tanh"):
        super().__init__()
        self.layers = nn.ModuleList(build_layer(c) for c in confs)
        self.confs = confs
        self.act = act

    def forward(self, x):
        for i, (layer, conf) in enumerate(zip(self.layers, self.confs)):
            if i:
                if conf["kind"] == "linear" and self.confs[i - 1]["kind"] == "conv":
                    x = x.flatten(start_dim=1)
                if self.act == "tanh":
                    x = x.tanh()
                elif self.act == "relu_":
                    x = torch.relu_(x)
                elif self.act == "relu":
                    x = torch.relu(x)
            x = layer(x)
            for _ in range(conf.get("repeat", 1) - 1):  # the module is used again
                x = layer(x.tanh())
        return x


class Holder(nn.Module):
    """Holds a layer under the name that every other holder uses as well."""

    def __init__(self, layer):
        super().__init__()
        self.fc = layer


class NestedNet(Net):
    """Layers of the same shape and the same name in different (nested) containers."""

    def __init__(self, confs, act="tanh"):
        nn.Module.__init__(self)
        self.confs, self.act = confs, act
        layers = [build_layer(c) for c in confs]
        self.left, self.right = Holder(layers[0]), Holder(layers[1])
        self.blocks = nn.ModuleList([Holder(Holder(m)) for m in layers[2:-1]])
        self.fc = layers[-1]

    @property
    def layers(self):
        inner = [b.fc.fc for b in self.blocks]
        return [self.left.fc, self.right.fc] + inner + [self.fc]


def make_net(name, key=(), dtype=torch.float32, act="tanh"):
    confs, _ = NETS[name]
    net = (NestedNet if name == "nest" else Net)(confs, act)
    rs = rng("net", name, *key)
    amp = AMPLITUDE.get(name, (1.2, 0.7))[1]
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(torch.from_numpy(rs.uniform(-amp, amp, size=tuple(p.shape))))
    return net.to(dtype)


BATCH_SIZES = (2, 3, 1, 4)


def make_batch(name, i, key=(), dtype=torch.float32, size=None):
    confs, shape = NETS[name]
    size = size or BATCH_SIZES[i % len(BATCH_SIZES)]
    rs = rng("batch", name, i, *key)
    amp = AMPLITUDE.get(name, (1.2, 0.7))[0]
    x = rs.uniform(-amp, amp, size=(size,) + tuple(shape))
    out = confs[-1]["out"]
    lead = shape[:-1] if confs[-1]["kind"] == "linear" and confs[0]["kind"] == "linear" else ()
    amp = 2.0 if name not in AMPLITUDE else 0.6
    y = rs.uniform(-amp, amp, size=(size,) + tuple(lead) + (out,))
    return torch.from_numpy(x).to(dtype), torch.from_numpy(y).to(dtype)


def loss_fn(out, y, loss_average):
    loss = 0.5 * ((out - y) ** 2).sum()
    if loss_average is not None:
        loss = loss / out.shape[0]
        if loss_average == "batch+sequence":
            loss = loss / out.shape[1:-1].numel()
    return loss


def sum_loss(out, y, loss_average):
    """The output gradient of a plain sum is an expanded tensor."""
    if loss_average is None:
        return out.sum()
    return out.sum(-1).mean() if loss_average == "batch+sequence" else out.sum() / len(out)


DEFAULTS = dict(
    lr=0.05,
    momentum=0.9,
    damping=0.3,
    alpha1=0.5,
    weight_decay=0.1,
    T=1,
    loss_average="batch",
    lr_cov=0.2,
    structures=("dense", "dense"),
    kfac_approx="expand",
    kfac_like=False,
    normalize_lr_cov=False,
)

def ramp(t):
    return 0.05 * (t + 1)


def alternate(t):
    return 0.25 if t % 2 == 0 else 0.1


SCHEDULES = {"ramp": ramp, "alt": alternate}


def hyper(hp):
    """Resolve named schedules and lists (specs are JSON)."""
    out = dict(hp)
    if isinstance(out.get("lr_cov"), str):
        out["lr_cov"] = SCHEDULES[out["lr_cov"]]
    if "structures" in out:
        out["structures"] = tuple(out["structures"])
    return out


def dense_np(mat):
    return arr(mat.to_dense())


class Layer:
    """Specification state of one layer."""

    def __init__(self, name, module, conf, hp, group):
        self.name, self.module, self.conf = name, module, conf
        self.hp, self.group = hp, group
        rows = conf["out"]
        if conf["kind"] == "linear":
            cols = conf["in"]
        else:
            cols = conf["in"] // conf["groups"] * conf["kernel"][0] * conf["kernel"][1]
        self.dK, self.dC = cols + conf["bias"], rows
        self.mK, self.mC = np.zeros((self.dK,) * 2), np.zeros((self.dC,) * 2)
        self.buf = {}
        self.acc = []

    def params(self):
        out = [("weight", self.module.weight)]
        if self.module.bias is not None:
            out.append(("bias", self.module.bias))
        return out

    def matrix(self, values):
        """Weight (and bias) shaped values as one matrix."""
        mat = values[0].reshape(self.dC, -1)
        if len(values) > 1:
            mat = np.concatenate([mat, values[1].reshape(-1, 1)], axis=1)
        return mat

    def unmatrix(self, mat):
        w = self.module.weight
        if self.module.bias is None:
            return [mat.reshape(tuple(w.shape))]
        return [mat[:, :-1].reshape(tuple(w.shape)), mat[:, -1]]


class Sim:
    """cfg: net, hp (overrides of DEFAULTS), groups (list of {layers, hp}), init_scale."""

    def __init__(
        self, cfg, st=None, pre=True, par=True, opt_cls=XSINGD, net=None, tol=1e-4
    ):
        # pre, par: whether to compare the pre-conditioner, the parameters
        self.cfg, self.st, self.pre, self.par, self.tol = cfg, st, pre, par, tol
        self.key = tuple(cfg.get("key", ()))
        self.netname = cfg["net"]
        self.confs, _ = NETS[self.netname]
        self.dtype = getattr(torch, cfg.get("dtype", "float32"))
        self.net = net or make_net(
            self.netname, self.key, self.dtype, act=cfg.get("act", "tanh")
        )
        self.autocast = cfg.get("autocast")
        if "wscale" in cfg:
            with torch.no_grad():
                for p in self.net.parameters():
                    p.mul_(cfg["wscale"])
        if cfg.get("frozen") and not cfg.get("freeze_late"):
            self.freeze()
        base = hyper({**DEFAULTS, **cfg.get("hp", {})})
        kw = dict(base)
        if "pdtype" in cfg:
            kw["preconditioner_dtype"] = tuple(
                None if d is None else getattr(torch, d) for d in cfg["pdtype"]
            )
        groups = cfg.get("groups")
        layers = list(self.net.layers)
        names = {m: n for n, m in self.net.named_modules()}
        if groups is None:
            params, hps = None, [base] * len(layers)
            gidx = [0] * len(layers)
        else:
            params, hps, gidx = [], [None] * len(layers), [None] * len(layers)
            for gi, grp in enumerate(groups):
                ghp = hyper(grp.get("hp", {}))
                ps = [p for li in grp["layers"] for p in layers[li].parameters()]
                params.append({"params": ps, **ghp})
                for li in grp["layers"]:
                    hps[li] = {**base, **ghp}
                    gidx[li] = gi
        self.init_scale = cfg.get("init_scale", 1.0)
        self.opt = opt_cls(self.net, params, init_grad_scale=self.init_scale, **kw)
        self.layers = [
            Layer(names[m], m, c, dict(h), g)
            for m, c, h, g in zip(layers, self.confs, hps, gidx)
            if h is not None
        ]
        if cfg.get("frozen") and cfg.get("freeze_late"):
            self.freeze()
        self.t = 0
        self.pending = []
        self.records = None
        self.batches = {}
        for layer in self.layers:
            layer.module.register_forward_hook(self._record(layer))
        if self.pre:
            self.check_init()
        if cfg.get("start"):
            self.start()

    def start(self):
        """Continue from pre-conditioners as they result from any earlier training."""
        from mc.mats import build  # noqa: PLC0415

        for la in self.layers:
            for mats, dim, s, what in (
                (self.opt.Ks, la.dK, la.hp["structures"][0], "K"),
                (self.opt.Cs, la.dC, la.hp["structures"][1], "C"),
            ):
                rs = rng("start", self.cfg["start"], la.name, what)
                M = S.random_member(STRUCTS[s][1], dim, rs, -3, 4) / (4 * dim**0.5)
                M = M + np.eye(dim)
                mats[la.name] = build(s, M, mats[la.name].to_dense().dtype)

    def freeze(self):
        """frozen: list of (index of the layer, name of its parameter)."""
        for li, name in self.cfg["frozen"]:
            getattr(list(self.net.layers)[li], name).requires_grad_(False)

    # ------------------------------------------------------------ harness's hooks
    def _record(self, layer):
        def hook(module, inputs, output):
            if self.records is None:
                return
            rec = {"layer": layer, "a": inputs[0].detach().clone(), "g": None}
            rec["hooked"] = torch.is_grad_enabled() and self.t % layer.hp["T"] == 0
            self.records.append(rec)
            if output.requires_grad:

                def grad_hook(g, rec=rec):
                    rec["g"] = g.detach().clone()
    
                output.register_hook(grad_hook)

        return hook

    # ---------------------------------------------------------------------- events
    def batch(self, i):
        if i not in self.batches:
            self.batches[i] = make_batch(
                self.netname, i, self.key, self.dtype, self.cfg.get("batch")
            )
            if "xscale" in self.cfg:
                x, y = self.batches[i]
                self.batches[i] = (x * self.cfg["xscale"], y)
        return self.batches[i]

    def forward(self, i, scale=1.0, weight=1.0, keep=True):
        x, y = self.batch(i) if isinstance(i, int) else i
        self.records = []
        if self.autocast:
            with torch.autocast("cpu", dtype=getattr(torch, self.autocast)):
                out = self.net(x)
            out = out.to(y.dtype)
        else:
            out = self.net(x)
        fn = sum_loss if self.cfg.get("loss") == "sum" else loss_fn
        weight = weight * self.cfg.get("lscale", 1.0)
        loss = fn(out, y, self.layers[0].hp["loss_average"]) * (scale * weight)
        if keep:
            self.pending.append((loss, self.records, scale))
        self.records = None

    def forward_nograd(self, i):
        x, _ = self.batch(i)
        self.records = []
        with torch.no_grad():
            self.net(x)
        self.records = None

    def backward(self, k=0, retain=False, how="backward"):
        """Backward pass of a pending graph (which stays pending if retained)."""
        loss, records, scale = self.pending[k]
        if not retain:
            self.pending.pop(k)
        for rec in records:
            rec["g"] = None
        if how == "backward":
            loss.backward(retain_graph=retain)
        else:  # gradients are computed functionally and stored by the user
            ps = [p for p in self.net.parameters() if p.requires_grad]
            gs = torch.autograd.grad(loss, ps, retain_graph=retain)
            for p, g in zip(ps, gs):
                p.grad = g if p.grad is None else p.grad + g
        for rec in records:
            if rec["hooked"] and rec["g"] is not None:
                rec["layer"].acc.append({**rec, "scale": scale})

    def zero_grad(self, set_to_none=True):
        self.opt.zero_grad(set_to_none=set_to_none)

    def set_hp(self, group, name, value):
        """Change a hyper-parameter of a group, as a scheduler does."""
        resolved = hyper({name: value})[name]
        self.opt.param_groups[group][name] = resolved
        for layer in self.layers:
            if layer.group == group:
                layer.hp[name] = resolved

    def step(self, scale=1.0, mech=None, found_inf=None):
        pre = self.snapshot()
        if mech == "set":
            self.opt.set_current_grad_scale(scale)
        if mech == "attr" or found_inf is not None:
            if mech not in ("set", "early", "mid"):
                self.opt.grad_scale = torch.tensor(scale)
            self.opt.found_inf = torch.tensor(1.0 if found_inf else 0.0)
        self.opt.step()
        for attr in ("grad_scale", "found_inf"):
            if attr in self.opt.__dict__:
                delattr(self.opt, attr)
        self.after_step(pre, scale, bool(found_inf))

    def scaler_step(self, scaler, unscale=False, clip=None):
        """Step through a real GradScaler; returns whether it had to be skipped."""
        scale = scaler.get_scale()
        inf = any(
            not bool(torch.isfinite(p.grad).all())
            for p in self.net.parameters()
            if p.grad is not None
        )
        if unscale:
            self.opt.set_current_grad_scale(scale)
            scaler.unscale_(self.opt)
            if clip is not None:
                torch.nn.utils.clip_grad_norm_(self.net.parameters(), clip)
        pre = self.snapshot()
        scaler.step(self.opt)
        scaler.update()
        self.after_step(pre, 1.0 if unscale else scale, inf)
        return inf

    # ------------------------------------------------------------------ comparison
    def snapshot(self):
        snap = []
        for la in self.layers:
            ps = la.params()
            snap.append(
                {
                    "K": self.opt.Ks[la.name].to_dense().clone(),
                    "C": self.opt.Cs[la.name].to_dense().clone(),
                    "p": [p.detach().clone() for _, p in ps],
                    "g": [None if p.grad is None else p.grad.clone() for _, p in ps],
                }
            )
        return snap

    def check_init(self):
        for la in self.layers:
            for mat, dim, what in (
                (self.opt.Ks[la.name], la.dK, "K"),
                (self.opt.Cs[la.name], la.dC, "C"),
            ):
                d = mat.to_dense()
                require(tuple(d.shape) == (dim, dim), f"{what} of {la.name}: shape")
                require(
                    bool((d == torch.eye(dim, dtype=d.dtype)).all()),
                    f"{what} of layer {la.name} is not initialized to the identity",
                )

    def predict_refresh(self, la, pre, scale):
        HK, HC = np.zeros((la.dK,) * 2), np.zeros((la.dC,) * 2)
        K, C = arr(pre["K"]), arr(pre["C"])
        for rec in la.acc:
            a = S.input_rows(arr(rec["a"]), la.conf, la.hp["kfac_approx"])
            g = S.grad_rows(
                arr(rec["g"]) / rec["scale"],
                la.conf,
                la.hp["loss_average"],
                la.hp["kfac_approx"],
            )
            aK, gC = a @ K, g @ C
            HK += aK.T @ aK
            HC += gC.T @ gC
        sK, sC = (STRUCTS[s][1] for s in la.hp["structures"])
        return S.refresh(K, C, la.mK, la.mC, HK, HC, la.hp, sK, sC, self.t)

    def after_step(self, pre, scale, skipped):
        t = self.t
        for la, old in zip(self.layers, pre):
            where = f"layer {la.name}, step {t}"
            K = self.opt.Ks[la.name].to_dense()
            C = self.opt.Cs[la.name].to_dense()
            refresh = not skipped and la.acc and t % la.hp["T"] == 0
            if refresh:
                K2, C2, mK, mC, magK, magC = self.predict_refresh(la, old, scale)
                if not max(magK, magC) < 1e25:  # beyond float32 soon
                    raise EndOfHistory(where)
                if self.pre:
                    close(K, K2, f"K after the refresh ({where})", magK, self.tol)
                    close(C, C2, f"C after the refresh ({where})", magC, self.tol)
                if la.hp["alpha1"] != 0.0 and not la.hp["kfac_like"]:
                    la.mK, la.mC = mK, mC
            elif self.pre:
                same(K, old["K"], f"K must not change ({where})")
                same(C, old["C"], f"C must not change ({where})")
            la.acc = []
            self._check_params(la, old, arr(K), arr(C), scale, skipped, where)
        self.t += 1
        # every step up to here was compared
        if any(not float(p.detach().abs().max()) < 1e3 for p in self.net.parameters()):
            raise EndOfHistory(f"parameters diverge in step {t}")
        if self.st is not None:
            self.st.transitions += 1
            self.st.state(*(arr(p).tobytes() for p in self.net.parameters()))

    def _check_params(self, la, old, K, C, scale, skipped, where):
        ps = la.params()
        if skipped or all(g is None for g in old["g"]):
            if self.par:
                for (n, p), q in zip(ps, old["p"]):
                    same(p.detach(), q, f"{n} must not change ({where})")
            return
        grads = [
            arr(torch.zeros_like(p) if g is None else g) / scale
            for (_, p), g in zip(ps, old["g"])
        ]
        nat, mag = S.natural_gradient(K, C, la.matrix(grads))
        if not max(mag, np.abs(K).max() ** 2, np.abs(C).max() ** 2) < 1e25:
            raise EndOfHistory(where)
        for (n, p), q, d, g in zip(ps, old["p"], la.unmatrix(nat), old["g"]):
            if g is None:
                if self.par:
                    same(p.detach(), q, f"{n} without gradient must not change ({where})")
                continue
            q = arr(q)
            step = d + la.hp["weight_decay"] * q
            size = mag + abs(la.hp["weight_decay"]) * np.abs(q).max()
            if la.hp["momentum"] != 0.0:
                step = step + la.hp["momentum"] * la.buf.get(n, 0.0)
                la.buf[n] = step
                size = size + np.abs(step).max()
            if self.par:
                exp = q - la.hp["lr"] * step
                # the change of the parameter is compared, so that small learning
                # rates do not hide errors; 4e-7 covers rounding of the parameter
                ulp = 1.7 * torch.finfo(p.dtype).eps if p.dtype != torch.float32 else 4e-7
                size = abs(la.hp["lr"]) * size + ulp / self.tol * np.abs(q).max()
                what = f"{n} after the step ({where})"
                floor = 1e-30 if p.dtype == torch.float32 else 1e-6
                close(arr(p), exp, what, size, self.tol, floor)

    # --------------------------------------------------------------------- histories
    def train_step(self, i, scale=1.0, mech=None, found_inf=None, weight=1.0):
        """mech: how the scale is handed over (set: by the user, before the step; mid:
        before the backward pass; early: before the forward pass; attr: by a scaler)."""
        self.zero_grad()
        if mech == "early":
            self.opt.set_current_grad_scale(scale)
        self.forward(i, scale, weight)
        if mech == "mid":
            self.opt.set_current_grad_scale(scale)
        self.backward()
        self.step(scale, mech, found_inf)

    def params(self):
        return [p.detach().clone() for p in self.net.parameters()]


def full_state(opt, net):
    """Everything that may influence the future, as a flat list of (name, tensor)."""
    out = [(f"param {n}", p.detach().clone()) for n, p in net.named_parameters()]
    for what in ("Ks", "Cs", "m_Ks", "m_Cs"):
        for name, mat in sorted(getattr(opt, what).items()):
            out.append((f"{what}[{name}]", mat.to_dense().clone()))
    for n, p in net.named_parameters():
        for k, v in sorted(opt.state.get(p, {}).items()):
            if isinstance(v, torch.Tensor):
                out.append((f"state[{n}][{k}]", v.clone()))
    return out


class Runner:
    """Executes events on the real optimizer only, without any specification.

    Events: ["Z"], ["FB", batch, weight, inf], ["S"], ["HP", group, name, value].
    """

    def __init__(self, cfg, key=None, opt_hp=None, opt_cls=XSINGD):
        self.cfg = cfg
        self.key = tuple(cfg.get("key", ()))
        self.net = make_net(cfg["net"], self.key if key is None else key)
        kw = hyper({**DEFAULTS, **cfg.get("hp", {}), **(opt_hp or {})})
        if "pdtype" in cfg:
            kw["preconditioner_dtype"] = tuple(
                None if d is None else getattr(torch, d) for d in cfg["pdtype"]
            )
        params = None
        if cfg.get("groups"):
            layers = list(self.net.layers)
            params = [
                {
                    "params": [p for li in g["layers"] for p in layers[li].parameters()],
                    **hyper(g.get("hp", {})),
                }
                for g in cfg["groups"]
            ]
        self.avg = kw["loss_average"]
        self.opt = opt_cls(
            self.net, params, init_grad_scale=cfg.get("init_scale", 1.0), **kw
        )
        self.scaler = None
        if cfg.get("scaler"):
            self.scaler = torch.amp.GradScaler("cpu", init_scale=8.0, growth_interval=2)
            self.scaler.scale(torch.zeros(1))
        self.sched = None
        if cfg.get("sched"):
            self.sched = torch.optim.lr_scheduler.StepLR(self.opt, 1, gamma=0.7)

    def do(self, e):
        kind = e[0]
        if kind == "Z":
            self.opt.zero_grad()
        elif kind == "FB":
            x, y = make_batch(self.cfg["net"], e[1], self.key)
            if len(e) > 3 and e[3]:
                x = x.clone()
                x.view(-1)[0] = float("inf")
            w = e[2] if len(e) > 2 else 1.0
            loss = loss_fn(self.net(x), y, self.avg) * w
            if self.scaler is not None:
                loss = self.scaler.scale(loss)
            loss.backward()
        elif kind == "S":
            if self.scaler is not None:
                self.scaler.step(self.opt)
                self.scaler.update()
            else:
                self.opt.step()
            if self.sched is not None:
                self.sched.step()
        elif kind == "HP":
            self.opt.param_groups[e[1]][e[2]] = hyper({e[2]: e[3]})[e[2]]
        else:
            raise ValueError(e)

    def grads(self):
        return [None if p.grad is None else p.grad.clone() for p in self.net.parameters()]

    def save(self):
        out = {
            "model": self.net.state_dict(),
            "opt": self.opt.state_dict(),
            "grads": self.grads(),
        }
        if self.scaler is not None:
            out["scaler"] = self.scaler.state_dict()
        if self.sched is not None:
            out["sched"] = self.sched.state_dict()
        return out

    def load(self, state):
        self.net.load_state_dict(state["model"])
        self.opt.load_state_dict(state["opt"])
        for p, g in zip(self.net.parameters(), state["grads"]):
            p.grad = None if g is None else g.clone()
        if self.scaler is not None:
            self.scaler.load_state_dict(state["scaler"])
            self.scaler.scale(torch.zeros(1))
        if self.sched is not None:
            self.sched.load_state_dict(state["sched"])

    def state(self):
        return full_state(self.opt, self.net)


def compare_states(a, b, what):
    require([n for n, _ in a] == [n for n, _ in b], f"{what}: different quantities held")
    for (n, x), (_, y) in zip(a, b):
        if not (x.is_floating_point() and torch.isnan(x).any()):
            same(y, x, f"{n} {what}")
