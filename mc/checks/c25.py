"""Independence of process-wide defaults and settings."""

import contextlib
import copy
import itertools
import random
import warnings

import torch

from mc.core import require, rng, same
from mc.mats import build, members, tensor
from mc.sim import DEFAULTS, SELECTABLE, STRUCTS, XSINGD, full_state, hyper, loss_fn
from mc.sim import make_batch, make_net
from mc.words import grid

LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of event words with a process-wide setting switched on during "
    "some phases; each is executed in lockstep with the same word under default settings"
)
RULE = (
    "One case is a setting, the phases of training during which it is active, a "
    "configuration and an event word (train), or a setting, a structure, a size and an "
    "operation (operations). Settings: another default device (PyTorch's meta device, which "
    "stands for any device other than that of the data, and on which values are lost), each "
    "other default data type, deterministic algorithms, autograd recording or not, anomaly "
    "detection. Parameters, factors, momenta, gradients and scales must be bitwise those of "
    "the run with default settings after every event, and every event must leave all "
    "process-wide settings (also random number generators and warning filters) as they are. "
    "operations on the meta device: shape, data type and device of the result are those of "
    "the operands. Non-trivial: distinct case."
)
BOUNDS = {
    "quick": "9 settings x 5 phases, 18-36 configurations, words of length 2 over 7 events; "
    "21 structures, sizes 1-7, 31, 46",
    "thorough": "9 settings x 5 phases, 36 configurations, words of length 3 over 7 events; "
    "21 structures, sizes 1-12, 29-33, 44-46, 61",
}
ASSUMPTIONS = [
    "the user's model and loss do not create tensors while a setting is active",
    "factors which are requested without data type or device follow the defaults",
]
EVENTS = ["R", "A", "G", "I", "C", "N", "Z"]
# raised if the control flow of an operation depends on values, which do not exist there
NEEDS_VALUES = ("Tensor.item()", "copy out of meta tensor", "data-dependent", "is_nonzero")
PHASES = ["construct", "forward", "backward", "step", "all"]


@contextlib.contextmanager
def default_dtype(dt):
    old = torch.get_default_dtype()
    torch.set_default_dtype(dt)
    try:
        yield
    finally:
        torch.set_default_dtype(old)


@contextlib.contextmanager
def deterministic():
    torch.use_deterministic_algorithms(True)
    try:
        yield
    finally:
        torch.use_deterministic_algorithms(False)


SETTINGS = {
    "device": lambda: torch.device("meta"),
    "float64": lambda: default_dtype(torch.float64),
    "float16": lambda: default_dtype(torch.float16),
    "bfloat16": lambda: default_dtype(torch.bfloat16),
    "deterministic": deterministic,
    "nograd": torch.no_grad,
    "grad": torch.enable_grad,
    "anomaly": lambda: torch.autograd.detect_anomaly(check_nan=False),
    "device+float64": lambda: _both(),
}


@contextlib.contextmanager
def _both():
    with torch.device("meta"), default_dtype(torch.float64):
        yield


PROFILES = {
    "plain": {"T": 1},
    "like": {"T": 1, "kfac_like": True, "alpha1": 0.0, "kfac_approx": "reduce"},
    "period": {"T": 2, "normalize_lr_cov": True, "loss_average": None, "lr": 0.01},
}


def cases(tier):
    th = tier == "thorough"
    out = []
    words = [list(w) for w in itertools.product(EVENTS, repeat=3 if th else 2)]
    for c in grid(net=["mlp", "conv1"], phase=PHASES, s=SELECTABLE, profile=list(PROFILES)):
        if c["net"] != "mlp" and c["phase"] != "all" and not th:
            continue
        nxt = SELECTABLE[(SELECTABLE.index(c["s"]) + 1) % len(SELECTABLE)]
        for first in EVENTS:
            mine = [w for w in words if w[0] == first]
            out.append({"kind": "train", **c, "s": [c["s"], nxt], "words": mine, "w": first})
    for c in grid(setting=list(SETTINGS) + ["operands"], s=list(STRUCTS)):
        sizes = list(range(1, 13)) + [29, 30, 31, 32, 33, 44, 45, 46, 61]
        for n in sizes if th else list(range(1, 8)) + [31, 46]:
            out.append({"kind": "operations", **c, "n": n})
    for c in out:
        vals = [v for k, v in c.items() if k != "words"]
        c["id"] = "/".join(v if isinstance(v, str) else str(v) for v in map(_join, vals))
    return out


def _join(v):
    return ",".join(v) if isinstance(v, list) else v


def warm_up(done=[]):
    """PyTorch imports some of its parts on first use, with lasting side effects."""
    if not done:
        done.append(True)
        net = torch.nn.Linear(2, 2)
        opt = torch.optim.SGD(net.parameters(), lr=0.1)
        net(torch.ones(1, 2)).sum().backward()
        opt.step()
        copy.deepcopy(opt.state_dict())


def run(spec, st):
    warm_up()
    globals()[spec["kind"]](spec, st)
    st.sample(spec["id"])


class Loop:
    """A training loop on the real optimizer, with a setting active in one phase."""

    def __init__(self, spec, setting):
        self.setting, self.phase = setting, spec["phase"]
        hp = hyper({**DEFAULTS, **PROFILES[spec["profile"]], "structures": spec["s"]})
        self.avg = hp["loss_average"]
        self.net = make_net(spec["net"])
        self.batches = [make_batch(spec["net"], i) for i in range(2)]
        self.loss_weight = 0.1 if self.avg is None else 1.0
        with self.during("construct"):
            unchanged(lambda: self.construct(hp), "by the constructor")
        self.t = 0

    def construct(self, hp):
        self.opt = XSINGD(self.net, init_grad_scale=2.0, **hp)

    def during(self, phase):
        if self.setting is None or self.phase not in (phase, "all"):
            return contextlib.nullcontext()
        return SETTINGS[self.setting]()

    def loss(self, i, scale):
        x, y = self.batches[i % 2]
        with self.during("forward"):
            out = self.net(x)
        return loss_fn(out, y, self.avg) * (scale * self.loss_weight)

    def event(self, e):
        opt = self.opt
        if e == "N":
            with torch.no_grad():
                self.loss(0, 1.0)
            return
        if e == "C":
            state = copy.deepcopy(opt.state_dict())
            with self.during("step"):
                opt.load_state_dict(state)
            return
        opt.zero_grad()
        scale = 4.0 if e == "G" else 1.0
        for k in range({"A": 2, "Z": 0}.get(e, 1)):
            loss = self.loss(self.t + k, scale)
            with self.during("backward"):
                loss.backward()
        if e == "G":
            opt.grad_scale = torch.tensor([4.0])
        if e == "I":
            opt.found_inf = torch.tensor([1.0])
        with self.during("step"):
            opt.step()
        for name in ("grad_scale", "found_inf"):
            vars(opt).pop(name, None)
        self.t += 1

    def state(self):
        out = full_state(self.opt, self.net)
        for n, p in self.net.named_parameters():
            if p.grad is not None:
                out.append((f"gradient {n}", p.grad.clone()))
        scales = torch.tensor(list(self.opt._grad_scales.values()))
        return out + [("scales", scales), ("steps", torch.tensor(self.opt.steps))]


def settings():
    """The process-wide settings of PyTorch and of warnings."""
    return {
        "default data type": torch.get_default_dtype(),
        "default device": torch.get_default_device(),
        "deterministic algorithms": torch.are_deterministic_algorithms_enabled(),
        "autograd recording": torch.is_grad_enabled(),
        "inference mode": torch.is_inference_mode_enabled(),
        "anomaly detection": torch.is_anomaly_enabled(),
        "multiplication precision": torch.get_float32_matmul_precision(),
        "autocasting": [torch.is_autocast_enabled(d) for d in ("cpu", "cuda")],
        "threads": torch.get_num_threads(),
        "oneDNN": torch.backends.mkldnn.enabled,
        "print options": str(torch._tensor_str.PRINT_OPTS),
        "random numbers": torch.get_rng_state().numpy().tobytes(),
        "Python random numbers": random.getstate(),
        # those of libraries which PyTorch imports when they are needed do not count
        "warning filters": [f for f in warnings.filters if f[2].__module__ == "builtins"],
    }


def unchanged(event, what):
    """Run an event which has to leave process-wide settings as they are."""
    old = settings()
    event()
    for k, v in settings().items():
        if v != old[k]:
            require(False, f"{k} changed from {str(old[k])[:80]} to {str(v)[:80]} {what}")


def train(spec, st):
    for w in spec["words"]:
        word, plain = ["R"] + w, []
        a = Loop(spec, None)
        for e in word:
            unchanged(lambda e=e, a=a: a.event(e), f"by {e} in {word}")
            plain.append(a.state())
            st.state(*(x.numpy().tobytes() for _, x in plain[-1]))
        for setting in SETTINGS:
            if setting == "nograd" and spec["phase"] in ("forward", "all"):
                continue  # nothing would be differentiated
            st.case((spec["id"], setting, "".join(w)))
            b = Loop(spec, setting)
            for k, (e, want) in enumerate(zip(word, plain)):
                unchanged(lambda e=e, b=b: b.event(e), f"by {e} in {word} with {setting}")
                got = b.state()
                what = f"after event {k} of {word} with {setting} during {spec['phase']}"
                require([n for n, _ in got] == [n for n, _ in want], f"quantities {what}")
                for (n, y), (_, x) in zip(got, want):
                    require(y.device == x.device, f"{n} on {y.device} {what}")
                    require(not y.requires_grad, f"{n} requires gradients {what}")
                    same(y, x, f"{n} {what}")
                st.transitions += 1
            st.traces += 1
        st.outcome([float(x.sum()) for _, x in plain[-1]])


def operations(spec, st):
    s, n = spec["s"], spec["n"]
    cls = STRUCTS[s][0]
    rs = rng("c25", s, n)
    A, B = (build(s, M) for M in members(s, n, rs, 2))
    X, Q = tensor(rs.randint(-2, 3, (n, 4))), tensor(rs.randint(-2, 3, (n, n)))
    Q = Q + Q.T

    def ops(A, B, X, Q, dev):
        f32 = torch.float32
        return {
            "A @ B": lambda: A @ B,
            "A @ X": lambda: A @ X,
            "rmatmat": lambda: A.rmatmat(X),
            "A + B": lambda: A + B,
            "A * 2": lambda: A * 2.0,
            "from_inner": lambda: A.from_inner(),
            "from_inner(X)": lambda: A.from_inner(X=X),
            "from_inner2": lambda: A.from_inner2(Q),
            "from_mat_inner": lambda: cls.from_mat_inner(X),
            "from_dense": lambda: cls.from_dense(Q),
            "to_dense": lambda: A.to_dense(),
            "average_trace": lambda: A.average_trace(),
            "infinity_vector_norm": lambda: A.infinity_vector_norm(),
            "frobenius_norm": lambda: A.frobenius_norm(),
            "diag_add_": lambda: (A * 1.0).diag_add_(1.0),
            "add_": lambda: (A * 1.0).add_(B, alpha=2.0),
            "mul_": lambda: (A * 1.0).mul_(2.0),
            "zeros": lambda: cls.zeros(n, dtype=f32, device=dev),
            "eye": lambda: cls.eye(n, dtype=f32, device=dev),
            "eye bfloat16": lambda: cls.eye(n, dtype=torch.bfloat16, device=dev),
        }

    plain = {k: parts(f()) for k, f in ops(A, B, X, Q, torch.device("cpu")).items()}
    if spec["setting"] == "operands":
        meta = torch.device("meta")
        A, B = (move(M, meta) for M in (A, B))
        for k, f in ops(A, B, X.to(meta), Q.to(meta), meta).items():
            st.case((spec["id"], k))
            try:
                got = parts(f())
            except (RuntimeError, NotImplementedError) as e:
                if any(text in str(e) for text in NEEDS_VALUES):
                    continue
                raise
            require(len(got) == len(plain[k]), f"{k}: number of tensors")
            for x, y in zip(got, plain[k]):
                require(x.device == meta, f"{k} of operands on {meta}: result on {x.device}")
                require((x.shape, x.dtype) == (y.shape, y.dtype), f"{k}: {x.shape}, {x.dtype}")
        return
    for k, f in ops(A, B, X, Q, torch.device("cpu")).items():
        st.case((spec["id"], k))
        with SETTINGS[spec["setting"]]():
            got = f()
        got = parts(got)
        require(len(got) == len(plain[k]), f"{k}: number of tensors")
        for x, y in zip(got, plain[k]):
            require(x.device == y.device, f"{k} of operands on {y.device}: on {x.device}")
            same(x, y, f"{k} of {s}, size {n}")
        st.outcome((k, s, n, [y.numpy().tobytes() for y in plain[k] if y.dtype != torch.bfloat16]))


def parts(result):
    """The tensors a result consists of, in a fixed order."""
    if isinstance(result, torch.Tensor):
        return [result]
    return [t for _, t in sorted(leaves(result, ""))]


def leaves(mat, path):
    for k, v in vars(mat).items():
        if isinstance(v, torch.Tensor):
            yield path + k, v
        elif hasattr(v, "to_dense"):
            yield from leaves(v, f"{path}{k}.")


def move(mat, dev):
    """Copy of a structured matrix on another device."""
    out = copy.deepcopy(mat)
    for m in [out] + submatrices(out):
        for k, v in vars(m).items():
            if isinstance(v, torch.Tensor):
                setattr(m, k, v.to(dev))
    return out


def submatrices(mat):
    out = []
    for v in vars(mat).values():
        if hasattr(v, "to_dense") and not isinstance(v, torch.Tensor):
            out += [v] + submatrices(v)
    return out
