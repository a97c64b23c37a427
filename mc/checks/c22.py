"""Several optimizers and models."""

import copy
import hashlib
import itertools
import json
import os
import pickle
import subprocess
import sys

import torch

from mc.core import REPO, VERIF, require, same
from mc.sim import DEFAULTS, XSINGD, hyper, loss_fn, make_batch, make_net

LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of the interleavings of the events of several real optimizers, "
    "each compared bitwise with the execution of every optimizer alone"
)
RULE = (
    "One case is one interleaving. models: all interleavings of the forward passes, "
    "backward passes and steps of two (three) optimizers on own models with equal layer "
    "names. layers: optimizers on disjoint layers of one model, all words over forward, "
    "backward, zero_grad and either step; every optimizer must behave bitwise as if it was "
    "the only one while the other layers change the same way. rebuild: optimizers created "
    "and dropped one after another on the same or new models. copies: all words over training "
    "the original, copying the model (deepcopy, pickle, averaging), running or training the "
    "copy, compared with models that were never copied. process: all sequences of up to "
    "two (three) optimizers in a process, one after another or in turns, compared with a "
    "process which only has the last one. Non-trivial: distinct "
    "configuration and interleaving."
)
BOUNDS = {
    "quick": "924 interleavings of 2x6 events and 1680 of 3x3 events for 4 configurations; "
    "words of length 4 over 6 events (copies: 3 over 7), extended to complete steps, for 6 (9) configurations",
    "thorough": "12870 interleavings of 2x8 events for 6 configurations; words of length 5 "
    "over 6 events (copies: 4 over 7) for 12 (9) configurations",
}
ASSUMPTIONS = ["all events are executed by one thread"]
PROFILES = [
    {"structures": ["dense", "dense"], "T": 1},
    {"structures": ["diagonal", "triltoeplitz"], "T": 2, "lr_cov": "alt", "alpha1": 0.0,
     "damping": 0.05, "lr": 0.02, "momentum": 0.4, "weight_decay": 0.0},
    {"structures": ["hier12", "block2"], "T": 1, "kfac_like": True, "alpha1": 0.0,
     "kfac_approx": "reduce", "normalize_lr_cov": True, "damping": 0.11, "lr": 0.03,
     "lr_cov": 0.07, "momentum": 0.0, "weight_decay": 0.3},
]  # fmt: skip


def state_of(opt, net, names=None):
    out = {}
    for n, p in net.named_parameters():
        if names is None or n in names:
            out[f"param {n}"] = p.detach().clone()
    for what in ("Ks", "Cs", "m_Ks", "m_Cs", "H_Ks", "H_Cs"):
        for n, m in getattr(opt, what).items():
            out[f"{what}[{n}]"] = m.to_dense().clone()
    for n, p in net.named_parameters():
        for k, v in opt.state.get(p, {}).items():
            if isinstance(v, torch.Tensor):
                out[f"state[{n}][{k}]"] = v.clone()
    return out


def compare(a, b, what):
    require(set(a) == set(b), f"{what}: different quantities {set(a) ^ set(b)}")
    for n in a:
        same(a[n], b[n], f"{n} {what}")


class Actor:
    """One model with its own optimizer."""

    def __init__(self, net, hp, key, scale=1.0):
        self.name = net
        self.net = make_net(net, (key,))
        hp = hyper({**DEFAULTS, **hp})
        self.avg, self.scale = hp["loss_average"], scale
        self.opt = XSINGD(self.net, init_grad_scale=scale, **hp)
        self.key, self.i, self.loss = key, 0, None

    def do(self, e):
        if e == "F":
            x, y = make_batch(self.name, self.i, (self.key,))
            self.opt.zero_grad()
            self.loss = loss_fn(self.net(x), y, self.avg) * self.scale
            self.i += 1
        elif e == "B":
            self.loss.backward()
        elif e == "S":
            if self.scale != 1.0:
                self.opt.set_current_grad_scale(self.scale)
            self.opt.step()


def interleavings(counts):
    """All orders of the events of several actors (a sequence of actor indices)."""
    def rec(left):
        if not any(left):
            yield ()
            return
        for i, n in enumerate(left):
            if n:
                rest = list(left)
                rest[i] -= 1
                for tail in rec(rest):
                    yield (i,) + tail

    yield from rec(list(counts))


def cases(tier):
    out = []
    th = tier == "thorough"
    pairs = [(0, 0), (0, 1), (1, 2), (2, 2), (0, 2), (1, 1)]
    for (a, b), nets in zip(pairs, [("mlp", "mlp"), ("mlp", "conv1"), ("seq", "seq"),
                                    ("conv1", "conv1"), ("two", "mlp"), ("mlp", "mlp")]):  # fmt: skip
        if not th and len(set(nets)) == 1 and a == b and a:
            continue
        length = 8 if th else 6
        for prefix in itertools.product(range(2), repeat=4):
            out.append({"id": f"models/{a}{b}/{nets}/{prefix}", "kind": "models",
                        "profiles": [a, b], "nets": list(nets), "length": length,
                        "prefix": list(prefix)})  # fmt: skip
    for profs, nets in [((0, 1, 2), ("two", "two", "two")), ((0, 0, 1), ("lin", "lin", "lin"))]:
        for prefix in itertools.product(range(3), repeat=2):
            out.append({"id": f"three/{profs}/{prefix}", "kind": "models",
                        "profiles": list(profs), "nets": list(nets), "length": 3,
                        "prefix": list(prefix)})  # fmt: skip
    n = 5 if th else 4
    for net, split, (a, b) in itertools.product(
        ["mlp", "conv", "nest"], [[[0], [1, 2]], [[2, 0], [1]]], [(0, 1), (1, 2)]
    ):
        if not th and (net == "conv") != (a == 1):
            continue
        if net == "nest":  # layers with equal short names, in all containers
            split = [[0, 2], [1, 3]] if len(split[0]) == 1 else [[3, 1, 2], [0]]
        for first in itertools.product(EVENTS, repeat=2):
            out.append({"id": f"layers/{net}/{split}/{a}{b}/{'-'.join(first)}",
                        "kind": "layers", "net": net, "split": split, "profiles": [a, b],
                        "first": list(first), "n": n})  # fmt: skip
    for k, net in itertools.product(range(3), ["mlp", "conv1", "nest"]):
        for first in itertools.product(COPY_EVENTS, repeat=2):
            out.append({"id": f"copies/{k}/{net}/{'-'.join(first)}", "kind": "copies",
                        "profile": k, "net": net, "first": list(first),
                        "n": 4 if th else 3})  # fmt: skip
    for a, b, same_model in itertools.product(range(3), range(3), [False, True]):
        out.append({"id": f"rebuild/{a}{b}/{same_model}", "kind": "rebuild",
                    "profiles": [a, b], "same": same_model})  # fmt: skip
    for net, k in itertools.product(PROCESS_NETS, range(3)):
        out.append({"id": f"process/{net}/{k}", "kind": "process", "last": [net, k],
                    "n": 3 if th else 2})  # fmt: skip
    return out


PROCESS_NETS = ["mlp", "conv1", "nest", "seq"]
COPY_EVENTS = ["t", "c", "p", "a", "u", "s", "h"]
EVENTS = ["f", "b", "z", "s0", "s1", "fb"]


def run(spec, st):
    globals()["run_" + spec["kind"]](spec, st)


def run_models(spec, st):
    k, length = len(spec["profiles"]), spec["length"]
    word = ("FBS" * length)[:length]

    def actors():
        # the models have equal names and shapes but other values
        return [
            Actor(net, PROFILES[p], key, scale=4.0 if key == 1 else 1.0)
            for key, (net, p) in enumerate(zip(spec["nets"], spec["profiles"]))
        ]

    alone = []
    for i in range(k):
        a = actors()[i]
        trail = []
        for e in word:
            a.do(e)
            trail.append(state_of(a.opt, a.net))
        alone.append(trail)
    prefix = tuple(spec["prefix"])
    for order in interleavings([length] * k):
        if order[: len(prefix)] != prefix:
            continue
        st.case((spec["id"], order))
        acts, pos = actors(), [0] * k
        for i in order:
            acts[i].do(word[pos[i]])
            pos[i] += 1
            st.transitions += 1
        for i, a in enumerate(acts):
            compare(state_of(a.opt, a.net), alone[i][-1], f"of actor {i} in order {order}")
        st.state(spec["nets"], order)
        st.traces += 1
    st.sample({"profiles": spec["profiles"], "order": order})


class Shared:
    """One model, optimizers on disjoint layers; `only`: attach just this one."""

    def __init__(self, spec, only=None):
        self.net = make_net(spec["net"])
        self.name = spec["net"]
        self.opts, self.owned = [], []
        for k, (layers, prof) in enumerate(zip(spec["split"], spec["profiles"])):
            ps = [p for li in layers for p in self.net.layers[li].parameters()]
            self.owned.append({n for n, p in self.net.named_parameters()
                               if any(p is q for q in ps)})  # fmt: skip
            hp = hyper({**DEFAULTS, **PROFILES[prof]})
            attach = only is None or only == k
            self.opts.append(XSINGD(self.net, ps, **hp) if attach else None)
        self.losses, self.i = [], 0

    def do(self, e, values=None):
        if e in ("f", "fb"):
            x, y = make_batch(self.name, self.i)
            self.losses.append(loss_fn(self.net(x), y, "batch"))
            self.i += 1
        if e in ("b", "fb") and self.losses:
            self.losses.pop(0).backward()
        if e == "z":
            self.net.zero_grad()
        if e[0] == "s":
            k = int(e[1])
            if self.opts[k] is not None:
                self.opts[k].step()
                self.losses = []  # their graphs hold modified parameters
            else:
                with torch.no_grad():
                    for n, p in self.net.named_parameters():
                        if n in self.owned[k]:
                            p.copy_(values[n])
                self.losses = []


def run_layers(spec, st):
    for rest in itertools.product(EVENTS, repeat=spec["n"] - 2):
        w = spec["first"] + list(rest) + ["fb", "s0", "fb", "s1", "s0"]
        st.case((spec["id"], str(w)))
        joint = Shared(spec)
        snaps, values = [], []
        for e in w:
            joint.do(e)
            snaps.append([state_of(o, joint.net) for o in joint.opts])
            values.append({n: p.detach().clone() for n, p in joint.net.named_parameters()})
            st.transitions += 1
        for k in range(2):
            solo = Shared(spec, only=k)
            for i, e in enumerate(w):
                solo.do(e, values[i])
                compare(
                    snaps[i][k],
                    state_of(solo.opts[k], solo.net),
                    f"of optimizer {k} after event {i} of {w}, together vs. alone",
                )
        st.state(spec["net"], spec["split"], str(w))
        st.traces += 1
    st.outcome([t.numpy().tobytes() for t in snaps[-1][0].values()])
    st.sample({"net": spec["net"], "split": spec["split"], "word": w})


def run_copies(spec, st):
    """Copies of a model that has an optimizer. Events: train the original; copy the model
    (c), via pickle (p), for averaging (a); use the copy: forward pass (u), forward and
    backward pass (h), train it with its own optimizer (s)."""
    name, hp = spec["net"], hyper({**DEFAULTS, **PROFILES[spec["profile"]]})

    def one(net, opt, i):
        x, y = make_batch(name, i)
        net.zero_grad()
        loss_fn(net(x), y, "batch").backward()
        opt.step()

    for rest in itertools.product(COPY_EVENTS, repeat=spec["n"] - 2):
        w = spec["first"] + list(rest)
        st.case((spec["id"], str(w)))
        net, alone = make_net(name), make_net(name)
        opt, opt_alone = XSINGD(net, **hp), XSINGD(alone, **hp)
        one(net, opt, 5)
        one(alone, opt_alone, 5)
        dup, ref, own, ref_own = copy.deepcopy(net), make_net(name), None, None
        ref.load_state_dict(net.state_dict())
        for i, e in enumerate(w + ["s", "t", "u"]):
            what = f"after event {i} of {w}"
            if e == "t":
                one(net, opt, i)
                one(alone, opt_alone, i)
            elif e in "cpa":
                if e == "c":
                    dup = copy.deepcopy(net)
                elif e == "p":
                    dup = pickle.loads(pickle.dumps(net))
                else:
                    averaged = torch.optim.swa_utils.AveragedModel(net)
                    averaged.update_parameters(net)
                    dup = averaged.module
                ref, own, ref_own = make_net(name), None, None
                ref.load_state_dict(net.state_dict())
            elif e == "s":
                if own is None:
                    own, ref_own = XSINGD(dup, **hp), XSINGD(ref, **hp)
                one(dup, own, i)
                one(ref, ref_own, i)
            else:
                x, y = make_batch(name, i)
                outs = dup(x), ref(x)
                same(outs[0].detach(), outs[1].detach(), f"output of the copy {what}")
                if e == "h":
                    for model, out in zip((dup, ref), outs):
                        model.zero_grad()
                        loss_fn(out, y, "batch").backward()
            compare(state_of(opt, net), state_of(opt_alone, alone), f"of the original {what}")
            for (n, p), q in zip(dup.named_parameters(), ref.parameters()):
                same(p.detach(), q.detach(), f"{n} of the copy {what}")
                require((p.grad is None) == (q.grad is None), f"gradient of {n} {what}")
                if p.grad is not None:
                    same(p.grad, q.grad, f"gradient of {n} of the copy {what}")
            if own is not None:
                compare(state_of(own, dup), state_of(ref_own, ref), f"of the copy {what}")
            st.transitions += 1
        st.state(spec["id"], str(w))
        st.traces += 1
    st.sample({"net": name, "word": w})


def train(opt, net, name, n, key, avg="batch"):
    for i in range(n):
        opt.zero_grad()
        x, y = make_batch(name, i, (key,))
        loss_fn(net(x), y, avg).backward()
        opt.step()


def run_rebuild(spec, st):
    """A dropped optimizer leaves nothing behind but its hooks."""
    a, b = (hyper({**DEFAULTS, **PROFILES[k]}) for k in spec["profiles"])
    for n1, n2 in itertools.product([0, 1, 3], [1, 4]):
        st.case((spec["id"], n1, n2))
        net = make_net("mlp")
        first = XSINGD(net, **a)
        train(first, net, "mlp", n1, 0)
        start = {n: p.detach().clone() for n, p in net.named_parameters()}
        if spec["same"]:
            target = net  # both optimizers stay attached
        else:
            target = make_net("mlp")
            target.load_state_dict(start)
        target.zero_grad()
        second = XSINGD(target, **b)
        train(second, target, "mlp", n2, 1)
        fresh = make_net("mlp")
        fresh.load_state_dict(start)
        ref = XSINGD(fresh, **b)
        train(ref, fresh, "mlp", n2, 1)
        compare(
            state_of(second, target), state_of(ref, fresh),
            f"after {n2} steps of an optimizer built after {n1} steps of another one",
        )  # fmt: skip
        st.transitions += n1 + 2 * n2
        st.state(spec["id"], n1, n2)
        st.traces += 1
    st.outcome([t.numpy().tobytes() for t in state_of(ref, fresh).values()])


def run_process(spec, st):
    """What other optimizers of a process did does not matter: every sequence of
    optimizers is executed in a process where no optimizer was used before."""
    actors = [list(a) for a in itertools.product(PROCESS_NETS, range(3))]
    jobs = [[spec["last"]]]
    for before in itertools.product(actors, repeat=spec["n"] - 1):
        jobs.append([*before, spec["last"]])
    jobs = [[how, j] for j in jobs for how in ("one after another", "in turns")]
    code = "import sys; sys.path.insert(0, %r); from mc.checks.c22 import child; child()"
    p = subprocess.run(
        [sys.executable, "-W", "ignore", "-c", code % VERIF],
        input=json.dumps(jobs),
        capture_output=True,
        text=True,
        env={**os.environ, "VERIF_REPO": REPO},
    )
    require(p.returncode == 0, f"the new process failed: {p.stderr[-300:]}")
    got = json.loads(p.stdout)
    for (how, job), digest in zip(jobs, got):
        st.case((spec["id"], how, str(job)), len(job) > 1)
        what = f"{spec['last']} in a process with {job[:-1]} before, trained {how}"
        require(digest is not None, f"training failed: {what}")
        require(digest == got[0], f"differs from the only optimizer of a process: {what}")
        st.state(how, job)
        st.transitions += 4 * len(job)
        st.traces += 1
    st.outcome(got[0])
    st.sample({"jobs": jobs[-1]})


def in_fork(how, job):
    """Digest of the last optimizer's state, computed in a copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        with os.fdopen(r) as f:
            out = f.read()
        os.waitpid(pid, 0)
        return out or None
    try:
        made = (Actor(net, PROFILES[k], 0) for net, k in job)
        if how == "in turns":
            made = list(made)
            for e in "FBS" * 4:
                for a in made:
                    a.do(e)
        else:
            for a in made:
                for e in "FBS" * 4:
                    a.do(e)
        h = hashlib.sha256()
        for n, t in sorted(state_of(a.opt, a.net).items()):
            h.update(n.encode() + t.numpy().tobytes())
        os.write(w, h.hexdigest().encode())
    finally:
        os._exit(0)


def child():
    torch.set_num_threads(1)
    # everything PyTorch imports when it is first used
    net = torch.nn.Sequential(torch.nn.Conv2d(1, 1, 1), torch.nn.Linear(1, 1))
    sgd = torch.optim.SGD(net.parameters(), lr=0.1)
    net(torch.ones(1, 1, 1, 1)).sum().backward()
    sgd.step()
    print(json.dumps([in_fork(how, job) for how, job in json.load(sys.stdin)]))
