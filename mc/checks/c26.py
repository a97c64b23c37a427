"""Documented defaults and warnings."""

import itertools
import warnings

import torch

from mc.checks.c10 import KINDS, hand_over, tree, trained_by_default
from mc.core import require, same
from mc.sim import XSINGD, full_state, loss_fn, make_batch, make_net
from mc.words import grid

LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of sets of given options and of event words, executed on the "
    "real optimizer in lockstep with a run that is given the documented values"
)
RULE = (
    "defaults: for every set of at most two (thorough: three) options which are given "
    "explicitly with non-default values, 12 training steps where all other options are "
    "omitted, where they are given with their documented default, and where the given ones "
    "are moved to a parameter group, are bitwise the same. warnings: for all "
    "configurations of up to two groups, initial gradient scales, ways of handing over "
    "gradient scales and event words over {step, step with a large or small gradient scale, overflowing "
    "step}, the number of user warnings of every event is the documented one: one per group "
    "with kfac_like and Riemannian momentum (which is then switched off), one if the first "
    "gradient scale differs from one although no initial one was given, one per skipped "
    "step. unsupported: for all pairs of 13 kinds of modules in a nested tree, the default "
    "and two explicit selections of parameters, there is one warning per module whose "
    "parameters are not trained if they were not selected explicitly and warnings are not "
    "switched off, otherwise none. Non-trivial: distinct set of options or configuration and word."
)
BOUNDS = {
    "quick": "14 options, sets of up to 2, 2 networks; 432 configurations, words of length 3 "
    "over 4 events; 169 module trees",
    "thorough": "14 options, sets of up to 3, 2 networks; 432 configurations, words of "
    "length 5 over 4 events; 169 module trees",
}
ASSUMPTIONS = ["only the number of warnings is compared, not their text"]
# option: (documented default, another value)
OPTIONS = {
    "lr": (0.001, 0.05),
    "momentum": (0.9, 0.5),
    "damping": (0.001, 0.5),
    "alpha1": (0.5, 0.2),
    "weight_decay": (0.0, 0.3),
    "T": (10, 4),
    "loss_average": ("batch", "batch+sequence"),
    "lr_cov": (1e-2, 0.2),
    "structures": (("dense", "dense"), ("diagonal", "triltoeplitz")),
    "kfac_approx": ("expand", "reduce"),
    "kfac_like": (False, True),
    "preconditioner_dtype": ((None, None), (torch.bfloat16, None)),
    "init_grad_scale": (1.0, 2.0),
    "normalize_lr_cov": (False, True),
}
GLOBAL = ["init_grad_scale"]  # not an option of groups
STEPS = 12


def cases(tier):
    th = tier == "thorough"
    out = []
    for net in ("seq", "conv1"):
        for k in range(4 if th else 3):
            for given in itertools.combinations(OPTIONS, k):
                out.append({"kind": "defaults", "net": net, "given": list(given)})
    for c in grid(
        like=[[False], [True], [False, True], [True, True]],
        alpha1=[None, 0.0, 0.3],
        init=[None, 1.0, 4.0],
        route=["attr", "set", "early"],
        s=["dense", "diagonal"],
        T=[1, 2],
    ):
        out.append({"kind": "warn", **c, "length": 5 if th else 3})
    for a, b in itertools.product(KINDS, repeat=2):
        out.append({"kind": "unsupported", "a": a, "b": b})
    for c in out:
        c["id"] = "/".join(
            ",".join(map(str, v)) or "none" if isinstance(v, list) else str(v)
            for v in c.values()
        )
    return out


def run(spec, st):
    globals()[spec["kind"]](spec, st)
    st.sample(spec["id"])


def defaults(spec, st):
    given = {o: OPTIONS[o][1] for o in spec["given"]}
    rest = {o: v[0] for o, v in OPTIONS.items() if o not in given}
    in_group = {o: v for o, v in given.items() if o not in GLOBAL}
    top = {o: v for o, v in given.items() if o in GLOBAL}
    runs = {}
    for how in ("omitted", "explicit", "group"):
        st.case((spec["id"], how))
        net = make_net(spec["net"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if how == "omitted":
                opt = XSINGD(net, **given)
            elif how == "explicit":
                opt = XSINGD(net, **rest, **given)
            else:
                opt = XSINGD(net, [{"params": list(net.parameters()), **in_group}], **top)
        states = []
        for t in range(STEPS):
            x, y = make_batch(spec["net"], t % 3)
            opt.zero_grad()
            loss_fn(net(2.0 * x), y, "batch").backward()
            if t == 5:
                opt.set_current_grad_scale(1.0)
            opt.step()
            states.append(full_state(opt, net))
            st.transitions += 1
        runs[how] = states
        st.traces += 1
    for how in ("omitted", "group"):
        for t, (a, b) in enumerate(zip(runs["explicit"], runs[how])):
            what = f"in step {t} with {spec['given']} given, others explicit or {how}"
            require([n for n, _ in a] == [n for n, _ in b], f"quantities {what}")
            for (n, x), (_, y) in zip(a, b):
                same(y, x, f"{n} {what}")
    st.state(spec["id"])
    st.outcome([float(x.float().sum()) for _, x in runs["omitted"][-1]])


def warn(spec, st):
    for word in itertools.product("RGSI", repeat=spec["length"]):
        st.case((spec["id"], "".join(word)))
        one_word(spec, word, st)
        st.traces += 1
    st.outcome(spec["id"])


def unsupported(spec, st):
    for own, warn, form in itertools.product(
        [False, True], [None, False, True], ["default", "list", "spread"]
    ):
        st.case((spec["id"], own, warn, form))
        root = tree(spec["a"], spec["b"], own)
        _, warned = trained_by_default(root)
        kw = {} if warn is None else {"warn_unsupported": warn}
        params = None if form == "default" else hand_over(root, form)
        n, log, opt = count(lambda: XSINGD(root, params, **kw))
        expected = len(warned) if form == "default" and warn is not False else 0
        what = f"{expected} warnings expected (warn_unsupported={warn}, {form} parameters)"
        require(n == expected, f"{what}, got {n}: {log}")
        n, log, _ = count(opt.step)
        require(n == 0, f"{n} unexpected warnings in a step: {log}")
        st.traces += 1
    st.state(spec["id"])
    st.outcome(len(warned))


def count(fn):
    """Number of user warnings of an event, and its result."""
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        result = fn()
    log = [w for w in log if w.category is UserWarning]
    return len(log), [str(w.message)[:80] for w in log], result


def one_word(spec, word, st):
    net = make_net("lin" if len(spec["like"]) == 1 else "two")
    layers = list(net.layers)
    kw = {"lr": 0.01, "lr_cov": 0.1, "T": spec["T"], "structures": (spec["s"],) * 2}
    if spec["alpha1"] is not None:
        kw["alpha1"] = spec["alpha1"]
    if spec["init"] is not None:
        kw["init_grad_scale"] = spec["init"]
    groups = [
        {"params": list(la.parameters()), "kfac_like": like}
        for la, like in zip(layers, spec["like"])
    ]
    n, log, opt = count(lambda: XSINGD(net, groups, **kw))
    alpha1 = 0.5 if spec["alpha1"] is None else spec["alpha1"]
    expected = sum(spec["like"]) if alpha1 != 0.0 else 0
    require(n == expected, f"{expected} warnings expected by the constructor, got {n}: {log}")
    first = True
    for t, e in enumerate(word):
        scale = {"G": 4.0, "S": 0.5}.get(e, 1.0)
        route = spec["route"] if scale != 1.0 else "none"
        expected = int(e == "I")
        if first and scale != 1.0 and spec["init"] in (None, 1.0):
            expected += 1
        first = False

        def event():
            opt.zero_grad()
            if route == "early":
                opt.set_current_grad_scale(scale)
            x, y = make_batch("lin" if len(layers) == 1 else "two", t % 2)
            (scale * loss_fn(net(x), y, "batch")).backward()
            if route == "set":
                opt.set_current_grad_scale(scale)
            if route == "attr":
                opt.grad_scale = torch.tensor(scale)
            if e == "I":
                opt.found_inf = torch.tensor(1.0)
            opt.step()
            for name in ("grad_scale", "found_inf"):
                vars(opt).pop(name, None)

        n, log, _ = count(event)
        require(
            n == expected,
            f"{expected} warnings expected in step {t} ({e}) of {''.join(word)}, got {n}: {log}",
        )
        st.transitions += 1
    for like, group, la in zip(spec["like"], opt.param_groups, layers):
        names = [n for n, m in net.named_modules() if m is la]
        has = any(n in opt.m_Ks for n in names)
        wanted = alpha1 != 0.0 and not like
        require(has == wanted, f"Riemannian momentum with kfac_like={like}, alpha1={alpha1}")
    st.state(spec["id"], "".join(word))
