"""Input statistics of linear and convolution layers."""

import itertools

import numpy as np
import torch
from torch import nn

from mc import sim as SIM
from mc.core import arr, close_rows, require, rng
from mc.sim import Sim
from singd.optim.utils import process_input

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of layer hyper-parameters and unit inputs on the implementation, against the layer's own linear map"
RULE = (
    "One evaluation is one layer configuration and approximation, applied to the batch of "
    "all unit inputs (processing is linear in the input before bias and scaling) and to one "
    "integer batch. The expected patches are obtained from a PyTorch convolution of the same "
    "configuration whose kernels are the unit kernels, i.e. from the layer's own linear map; "
    "rows, trailing ones and scaling must agree for expand and reduce, the input must stay "
    "unchanged. end: the configuration is trained with the optimizer for two steps in "
    "lockstep with the specification. Non-trivial: distinct configuration."
)
BOUNDS = {
    "quick": "kernels 1-3 x 1-3, strides 1-2, paddings 0-2, same, valid, dilations 1-2, "
    "groups 1-2, four padding modes, bias, image 5x4, some large ones; linear inputs of all shapes with up to "
    "4 dimensions of size 1-3",
    "thorough": "as quick, and images 5x4, 6x7, 4x3, groups 1-4, strides 1-3; linear inputs with "
    "up to 5 dimensions",
}
ASSUMPTIONS = [
    "convolutions whose named padding is uneven raise a documented NotImplementedError for "
    "expand",
]


def conv_box(thorough):
    images = [(5, 4), (6, 7), (4, 3)] if thorough else [(5, 4)]
    strides = [(1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 1), (3, 2)] if thorough else [])
    for image in images:
        for kernel in itertools.product((1, 2, 3), repeat=2):
            for stride in strides:
                for pad in [0, 1, (0, 1), (1, 0), (2, 1), "same", "valid"]:
                    if pad == "same" and stride != (1, 1):
                        continue
                    for dil in [(1, 1), (2, 1), (1, 2), (2, 2)]:
                        for mode in ("zeros", "reflect", "replicate", "circular"):
                            if mode != "zeros" and pad in (0, "valid"):
                                continue
                            yield image, kernel, stride, pad, dil, mode


def fits(image, kernel, pad, dil, mode):
    if pad == "same":
        pads = [d * (k - 1) for d, k in zip(dil, kernel)]
        biggest = max((p - p // 2) for p in pads)
    else:
        p = {0: (0, 0), "valid": (0, 0), 1: (1, 1)}.get(pad, pad)
        pads = [2 * q for q in p]
        biggest = max(p)
    if mode in ("reflect", "circular") and biggest >= min(image):
        return False
    return all(i + q >= d * (k - 1) + 1 for i, q, d, k in zip(image, pads, dil, kernel))


def cases(tier):
    thorough = tier == "thorough"
    out = []
    todo = []
    for image, kernel, stride, pad, dil, mode in conv_box(thorough):
        if fits(image, kernel, pad, dil, mode):
            todo.append([image, kernel, stride, pad, dil, mode])
    # a few large ones
    todo += [[(13, 17), (5, 4), (3, 2), (2, 1), (1, 2), "zeros"],
             [(17, 19), (1, 7), (1, 1), "same", (1, 1), "zeros"],
             [(16, 16), (7, 7), (2, 2), (3, 3), (1, 1), "reflect"],
             [(1, 33), (1, 5), (1, 4), (0, 2), (1, 3), "zeros"]]  # fmt: skip
    for i in range(0, len(todo), 20):
        out.append({"id": f"conv/{i // 20}", "kind": "conv", "confs": todo[i : i + 20],
                    "groups": [1, 2, 3, 4] if thorough else [1, 2]})  # fmt: skip
    for ndim in range(2, 6 if thorough else 5):
        for shape in itertools.product((1, 2, 3), repeat=ndim):
            out.append({"id": f"linear/{shape}", "kind": "linear", "shape": shape})
    for shape in [(130, 3), (1, 70, 2), (66, 2, 3), (2, 300), (1, 513)]:
        out.append({"id": f"linear/{shape}", "kind": "linear", "shape": shape})
    for kernel, stride, pad, dil, groups in itertools.product(
        [(1, 1), (2, 3), (3, 2)], [(1, 1), (2, 1)], [(0, 0), (1, 0), (1, 2)],
        [(1, 1), (1, 2)], [1, 2],
    ):  # fmt: skip
        out.append({"kind": "end", "kernel": kernel, "stride": stride, "pad": pad, "dil": dil,
                    "groups": groups})  # fmt: skip
        out[-1]["id"] = "end/" + ",".join(str(v) for v in list(out[-1].values())[1:])
    return out


def compare(actual, rows, bias, scale, what):
    exp = rows
    if bias:
        exp = np.concatenate([rows, np.ones((rows.shape[0], 1))], axis=1)
    close_rows(actual, exp / np.sqrt(scale), what, tol=1e-5)


def run(spec, st):
    globals()["run_" + spec["kind"]](spec, st)
    st.outcome(spec["id"])
    st.sample(spec)


def run_conv(spec, st):
    for image, kernel, stride, pad, dil, mode in spec["confs"]:
        image, kernel, stride, dil = map(tuple, (image, kernel, stride, dil))
        if isinstance(pad, list):
            pad = tuple(pad)
        for groups in spec["groups"]:
            cg = 2 if groups < 3 else 1
            kw = dict(stride=stride, padding=pad, dilation=dil, padding_mode=mode)
            n_in = cg * groups * image[0] * image[1]
            unit = torch.eye(n_in).reshape(n_in, cg * groups, *image)
            rs = rng("c17", image, groups)
            dense = torch.from_numpy(rs.randint(-3, 4, (2, cg * groups) + image)).float()
            # unit kernels: one output channel per entry of a patch
            ref = nn.Conv2d(cg, cg * kernel[0] * kernel[1], kernel, bias=False, **kw)
            with torch.no_grad():
                ref.weight.copy_(torch.eye(ref.weight.shape[0]).reshape_as(ref.weight))
            for bias in (False, True):
                layer = nn.Conv2d(cg * groups, 2 * groups, kernel, groups=groups, bias=bias, **kw)
                for name, x in (("unit inputs", unit), ("integer inputs", dense)):
                    mean = x.reshape(x.shape[0], groups, cg, *image).mean(1)
                    with torch.no_grad():
                        patches = arr(ref(mean)).reshape(x.shape[0], ref.weight.shape[0], -1)
                        patches = patches.transpose(0, 2, 1)  # b o k
                    for approx in ("expand", "reduce"):
                        what = f"{name}, {approx}, {layer}, image {image}"
                        st.case((layer.extra_repr(), image, approx, name))
                        before = x.clone()
                        try:
                            out = process_input(x, layer, approx)
                        except NotImplementedError:
                            require(
                                pad == "same" and mode == "zeros" and approx == "expand"
                                and any(d * (k - 1) % 2 for d, k in zip(dil, kernel)),
                                f"not supported: {what}",
                            )  # fmt: skip
                            continue
                        if approx == "expand":
                            rows = patches.reshape(-1, patches.shape[-1])
                        else:
                            rows = patches.mean(axis=1)
                        compare(out, rows, bias, rows.shape[0], what)
                        require(torch.equal(x, before), f"input modified: {what}")


def run_linear(spec, st):
    shape = tuple(spec["shape"])
    n = int(np.prod(shape))
    # all unit inputs of this shape, and one integer input in three memory layouts
    for bias in (False, True):
        layer = nn.Linear(shape[-1], 2, bias=bias)
        rs = rng("c17", shape)
        dense = rs.randint(-3, 4, shape).astype(float)
        inputs = [(f"unit input {k}", np.eye(n)[k].reshape(shape)) for k in range(n)]
        for name, x in inputs + [("integer input", dense)]:
            layouts = [torch.from_numpy(x).float()]
            if name == "integer input":
                layouts.append(layouts[0].transpose(0, -1).contiguous().transpose(0, -1))
                layouts.append(torch.stack([layouts[0]] * 2, dim=-1)[..., 0])
            for approx in ("expand", "reduce"):
                rows = x.reshape(-1, shape[-1])
                if approx == "reduce":
                    rows = x.reshape(shape[0], -1, shape[-1]).mean(axis=1)
                for t in layouts:
                    what = f"{name} of shape {shape}, {approx}, bias={bias}"
                    st.case((what, t.stride()))
                    before = t.clone()
                    out = process_input(t, layer, approx)
                    compare(out, rows, bias, rows.shape[0], what)
                    require(torch.equal(t, before), f"input modified: {what}")


def run_end(spec, st):
    kernel, stride = tuple(spec["kernel"]), tuple(spec["stride"])
    pad, dil, groups = tuple(spec["pad"]), tuple(spec["dil"]), spec["groups"]
    conf = SIM.conv(2, 2, kernel, True, stride, pad, dil, groups)
    h, w = (
        (i + 2 * p - d * (k - 1) - 1) // s + 1
        for i, p, d, k, s in zip((5, 6), pad, dil, kernel, stride)
    )
    name = spec["id"]
    SIM.NETS[name] = ([conf, SIM.linear(2 * h * w, 1)], (2, 5, 6))
    try:
        for approx in ("expand", "reduce"):
            st.case((spec["id"], approx))
            hp = {"kfac_approx": approx, "structures": ("dense", "dense"), "lr": 0.01,
                  "lr_cov": 0.01}  # fmt: skip
            sim = Sim({"net": name, "hp": hp}, st)
            for i in range(2):
                sim.train_step(i)
    finally:
        del SIM.NETS[name]
