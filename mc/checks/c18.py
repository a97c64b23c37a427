"""Output gradient statistics."""

import itertools

import numpy as np
import torch
from torch import nn

from mc.core import arr, close, close_rows, require, rng
from singd.optim.utils import process_grad_output

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of shapes, conventions and unit gradients on the implementation, against float64 arithmetic and metamorphic relations"
RULE = (
    "One evaluation is one output gradient, averaging convention and approximation. All unit "
    "gradients and an integer gradient (in several memory layouts) and an expanded one of every shape are "
    "processed and compared with the documented rows; relations: an averaged loss gives the "
    "Gram matrix of the summed loss divided by the number of terms, duplicating all samples "
    "of an averaged loss does not change the Gram matrix, expand and reduce agree if nothing "
    "is shared. Non-trivial: distinct shape, gradient, convention."
)
BOUNDS = {
    "quick": "linear outputs with up to 6 dimensions (2-4 exhaustively of size 1-3), convolution outputs with "
    "batch and channels 1-3, spatial sizes 1-3; 7 large shapes",
    "thorough": "linear outputs with up to 6 dimensions (2-5 exhaustively of size 1-3), convolution outputs with "
    "batch and channels 1-4, spatial sizes 1-4; 7 large shapes",
}
ASSUMPTIONS = []
AVG = (None, "batch", "batch+sequence")


def cases(tier):
    thorough = tier == "thorough"
    out = []
    for ndim in range(2, 6 if thorough else 5):
        for shape in itertools.product((1, 2, 3), repeat=ndim):
            out.append({"id": f"linear/{shape}", "kind": "linear", "shape": shape})
    top = 4 if thorough else 3
    for shape in itertools.product(range(1, top + 1), repeat=4):
        out.append({"id": f"conv/{shape}", "kind": "conv", "shape": shape})
    if not thorough:
        for shape in itertools.product((1, 2, 3), (1, 2, 3), (1, 2), (1, 3), (1, 2)):
            out.append({"id": f"linear/{shape}", "kind": "linear", "shape": shape})
    for shape in itertools.product((1, 2), (1, 3), (1, 2), (2, 1), (1, 3), (2,)):
        out.append({"id": f"linear/{shape}", "kind": "linear", "shape": shape})
    for shape in [(130, 2), (1, 70, 2), (67, 5, 3), (2, 600)]:
        out.append({"id": f"linear/{shape}", "kind": "linear", "shape": shape})
    for shape in [(70, 2, 3, 1), (2, 80, 2, 2), (2, 1, 17, 16)]:
        out.append({"id": f"conv/{shape}", "kind": "conv", "shape": shape})
    return out


def expected(g, kind, avg, approx):
    if kind == "conv":
        q = g.reshape(g.shape[0], g.shape[1], -1).transpose(0, 2, 1)
    else:
        q = g.reshape(g.shape[0], -1, g.shape[-1])
    b, s, c = q.shape
    terms = {None: 1, "batch": b, "batch+sequence": b * s}[avg]
    rows = q.reshape(-1, c) if approx == "expand" else q.sum(axis=1)
    return rows * np.sqrt(terms), b, s


def run(spec, st):
    kind, shape = spec["kind"], tuple(spec["shape"])
    layer = nn.Conv2d(1, shape[1], 1) if kind == "conv" else nn.Linear(1, shape[-1])
    n = int(np.prod(shape))
    dense = rng("c18", kind, shape).randint(-3, 4, shape).astype(float)
    dense.flat[0] = 2.0
    todo = [(f"unit {k}", np.eye(n)[k].reshape(shape)) for k in range(n) if n < 300]
    todo.append(("integer", dense))
    # gradients of plain sums are expanded tensors without own memory
    expanded = torch.tensor(2.0).expand(shape)
    todo.append(("expanded", arr(expanded)))
    for avg in AVG:
        for approx in ("expand", "reduce"):
            for name, g in todo:
                layouts = [torch.from_numpy(g).float()]
                if name == "integer":
                    layouts.append(layouts[0].transpose(0, -1).contiguous().transpose(0, -1))
                    layouts.append(torch.stack([layouts[0]] * 2, dim=-1)[..., 0])
                if name == "expanded":
                    layouts = [expanded]
                rows, b, s = expected(g, kind, avg, approx)
                for t in layouts:
                    what = f"{kind} {shape}, {name}, {avg}, {approx}"
                    st.case((what, t.stride()))
                    before = t.clone()
                    out = process_grad_output(t, layer, avg, approx)
                    close_rows(out, rows, what, tol=1e-5)
                    require(torch.equal(t, before), f"gradient modified: {what}")
            relations(kind, shape, layer, dense, avg, approx, st)
    st.outcome(spec["id"])
    st.sample(spec)


def gram(g, layer, avg, approx):
    out = process_grad_output(torch.from_numpy(g).float(), layer, avg, approx).double()
    return (out.T @ out).numpy()


def relations(kind, shape, layer, g, avg, approx, st):
    what = f"{kind} {shape}, {avg}, {approx}"
    _, b, s = expected(g, kind, avg, approx)
    terms = {None: 1, "batch": b, "batch+sequence": b * s}[avg]
    st.case((what, "relations"))
    total = gram(g, layer, None, approx)
    close(gram(g / terms, layer, avg, approx), total / terms, f"averaged loss, {what}", tol=1e-5)
    if avg is not None:
        twice = np.concatenate([g, g]) / (2 * terms)
        close(
            gram(twice, layer, avg, approx),
            gram(g / terms, layer, avg, approx),
            f"duplicated samples, {what}",
            tol=1e-5,
        )
    if s == 1:
        close(
            gram(g, layer, avg, "expand"),
            gram(g, layer, avg, "reduce"),
            f"expand versus reduce, {what}",
            tol=1e-5,
        )
