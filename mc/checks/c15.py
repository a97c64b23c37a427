"""Operation sequences on pools of structured matrices."""

import copy
import io

import numpy as np
import torch

from mc.core import close, require, rng
from mc.mats import build, members, project, tensor
from mc.sim import STRUCTS

LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all operation sequences on a pool of matrices, in lockstep with a dense model"
RULE = (
    "One trace is one operation sequence on a pool of two matrices a, b (size 4; generic, or "
    "the identity and zero) and a third slot for results: in-place sum (all ordered operand pairs, also with itself), in-place "
    "multiple, diagonal shift, sum, product, multiple, extraction from M' M and M' X X' M, "
    "queries and products with tensors, deep copy, serialization; afterwards every matrix of "
    "the pool is modified in-place once. After every operation all matrices of the pool are "
    "compared with a dense float64 model. Depth-first search over all sequences; a state is "
    "a distinct content of the model's pool."
)
BOUNDS = {
    "quick": "all sequences of 2 operations out of 49 for 21 structures (both pools), of 3 operations "
    "out of 24 for 6 structures",
    "thorough": "all sequences of 3 operations out of 49 for 21 structures",
}
ASSUMPTIONS = ["dense tensors handed to constructors or returned by to_dense are not modified"]
SLOTS = "abc"
N = 4


def operations(full):
    ops = []
    for i in "ab":
        for j in SLOTS:
            if not full and j == "c":
                continue
            ops.append(("add_", i, j))
        ops.append(("mul_", i))
        ops.append(("diag_add_", i))
        ops.append(("mul", i))
        ops.append(("mul1", i))
        ops.append(("inner", i))
        ops.append(("innerX", i))
        ops.append(("query", i))
        ops.append(("copy", i))
        if full:
            ops.append(("pickle", i))
            ops.append(("inner2", i))
            ops.append(("mul0", i))
            ops.append(("innerI", i))
            ops.append(("add_0", i, "ba"[i == "b"]))
            ops.append(("add_1", i, "ba"[i == "b"]))
    for i, j in ("ab", "ba", "aa", "bb") if full else ("ab", "bb"):
        ops.append(("add", i, j))
        ops.append(("matmul", i, j))
    if full:
        ops += [("add_", "c", "a"), ("add_", "c", "c"), ("mul_", "c"), ("diag_add_", "c")]
        ops += [("matmul", "c", "a"), ("add", "a", "c"), ("inner", "c")]
    return ops


def cases(tier):
    out = []
    thorough = tier == "thorough"
    for s in STRUCTS:
        full = operations(True)
        for k in range(len(full)):
            for special in (False, True):
                depth = 3 if thorough and not special else 2
                out.append({"s": s, "first": k, "depth": depth, "full": True,
                            "special": special})  # fmt: skip
    if not thorough:
        for s in ("dense", "diagonal", "block3", "hier12", "triltoeplitz", "nested"):
            for k in range(len(operations(False))):
                out.append({"s": s, "first": k, "depth": 3, "full": False, "special": False})
    for c in out:
        c["id"] = f"{c['s']}/{c['first']}/{c['depth']}/{c['full']}/{c['special']}"
    return out


X = np.array([[1.0, 0.0], [-1.0, 1.0], [0.0, 0.5], [0.5, 0.0]])


def apply(op, impl, model, s, n=N):
    """Apply an operation to the pool of the implementation and of the model."""
    kind, i = op[0], op[1]
    A, M = impl[i], model[i]
    if kind == "add_":
        ret = A.add_(impl[op[2]], alpha=-0.5)
        require(ret is A, "in-place sum returns another object")
        model[i] = M - 0.5 * model[op[2]]
    elif kind == "add_0":
        require(A.add_(impl[op[2]], alpha=0.0) is A, "in-place sum returns another object")
    elif kind == "add_1":
        require(A.add_(impl[op[2]]) is A, "in-place sum returns another object")
        model[i] = M + model[op[2]]
    elif kind == "mul1":
        impl["c"], model["c"] = A * 1.0, M
    elif kind == "mul0":
        impl["c"], model["c"] = A * 0.0, 0.0 * M
    elif kind == "innerI":
        t = torch.eye(n)
        impl["c"], model["c"] = A.from_inner(t), project(s, M.T @ M)
        close(t, np.eye(n), "X after the extraction from M' X X' M")
    elif kind == "mul_":
        require(A.mul_(0.5) is A, "in-place multiple returns another object")
        model[i] = 0.5 * M
    elif kind == "diag_add_":
        require(A.diag_add_(1.5) is A, "diagonal shift returns another object")
        model[i] = M + 1.5 * np.eye(n)
    elif kind == "mul":
        impl["c"], model["c"] = A * 0.5, 0.5 * M
    elif kind == "add":
        impl["c"], model["c"] = A + impl[op[2]], M + model[op[2]]
    elif kind == "matmul":
        impl["c"], model["c"] = A @ impl[op[2]], M @ model[op[2]]
    elif kind == "inner":
        impl["c"], model["c"] = A.from_inner(), project(s, M.T @ M)
    elif kind == "innerX":
        t = tensor(X)
        impl["c"], model["c"] = A.from_inner(t), project(s, M.T @ X @ X.T @ M)
        close(t, X, "X after the extraction from M' X X' M")
    elif kind == "inner2":
        S_ = X @ X.T
        t = tensor(S_)
        impl["c"], model["c"] = A.from_inner2(t), project(s, M.T @ S_ @ M)
        close(t, S_, "S after the extraction from M' S M")
    elif kind == "query":
        t = tensor(X)
        A.average_trace(), A.frobenius_norm(), A.infinity_vector_norm(), A.to_dense()
        u, v = A @ t, A.rmatmat(t)
        u.add_(100.0)
        v.add_(100.0)
        close(t, X, "X after products with X")
    elif kind == "copy":
        impl["c"], model["c"] = copy.deepcopy(A), M
    elif kind == "pickle":
        buf = io.BytesIO()
        torch.save(A, buf)
        buf.seek(0)
        impl["c"], model["c"] = torch.load(buf, weights_only=False), M
    else:
        raise ValueError(op)


def agree(impl, model, what):
    for k in SLOTS:
        close(impl[k].to_dense(), model[k], f"matrix {k} {what}", tol=2e-5)


def start(s, special=False):
    if special:  # shortcuts for special values must not share anything
        cls = STRUCTS[s][0]
        M = members(s, N, rng("c15", s, 1), 1, -2, 3)[0]
        impl = {"a": cls.eye(N), "b": cls.zeros(N), "c": build(s, M)}
        return impl, {"a": np.eye(N), "b": np.zeros((N, N)), "c": M}
    ms = dict(zip(SLOTS, members(s, N, rng("c15", s, 0), 3, -2, 3)))
    return {k: build(s, M) for k, M in ms.items()}, dict(ms)


def run(spec, st):
    s = spec["s"]
    ops = operations(spec["full"])

    def visit(prefix):
        impl, model = start(s, spec["special"])
        for op in prefix:
            apply(op, impl, model, s)
            st.transitions += 1
        agree(impl, model, f"after {prefix} ({s})")
        st.state(s, [np.round(model[k], 9).tobytes() for k in SLOTS])
        if len(prefix) == spec["depth"]:
            st.traces += 1
            st.case((s, spec["special"], prefix))
            # whatever is shared shows when each matrix is modified once more
            for k in SLOTS:
                apply(("mul_", k), impl, model, s)
                agree(impl, model, f"after {prefix} and changing {k} in-place ({s})")
                apply(("diag_add_", k), impl, model, s)
                agree(impl, model, f"after {prefix} and shifting {k} in-place ({s})")
            return
        for op in ops:
            visit(prefix + [op])

    visit([ops[spec["first"]]])
    st.sample({"structure": s, "first": ops[spec["first"]], "depth": spec["depth"],
               "special": spec["special"]})  # fmt: skip
    st.outcome(spec["id"])
