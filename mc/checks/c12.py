"""Structured matrix arithmetic."""

import numpy as np
import torch

from mc.core import Violation, arr, require, rng
from mc.mats import basis, build, large_dims, members, small_dims, tensor
from mc.sim import STRUCTS

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of basis operands per structure and size on the implementation, against dense integer arithmetic"
RULE = (
    "One evaluation is one operation on concrete operands. Binary operations: all pairs of "
    "basis matrices of the structure (they determine a bilinear operation) and generic "
    "integer members; products with tensors: all basis matrices with the identity, every "
    "unit vector and integer tensors of several widths and memory layouts; scalar "
    "operations: all basis matrices with several scalars. Integer operands make every "
    "result exactly representable, so results are compared exactly. Non-trivial: distinct "
    "(structure, size, operation, operands) with non-zero operands."
)
BOUNDS = {
    "quick": "21 structures; exhaustive for sizes 1-8, generic operands up to size 129 and width 1030, three magnitudes; "
    "float32, float16, bfloat16",
    "thorough": "21 structures; exhaustive for sizes 1-12, generic operands up to size 129 and width 1030, three magnitudes; "
    "float32, float16, bfloat16",
}
ASSUMPTIONS = ["at the large sizes operands are generic integer members, not all of them"]
WIDTHS = (1, 31, 64, 65, 130, 257, 1030)
HALF = (torch.float16, torch.bfloat16)


def cases(tier):
    top = 12 if tier == "thorough" else 8
    out = []
    for s in STRUCTS:
        for n in small_dims(s, top):
            for op in ("matmul", "add", "tensor", "scalar"):
                out.append({"id": f"{op}/{s}/{n}", "kind": op, "s": s, "n": n})
        for n in small_dims(s, 8) + large_dims(s) + [17]:
            for dt in ("float32", "float16", "bfloat16") if n <= 90 else ("float32",):
                out.append(
                    {"id": f"generic/{s}/{n}/{dt}", "kind": "generic", "s": s, "n": n,
                     "dtype": dt}
                )  # fmt: skip
    return list({c["id"]: c for c in out}.values())


def expect(actual, expected, what, dtype=torch.float32):
    t = actual if isinstance(actual, torch.Tensor) else actual.to_dense()
    a = arr(t)
    require(a.shape == expected.shape, f"{what}: shape {a.shape}, not {expected.shape}")
    require(t.dtype == dtype, f"{what}: dtype {t.dtype}, not {dtype}")
    if not np.array_equal(a, expected):
        i = np.unravel_index(int(np.argmax(np.abs(a - expected))), a.shape)
        raise Violation(
            f"{what}: entry {tuple(map(int, i))} is {a[i]:g}, expected {expected[i]:g}"
        )


def run(spec, st):
    s, n, kind = spec["s"], spec["n"], spec["kind"]
    cls = STRUCTS[s][0]
    where = f"{s} of size {n}"
    if kind == "generic":
        return generic(spec, st)
    bs = basis(s, n)
    mats = [build(s, M) for M in bs]
    for k, (A, M) in enumerate(zip(mats, bs)):
        expect(A, M, f"to_dense of basis matrix {k} of {where}")
    if kind == "matmul":
        for i, (A, M) in enumerate(zip(mats, bs)):
            for j, (B, N) in enumerate(zip(mats, bs)):
                st.case((spec["id"], i, j), bool((M @ N).any()))
                out = A @ B
                require(isinstance(out, cls), f"product of {where}: {type(out)}")
                expect(out, M @ N, f"product of basis matrices {i}, {j} of {where}")
    elif kind == "add":
        for i, M in enumerate(bs):
            for j, (B, N) in enumerate(zip(mats, bs)):
                st.case((spec["id"], i, j))
                what = f"basis matrices {i}, {j} of {where}"
                out = mats[i] + B
                require(isinstance(out, cls), f"sum of {where}: {type(out)}")
                expect(out, M + N, f"sum of {what}")
                for alpha in (1.0, -3.0, 0.0):
                    A = build(s, 2 * M)
                    ret = A.add_(B, alpha=alpha)
                    require(ret is A, "in-place sum does not return the matrix")
                    expect(A, 2 * M + alpha * N, f"in-place sum (alpha={alpha}) of {what}")
                A = build(s, M)
                A.add_(B)
                expect(A, M + N, f"in-place sum of {what}")
    elif kind == "tensor":
        rs = rng("c12", s, n)
        Xs = [("identity", np.eye(n))]
        Xs += [(f"unit {i}", np.eye(n)[:, i : i + 1]) for i in range(n)]
        Xs += [(f"width {m}", rs.randint(-3, 4, (n, m)).astype(float)) for m in (1, 2, 3, n + 2)]
        for i, (A, M) in enumerate(zip(mats, bs)):
            for name, X in Xs:
                for layout in ("contiguous", "transposed", "strided"):
                    st.case((spec["id"], i, name, layout))
                    t = tensor(X)
                    if layout == "transposed":
                        t = t.T.contiguous().T
                    elif layout == "strided":
                        big = torch.full((n, 2 * X.shape[1]), 7.0)
                        big[:, ::2] = t
                        t = big[:, ::2]
                    what = f"basis matrix {i} of {where} with {name} ({layout})"
                    expect(A @ t, M @ X, f"product of {what}")
                    expect(A.rmatmat(t), M.T @ X, f"transpose product of {what}")
                    expect(t, X, f"operand after the product of {what}")
    elif kind == "scalar":
        expect(cls.eye(n), np.eye(n), f"eye of {where}")
        expect(cls.zeros(n), np.zeros((n, n)), f"zeros of {where}")
        for i, M in enumerate(bs):
            for v in (2.0, 1.0, -1.0, 0.0, 0.5, 3, 1):
                st.case((spec["id"], i, v))
                what = f"basis matrix {i} of {where} and {v}"
                A = build(s, M)
                out = A * v
                require(isinstance(out, cls), f"multiple of {where}: {type(out)}")
                expect(out, M * v, f"multiple of {what}")
                A = build(s, 2 * M)
                require(A.mul_(v) is A, "in-place multiple does not return the matrix")
                expect(A, 2 * M * v, f"in-place multiple of {what}")
                A = build(s, M)
                require(A.diag_add_(v) is A, "diagonal shift does not return the matrix")
                expect(A, M + v * np.eye(n), f"diagonal shift of {what}")
    st.sample(spec["id"])
    st.outcome((spec["id"], len(bs)))


def generic(spec, st):
    # powers of two keep the arithmetic exact
    exponents = (0, -13, 11) if spec["dtype"] == "float32" else (0, -3)
    for e in exponents:
        scaled(spec, st, 2.0**e)


def scaled(spec, st, unit):
    s, n = spec["s"], spec["n"]
    dt = getattr(torch, spec["dtype"])
    cls = STRUCTS[s][0]
    rs = rng("c12g", s, n)
    # small integers: all intermediate sums are exact in every precision
    hi = 2 if dt in HALF else 3
    M, N = (unit * m for m in members(s, n, rs, 2, lo=-hi + 1, hi=hi))
    X = unit * rs.randint(-hi + 1, hi, (n, 3)).astype(float)
    where = f"{s} of size {n} in {spec['dtype']}, unit {unit}"
    A, B = build(s, M, dt), build(s, N, dt)
    t = tensor(X, dt)
    expect(A, M, f"to_dense of {where}", dt)
    ops = [
        ("product", lambda: A @ B, M @ N),
        ("sum", lambda: A + B, M + N),
        ("multiple", lambda: A * 2.0, 2 * M),
        ("tensor product", lambda: A @ t, M @ X),
        ("transpose product", lambda: A.rmatmat(t), M.T @ X),
        ("eye", lambda: cls.eye(n, dtype=dt), np.eye(n)),
        ("zeros", lambda: cls.zeros(n, dtype=dt), np.zeros((n, n))),
        ("eye product", lambda: cls.eye(n, dtype=dt) @ A, M),
        ("product eye", lambda: A @ cls.eye(n, dtype=dt), M),
        ("zeros sum", lambda: cls.zeros(n, dtype=dt).add_(A, alpha=-2.0), -2 * M),
        ("eye shift", lambda: cls.eye(n, dtype=dt).diag_add_(-1.0), np.zeros((n, n))),
        ("in-place sum", lambda: (A + B).add_(A, alpha=3.0), 4 * M + N),
        ("in-place multiple", lambda: (A + B).mul_(-1.0), -(M + N)),
        ("shift", lambda: (A + B).diag_add_(2.0 * unit), M + N + 2 * unit * np.eye(n)),
    ]
    # oneDNN does not terminate for some depth-wise float16 convolutions
    with torch.backends.mkldnn.flags(enabled=dt != torch.float16):
        for m in WIDTHS if n <= 40 and dt == torch.float32 else (1, 70):
            X2 = unit * rs.randint(-hi + 1, hi, (n, m)).astype(float)
            t2 = tensor(X2, dt)
            for name, t3 in (("", t2), (" (transposed)", t2.T.contiguous().T)):
                name = f"width {m}{name}"
                ops += [
                    (f"tensor product, {name}", lambda t=t3: A @ t, M @ X2),
                    (f"transpose product, {name}", lambda t=t3: A.rmatmat(t), M.T @ X2),
                ]
        for name, fn, expected in ops:
            st.case((spec["id"], unit, name))
            expect(fn(), expected, f"{name} of {where}", dt)
    st.outcome((spec["id"], M.tobytes()))
    st.sample(spec["id"])
