"""Scalar summaries of structured matrices."""

import itertools

import numpy as np
import torch

from mc.core import arr, close, require, rng
from mc.mats import basis, build, large_dims, members, small_dims, tensor
from mc.sim import STRUCTS
from singd.structures import utils

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of coefficient patterns per structure and size on the implementation, against dense float64 arithmetic"
RULE = (
    "One evaluation is one matrix of which the average trace, the Frobenius norm and the "
    "largest absolute entry are compared with those of the dense matrix. patterns: all "
    "assignments of {-2, 0, 1} to the free coefficients of a structure while their number "
    "is small; basis: all signed basis matrices and pair sums; generic: integer members up "
    "to size 129 in three precisions; extreme: members whose summary is representable in the "
    "precision although sums or squares of entries are not, up to size 300; sums: the sums along all diagonals of every unit "
    "matrix of every shape, Toeplitz products of all unit vectors. Non-trivial: distinct "
    "(structure, size, coefficients) that are not all zero."
)
BOUNDS = {
    "quick": "21 structures; patterns of up to 6 coefficients, basis sizes 1-7, diagonal sums "
    "of shapes up to 6x6",
    "thorough": "21 structures; patterns of up to 9 coefficients, basis sizes 1-10, diagonal "
    "sums of shapes up to 9x9",
}
ASSUMPTIONS = []
MAGNITUDES = [256.0, 4096.0, 2.0**-9, 2.0**-13]
TOL = {"float32": 2e-6, "float16": 4e-3, "bfloat16": 3e-2}


def cases(tier):
    thorough = tier == "thorough"
    out = []
    for s in STRUCTS:
        for n in small_dims(s, 10 if thorough else 7):
            out.append({"id": f"basis/{s}/{n}", "kind": "basis", "s": s, "n": n})
            if len(basis(s, n)) <= (9 if thorough else 6):
                out.append({"id": f"patterns/{s}/{n}", "kind": "patterns", "s": s, "n": n})
        for n in small_dims(s, 9) + large_dims(s) + [17]:
            for dt in TOL:
                out.append(
                    {"id": f"generic/{s}/{n}/{dt}", "kind": "generic", "s": s, "n": n,
                     "dtype": dt}
                )  # fmt: skip
        for n, mag, dt in itertools.product([5, 61, 300], MAGNITUDES, TOL):
            out.append(
                {"id": f"extreme/{s}/{n}/{mag}/{dt}", "kind": "extreme", "s": s, "n": n,
                 "mag": mag, "dtype": dt}
            )  # fmt: skip
    top = 9 if thorough else 6
    for r in range(1, top + 1):
        for c in range(1, top + 1):
            out.append({"id": f"sums/{r}/{c}", "kind": "sums", "r": r, "c": c})
    out.append({"id": "precision", "kind": "precision"})
    return list({c["id"]: c for c in out}.values())


def scalar(x, what):
    a = arr(x)
    require(a.ndim == 0, f"{what} is no scalar: shape {a.shape}")
    return a


def check(A, M, what, tol=2e-6):
    n = M.shape[0]
    # quotients entry / n may be subnormal in float16
    mag = np.abs(np.diag(M)).sum() / n
    if tol == TOL["float16"]:
        mag = max(mag, n * 2.0**-25 / tol)
    close(scalar(A.average_trace(), what), np.trace(M) / n, f"average trace, {what}", mag, tol)
    close(
        scalar(A.frobenius_norm(), what),
        np.sqrt((M**2).sum()),
        f"Frobenius norm, {what}",
        None,
        tol,
    )
    close(
        scalar(A.infinity_vector_norm(), what),
        np.abs(M).max(),
        f"largest absolute entry, {what}",
        None,
        tol,
    )
    close(A.to_dense(), M, f"matrix after the queries, {what}")


def run(spec, st):
    kind = spec["kind"]
    if kind == "sums":
        return sums(spec, st)
    if kind == "precision":
        return precision(spec, st)
    if kind == "extreme":
        return extreme(spec, st)
    s, n = spec["s"], spec["n"]
    where = f"{s} of size {n}"
    bs = basis(s, n)
    if kind == "basis":
        for i, M in enumerate(bs):
            for v in (1.0, -3.0):
                st.case((spec["id"], i, v))
                check(build(s, v * M), v * M, f"{v} * basis matrix {i} of {where}")
            for j in range(i):
                st.case((spec["id"], i, j))
                N = 2 * M - 3 * bs[j]
                check(build(s, N), N, f"basis matrices {i}, {j} of {where}")
    elif kind == "patterns":
        for coef in itertools.product((-2.0, 0.0, 1.0), repeat=len(bs)):
            M = sum(c * b for c, b in zip(coef, bs))
            st.case((spec["id"], coef), any(coef))
            check(build(s, M), M, f"coefficients {coef} of {where}")
    else:
        dt = getattr(torch, spec["dtype"])
        for k, M in enumerate(members(s, n, rng("c14", s, n), 4, -3, 4)):
            st.case((spec["id"], k))
            what = f"generic member {k} of {where} in {spec['dtype']}"
            check(build(s, M, dt), M, what, TOL[spec["dtype"]])
    st.outcome((spec["id"], len(bs)))
    st.sample(spec["id"])


def extreme(spec, st):
    """Results that are representable although sums and squares of entries are not."""
    s, n, mag = spec["s"], spec["n"], spec["mag"]
    dt = getattr(torch, spec["dtype"])
    pattern = members(s, n, rng("c14x", s, n), 1, 1, 4)[0]
    for k, M in enumerate((np.where(pattern != 0, 1.0, 0.0), -pattern, np.eye(n))):
        M = M * mag
        if dt == torch.float16 and np.sqrt((M**2).sum()) > 3e4:
            continue
        st.case((spec["id"], k))
        what = f"pattern {k} of {s} of size {n}, magnitude {mag} in {spec['dtype']}"
        check(build(s, M, dt), M, what, max(1e-5, TOL[spec["dtype"]]))
    st.outcome(spec["id"])
    st.sample(spec["id"])


def sums(spec, st):
    r, c = spec["r"], spec["c"]

    def expected(M):
        return np.array([np.trace(M, offset=k) for k in range(-r + 1, c)])

    for i in range(r):
        for j in range(c):
            E = np.zeros((r, c))
            E[i, j] = 2
            st.case((spec["id"], i, j))
            for t in (tensor(E), tensor(E.T.copy()).T):
                close(utils.all_traces(t), expected(E), f"diagonal sums of unit matrix {i}, {j}")
    M = rng("c14s", r, c).randint(-4, 5, (r, c)).astype(float)
    close(utils.all_traces(tensor(M)), expected(M), f"diagonal sums of a {r}x{c} matrix")
    # Toeplitz matrices with r rows, times all unit vectors and a matrix with c columns
    toeplitz_matmul = getattr(utils, "toeplitz_matmul", None)  # an internal function
    for k in range(2 * r - 1) if toeplitz_matmul else []:
        coeffs = np.zeros(2 * r - 1)
        coeffs[k] = 1
        T = np.eye(r, k=k - (r - 1))
        st.case((spec["id"], "toeplitz", k))
        for X in (np.eye(r), rng("c14t", r, c).randint(-3, 4, (r, c)).astype(float)):
            close(
                toeplitz_matmul(tensor(coeffs), tensor(X)),
                T @ X,
                f"Toeplitz product, diagonal {k - (r - 1)} of size {r}",
            )
    if r == c:
        D = tensor(M)
        out = utils.diag_add_(D, 2.5)
        require(out is D, "diagonal shift does not return its argument")
        close(D, M + 2.5 * np.eye(r), "diagonal shift")
    else:
        try:
            utils.diag_add_(tensor(M), 1.0)
        except ValueError:
            pass
        else:
            require(False, f"diagonal shift accepts a {r}x{c} matrix")
    st.outcome(spec["id"])
    st.sample(spec["id"])


def precision(spec, st):
    order = [torch.float16, torch.bfloat16, torch.float32]
    lowest_precision = getattr(utils, "lowest_precision", None)  # an internal function
    for k in (1, 2, 3) if lowest_precision else []:
        for ds in itertools.product(order, repeat=k):
            st.case(ds)
            require(
                lowest_precision(*ds) == min(ds, key=order.index), f"lowest precision of {ds}"
            )
    for dt in order + [torch.float64]:
        for n in (0, 1, 2, 5):
            st.case((dt, n))
            e = utils.supported_eye(n, dtype=dt)
            require(e.dtype == dt, f"identity in {dt} has {e.dtype}")
            close(e, np.eye(n), f"identity of size {n} in {dt}")
    st.outcome("precision")
