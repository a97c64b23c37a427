"""Extraction of structured matrices from dense matrices and inner products."""

import itertools

import numpy as np
import torch

from mc.core import close, require, rng
from mc.mats import basis, build, large_dims, members, project, small_dims, tensor
from mc.sim import STRUCTS

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of basis operands (polarization of the quadratic maps) per structure and size on the implementation, against a float64 projection"
RULE = (
    "One evaluation is one extraction. dense: every symmetric basis matrix; inner: M' M for "
    "all basis matrices and pair sums of basis matrices M (they determine a quadratic map); "
    "mat: X X' for all unit columns and pair sums; both: M' X X' M and M' S M for all such "
    "M with all unit columns / symmetric basis matrices; generic: integer members and "
    "rectangular X of several widths at all sizes, in three precisions. Non-trivial: "
    "distinct (structure, size, operands)."
)
BOUNDS = {
    "quick": "21 structures; dense, inner, mat exhaustive for sizes 1-6, both for sizes 1-4; "
    "generic up to size 129 (half precision: 90)",
    "thorough": "21 structures; dense, inner, mat exhaustive for sizes 1-8, both for sizes "
    "1-5; generic up to size 129 (half precision: 90)",
}
ASSUMPTIONS = ["at the large sizes operands are generic integer members, not all of them"]


def cases(tier):
    thorough = tier == "thorough"
    out = []
    for s in STRUCTS:
        for n in small_dims(s, 8 if thorough else 6):
            for kind in ("dense", "inner", "mat"):
                out.append({"id": f"{kind}/{s}/{n}", "kind": kind, "s": s, "n": n})
        for n in small_dims(s, 5 if thorough else 4):
            k = len(pairs(basis(s, n)))
            for lo in range(0, k, 40):
                out.append(
                    {"id": f"both/{s}/{n}/{lo}", "kind": "both", "s": s, "n": n, "lo": lo}
                )
        for n in small_dims(s, 9) + large_dims(s) + [17]:
            for dt in ("float32", "float16", "bfloat16") if n <= 90 else ("float32",):
                out.append(
                    {"id": f"generic/{s}/{n}/{dt}", "kind": "generic", "s": s, "n": n,
                     "dtype": dt}
                )  # fmt: skip
    return list({c["id"]: c for c in out}.values())


def pairs(bs):
    """Basis elements and sums of two of them (determine a quadratic map)."""
    return list(bs) + [a + b for a, b in itertools.combinations(bs, 2)]


def sym_basis(n):
    out = []
    for i in range(n):
        for j in range(i, n):
            E = np.zeros((n, n))
            E[i, j] = E[j, i] = 1
            out.append(E)
    return out


def check(actual, cls, expected, what, tol=1e-5, dtype=torch.float32):
    require(isinstance(actual, cls), f"{what}: {type(actual).__name__}")
    d = actual.to_dense()
    require(d.dtype == dtype, f"{what}: dtype {d.dtype}")
    close(d, expected, what, tol=tol)


def run(spec, st):
    s, n, kind = spec["s"], spec["n"], spec["kind"]
    cls = STRUCTS[s][0]
    where = f"{s} of size {n}"
    eye = np.eye(n)
    if kind == "dense":
        for k, E in enumerate(sym_basis(n)):
            st.case((spec["id"], k))
            check(cls.from_dense(tensor(E)), cls, project(s, E), f"from dense {k}, {where}")
            t = tensor(E).unsqueeze(-1).repeat(1, 1, 2)[:, :, 0]  # strided
            check(cls.from_dense(t), cls, project(s, E), f"from dense {k}, {where}")
        for k, M in enumerate(basis(s, n)):
            st.case((spec["id"], "member", k))
            check(cls.from_dense(tensor(M)), cls, M, f"from dense member {k}, {where}")
    elif kind == "inner":
        for k, M in enumerate(pairs(basis(s, n))):
            st.case((spec["id"], k))
            A = build(s, M)
            exp = project(s, M.T @ M)
            check(A.from_inner(), cls, exp, f"from inner of member {k}, {where}")
            check(A.from_inner(tensor(eye)), cls, exp, f"from inner, X=I, member {k}, {where}")
            check(A.from_inner2(tensor(eye)), cls, exp, f"from inner2, I, member {k}, {where}")
            close(A.to_dense(), M, f"member {k} of {where} after the extraction")
    elif kind == "mat":
        for k, x in enumerate(pairs([eye[:, i : i + 1] for i in range(n)])):
            st.case((spec["id"], k))
            exp = project(s, x @ x.T)
            for f in (1, 2, -3):
                got = cls.from_mat_inner(tensor(f * x))
                check(got, cls, f**2 * exp, f"from mat inner {k} times {f}, {where}")
            two = np.concatenate([x, 2 * eye[:, :1]], axis=1)
            exp = project(s, two @ two.T)
            for t in (tensor(two), tensor(two.T.copy()).T):
                check(cls.from_mat_inner(t), cls, exp, f"from mat inner {k}, {where}")
    elif kind == "both":
        xs = pairs([eye[:, i : i + 1] for i in range(n)])
        Es = sym_basis(n)
        for k, M in list(enumerate(pairs(basis(s, n))))[spec["lo"] : spec["lo"] + 40]:
            A = build(s, M)
            for j, x in enumerate(xs):
                st.case((spec["id"], k, j))
                exp = project(s, M.T @ x @ x.T @ M)
                check(A.from_inner(tensor(x)), cls, exp, f"from inner {k}, {j}, {where}")
            for j, E in enumerate(Es):
                st.case((spec["id"], k, j, 2))
                exp = project(s, M.T @ E @ M)
                check(A.from_inner2(tensor(E)), cls, exp, f"from inner2 {k}, {j}, {where}")
    else:
        dt = getattr(torch, spec["dtype"])
        half = dt != torch.float32
        rs = rng("c13g", s, n)
        M, N = members(s, n, rs, 2, lo=-1 if half else -2, hi=2 if half else 3)
        tol = {"float32": 1e-5, "float16": 4e-3, "bfloat16": 3e-2}[spec["dtype"]]
        A = build(s, M, dt)
        with torch.backends.mkldnn.flags(enabled=dt != torch.float16):
            for m in (1, 2, 5, n + 3):
                top = 1 if half and n > 9 else 2
                X = rs.randint(-top, top + 1, (n, m)).astype(float)
                S_ = X @ X.T
                for name, fn, exp in [
                    ("from inner", lambda: A.from_inner(tensor(X, dt)), M.T @ S_ @ M),
                    (
                        "from inner (transposed)",
                        lambda: A.from_inner(tensor(X.T.copy(), dt).T),
                        M.T @ S_ @ M,
                    ),
                    ("from inner2", lambda: A.from_inner2(tensor(S_, dt)), M.T @ S_ @ M),
                    ("from mat inner", lambda: cls.from_mat_inner(tensor(X, dt)), S_),
                    ("from dense", lambda: cls.from_dense(tensor(S_, dt)), S_),
                    ("from inner, no X", lambda: A.from_inner(), M.T @ M),
                ]:
                    st.case((spec["id"], m, name))
                    check(fn(), cls, project(s, exp), f"{name} of {where}, width {m}", tol, dt)
        st.case((spec["id"], "members"))
        check(cls.from_dense(tensor(N, dt)), cls, N, f"from dense of a member, {where}", tol, dt)
    st.sample(spec["id"])
    st.outcome(spec["id"])
