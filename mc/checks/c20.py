"""Construction of structured matrices from components."""

import itertools

import numpy as np
import torch

from mc.core import close, require, rng
from mc.mats import basis, build, large_dims, members, project, small_dims, tensor
from mc.sim import (
    INF,
    STRUCTS,
    Block2,
    Hier12,
    Hier21,
)
from singd.structures.blockdiagonal import Block3DiagonalMatrix
from singd.structures.dense import DenseMatrix
from singd.structures.diagonal import DiagonalMatrix
from singd.structures.hierarchical import Hierarchical3_2Matrix
from singd.structures.recursive import (
    RecursiveBottomLeftMatrixTemplate,
    RecursiveTopRightMatrixTemplate,
)
from singd.structures.triltoeplitz import TrilToeplitzMatrix

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of component shapes and unit components on the implementation, against a model of the documented layouts"
RULE = (
    "One evaluation is one attempt to build a matrix. shapes: every combination of component "
    "shapes in a box; the model says whether they describe one matrix and, if so, where every "
    "component entry ends up, otherwise an error is required. nested: components of right "
    "and wrong structure and size in recursive matrices. units: every basis matrix of every "
    "structure and size, built from components, converted to dense and extracted again. operands: products of all "
    "structures with tensors of all numbers of rows are accepted only if it fits. "
    "Non-trivial: distinct structure and shapes."
)
BOUNDS = {
    "quick": "hierarchical: all shapes with entries 0-3 per component side; block diagonal: "
    "up to 3 blocks of sides 1-4; recursive: sub-structures of size 0-4; units up to size 7",
    "thorough": "hierarchical: all shapes with entries 0-4; block diagonal: up to 4 blocks of "
    "sides 1-5; recursive: sub-structures of size 0-6; units up to size 10",
}
ASSUMPTIONS = []


def cases(tier):
    thorough = tier == "thorough"
    out = []
    for name in ("Hier12", "Hier21", "Hierarchical3_2Matrix"):
        for a in range(0, 5 if thorough else 4):
            for e in range(0, 5 if thorough else 4):
                out.append({"kind": "hier", "cls": name, "a": a, "e": e,
                            "top": 4 if thorough else 3})  # fmt: skip
        out.append({"kind": "hier_ndim", "cls": name})
    for name in ("Block2", "Block3DiagonalMatrix"):
        out.append({"kind": "block", "cls": name, "top": 5 if thorough else 4})
    for kind in ("tr", "bl"):
        for dims in ((2, "inf"), ("inf", 2), (1, "inf"), ("inf", 3)):
            out.append({"kind": "recursive", "side": kind, "dims": dims,
                        "top": 6 if thorough else 4})  # fmt: skip
    out.append({"kind": "maxdims"})
    out.append({"kind": "names"})
    for s in STRUCTS:
        for n in small_dims(s, 10 if thorough else 7):
            out.append({"kind": "units", "s": s, "n": n})
        for n in large_dims(s):
            out.append({"kind": "large", "s": s, "n": n})
    for s in STRUCTS:
        for n in range(2, 9 if thorough else 7):
            out.append({"kind": "operands", "s": s, "n": n, "top": 11 if thorough else 9})
        for n in (29, 31, 46):
            out.append({"kind": "operands", "s": s, "n": n, "top": 3})
    for c in out:
        c["id"] = "/".join(str(v) for v in c.values())
    return out


HIER = {
    "Hier12": (Hier12, 1, 2),
    "Hier21": (Hier21, 2, 1),
    "Hierarchical3_2Matrix": (Hierarchical3_2Matrix, 3, 2),
}
BLOCK = {"Block2": (Block2, 2), "Block3DiagonalMatrix": (Block3DiagonalMatrix, 3)}


def attempt(fn):
    """The constructed matrix, or None if the construction was rejected."""
    try:
        return fn()
    except ValueError:
        return None


def verdict(mat, valid, what):
    require(mat is not None or not valid, f"valid components rejected: {what}")
    require(mat is None or valid, f"invalid components accepted: {what}")


def filled(rs, *shape):
    return rs.randint(1, 9, shape).astype(float)


def run(spec, st):
    kind = spec["kind"]
    rs = rng("c20", spec["id"])
    globals()["run_" + kind](spec, st, rs)
    st.sample(spec["id"])
    st.outcome(spec["id"])


def run_operands(spec, st, rs):
    """Products with tensors that have another number of rows than the matrix."""
    s, n = spec["s"], spec["n"]
    A = build(s, members(s, n, rs, 1)[0])
    for rows in sorted({*range(2, spec["top"]), n - 1, n + 1, 2 * n - 1, 2 * n} - {1}):
        for cols in (1, 3):
            X = torch.ones(rows, cols)
            fns = {
                "A @ X": lambda: A @ X,
                "rmatmat": lambda: A.rmatmat(X),
                "from_inner": lambda: A.from_inner(X=X),
                "from_inner2": lambda: A.from_inner2(X @ X.T),
            }
            for name, fn in fns.items():
                st.case((spec["id"], rows, cols, name), rows != n)
                try:
                    fn()
                except Exception:  # of whatever kind
                    accepted = False
                else:
                    accepted = True
                require(
                    accepted == (rows == n),
                    f"{name} of {s} of size {n} with {rows}x{cols} operand: "
                    + ("accepted" if accepted else "rejected"),
                )


def run_hier(spec, st, rs):
    cls, k1, k2 = HIER[spec["cls"]]
    a, e, sides = spec["a"], spec["e"], range(spec["top"] + 1)
    bsides = range(2 * spec["top"] + 1)
    for a2, e2, c, d1, d2 in itertools.product((a, a + 1), (e, e + 1), sides, sides, sides):
        for b1 in sides:
            for b2 in bsides:
                if (b1, b2) != (a, c + e) and (d1, d2) != (e, c) and (b1 + b2 + d1 + d2) % 5:
                    continue  # two wrong components: a fifth of them
                valid = (
                    a2 == a and e2 == e and a <= k1 and e <= k2
                    and (b1, b2) == (a, c + e) and (d1, d2) == (e, c)
                )  # fmt: skip
                what = f"{spec['cls']} A {a, a2} B {b1, b2} C {c} D {d1, d2} E {e, e2}"
                st.case(what)
                A, B, C = filled(rs, a, a2), filled(rs, b1, b2), filled(rs, c)
                D, E = filled(rs, d1, d2), filled(rs, e, e2)
                mat = attempt(lambda: cls(*(tensor(t) for t in (A, B, C, D, E))))
                verdict(mat, valid, what)
                if valid:
                    n = a + c + e
                    M = np.zeros((n, n))
                    M[:a, :a], M[:a, a:] = A, B
                    M[range(a, a + c), range(a, a + c)] = C
                    M[a + c :, a : a + c], M[a + c :, a + c :] = D, E
                    close(mat.to_dense(), M, what)


def run_hier_ndim(spec, st, rs):
    cls, k1, k2 = HIER[spec["cls"]]
    good = [(k1, k1), (k1, 2 + k2), (2,), (k2, 2), (k2, k2)]
    for extra in itertools.product((-1, 0, 1), repeat=5):
        shapes = []
        for shape, x in zip(good, extra):
            shapes.append(shape[:-1] if x < 0 else shape + (1,) * x)
        st.case((spec["cls"], extra))
        mat = attempt(lambda: cls(*(tensor(filled(rs, *s)) for s in shapes)))
        verdict(mat, not any(extra), f"{spec['cls']} with shapes {shapes}")


def run_block(spec, st, rs):
    cls, b = BLOCK[spec["cls"]]
    top = spec["top"]
    for k, b1, b2, l1, l2 in itertools.product(
        range(top), range(1, top + 1), range(1, top + 1), range(top), range(top)
    ):
        valid = b1 == b2 == b and l1 == l2 < b
        what = f"{spec['cls']} blocks {k, b1, b2} last {l1, l2}"
        st.case(what)
        blocks, last = filled(rs, k, b1, b2), filled(rs, l1, l2)
        mat = attempt(lambda: cls(tensor(blocks), tensor(last)))
        verdict(mat, valid, what)
        if valid:
            n = k * b + l1
            M = np.zeros((n, n))
            for i in range(k):
                M[i * b : (i + 1) * b, i * b : (i + 1) * b] = blocks[i]
            M[k * b :, k * b :] = last
            close(mat.to_dense(), M, what)
    for shape, last in [((b, b), (0, 0)), ((1, 1, b, b), (0, 0)), ((1, b, b), (0,)),
                        ((1, b, b), (1, 1, 1)), ((b * b,), (0, 0))]:  # fmt: skip
        st.case((spec["cls"], shape, last))
        mat = attempt(lambda: cls(tensor(filled(rs, *shape)), tensor(filled(rs, *last))))
        verdict(mat, False, f"{spec['cls']} blocks {shape} last {last}")


def run_recursive(spec, st, rs):
    side, top = spec["side"], spec["top"]
    base = RecursiveTopRightMatrixTemplate if side == "tr" else RecursiveBottomLeftMatrixTemplate
    dims = tuple(INF if d == "inf" else d for d in spec["dims"])

    class Mat(base):
        MAX_DIMS, CLS_A, CLS_C, WARN_NAIVE = dims, DenseMatrix, DiagonalMatrix, False

    def sub(which, n):
        if which == "dense":
            M = filled(rs, n, n)
            return DenseMatrix(tensor(M)), M
        if which == "diagonal":
            v = filled(rs, n)
            return DiagonalMatrix(tensor(v)), np.diag(v) if n else np.zeros((0, 0))
        v = filled(rs, n)
        M = sum((v[k] * np.eye(n, k=-k) for k in range(n)), np.zeros((n, n)))
        return TrilToeplitzMatrix(tensor(v)), M

    for ka, kc in itertools.product(("dense", "diagonal", "toeplitz"), repeat=2):
        right = (ka, kc) == ("dense", "diagonal")
        for a, c in itertools.product(range(top + 1), repeat=2):
            for b1, b2 in {(a, c), (c, a), (a, c + 1), (a + 1, c), (c + 1, a), (a + c, 1)}:
                shape = (a, c) if side == "tr" else (c, a)
                valid = right and (b1, b2) == shape and a <= dims[0] and c <= dims[1]
                what = f"{side} {dims}: {ka} {a}, B {b1, b2}, {kc} {c}"
                st.case(what)
                A, MA = sub(ka, a)
                C, MC = sub(kc, c)
                B = filled(rs, b1, b2)
                mat = attempt(lambda: Mat(A, tensor(B), C))
                verdict(mat, valid, what)
                if valid:
                    M = np.zeros((a + c, a + c))
                    M[:a, :a], M[a:, a:] = MA, MC
                    if side == "tr":
                        M[:a, a:] = B
                    else:
                        M[a:, :a] = B
                    close(mat.to_dense(), M, what)


def run_maxdims(spec, st, rs):
    for base in (RecursiveTopRightMatrixTemplate, RecursiveBottomLeftMatrixTemplate):
        for dims in itertools.product((1, 2, 2.5, INF), repeat=2):
            class Mat(base):
                MAX_DIMS, CLS_A, CLS_C, WARN_NAIVE = dims, DenseMatrix, DenseMatrix, False

            finite = [d for d in dims if d != INF]
            valid = len(finite) == 1 and isinstance(finite[0], int)
            for n in (1, 2, 3, 5):
                st.case((base.__name__, dims, n))
                mat = attempt(lambda: Mat.from_dense(torch.ones(n, n)))
                verdict(mat, valid, f"{base.__name__} of maximum sizes {dims}, size {n}")
        for dims in ((1,), (1, INF, 2), ()):
            class Mat2(base):
                MAX_DIMS, CLS_A, CLS_C, WARN_NAIVE = dims, DenseMatrix, DenseMatrix, False

            st.case((base.__name__, dims))
            verdict(attempt(lambda: Mat2.eye(3)), False, f"maximum sizes {dims}")


def run_names(spec, st, rs):
    """Every component is registered exactly once under a unique name."""
    for s in STRUCTS:
        for n in (3, 4, 7):
            A = build(s, members(s, n, rs, 1, 1, 9)[0])
            tensors = dict(A.named_tensors())
            st.case((s, n))
            require(
                len(tensors) == len(list(A.named_tensors())),
                f"components of {s} share a name: {list(tensors)}",
            )
            ids = {t.data_ptr() for t in tensors.values() if t.numel()}
            require(
                len(ids) == sum(1 for t in tensors.values() if t.numel()),
                f"{s} lists a component twice",
            )
            free = sum(t.numel() for t in tensors.values())
            require(
                free == len(basis(s, n)), f"{s} of size {n} stores {free} numbers"
            )
            for name in ("to_dense", list(tensors)[0].split(".")[0]):
                try:
                    A.register_tensor(torch.ones(1), name)
                except ValueError:
                    pass
                else:
                    if hasattr(type(A), name) or name in A.__dict__:
                        require(False, f"{s} accepts a component named {name} twice")


def run_units(spec, st, rs):
    s, n = spec["s"], spec["n"]
    cls = STRUCTS[s][0]
    for k, M in enumerate(basis(s, n)):
        st.case((spec["id"], k))
        for v in (1.0, -2.5, 3e5, -3e5, 1e-9):
            A = build(s, v * M)
            close(A.to_dense(), v * M, f"{s} of size {n}, component {k}")
            B = cls.from_dense(A.to_dense().clone())
            for (name, x), (_, y) in zip(A.named_tensors(), B.named_tensors()):
                close(y, x, f"component {name} of {s} of size {n} after extraction")
        sym = project(s, M + M.T)
        close(
            cls.from_dense(tensor(M + M.T)).to_dense(), sym, f"symmetrized {k}, {s} of size {n}"
        )


def run_large(spec, st, rs):
    s, n = spec["s"], spec["n"]
    cls = STRUCTS[s][0]
    for M in members(s, n, rs, 3, -4, 5):
        st.case((spec["id"], M.tobytes()))
        A = build(s, M)
        close(A.to_dense(), M, f"{s} of size {n}")
        B = cls.from_dense(tensor(M))
        close(B.to_dense(), M, f"{s} of size {n} after extraction")
        require(
            [t.shape for _, t in A.named_tensors()] == [t.shape for _, t in B.named_tensors()],
            f"components of {s} of size {n} change shape in the extraction",
        )
        for other in (cls.eye(n), cls.zeros(n)):
            require(
                [t.shape for _, t in A.named_tensors()]
                == [t.shape for _, t in other.named_tensors()],
                f"identity/zero of {s} of size {n} has components of other shapes",
            )
