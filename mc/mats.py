"""Building structured matrices from their documented components."""

import numpy as np
import torch

from mc import spec as S
from mc.sim import STRUCTS

# sizes around the boundaries of the large blocks
LARGE = {
    "block30diagonal": [29, 30, 31, 59, 60, 61, 90, 129],
    "hierarchical15_15": [14, 15, 16, 29, 30, 31, 32, 45, 100, 129],
}


def small_dims(name, top):
    return list(range(1, top + 1))


def large_dims(name):
    return LARGE.get(name, [31, 64, 100, 129])


def tensor(x, dtype=torch.float32):
    return torch.from_numpy(np.array(x, dtype=np.float64)).to(dtype)


def construct(cls, s, M, dtype=torch.float32):
    """The structured matrix of class `cls` (descriptor `s`) representing `M`."""
    n = M.shape[0]
    kind = s[0]
    if kind == "dense":
        return cls(tensor(M, dtype))
    if kind == "diag":
        return cls(tensor(np.diag(M), dtype))
    if kind == "block":
        b = s[1]
        k = n // b
        blocks = np.zeros((k, b, b))
        for i in range(k):
            blocks[i] = M[i * b : (i + 1) * b, i * b : (i + 1) * b]
        return cls(tensor(blocks, dtype), tensor(M[k * b :, k * b :], dtype))
    if kind == "hier":
        a, d, _ = S.hier_dims(n, s[1], s[2])
        return cls(
            tensor(M[:a, :a], dtype),
            tensor(M[:a, a:], dtype),
            tensor(np.diag(M)[a : a + d], dtype),
            tensor(M[a + d :, a : a + d], dtype),
            tensor(M[a + d :, a + d :], dtype),
        )
    if kind == "tril":
        return cls(tensor(M[:, :1].flatten(), dtype))
    if kind == "triu":
        return cls(tensor(M[:1, :].flatten(), dtype))
    b = S.boundary(n, s[1])
    A = construct(cls.CLS_A, s[2], M[:b, :b], dtype)
    C = construct(cls.CLS_C, s[3], M[b:, b:], dtype)
    B = M[:b, b:] if kind == "tr" else M[b:, :b]
    return cls(A, tensor(B, dtype), C)


def build(name, M, dtype=torch.float32):
    cls, s = STRUCTS[name]
    return construct(cls, s, M, dtype)


def members(name, n, rs, count, lo=-2, hi=3):
    s = STRUCTS[name][1]
    return [S.random_member(s, n, rs, lo, hi) for _ in range(count)]


def basis(name, n):
    return S.basis(STRUCTS[name][1], n)


def project(name, X):
    return S.project(STRUCTS[name][1], X)
