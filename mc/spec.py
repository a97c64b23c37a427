"""Executable specification, written from the documentation in float64 numpy.

Nothing here uses code of the repository. Matrices are dense; a structure is a
projection of symmetric matrices onto the space the structured matrices span.

Structure descriptors:
    ("dense",) ("diag",) ("block", n) ("hier", k1, k2) ("tril",) ("triu",)
    ("tr", (a, c), A, C)   [A B; 0 C]        ("bl", (a, c), A, C)   [A 0; B C]
"""

import numpy as np

INF = float("inf")


def hier_dims(n, k1, k2):
    if n <= k1:
        return n, 0, 0
    if n <= k1 + k2:
        return k1, 0, n - k1
    return k1, n - k1 - k2, k2


def boundary(n, dims):
    a, c = dims
    return max(0, n - c) if a == INF else min(a, n)


def mask(s, n):
    """Boolean mask of the entries that a structured matrix may occupy."""
    m = np.zeros((n, n), dtype=bool)
    kind = s[0]
    if kind == "dense":
        m[:] = True
    elif kind == "diag":
        np.fill_diagonal(m, True)
    elif kind == "block":
        for i in range(0, n, s[1]):
            m[i : i + s[1], i : i + s[1]] = True
    elif kind == "hier":
        a, d, _ = hier_dims(n, s[1], s[2])
        m[:a, :] = True
        for i in range(a, a + d):
            m[i, i] = True
        m[a + d :, a:] = True
    elif kind == "tril":
        m = np.tril(np.ones((n, n), dtype=bool))
    elif kind == "triu":
        m = np.triu(np.ones((n, n), dtype=bool))
    elif kind in ("tr", "bl"):
        b = boundary(n, s[1])
        m[:b, :b] = mask(s[2], b)
        m[b:, b:] = mask(s[3], n - b)
        if kind == "tr":
            m[:b, b:] = True
        else:
            m[b:, :b] = True
    else:
        raise ValueError(s)
    return m


def project(s, S):
    """Structured matrix that represents a symmetric matrix `S`: an off-diagonal
    entry whose mirror image is not part of the structure counts twice, Toeplitz
    diagonals hold averages."""
    n = S.shape[0]
    kind = s[0]
    if kind in ("tr", "bl"):
        b = boundary(n, s[1])
        out = np.zeros_like(S)
        out[:b, :b] = project(s[2], S[:b, :b])
        out[b:, b:] = project(s[3], S[b:, b:])
        if kind == "tr":
            out[:b, b:] = 2 * S[:b, b:]
        else:
            out[b:, :b] = 2 * S[b:, :b]
        return out
    if kind in ("tril", "triu"):
        out = np.zeros_like(S)
        for k in range(n):
            v = np.diagonal(S, k).mean() * (1 if k == 0 else 2)
            idx = np.arange(n - k)
            if kind == "tril":
                out[idx + k, idx] = v
            else:
                out[idx, idx + k] = v
        return out
    m = mask(s, n)
    weight = np.where(m & m.T, 1.0, 2.0)
    return np.where(m, S * weight, 0.0)


def random_member(s, n, rs, lo=-2, hi=3):
    """A generic member of the structure with small integer entries."""
    kind = s[0]
    if kind in ("tril", "triu"):
        out = np.zeros((n, n))
        for k in range(n):
            v = float(rs.randint(lo, hi))
            idx = np.arange(n - k)
            if kind == "tril":
                out[idx + k, idx] = v
            else:
                out[idx, idx + k] = v
        return out
    if kind in ("tr", "bl"):
        b = boundary(n, s[1])
        out = np.zeros((n, n))
        out[:b, :b] = random_member(s[2], b, rs, lo, hi)
        out[b:, b:] = random_member(s[3], n - b, rs, lo, hi)
        if kind == "tr":
            out[:b, b:] = rs.randint(lo, hi, size=(b, n - b))
        else:
            out[b:, :b] = rs.randint(lo, hi, size=(n - b, b))
        return out
    return np.where(mask(s, n), rs.randint(lo, hi, size=(n, n)), 0).astype(np.float64)


def count(s, n):
    """Number of free entries of a structured matrix."""
    kind = s[0]
    if kind in ("tril", "triu"):
        return n
    if kind in ("tr", "bl"):
        b = boundary(n, s[1])
        return count(s[2], b) + count(s[3], n - b) + b * (n - b)
    return int(mask(s, n).sum())


def basis(s, n):
    """Basis of the linear space of structured matrices."""
    kind = s[0]
    if kind in ("tril", "triu"):
        out = []
        for k in range(n):
            E = np.zeros((n, n))
            idx = np.arange(n - k)
            if kind == "tril":
                E[idx + k, idx] = 1
            else:
                E[idx, idx + k] = 1
            out.append(E)
        return out
    if kind in ("tr", "bl"):
        b = boundary(n, s[1])
        out = []
        for off, sub, size in ((0, s[2], b), (b, s[3], n - b)):
            for e in basis(sub, size):
                E = np.zeros((n, n))
                E[off : off + size, off : off + size] = e
                out.append(E)
        for i in range(b):
            for j in range(b, n):
                E = np.zeros((n, n))
                E[(i, j) if kind == "tr" else (j, i)] = 1
                out.append(E)
        return out
    out = []
    for i, j in zip(*np.nonzero(mask(s, n))):
        E = np.zeros((n, n))
        E[i, j] = 1
        out.append(E)
    return out


# --------------------------------------------------------------------------- layers


def pad_input(x, pads, mode):
    """Pad the two image dimensions; pads = ((top, bottom), (left, right))."""
    widths = ((0, 0), (0, 0)) + tuple(pads)
    names = {
        "zeros": "constant",
        "reflect": "reflect",
        "replicate": "edge",
        "circular": "wrap",
    }
    return np.pad(x, widths, mode=names[mode])


def conv_patches(x, conf):
    """[batch, C_in/groups, k1, k2, o1, o2] patches, averaged over channel groups."""
    (k1, k2), (s1, s2) = conf["kernel"], conf["stride"]
    d1, d2 = conf["dilation"]
    g = conf["groups"]
    b, c = x.shape[:2]
    x = pad_input(x, conf["pads"], conf.get("padding_mode", "zeros"))
    h, w = x.shape[2:]
    o1 = (h - d1 * (k1 - 1) - 1) // s1 + 1
    o2 = (w - d2 * (k2 - 1) - 1) // s2 + 1
    cg = c // g
    out = np.zeros((b, cg, k1, k2, o1, o2))
    for grp in range(g):
        for ci in range(cg):
            for i in range(k1):
                for j in range(k2):
                    for p in range(o1):
                        for q in range(o2):
                            out[:, ci, i, j, p, q] += (
                                x[:, grp * cg + ci, p * s1 + i * d1, q * s2 + j * d2] / g
                            )
    return out


def conv_weight_out(x, W, bias, conf):
    """The convolution itself, from patches per group (used to validate patches)."""
    (s1, s2), (d1, d2) = conf["stride"], conf["dilation"]
    g = conf["groups"]
    x = pad_input(x, conf["pads"], conf.get("padding_mode", "zeros"))
    co, cg, k1, k2 = W.shape
    h, w = x.shape[2:]
    o1 = (h - d1 * (k1 - 1) - 1) // s1 + 1
    o2 = (w - d2 * (k2 - 1) - 1) // s2 + 1
    out = np.zeros((x.shape[0], co, o1, o2))
    for o in range(co):
        grp = o // (co // g)
        for ci in range(cg):
            for i in range(k1):
                for j in range(k2):
                    for p in range(o1):
                        for q in range(o2):
                            out[:, o, p, q] += W[o, ci, i, j] * x[
                                :, grp * cg + ci, p * s1 + i * d1, q * s2 + j * d2
                            ]
        if bias is not None:
            out[:, o] += bias[o]
    return out


def input_rows(x, conf, approx):
    """Rows whose Gram matrix is the input-based Kronecker factor."""
    if conf["kind"] == "conv":
        p = conv_patches(x, conf)  # b c k1 k2 o1 o2
        b = p.shape[0]
        p = p.transpose(0, 4, 5, 1, 2, 3).reshape(b, p.shape[4] * p.shape[5], -1)
    else:
        p = x.reshape(x.shape[0], -1, x.shape[-1])
    rows = p.reshape(-1, p.shape[-1]) if approx == "expand" else p.mean(axis=1)
    if conf["bias"]:
        rows = np.concatenate([rows, np.ones((rows.shape[0], 1))], axis=1)
    return rows / np.sqrt(rows.shape[0])


def grad_rows(g, conf, loss_average, approx):
    """Rows whose Gram matrix is the output-gradient-based Kronecker factor."""
    if conf["kind"] == "conv":
        b, c = g.shape[:2]
        q = g.reshape(b, c, -1).transpose(0, 2, 1)
    else:
        q = g.reshape(g.shape[0], -1, g.shape[-1])
    terms = 1
    if loss_average is not None:
        terms = q.shape[0] * (q.shape[1] if loss_average == "batch+sequence" else 1)
    rows = q.reshape(-1, q.shape[-1]) if approx == "expand" else q.sum(axis=1)
    return rows * np.sqrt(terms)


# ------------------------------------------------------------------------ optimizer


def avg_trace(M):
    return np.trace(M) / M.shape[0]


def refresh(K, C, mK, mC, HK, HC, hp, sK, sC, t):
    """One pre-conditioner refresh. HK, HC: un-projected sums of K'aa'K, C'gg'C.

    Returns new K, C, mK, mC and the magnitudes of the summed terms (for tolerances).
    """
    HK, HC = project(sK, HK), project(sC, HC)
    KK, CC = project(sK, K.T @ K), project(sC, C.T @ C)
    like, lam = hp["kfac_like"], hp["damping"]
    alpha = 0.0 if like else hp["alpha1"]
    s = 0.5 * ((1.0 - alpha) if hp["normalize_lr_cov"] else 1.0)
    eyeK, eyeC = np.eye(K.shape[0]), np.eye(C.shape[0])
    if like:
        cK = HK + lam * KK
        cC = HC + lam * CC
    else:
        cK = avg_trace(HC) * HK + lam * avg_trace(CC) * KK
        cC = avg_trace(HK) * HC + lam * avg_trace(KK) * CC
    nK = s * (cK - eyeK) + alpha * mK
    nC = s * (cC - eyeC) + alpha * mC
    lr = hp["lr_cov"]
    bK = bC = lr(t) if callable(lr) else lr
    if hp["normalize_lr_cov"]:
        bK = bK / max(1.0, np.abs(nK).max())
        bC = bC / max(1.0, np.abs(nC).max())
    K2, C2 = K - bK * (K @ nK), C - bC * (C @ nC)
    magK = np.abs(K).max() + abs(bK) * (
        np.abs(K) @ (s * (np.abs(cK) + eyeK) + abs(alpha) * np.abs(mK))
    ).max()
    magC = np.abs(C).max() + abs(bC) * (
        np.abs(C) @ (s * (np.abs(cC) + eyeC) + abs(alpha) * np.abs(mC))
    ).max()
    return K2, C2, nK, nC, magK, magC


def natural_gradient(K, C, G):
    """C C' G K K' and its magnitude."""
    nat = C @ (C.T @ G @ K) @ K.T
    aK, aC = np.abs(K), np.abs(C)
    return nat, (aC @ (aC.T @ np.abs(G) @ aK) @ aK.T).max()
