"""Thin adapters from JSON-able cases to the public API of the code under test."""
import warnings

import numpy as np
import torch

warnings.filterwarnings("ignore")
import pymiediff as pmd  # noqa: E402
from pbt import Violation, lib, check, fail  # noqa: E402

F64, C128 = torch.float64, torch.complex128
ms = pmd.multishell


def t64(v):
    return torch.as_tensor(np.asarray(v, dtype=np.float64))


def eps_of(n):
    """list of [re,im] (any nesting) -> complex128 permittivity tensor"""
    a = np.asarray(n, dtype=np.float64)
    return torch.as_tensor((a[..., 0] + 1j * a[..., 1]) ** 2)


def kw_of(c, **extra):
    """keyword arguments for a single-sphere case"""
    d = dict(k0=t64([c["k0"]]), r_layers=t64(c["r"]), eps_layers=eps_of(c["n"]),
             eps_env=t64(c["ne"] ** 2))
    d.update(extra)
    return d


def get(res, key, shape=None, what=""):
    if not isinstance(res, dict) or key not in res:
        fail("%s: result has no entry %r" % (what, key))
    v = res[key]
    if shape is not None and tuple(v.shape) != tuple(shape):
        fail("%s: %s has shape %s, expected %s" % (what, key, tuple(v.shape), tuple(shape)))
    return v


def npy(t):
    if isinstance(t, torch.Tensor):
        t = t.detach().cpu()
        if t.is_conj():
            t = t.resolve_conj()
        return t.numpy()
    return np.asarray(t)


def maxdev(a, b):
    d = np.abs(np.asarray(a) - np.asarray(b))
    d = np.where(np.isnan(d), np.inf, d)
    return float(d.max()) if d.size else 0.0


def close(a, b, atol, rtol, what):
    """|a-b| <= atol + rtol*|b| everywhere, NaN never passes; b is the oracle"""
    a, b = npy(a), npy(b)
    if a.shape != b.shape:
        fail("%s: shape %s, expected %s" % (what, a.shape, b.shape))
    err = np.abs(a - b)
    lim = atol + rtol * np.abs(b)
    bad = ~(err <= lim)
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err - lim)), err.shape) if err.ndim else ()
        fail("%s: got %s, expected %s (error %.3g, allowed %.3g) at index %s" % (
            what, a[i], b[i], err[i], lim[i] if np.ndim(lim) else lim, tuple(int(q) for q in i)))
    return a.size


# ------------------------------------------------------------------ batches
def noncontig(t):
    """same values, different memory layout"""
    if t.ndim == 0:
        return t
    u = torch.empty(t.shape[:-1] + (2 * t.shape[-1],), dtype=t.dtype)
    u[..., 1::2] = 7.5
    v = u[..., ::2]
    v.copy_(t)
    return v


def beps(b):
    """eps_layers tensor in the layout of the batch"""
    P, L, K = len(b["r"]), len(b["r"][0]), len(b["k0"])
    e = eps_of(b["n"])  # (P, L, K)
    lay = b["layout"]
    if lay == "L":
        return e[0, :, 0]
    if lay == "PL":
        return e[:, :, 0]
    if lay == "1L1":
        return e[:1, :, :1]
    if lay == "PL1":
        return e[:, :, :1]
    if lay == "LK":
        return e[0]
    if lay == "1LK":
        return e[:1]
    return e


def bkw(b, **extra):
    """keyword arguments for a batch; `flags` select memory layout / requires_grad"""
    f = b.get("flags", 0)
    r = t64(b["r"])
    if r.shape[0] == 1 and f & 1:
        r = r[0]
    ne = t64(b["ne"])
    if "nei" in b:
        ne = torch.complex(ne, t64(b["nei"]))
    env = ne ** 2 if b["envdisp"] else ne[0] ** 2
    if not b["envdisp"] and f & 2:
        env = env.reshape(1)
    k0 = t64(b["k0"])
    if len(b["k0"]) == 1 and f & 4:
        k0 = k0[0]
    d = dict(k0=k0, r_layers=r, eps_layers=beps(b), eps_env=env)
    if f & 8:
        d = {k: noncontig(v) for k, v in d.items()}
    if f & 16:
        for k in ("r_layers", "eps_layers"):
            d[k] = d[k].detach().clone().requires_grad_()
    d.update(extra)
    return d


def natural(x, N):
    """|psi_n / xi_n|, n = 1..N: natural size of the coefficients (orders first)"""
    from scipy.special import spherical_jn, spherical_yn
    x = np.asarray(x, dtype=float)
    n = np.arange(1, N + 1).reshape((-1,) + (1,) * x.ndim)
    with np.errstate(all="ignore"):
        j = spherical_jn(n, x)
        return np.nan_to_num(np.abs(j) / np.hypot(j, spherical_yn(n, x)))


def sphere_ref(c, N):
    import ref
    return ref.Sphere(c["k0"], c["r"], [complex(*v) for v in c["n"]], c["ne"], N)
