"""Logarithmic derivatives, Riccati-Bessel sequences and interface ratios of the multilayer recursion."""
import mpmath as mp
import numpy as np
import ref
from pbt import Sub, st, check
from gen import *
from api import *

sp = pmd.special


def seqs(nmax, z, extra=0):
    """mp lists psi, psi', zeta, zeta' (zeta = psi - i chi)"""
    psi, dpsi, chi, dchi = ref.riccati(nmax, mp.mpc(z))
    return psi, dpsi, ref.xi_of(psi, chi), ref.xi_of(dpsi, dchi)


def c128(v):
    return np.array([complex(q) for q in v])


def logabs(v):
    return np.array([float(mp.log10(abs(q))) if q != 0 else -1e9 for q in v])


@st.composite
def s_z(draw, pairs=False):
    top = pick(draw, (5.0, 40.0, 150.0))
    n = draw(st.integers(1, 4))
    Z = []
    for _ in range(n):
        x = LOGU(draw, 1e-3, top)
        k = draw(st.integers(0, 7))
        if k == 0:
            x = math.pi * max(1, round(x / math.pi))
        elif k == 1:
            x = x + math.pi * 1e-9
        y = pick(draw, (0.0, U(draw, 0, 0.05), U(draw, 0, 3.0), LOGU(draw, 1e-3, 1.0) * min(x, 25.0)))
        if draw(st.integers(0, 11)) == 0:  # ideal metal
            x, y = 0.0, min(x, 25.0)
        Z.append([x, y])
    zm = max(math.hypot(*v) for v in Z)
    nm = pick(draw, (draw(st.integers(1, 8)), int(zm + 4.05 * zm ** (1 / 3)) + 2, int(zm) + draw(st.integers(1, 25))))
    f = [U(draw, 0.05, 0.999) for _ in range(n)]
    return dict(z=Z, nmax=max(1, nm), f=f, shape=draw(st.integers(0, 2)), n_form=draw(st.integers(0, 1)), opt=draw(st.integers(0, 3)))


def zt(b):
    z = np.array([complex(*v) for v in b["z"]])
    if b["opt"] == 0 and not z.imag.any():
        z = z.real
    t = torch.as_tensor(z)
    if b["shape"] == 1:
        t = t.reshape(1, -1, 1)
    elif b["shape"] == 2 and t.numel() == 1:
        t = t.reshape(())
    return t


def flat(o, nmax, what, t):
    shp = (nmax + 1,) + tuple(torch.atleast_1d(t).shape)
    check(tuple(o.shape) == shp, "%s: shape %s, expected %s" % (what, tuple(o.shape), shp))
    return npy(o).reshape(nmax + 1, -1)


def order(b):
    return torch.tensor(b["nmax"]) if b["n_form"] else b["nmax"]


def worst(d, lim):
    n = int(np.argmax(np.where(np.isnan(d), np.inf, d / (lim + 1e-300))))
    return n, not (d[n] <= lim[n])


def verify(got, want, lim, what, z, rec, first=0):
    d = np.abs(got - want)[first:]
    n, bad = worst(d, lim[first:])
    n += first
    check(not bad, lambda: "%s at z=%s, order %d: got %s, expected %s (error %.2g, allowed %.2g)" % (
        what, z, n, got[n], want[n], np.abs(got - want)[n], lim[n]))
    rec.obs(len(d))


def tail(z):
    """the downward sweep starts 15 orders above the last one: a few digits are lost there for large |z|"""
    return 1.0 if abs(z) < 50 else 100.0


def dtol(D, z, n, t=1e-9):
    """close to a pole the error of a logarithmic derivative grows with its square"""
    t = t * tail(z)
    return t * (np.abs(D) + 1 + n / abs(z)) + 1e-13 * (1 + abs(z)) * np.abs(D) ** 2


def t_logder(b, rec):
    t = zt(b)
    nmax = b["nmax"]
    N = np.arange(nmax + 1)
    kw = dict(precision="double") if b["opt"] == 1 else {}
    if b["opt"] == 2:
        kw["n_add"] = 25
    keep = t.clone()
    D1 = lib(sp.pena_D1_n, order(b), t, **kw)
    kw.pop("n_add", 0)
    D3 = lib(sp.pena_D3_n, order(b), t, **(dict(D1=D1) if b["opt"] % 2 else {}), **kw)
    psi, zeta = lib(sp.pena_psi_zeta_n, order(b), t, D1, D3, **kw)
    rat = lib(sp.pena_psi_over_zeta_n, order(b), t, D1, D3, **kw)
    D1t = lib(sp.D1n_torch, order(b), t, **(dict(n_add=int(t.abs().max()) + 40) if b["opt"] == 3 else {}))
    check(torch.equal(t, keep), "argument modified")
    D1, D3, psi, zeta, rat, D1t = [flat(v, nmax, w, t) for v, w in zip(
        (D1, D3, psi, zeta, rat, D1t), ("D1", "D3", "psi", "zeta", "psi/zeta", "D1n_torch"))]
    for i, v in enumerate(b["z"]):
        z = complex(*v)
        with mp.mp.workdps(ref.guard_digits(nmax + 1, [z]) + int(abs(z.imag))):
            p, dp, ze, dze = seqs(nmax, z)
            d1 = c128([a / c for a, c in zip(dp, p)]) if all(q != 0 for q in p) else None
            d3 = c128([a / c for a, c in zip(dze, ze)])
            lp, lz = logabs(p), logabs(ze)
            pc = [q if lp[j] > -290 else mp.mpc(0) for j, q in enumerate(p)]
            zc = [q if lz[j] < 230 else mp.mpc(0) for j, q in enumerate(ze)]
            pz = [a / c for a, c in zip(p, ze)]
            lr = logabs(pz)
            pzc = c128([q if lr[j] > -290 else mp.mpc(0) for j, q in enumerate(pz)])
            pc, zc = c128(pc), c128(zc)
            sp_ = np.array([float(abs(a) + abs(d) * min(1, abs(z) / (n + 1.0))) if lp[n] > -290 else 0.0
                            for n, (a, d) in enumerate(zip(p, dp))])
            rs = np.array([float(min(abs((abs(a) + abs(d) * min(1, abs(z) / (n + 1.0))) / c), mp.mpf(10) ** 280)) if lr[n] > -290 else 0.0
                           for n, (a, d, c) in enumerate(zip(p, dp, ze))])
        # order 0: cot z has a pole at every zero of psi_0 = sin z (not used by the recursions)
        verify(D1[:, i], d1, dtol(d1, z, N), "D1", z, rec, first=1)
        verify(D1t[:, i], d1, dtol(d1, z, N), "D1n_torch", z, rec, first=1)
        verify(D3[:, i], d3, dtol(d3, z, N), "D3", z, rec)
        verify(psi[:, i], pc, 1e-9 * tail(z) * sp_ + 1e-280, "psi", z, rec)
        ok = lz < 230
        verify(zeta[ok, i], zc[ok], 1e-9 * tail(z) * np.abs(zc[ok]), "zeta", z, rec)
        check(np.isfinite(zeta[:, i]).all(), "zeta is not finite at z=%s" % z)
        fin = lr < 280
        verify(rat[fin, i], pzc[fin], (1e-9 * tail(z) * rs + 1e-280)[fin], "psi/zeta", z, rec)
    rec.label("order<=8" if nmax <= 8 else "order<=60" if nmax <= 60 else "order>60", "shape=%d" % b["shape"])
    rec.nontrivial(nmax > 1)


def t_Q(b, rec):
    """ratio across a layer:  [psi/zeta](z1) / [psi/zeta](z2), z1/z2 = x1/x2"""
    nmax = b["nmax"]
    z2 = np.array([complex(*v) for v in b["z"]])
    z1 = z2 * np.array(b["f"])
    z1 = np.where(np.abs(z1) < 1e-3, z2 * 0.9, z1)
    x2 = np.array([1.0 + 3 * b["opt"] + i for i in range(len(z2))])
    x1 = x2 * (z1 / z2).real
    a, c = torch.as_tensor(z1), torch.as_tensor(z2)
    D1a, D1c = lib(sp.pena_D1_n, nmax, a), lib(sp.pena_D1_n, nmax, c)
    D3a, D3c = lib(sp.pena_D3_n, nmax, a, D1=D1a), lib(sp.pena_D3_n, nmax, c, D1=D1c)
    Q = lib(sp.pena_Q_n, order(b), z1=a, z2=c, x1=torch.as_tensor(x1), x2=torch.as_tensor(x2),
            D1_z1=D1a, D1_z2=D1c, D3_z1=D3a, D3_z2=D3c)
    Q = flat(Q, nmax, "Q", a)
    for i in range(len(z2)):
        u, v = complex(z1[i]), complex(z2[i])
        with mp.mp.workdps(ref.guard_digits(nmax + 1, [u, v]) + int(abs(v.imag))):
            p1, d1, q1, _ = seqs(nmax, u)
            p2, d2, q2, _ = seqs(nmax, v)
            want, lim = [], []
            for n in range(nmax + 1):
                w = p1[n] * q2[n] / (p2[n] * q1[n])
                # relative change of psi for a relative change of the argument
                cnd = 1 + abs(d1[n] / p1[n]) * min(1, abs(u) / (n + 1)) + abs(d2[n] / p2[n]) * min(1, abs(v) / (n + 1))
                if not (-280 < mp.log10(abs(w)) < 280):
                    want.append(0j)
                    lim.append(1e-270 if abs(w) < 1 else np.inf)
                    continue
                want.append(complex(w))
                lim.append(float(min(1e-9 * tail(v) * abs(w) * cnd, mp.mpf(10) ** 300)))
        verify(Q[:, i], np.array(want), np.array(lim), "Q between z1=%s and" % u, v, rec)
    rec.label("order<=8" if nmax <= 8 else "order<=60" if nmax <= 60 else "order>60")
    rec.nontrivial(nmax > 1)


def t_grad(b, rec):
    """derivatives of D1, D3, psi and zeta with respect to the argument (Riccati equation)"""
    z = np.array([complex(*v) for v in b["z"]])
    nmax = min(b["nmax"], 40)
    t = torch.as_tensor(z).requires_grad_()
    D1 = lib(sp.pena_D1_n, nmax, t)
    D3 = lib(sp.pena_D3_n, nmax, t, D1=D1)
    psi, zeta = lib(sp.pena_psi_zeta_n, nmax, t, D1, D3)
    for n in sorted({1, nmax, max(1, nmax // 2)}):
        want = {}
        for i, v in enumerate(z.tolist()):
            with mp.mp.workdps(ref.guard_digits(nmax + 1, [v]) + int(abs(v.imag))):
                p, dp, ze, dze = seqs(nmax, v)
                k = n * (n + 1) / mp.mpc(v) ** 2 - 1
                d1, d3 = dp[n] / p[n], dze[n] / ze[n]
                for name, val, sc in (("D1", k - d1 ** 2, abs(k) + 1 + abs(d1) ** 2 * (1 + 1e-5 * abs(d1) * abs(v))),
                                      ("D3", k - d3 ** 2, abs(k) + 1 + abs(d3) ** 2),
                                      ("psi", dp[n], abs(dp[n]) + abs(p[n]) * max(1, (n + 1) / abs(v))),
                                      ("zeta", dze[n], abs(dze[n]))):
                    big = mp.log10(abs(sc))
                    want.setdefault(name, []).append((complex(val), float(sc)) if -200 < big < 200 else None)
        for name, o in (("D1", D1), ("D3", D3), ("psi", psi), ("zeta", zeta)):
            (g,) = torch.autograd.grad(o[n].real.sum(), t, retain_graph=True)
            g = npy(g).conj()
            for i, v in enumerate(z.tolist()):
                if want[name][i] is None:
                    continue
                w, s = want[name][i]
                check(abs(g[i] - w) <= 1e-7 * s, lambda: "derivative of %s at z=%s, order %d: got %s, expected %s (scale %.2g)" % (
                    name, v, n, g[i], w, s))
                rec.obs(1)
    rec.nontrivial(nmax > 1)


SUBS = [
    Sub("sequences", s_z(), t_logder, 1600),
    Sub("Q", s_z(), t_Q, 1000),
    Sub("gradients", s_z(), t_grad, 800),
]
RULE = ("1-4 complex arguments |z|<=150 (real, absorbing, purely imaginary, at and next to zeros of sin), orders up to |z|+25; "
        "D1, D3, psi, zeta, psi/zeta, Q and their derivatives against mpmath; non-trivial: distinct case with more than one order")
ASSUMPTIONS = ["zeta_n beyond 1e230 only has to be finite; Q_0 and D1_0 at zeros of sin are unused by the recursion"]
