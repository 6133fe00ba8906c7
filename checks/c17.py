"""Interpolation, truncation rules, plane-wave expansion and numerical helpers."""
import cmath

import ref
import pbt
from pbt import Sub, st, check, must_raise
from gen import *
from api import *

H, sp = pmd.helper, pmd.special


# ------------------------------------------------------------------ interpolation
@st.composite
def s_interp(draw):
    n = draw(st.integers(1, 9)) if draw(st.integers(0, 7)) == 0 else draw(st.integers(2, 12))
    x, v = [], U(draw, -100, 100)
    for _ in range(n):
        x.append(v)
        v += LOGU(draw, 1e-3, 50.0)
    y = [[U(draw, -5, 5), U(draw, -5, 5)] for _ in range(n)]
    perm = draw(st.permutations(range(n))) if draw(st.booleans()) else list(range(n))
    e = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.integers(0, 6))
        if k == 0:
            e.append(x[draw(st.integers(0, n - 1))])
        elif k == 1:
            e.append(x[0] - LOGU(draw, 1e-6, 50))
        elif k == 2:
            e.append(x[-1] + LOGU(draw, 1e-6, 50))
        else:
            e.append(x[0] + (x[-1] - x[0]) * U(draw, 0, 1))
    return dict(x=x, y=y, perm=list(perm), e=e, cplx=draw(st.booleans()), shape=draw(st.integers(0, 3)), grad=draw(st.integers(0, 3)))


def t_interp(b, rec):
    x = np.array(b["x"])
    y = np.array([complex(*v) for v in b["y"]])
    if not b["cplx"]:
        y = y.real
    e = np.array(b["e"])
    pm = b["perm"]
    E = torch.as_tensor(e)
    if b["shape"] == 1 and E.numel() == 1:
        E = E.reshape(())
    elif b["shape"] == 2:
        E = E.reshape(-1, 1)
    elif b["shape"] == 3:
        E = noncontig(E)
    X, Y = torch.as_tensor(x[pm]), torch.as_tensor(y[pm])
    if b["grad"] & 1:
        E = E.clone().requires_grad_()
    if b["grad"] & 2:
        Y.requires_grad_()
    keep = [v.detach().clone() for v in (E, X, Y)]
    o = lib(H.interp1d, E, X, Y)
    check(all(torch.equal(v.detach(), w) for v, w in zip((E, X, Y), keep)), "interp1d modified its arguments")
    check(o.shape == E.shape, "interp1d: shape %s, expected %s" % (tuple(o.shape), tuple(E.shape)))
    check(o.is_complex() == b["cplx"], "interp1d: type of the result")
    want = np.interp(e, x, y.real) + (1j * np.interp(e, x, y.imag) if b["cplx"] else 0)
    # rounding of the positions, amplified by the slope
    sl = np.abs(np.diff(y) / np.diff(x)).max() if len(x) > 1 else 0
    tol = 1e-12 * np.abs(y).max() + 1e-14 * sl * (np.abs(x).max() + np.abs(e).max()) + 1e-300
    rec.obs(close(npy(o).reshape(-1), want, tol, 0, "interp1d"))
    if b["grad"] & 1:
        (g,) = torch.autograd.grad(o.real.sum() if b["cplx"] else o.sum(), E, retain_graph=True)
        g = npy(g).reshape(-1)
        for i, v in enumerate(e):
            if np.abs(x - v).min() < 1e-9 * (1 + abs(v)):
                check(np.isfinite(g[i]), "derivative at a data point")
                continue
            j = np.searchsorted(x, v)
            inside = 0 < j < len(x)
            w = (y[j] - y[j - 1]).real / (x[j] - x[j - 1]) if inside else 0.0
            h = (x[j] - x[j - 1]) if inside else np.abs(x - v).min()
            t = 1e-11 * np.abs(y).max() / h * (1 + (np.abs(x).max() + abs(v)) / h * 1e-3)
            check(abs(g[i] - w) <= t + 1e-9 * abs(w), lambda: "derivative of interp1d at %r: %r, expected %r" % (v, g[i], w))
    if b["grad"] & 2:
        (g,) = torch.autograd.grad(o.real.sum() if b["cplx"] else o.sum(), Y)
        rec.obs(close(np.asarray(npy(g).real.sum()), np.asarray(float(len(e))), 1e-9 * len(e), 0, "weights of the data sum to one"))
        lin = float((npy(g).real * npy(Y).real).sum())
        check(abs(lin - want.real.sum()) <= 1e-8 * (1 + np.abs(y).max() * len(e)) + 10 * tol * len(e), "interp1d is linear in the data")
    rec.label("complex" if b["cplx"] else "real", "grad=%d" % b["grad"])
    rec.nontrivial(len(x) > 1)
    if len(x) > 1 and b["grad"] == 0 and b["shape"] == 0:
        must_raise(H.interp1d, E, X, Y[:-1])


# ------------------------------------------------------------------ truncation rules
@st.composite
def s_trunc(draw):
    b = draw(batch(x_lo=1e-4, x_hi=200.0, max_layers=5, max_p=3, max_k=3))
    b["ka"] = [pick(draw, (LOGU(draw, 1e-3, 2e4), LOGU(draw, 1.0, 20.0), 8.0, 4200.0)) for _ in range(draw(st.integers(1, 4)))]
    b["neg"] = draw(st.integers(0, 3))
    return b


def stop(x):
    if x <= 8:
        return x + 4.0 * x ** (1 / 3) + 1
    if x < 4200:
        return x + 4.05 * x ** (1 / 3) + 2
    return x + 4.0 * x ** (1 / 3) + 2


def t_trunc(b, rec):
    ka = np.array(b["ka"])
    t = torch.as_tensor(ka).reshape((-1,) if b["neg"] != 1 else (1, -1))
    if b["neg"] == 2:
        t = -t
    elif b["neg"] == 3:
        t = t * (1 + 0j)
    n = lib(H.get_truncution_criteroin_wiscombe, t)
    check(isinstance(n, int), "Wiscombe: an int expected")
    w = stop(np.abs(ka).max())
    check(abs(n - w) <= 0.5 + 1e-6 * w, "Wiscombe(%s): %d, expected %.3f" % (ka.max(), n, w))
    kw = bkw(dict(b, flags=0, layout="PLK"))
    ne = np.array(b["ne"])
    k0 = np.array(b["k0"])
    r = np.array(b["r"])
    m = lib(H.get_truncution_criteroin_pena2009, torch.as_tensor(k0)[None], torch.as_tensor(r), eps_of(b["n"]), torch.as_tensor(ne ** 2)[None])
    check(isinstance(m, int), "Pena: an int expected")
    nn = np.abs(np.array([[[complex(*v) for v in q] for q in a] for a in b["n"]]))  # P, L, K
    x = (r[:, -1][:, None] * k0 * ne).max()
    mx = (nn * r[:, :, None] * k0).max()
    rp = np.concatenate((0 * r[:, :1], r[:, :-1]), axis=1)
    mp_ = (nn * rp[:, :, None] * k0).max()
    s = stop(x)
    # the rule is rounded before or after taking the maximum
    lo = max(math.floor(s + 0.5 - 1e-9), mx, mp_) + 15
    hi = max(math.floor(s + 0.5 + 1e-9), mx, mp_) + 15
    check(lo - 0.5 - 1e-6 <= m <= hi + 0.5 + 1e-6, "Pena: %d, expected %.3f" % (m, lo))
    # the solver uses this rule
    if x < 40:
        res = lib(ms.mie_coefficients, **bkw(b))
        check(int(res["n_max"]) == m and res["a_n"].shape[0] == m, "automatic n_max of the solver: %s, rule: %d" % (res["n_max"], m))
    must_raise(H.get_truncution_criteroin_pena2009, torch.as_tensor(k0)[None], torch.as_tensor(r[0]), eps_of(b["n"]), torch.as_tensor(ne ** 2)[None])
    must_raise(H.get_truncution_criteroin_pena2009, torch.as_tensor(k0)[None], torch.as_tensor(r), eps_of(b["n"])[0], torch.as_tensor(ne ** 2)[None])
    rec.label("x<=8" if x <= 8 else "x>8", "index rules" if max(mx, mp_) > s else "size rules")
    rec.obs(3)
    rec.nontrivial()


# ------------------------------------------------------------------ plane wave
@st.composite
def s_pw(draw):
    pts = []
    for _ in range(draw(st.integers(1, 5))):
        rho = LOGU(draw, 0.1, 20.0)
        mu, ph = pick(draw, (U(draw, -1, 1), U(draw, -1, 1), 1.0, -1.0)), U(draw, -3.1, 3.1)
        pts.append([rho, mu, ph])
    return dict(pts=pts, n=draw(st.integers(0, 60)) if draw(st.integers(0, 3)) else draw(st.integers(60, 1000)), form=draw(st.integers(0, 2)), k0=U(draw, 5e-3, 2e-2), ne=n_env(draw), pena=draw(st.booleans()))


def t_pw(b, rec):
    n = b["n"]
    a = lib(H.plane_wave_expansion, (n, torch.tensor(n), torch.arange(n + 1))[b["form"]])["a_pw_n"]
    m = np.arange(1, n + 1)
    w = 1j ** (m % 4) * (2 * m + 1) / (m * (m + 1.0))
    rec.obs(close(npy(a), w, 2e-6, 0, "plane wave coefficients"))
    # the expansion reproduces the plane wave, exp(i k z) along x
    pts = np.array(b["pts"])
    rho = pts[:, 0]
    N = int(rho.max() + 4.05 * rho.max() ** (1 / 3)) + 8
    k = b["k0"] * b["ne"]
    r, th, ph = rho / k, np.arccos(pts[:, 1]), pts[:, 2]
    T = [torch.as_tensor(v).reshape(1, -1, 1) for v in (r, th, ph)]
    f = sp.vsh_pena if b["pena"] else sp.vsh
    Mo, Me, No, Ne = lib(f, N, torch.tensor(b["k0"], dtype=torch.float64), torch.tensor([b["ne"]], dtype=torch.float64), *T, kind=1)
    a = lib(H.plane_wave_expansion, N)["a_pw_n"].reshape(-1, 1, 1)
    E = (a * (Mo - 1j * Ne)).sum(0)
    Hh = -(a * (Me + 1j * No)).sum(0)
    E = np.stack([npy(v) for v in lib(H.transform_fields_spherical_to_cartesian, E[:, 0], E[:, 1], E[:, 2], *[v[0, :, 0] for v in T])], axis=1)
    Hh = np.stack([npy(v) for v in lib(H.transform_fields_spherical_to_cartesian, Hh[:, 0], Hh[:, 1], Hh[:, 2], *[v[0, :, 0] for v in T])], axis=1)
    ex = np.exp(1j * rho * pts[:, 1])
    W = np.zeros((len(rho), 3), complex)
    W[:, 0] = ex
    tol = 2e-6 * (1 + rho.max())
    rec.obs(close(E, W, tol, 0, "plane wave from vector spherical harmonics"))
    rec.obs(close(Hh, np.roll(W, 1, axis=1), tol, 0, "magnetic field of the plane wave"))
    rec.label("pena" if b["pena"] else "standard")
    rec.nontrivial()


# ------------------------------------------------------------------ numerical helpers
FUN = ("sin", "exp2", "cube", "bessel")


@st.composite
def s_num(draw):
    return dict(f=pick(draw, FUN), n=draw(st.integers(0, 6)), z=[[U(draw, 0.5, 8.0), U(draw, -2.0, 2.0)] for _ in range(draw(st.integers(2, 6)))],
                eps=pick(draw, (None, [1e-4, 0.0], [0.0, 1e-4], [1e-3, 1e-3])), cplx=draw(st.booleans()))


def t_num(b, rec):
    z = np.array([complex(*v) for v in b["z"]])
    n = b["n"]
    F = dict(sin=lambda n, z: torch.sin(z) * (n + 1), exp2=lambda n, z: torch.exp(0.3 * n * z), cube=lambda n, z: z ** 3 - n * z,
             bessel=lambda n, z: sp.sph_jn_torch(n + 1, z)[n])[b["f"]]
    D = dict(sin=lambda v: np.cos(v) * (n + 1), exp2=lambda v: 0.3 * n * np.exp(0.3 * n * v), cube=lambda v: 3 * v ** 2 - n,
             bessel=lambda v: np.array([bder(n, q) for q in v]))[b["f"]]
    t = torch.as_tensor(z).requires_grad_()
    kw = dict(eps=complex(*b["eps"])) if b["eps"] else {}
    h = abs(kw.get("eps", 1e-4 + 1e-4j))
    want = np.conj(D(z))
    s = np.abs(want) + 1 + np.abs(np.exp(0.3 * n * z)) * (n + 1) + np.abs(np.sin(z)) * (n + 1)
    d = npy(lib(H.num_center_diff, F, n, t, **kw))
    rec.obs(close(d / s, want / s, 5 * h ** 2 * (1 + n) ** 2 + 1e-8, 0, "num_center_diff"))
    zz, dn, g = lib(H.funct_grad_checker, t, F, (n, t))
    rec.obs(close(zz, z, 0, 0, "funct_grad_checker: argument"))
    rec.obs(close(dn / s, want / s, 1e-7 * (1 + n) ** 2, 0, "funct_grad_checker: numerical derivative"))
    rec.obs(close(g / s, want / s, 1e-8, 0, "funct_grad_checker: automatic derivative"))
    u = torch.as_tensor(z.real).requires_grad_()
    out = lib(H.detach_tensor, (t, u * 2, u))
    check(isinstance(out, tuple) and all(isinstance(v, np.ndarray) for v in out), "detach_tensor: tuple of arrays")
    for v, w in zip(out, (z, 2 * z.real, z.real)):
        rec.obs(close(v, w, 0, 0, "detach_tensor"))
    one = lib(H.detach_tensor, (t[0], u[1:2]), item=True)
    check(one == (z[0], z.real[1]), "detach_tensor(item=True)")
    check(isinstance(lib(H.detach_tensor, t), np.ndarray), "detach_tensor of one tensor")
    rec.label(b["f"])
    rec.nontrivial()


def bder(n, v):
    import mpmath as mp
    with mp.mp.workdps(30 + 2 * n):
        psi, dpsi, _, _ = ref.riccati(n + 1, mp.mpc(v))
        return complex(dpsi[n] / v - psi[n] / mp.mpc(v) ** 2)


SUBS = [
    Sub("interp1d", s_interp(), t_interp, 2400),
    Sub("truncation", s_trunc(), t_trunc, 640),
    Sub("plane_wave", s_pw(), t_pw, 640),
    Sub("numeric", s_num(), t_num, 480),
]
RULE = ("interpolation of 1-12 unsorted real/complex data inside, outside and at the data; both truncation rules over batches; the plane wave "
        "rebuilt from its expansion at 1-5 points; numerical derivatives of holomorphic functions; every distinct case counts")
ASSUMPTIONS = ["plane_wave_expansion returns single precision numbers", "interpolation data have distinct abscissae"]
