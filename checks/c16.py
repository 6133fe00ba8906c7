"""Angular functions and vector spherical harmonics."""
import mpmath as mp
import ref
from pbt import Sub, st, check
from gen import *
from api import *

sp = pmd.special


def angular(nmax, mu):
    """pi, tau, dpi/dmu, dtau/dmu, orders 0..nmax, from Legendre polynomials"""
    with mp.mp.workdps(40):
        mu = mp.mpf(mu)
        # P, P', P'', P''' by differentiating the three-term recurrence
        D = [[mp.mpf(1)], [mp.mpf(0)], [mp.mpf(0)], [mp.mpf(0)]]
        for d, v in zip(D, (mu, mp.mpf(1), mp.mpf(0), mp.mpf(0))):
            d.append(v)
        for n in range(2, nmax + 2):
            for k in range(4):
                v = (2 * n - 1) * (mu * D[k][n - 1] + (k * D[k - 1][n - 1] if k else 0)) - (n - 1) * D[k][n - 2]
                D[k].append(v / n)
        s2 = 1 - mu * mu
        pi = [D[1][n] for n in range(nmax + 1)]
        tau = [mu * D[1][n] - s2 * D[2][n] for n in range(nmax + 1)]
        dpi = [D[2][n] for n in range(nmax + 1)]
        dtau = [D[1][n] + 3 * mu * D[2][n] - s2 * D[3][n] for n in range(nmax + 1)]
        return [np.array([float(v) for v in q]) for q in (pi, tau, dpi, dtau)]


@st.composite
def s_mu(draw):
    nmax = pick(draw, (draw(st.integers(1, 5)), draw(st.integers(1, 40)), draw(st.integers(1, 120))))
    mu = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 5))
        if k == 0:
            mu.append(pick(draw, (1.0, -1.0, 0.0, math.cos(math.pi / 2))))
        elif k == 1:
            mu.append(math.cos(pick(draw, (0.0, math.pi)) + LOGU(draw, 1e-9, 1e-2)))
        else:
            mu.append(U(draw, -1, 1))
    return dict(nmax=nmax, mu=mu, shape=draw(st.integers(0, 5)), form=draw(st.integers(0, 2)), grad=draw(st.booleans()))


def t_pi_tau(b, rec):
    nmax, mu = b["nmax"], np.array(b["mu"])
    t = torch.as_tensor(mu)
    k = b["shape"]
    if k == 1 and t.numel() == 1:
        t = t.reshape(())
    elif k == 2:
        t = t.reshape(1, -1, 1)
    elif k == 3 and t.numel() % 2 == 0:
        t = t.reshape(2, -1)
    elif k == 4:
        t = noncontig(t)
    order = np.arange(t.numel())
    if k == 5 and t.numel() % 2 == 0:  # transposed
        t = t.reshape(2, -1).T
        order = order.reshape(2, -1).T.reshape(-1)
    t = t.detach().requires_grad_() if b["grad"] else t
    mu = mu[order]
    n = (nmax, torch.tensor(nmax), torch.arange(nmax + 1))[b["form"]]
    p, q = lib(sp.pi_tau, n, t)
    shp = (nmax + 1,) + tuple(t.shape)
    check(tuple(p.shape) == shp and tuple(q.shape) == shp, "pi_tau: shapes %s %s, expected %s" % (tuple(p.shape), tuple(q.shape), shp))
    P, Q = npy(p).reshape(nmax + 1, -1), npy(q).reshape(nmax + 1, -1)
    N = np.arange(nmax + 1)
    big = N * (N + 1.0) / 2 + 1
    for i, m in enumerate(mu):
        R = angular(nmax, m)
        for got, want, name in ((P[:, i], R[0], "pi"), (Q[:, i], R[1], "tau")):
            s = big * (1 + N) if name == "tau" else big
            d = np.abs(got - want)
            j = int(np.argmax(np.where(np.isnan(d), np.inf, d / s)))
            check(d[j] <= 2e-13 * s[j], lambda: "%s_%d(%r): got %s, expected %s" % (name, j, m, got[j], want[j]))
            rec.obs(len(d))
        if b["grad"]:
            for o, want, name in ((p, R[2], "pi"), (q, R[3], "tau")):
                for j in sorted({1, nmax, max(1, nmax // 2)}):
                    (g,) = torch.autograd.grad(o[j].sum(), t, retain_graph=True, allow_unused=True) if o.requires_grad else (None,)
                    g = 0.0 if g is None else npy(g).reshape(-1)[i]
                    s = (j + 1.0) ** (4 if name == "pi" else 5) / 8
                    check(abs(g - want[j]) <= 1e-12 * s + 1e-14, lambda: "derivative of %s_%d at mu=%r: got %s, expected %s" % (name, j, m, g, want[j]))
                    rec.obs(1)
    rec.label("shape=%d" % k, "n<=5" if nmax <= 5 else "n<=40" if nmax <= 40 else "n<=120")
    rec.nontrivial(nmax > 1)


def t_orth(b, rec):
    """orthogonality over the sphere (no reference functions)"""
    nmax = min(b["nmax"], 60)
    x, w = np.polynomial.legendre.leggauss(nmax + 2)
    p, q = [npy(v) for v in lib(sp.pi_tau, nmax, torch.as_tensor(x))]
    n = np.arange(nmax + 1)
    A = np.einsum("nx,mx,x->nm", p, p, w) + np.einsum("nx,mx,x->nm", q, q, w)
    C = np.einsum("nx,mx,x->nm", p, q, w)
    d = 2.0 * n ** 2 * (n + 1.0) ** 2 / (2 * n + 1)
    s = np.sqrt(np.outer(d + 1e-3, d + 1e-3))
    rec.obs(close(A / s, np.diag(d) / s, 1e-11, 0, "orthogonality of pi, tau (order %d)" % nmax))
    rec.obs(close((C + C.T) / s, 0 * s, 1e-11, 0, "mixed orthogonality of pi, tau (order %d)" % nmax))
    rec.nontrivial(nmax > 1)


# ------------------------------------------------------------------ vector spherical harmonics
@st.composite
def s_vsh(draw):
    fun = pick(draw, ("vsh", "vsh_pena"))
    K, N = draw(st.integers(1, 3)), draw(st.integers(1, 4))
    kind = pick(draw, (1, 2, 3) if fun == "vsh" else (1, 3))
    nmax = pick(draw, (draw(st.integers(1, 3)), draw(st.integers(1, 25))))
    k0 = [U(draw, 4e-3, 2e-2) for _ in range(K)]
    nm = []
    for _ in range(K):
        v = [U(draw, 0.5, 4.0), pick(draw, (0.0, 0.0, U(draw, 0, 0.5)))]
        if fun == "vsh_pena" and draw(st.integers(0, 5)) == 0:
            v = [0.0, U(draw, 0.5, 4)]
        nm.append(v)
    pts = []
    for _ in range(N):
        rho = LOGU(draw, 0.05, 30.0)
        c = max(abs(complex(*v)) for v in nm)
        r = rho / (max(k0) * c)
        im = max(v[1] for v in nm)
        if im > 0:
            r = min(r, 4.0 / (max(k0) * im))
        th = pick(draw, (U(draw, 0, math.pi), U(draw, 0, math.pi), 0.0, math.pi, math.pi / 2))
        pts.append([r, th, pick(draw, (U(draw, -3.2, 3.2), U(draw, -3.2, 3.2), 0.0, math.pi / 2, math.pi))])
    # the largest |y_n| has to be representable
    rmin = min(p[0] for p in pts) * min(k0) * min(abs(complex(*v)) for v in nm)
    while nmax > 1 and nmax > rmin and (math.lgamma(2 * nmax + 1) - math.lgamma(nmax + 1) - nmax * math.log(2 * rmin)) / math.log(10) > 100:
        nmax -= 1
    return dict(fun=fun, kind=kind, nmax=nmax, k0=k0, n=nm, pts=pts, eps=draw(st.integers(0, 3)), lay=draw(st.integers(0, 3)),
                bad=draw(st.integers(0, 19)) == 0)


def t_vsh(b, rec):
    K, N, nmax = len(b["k0"]), len(b["pts"]), b["nmax"]
    pts = np.array(b["pts"])
    nm = np.array([complex(*v) for v in b["n"]])
    real = not nm.imag.any()
    if b["lay"] == 0:  # as in the documentation: one wavelength
        K = 1
        k0, n = torch.tensor(b["k0"][0], dtype=torch.float64), torch.as_tensor(nm[:1].real if real else nm[:1])
        r, th, ph = [torch.as_tensor(pts[:, j]).reshape(1, N, 1) for j in range(3)]
    else:
        k0 = torch.as_tensor(np.array(b["k0"])).reshape(1, K, 1, 1)
        n = torch.as_tensor(nm.real if real else nm).reshape(1, K, 1, 1)
        r, th, ph = [torch.as_tensor(pts[:, j]).reshape(1, 1, N, 1) for j in range(3)]
        if b["lay"] == 2:
            r, th, ph = [v.expand(1, K, N, 1) for v in (r, th, ph)]
    eps = (None, 0.0, 1e-12, None)[b["eps"]]
    kw = dict(epsilon=eps) if eps is not None else {}
    if b["fun"] == "vsh_pena" and b["eps"] == 3:
        kw["precision"] = "double"
    f = getattr(sp, b["fun"])
    if b["bad"]:
        try:
            f(nmax, k0, n, r, th, ph, kind=4 if b["fun"] == "vsh" else 2)
            check(False, b["fun"] + " accepted an unknown kind")
        except ValueError:
            pass
    out = lib(f, nmax, k0, n, r, th, ph, kind=b["kind"], **kw)
    check(len(out) == 4, "four harmonics expected")
    shp = (nmax,) + ((N, 3) if b["lay"] == 0 else (K, N, 3))
    for o in out:
        check(tuple(o.shape) == shp, "%s: shape %s, expected %s" % (b["fun"], tuple(o.shape), shp))
    G = np.stack([npy(o).reshape(nmax, K, N, 3) for o in out])  # M_o, M_e, N_o, N_e
    sign = None
    for k in range(K):
        for i in range(N):
            R, T, F = b["pts"][i]
            z = complex(b["k0"][k] * nm[k] * R)
            Z = z
            with mp.mp.workdps(ref.guard_digits(nmax + 1, [Z])):
                psi, dpsi, chi, dchi = ref.riccati(nmax, mp.mpc(Z))
                u, du = {1: (psi, dpsi), 2: ([-c for c in chi], [-c for c in dchi]),
                         3: (ref.xi_of(psi, chi), ref.xi_of(dpsi, dchi))}[b["kind"]]
                zn = np.array([complex(v / Z) for v in u[1:]])
                dz = np.array([complex(v / Z) for v in du[1:]])
                env = np.array([float(abs(a) + abs(c)) for a, c in zip(psi[1:], chi[1:])]) / abs(Z) if b["kind"] > 1 else \
                    np.array([float(abs(a) + abs(c) * min(1.0, abs(Z) / (j + 2))) for j, (a, c) in enumerate(zip(psi[1:], dpsi[1:]))]) / abs(Z)
                if b["kind"] == 3 and b["fun"] == "vsh_pena":
                    env = np.abs(zn)
            pi, tau = [v[1:] for v in angular(nmax, math.cos(T))[:2]]
            m = np.arange(1, nmax + 1)
            c, s, stt = math.cos(F), math.sin(F), math.sin(T)
            W = np.zeros((4, nmax, 3), complex)
            W[0, :, 1], W[0, :, 2] = c * pi * zn, -s * tau * zn
            W[1, :, 1], W[1, :, 2] = -s * pi * zn, -c * tau * zn
            rad = m * (m + 1) * stt * pi * zn / Z
            W[2] = np.stack([s * rad, s * tau * dz, c * pi * dz], axis=1)
            W[3] = np.stack([c * rad, c * tau * dz, -s * pi * dz], axis=1)
            # documented offset of the argument + rounding
            off = 1e-8 if eps is None else eps
            t = (2 * off / abs(Z) * (m + 2) + off * (1 + m / abs(Z)) + 1e-10 * (1 + abs(Z) / 10))
            ang = np.maximum(1.0, m ** 2 / 2.0) * (1 + m / 4.0)
            size = env * (1 + (m + 1) / abs(Z)) * ang
            got = G[:, :, k, i]
            if b["kind"] == 2 and sign is None:
                # y_n or -y_n (B&H define chi_n = -z y_n): one convention for everything
                sign = 1.0 if np.abs(got - W).max() <= np.abs(got + W).max() else -1.0
            d = np.abs(got - (sign or 1.0) * W)
            lim = (t * size)[None, :, None]
            bad = ~(d <= lim)
            if bad.any():
                j = tuple(np.argwhere(bad)[0])
                check(False, "%s kind=%d, %s, order %d, component %s at (k r n=%s, theta=%s, phi=%s): got %s, expected %s (error %.2g, allowed %.2g)" % (
                    b["fun"], b["kind"], ("M_o1n", "M_e1n", "N_o1n", "N_e1n")[j[0]], j[1] + 1, "r,theta,phi".split(",")[j[2]], Z, T, F,
                    got[j], W[j], d[j], lim[0, j[1], 0]))
            rec.obs(d.size)
    rec.label(b["fun"], "kind=%d" % b["kind"], "layout=%d" % b["lay"])
    rec.nontrivial()


SUBS = [
    Sub("pi_tau", s_mu(), t_pi_tau, 2400),
    Sub("orthogonality", s_mu(), t_orth, 400),
    Sub("vsh", s_vsh(), t_vsh, 4000),
]
RULE = ("pi_n, tau_n up to order 120 at 1-6 cosines (poles, equator, generic) with derivatives, their orthogonality by exact quadrature, "
        "and all vector spherical harmonics (kinds 1-3, both implementations, 1-3 wavelengths x 1-4 positions, complex media); "
        "non-trivial: distinct case with more than one order (vsh: every distinct case)")
ASSUMPTIONS = ["harmonics of kind 2 are compared up to one global sign (chi_n = -z y_n convention)"]
