"""Far-field scattering amplitudes."""
from pbt import Sub, st, check
from gen import *
from api import *

VAR = (dict(), dict(), dict(), dict(backend="torch"), dict(backend="scipy"), dict(backend="torch", which_jn="ratios"))


def angles(draw, n):
    out = []
    for _ in range(n):
        j = draw(st.integers(0, 9))
        if j < 6:
            out.append(U(draw, 0.0, math.pi))
        elif j < 8:
            out.append(pick(draw, (0.0, math.pi, math.pi / 2, 2 * math.pi, -math.pi / 2, 1e-8, math.pi - 1e-8)))
        else:
            out.append(U(draw, -4 * math.pi, 4 * math.pi))
    return out


@st.composite
def s_b(draw, **kw):
    v = draw(st.integers(0, len(VAR) - 1))
    d = dict(x_lo=1e-2, x_hi=30.0, max_layers=5, max_p=2, max_k=3)
    if v >= 3:
        d.update(x_lo=0.05, x_hi=15.0, max_layers=2, im_hi=4.0)
    d.update(kw)
    b = draw(batch(**d))
    b["variant"] = v
    b["nm"] = pick(draw, (None, None, 1, 4, 30))
    b["th"] = angles(draw, draw(st.integers(1, 6)))
    b["thkind"] = pick(draw, ("tensor", "tensor", "list", "numpy", "float32", "noncontig"))
    return b


def theta_in(b):
    th = b["th"]
    k = b["thkind"]
    if k == "list":
        # python floats become single precision tensors
        return list(th), np.array(th, dtype=np.float32).astype(float)
    if k == "numpy":
        return np.array(th), np.array(th)
    if k == "float32":
        t = torch.tensor(th, dtype=torch.float32)
        return t, t.double().numpy()
    if k == "noncontig":
        return noncontig(t64(th)), np.array(th)
    return t64(th), np.array(th)


def run(b, theta):
    kw = dict(VAR[b["variant"]])
    if b["nm"]:
        kw["n_max"] = b["nm"]
    return lib(ms.angular_scattering, theta=theta, **bkw(b, **kw)), kw


def lab(b, rec):
    rec.label("backend=%s" % VAR[b["variant"]].get("backend", "default"), "theta:" + b["thkind"], *batch_labels(b))
    rec.nontrivial(any(c != "matched" for c in b["classes"]))


def scale(N, ra, rb):
    n = np.arange(1, N + 1)
    return float(np.sum((2 * n + 1) * 0.5 * (np.abs(ra) + np.abs(rb)))) * (1 + N / 50.0)


# --- amplitudes against the reference
def t_ref(b, rec):
    P, K, T = len(b["r"]), len(b["k0"]), len(b["th"])
    th, thv = theta_in(b)
    F, kw = run(b, th)
    N = int(lib(ms.mie_coefficients, **bkw(b, **kw))["n_max"])
    S1, S2 = npy(get(F, "S1", (P, K, T))), npy(get(F, "S2", (P, K, T)))
    single = b["thkind"] in ("list", "float32")
    for p, k in some_pairs(b, 2):
        R = sphere_ref(pair(b, p, k), N)
        ra, rb = R.ab()
        rat = natural(x_outer(pair(b, p, k)), N)
        s1, s2 = R.S12(thv)
        tol = (1e-9 if b["variant"] < 3 else 1e-6) * (N ** 2 if b["variant"] >= 3 else 1) + 1e-9 * scale(N, ra, rb)
        if b["variant"] < 3:
            tol = min(tol * N, 1e-6 * scale(N, ra, rb) + 1e-8 * scale(N, rat, rat) + 1e-200)
        if single:
            tol += 4e-6 * N * scale(N, ra, rb)
        close(S1[p, k], s1, tol, 1e-8, "S1 (particle %d, wavelength %d)" % (p, k))
        close(S2[p, k], s2, tol, 1e-8, "S2 (particle %d, wavelength %d)" % (p, k))
        rec.obs(2 * T)
    lab(b, rec)


# --- intensities and metadata follow from the amplitudes
def t_def(b, rec):
    P, K, T = len(b["r"]), len(b["k0"]), len(b["th"])
    th, thv = theta_in(b)
    F, kw = run(b, th)
    s1, s2 = npy(get(F, "S1", (P, K, T))), npy(get(F, "S2", (P, K, T)))
    per, par = np.abs(s1) ** 2, np.abs(s2) ** 2
    close(get(F, "i_per", (P, K, T)), per, 1e-300, 1e-12, "i_per = |S1|^2")
    close(get(F, "i_par", (P, K, T)), par, 1e-300, 1e-12, "i_par = |S2|^2")
    close(get(F, "i_unpol", (P, K, T)), (per + par) / 2, 1e-300, 1e-12, "i_unpol")
    d = npy(get(F, "pol_degree", (P, K, T)))
    ok = per + par > 1e-280
    close(d[ok], ((per - par) / np.where(ok, per + par, 1))[ok], 1e-12, 1e-12, "pol_degree")
    check(bool(np.all(np.abs(d[ok]) <= 1 + 1e-12)), "|pol_degree| > 1")
    close(npy(F["theta"]).reshape(-1), thv, 1e-15, 1e-12, "theta")
    close(npy(F["k0"]).reshape(-1), np.array(b["k0"]), 0, 1e-12, "k0")
    close(npy(F["wavelength"]).reshape(-1), 2 * np.pi / np.array(b["k0"]), 0, 1e-12, "wavelength")
    rec.obs(5 * s1.size)
    lab(b, rec)
    rec.nontrivial(False)


# --- symmetry of the amplitudes: forward, backward, even and 2*pi periodic in theta
def t_sym(b, rec):
    th = t64(b["th"])
    sp = t64([0.0, math.pi])
    F, kw = run(b, torch.cat((th, -th, th + 2 * math.pi, sp)))
    n = len(b["th"])
    S1, S2 = npy(F["S1"]), npy(F["S2"])
    N = int(lib(ms.mie_coefficients, **bkw(b, **kw))["n_max"])
    tol = 1e-11 * N ** 3 * max(np.abs(S1).max(), np.abs(S2).max()) + 1e-280
    for S, nm in ((S1, "S1"), (S2, "S2")):
        close(S[..., n:2 * n], S[..., :n], tol, 0, nm + "(-theta) = " + nm + "(theta)")
        close(S[..., 2 * n:3 * n], S[..., :n], tol * 1e2, 0, nm + " is 2 pi periodic")
        rec.obs(2 * n)
    close(S1[..., -2], S2[..., -2], tol, 0, "forward: S1 = S2")
    close(S1[..., -1], -S2[..., -1], tol, 0, "backward: S1 = -S2")
    lab(b, rec)


# --- optical theorem and integral over all directions
def t_int(b, rec):
    kw = dict(VAR[b["variant"]])
    if b["nm"]:
        kw["n_max"] = b["nm"]
    cs = lib(ms.cross_sections, **bkw(b, **kw))
    N = int(cs["n_max"])
    x, w = np.polynomial.legendre.leggauss(N + 4)
    th = np.concatenate((np.arccos(x), [0.0]))
    b = dict(b)
    F = lib(ms.angular_scattering, theta=t64(th), **bkw(b, **kw))
    k = np.array(b["k0"]) * np.array(b["ne"])
    iu = npy(F["i_unpol"])[..., :-1]
    sca = 2 * np.pi / k ** 2 * np.sum(iu * w, -1)
    close(sca, npy(cs["cs_sca"]), 1e-200, 1e-8, "integral of the scattered intensity = cs_sca")
    S0 = npy(F["S1"])[..., -1]
    ext = npy(cs["cs_ext"])
    close(4 * np.pi / k ** 2 * S0.real, ext, 1e-9 * 4 * np.pi / k ** 2 * np.abs(S0) + 1e-200, 1e-9, "optical theorem")
    rec.obs(2 * ext.size)
    lab(b, rec)


# --- scalar theta = one-element theta
def t_scalar(b, rec):
    t0 = b["th"][0]
    for v in (t0, torch.tensor(t0, dtype=torch.float64), torch.tensor(t0)):
        F, kw = run(b, v)
        tv = float(np.float32(t0)) if not (torch.is_tensor(v) and v.dtype == torch.float64) else t0
        G, _ = run(b, t64([tv]))
        single = not (torch.is_tensor(v) and v.dtype == torch.float64)
        for q in ("S1", "S2", "i_per", "i_par"):
            s = np.abs(npy(G[q])).max()
            N = int(lib(ms.mie_coefficients, **bkw(b, **kw))["n_max"])
            close(npy(F[q]).reshape(npy(G[q]).shape), npy(G[q]), 1e-12 * s + 1e-300 + (1e-4 * N ** 2 * (1 + s) if single else 0), 0, "scalar theta: " + q)
            rec.obs(s.size)
    lab(b, rec)


# --- angles with several dimensions: rejected, or every entry is right
def t_multi(b, rec):
    b = dict(b, th=(b["th"] * 4)[:4])
    th = t64(b["th"])
    sh = ((1, 4), (4, 1), (2, 2), (1, 1, 4), (2, 2), (4, 1))[(len(b["r"][0]) + len(b["k0"])) % 6]
    G, kw = run(b, th)
    q = th.reshape(sh)
    try:
        F = ms.angular_scattering(theta=q.T if sh == (2, 2) else q, **bkw(b, **kw))
    except Exception:
        rec.label("rejected")
        rec.nontrivial()
        return
    order = np.array([0, 2, 1, 3]) if sh == (2, 2) else np.arange(4)
    for o in ("S1", "S2", "i_per", "i_par", "i_unpol"):
        g = npy(G[o])[..., order]
        check(npy(F[o]).size == g.size, "%s for angles of shape %s: shape %s" % (o, sh, npy(F[o]).shape))
        rec.obs(close(npy(F[o]).reshape(g.shape), g, 1e-11 * np.abs(g).max() + 1e-300, 0, "%s for angles of shape %s" % (o, sh)))
    rec.nontrivial()


SUBS = [
    Sub("reference", s_b(), t_ref, 320),
    Sub("intensities", s_b(), t_def, 500),
    Sub("symmetry", s_b(), t_sym, 400),
    Sub("integrals", s_b(), t_int, 500),
    Sub("scalar_theta", s_b(), t_scalar, 160),
    Sub("angle_shapes", s_b(), t_multi, 60),
]
RULE = ("batches of 1-5 layer spheres, 1-6 angles (generic, exactly 0, pi/2, pi, negative, beyond 2 pi; tensors, lists, "
        "numpy, single precision, strided); non-trivial: distinct case with a material different from the host")
ASSUMPTIONS = ["angles given in single precision are judged with single-precision tolerance"]
