"""Energy flow: near fields, cross sections and far-field amplitudes describe the same scattering."""
from pbt import Sub, st, check
from gen import *
from api import *

VAR = (dict(), dict(), dict(), dict(backend="torch"), dict(backend="scipy"))


@st.composite
def s_b(draw, **kw):
    v = draw(st.integers(0, len(VAR) - 1))
    d = dict(x_lo=0.1, x_hi=12.0, max_layers=4, max_p=2, max_k=2, mx_hi=50.0)
    if v >= 3:
        d.update(x_lo=0.3, x_hi=8.0, max_layers=2, im_hi=4.0)
    d.update(kw)
    b = draw(batch(**d))
    b["variant"] = v
    b["E0"] = [1.0, 0.0] if draw(st.booleans()) else [U(draw, -2, 2), U(draw, 0.2, 2)]
    b["frac"] = U(draw, 1.01, 3.0)
    return b


def call(b, pts):
    return lib(ms.nearfields, **bkw(b, r_probe=t64(pts), E_0=complex(*b["E0"]), **VAR[b["variant"]]))


def grid(M):
    mu, w = np.polynomial.legendre.leggauss(M)
    ph = (np.arange(4) + 0.37) * np.pi / 2
    q = np.sqrt(1 - mu ** 2)
    u = np.stack([np.outer(q, np.cos(ph)), np.outer(q, np.sin(ph)), np.outer(mu, np.ones(4))], -1).reshape(-1, 3)
    return u, np.repeat(w, 4) * np.pi / 2


def lab(b, rec):
    rec.label(VAR[b["variant"]].get("backend", "default"), *batch_labels(b))
    rec.nontrivial(any(c != "matched" for c in b["classes"]))


def flux(E, H, u, w, R):
    return float(np.sum(w * np.einsum("ij,ij->i", np.real(np.cross(E, np.conj(H))), u)) * R * R)


def t_flux(b, rec):
    """flux through spheres around the particle"""
    cs = lib(ms.cross_sections, **bkw(b, **VAR[b["variant"]]))
    N = int(cs["n_max"])
    kmax = max(k * n for k, n in zip(b["k0"], b["ne"]))
    M = min(N, 40) + int(kmax * max(r[-1] for r in b["r"]) * b["frac"]) + 25
    u, w = grid(M)
    pts = np.concatenate([r[-1] * b["frac"] * u for r in b["r"]])
    f = {q: npy(v) for q, v in call(b, pts.tolist()).items()}
    I0 = abs(complex(*b["E0"])) ** 2
    for p in range(len(b["r"])):
        R, sl = b["r"][p][-1] * b["frac"], slice(p * len(u), (p + 1) * len(u))
        for k in range(len(b["k0"])):
            g = {q: v[p, k, sl] for q, v in f.items()}
            n0 = b["ne"][k] * I0
            c = {q: float(npy(cs["cs_" + q])[p, k]) for q in ("ext", "sca", "abs")}
            geo = 4 * np.pi * R * R
            tol = 1e-6 * geo * (1 + np.abs(g["E_s"]).max() ** 2 / I0) * (1e-2 if b["variant"] < 3 else 10)
            tol += 1e-5 * c["ext"] if b["variant"] < 3 else 1e-3 * c["ext"]
            wh = " (particle %d, wavelength %d)" % (p, k)
            close(flux(g["E_s"], g["H_s"], u, w, R) / n0, c["sca"], tol, 0, "scattered flux = cs_sca" + wh)
            close(-flux(g["E_t"], g["H_t"], u, w, R) / n0, c["abs"], tol, 0, "total influx = cs_abs" + wh)
            x = -(flux(g["E_i"], g["H_s"], u, w, R) + flux(g["E_s"], g["H_i"], u, w, R)) / n0
            close(x, c["ext"], tol, 0, "interference flux = cs_ext" + wh)
            rec.obs(3)
    lab(b, rec)


@st.composite
def s_vol(draw):
    b = draw(s_b(x_hi=5.0, max_p=1, max_layers=2 if draw(st.booleans()) else 3, mx_hi=8.0, im_hi=4.0, classes=("absorbing", "metal", "weak", "dielectric")))
    if len(b["r"][0]) > 2:
        b["variant"] = 0
    return b


def t_vol(b, rec):
    """absorption = volume integral of Im(eps) |E|^2, shell by shell and from the flux"""
    cs = lib(ms.cross_sections, **bkw(b, **VAR[b["variant"]]))
    r = b["r"][0]
    N = int(cs["n_max"])
    u, w = grid(min(N, 14) + 8)
    gr, wr = np.polynomial.legendre.leggauss(14)
    pts, meta, lo = [], [], 0.0
    for l, hi in enumerate(r):
        rad = lo + (hi - lo) * (gr + 1) / 2
        meta.append((len(pts), rad, wr * (hi - lo) / 2))
        for q in rad:
            pts += (q * u).tolist()
        lo = hi
    s = len(pts)
    for hi in r:
        pts += (hi * (1 - 1e-9) * u).tolist()
    f = call(b, pts)
    E, H = npy(f["E_t"]), npy(f["H_t"])
    I0 = abs(complex(*b["E0"])) ** 2
    for k, k0 in enumerate(b["k0"]):
        acc = 0.0
        scale = float(npy(cs["cs_ext"])[0, k])
        for l in range(len(r)):
            i0, rad, wrad = meta[l]
            e = E[0, k, i0:i0 + len(rad) * len(u)].reshape(len(rad), len(u), 3)
            im = (complex(*b["n"][0][l][k]) ** 2).imag
            acc += k0 / b["ne"][k] / I0 * im * float(np.sum(wrad * rad ** 2 * np.sum(w * np.sum(np.abs(e) ** 2, -1), -1)))
            sl = slice(s + l * len(u), s + (l + 1) * len(u))
            fl = -flux(E[0, k, sl], H[0, k, sl], u, w, r[l]) / b["ne"][k] / I0
            tol = (2e-4 if b["variant"] < 3 else 2e-3) * (scale + acc) + 1e-8 * 4 * np.pi * r[l] ** 2
            close(acc, fl, tol, 0, "power absorbed inside layer %d (volume integral vs flux)" % l)
            rec.obs()
        close(acc, float(npy(cs["cs_abs"])[0, k]), tol, 0, "volume absorption = cs_abs (wavelength %d)" % k)
        rec.obs()
    rec.label(VAR[b["variant"]].get("backend", "default"), *batch_labels(b))
    rec.nontrivial(any(c in ("absorbing", "metal", "weak") for c in b["classes"]))


@st.composite
def s_far(draw):
    b = draw(s_b(x_hi=5.0, max_p=2, max_k=2, mx_hi=15.0))
    b["dirs"] = [[U(draw, 0.02, 3.12), U(draw, -math.pi, math.pi)] for _ in range(draw(st.integers(2, 4)))]
    b["dirs"].append([pick(draw, (0.0, math.pi)), 0.3])
    return b


def t_far(b, rec):
    """E_s -> e^{ikr}/(-ikr) (cos(phi) S2 e_theta - sin(phi) S1 e_phi)"""
    th = [d[0] for d in b["dirs"]]
    an = lib(ms.angular_scattering, theta=t64(th), **bkw(b, **VAR[b["variant"]]))
    S1, S2 = npy(an["S1"]), npy(an["S2"])
    E0 = complex(*b["E0"])
    kk = [k * n for k, n in zip(b["k0"], b["ne"])]
    X = max(kk) * max(r[-1] for r in b["r"])
    Ne = X + 4 * X ** (1 / 3) + 2
    R0 = 6 * Ne * (Ne + 1) / min(kk)
    us = [np.array([math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t)]) for t, p in b["dirs"]]
    pts = [(R0 * s * u).tolist() for s in (1, 2, 4) for u in us]
    f = call(b, pts)
    E, H = npy(f["E_s"]), npy(f["H_s"])
    D = len(us)
    for p in range(len(b["r"])):
        for k, kv in enumerate(kk):
            A = []
            for j, s in enumerate((1, 2, 4)):
                A.append(E[p, k, j * D:(j + 1) * D] * (-1j * kv * R0 * s) * np.exp(-1j * kv * R0 * s) / E0)
            ext = (A[0] - 6 * A[1] + 8 * A[2]) / 3
            sc = max(np.abs(S1[p, k]).max(), np.abs(S2[p, k]).max())
            for i, (t, ph) in enumerate(b["dirs"]):
                et = np.array([math.cos(t) * math.cos(ph), math.cos(t) * math.sin(ph), -math.sin(t)])
                ep = np.array([-math.sin(ph), math.cos(ph), 0])
                wh = " at theta=%.3g, phi=%.3g (particle %d, wavelength %d)" % (t, ph, p, k)
                tol = 1e-3 * sc + 1e-12
                close(ext[i] @ et, math.cos(ph) * S2[p, k, i], tol, 0, "far field E_theta vs S2" + wh)
                close(ext[i] @ ep, -math.sin(ph) * S1[p, k, i], tol, 0, "far field E_phi vs S1" + wh)
                # outgoing wave: H = n u x E, transverse
                e, h = E[p, k, 2 * D + i], H[p, k, 2 * D + i]
                s2 = abs(E0) * sc / (kv * R0 * 4)
                close(h, b["ne"][k] * np.cross(us[i], e), 0.1 * s2 * b["ne"][k] + 1e-12 / (kv * R0), 0, "outgoing wave impedance" + wh)
                rec.obs(4)
    lab(b, rec)


SUBS = [
    Sub("flux", s_b(), t_flux, 360),
    Sub("volume_absorption", s_vol(), t_vol, 160),
    Sub("far_field", s_far(), t_far, 120),
]
RULE = ("layered spheres of all material classes and backends: Poynting flux through a surrounding sphere (exact angular "
        "quadrature), volume integral of the losses, extrapolated far field in 3-5 directions; non-trivial: a material "
        "different from the host (with losses, for the volume integral)")
ASSUMPTIONS = ["quadrature/extrapolation errors below 1e-3 (volume 2e-4), by construction of the grids"]
