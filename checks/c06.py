"""Near fields obey Maxwell's equations and the interface conditions (no reference model)."""
from pbt import Sub, st, check
from gen import *
from api import *

VAR = (dict(), dict(), dict(), dict(backend="torch"), dict(backend="scipy"), dict(backend="torch", which_jn="ratios"))


@st.composite
def s_b(draw, vmax=len(VAR) - 1, **kw):
    v = draw(st.integers(0, vmax))
    d = dict(x_lo=0.1, x_hi=30.0, max_layers=5, max_p=2, max_k=2, mx_hi=80.0)
    if v >= 3:
        d.update(x_lo=0.3, x_hi=12.0, max_layers=2, im_hi=4.0)
    d.update(kw)
    b = draw(batch(**d))
    b["variant"] = v
    b["E0"] = [1.0, 0.0] if draw(st.booleans()) else [U(draw, -2, 2), U(draw, -2, 2)]
    b["dirs"] = []
    for _ in range(draw(st.integers(2, 5))):
        mu, ph = U(draw, -0.999, 0.999), U(draw, -math.pi, math.pi)
        if draw(st.integers(0, 5)) == 0:
            mu = pick(draw, (0.0, 0.9999999, -0.9999999))
        b["dirs"].append([mu, ph, draw(st.integers(0, 5)), U(draw, 0.1, 0.9), LOGU(draw, 1.1, 8.0), draw(st.integers(0, 7))])
    return b


@st.composite
def s_wgm(draw):
    b = draw(s_b(vmax=2))
    w = draw(wgm_batch(q_max=1e5))
    w["k0"], w["ne"] = w["k0"][:2], w["ne"][:2]
    w["n"] = [[v[:2] for v in l] for l in w["n"]]
    w.update({q: b[q] for q in ("variant", "E0", "dirs")})
    return w


def unit(mu, ph):
    q = math.sqrt(1 - mu * mu)
    return np.array([q * math.cos(ph), q * math.sin(ph), mu])


def nf(b, pts):
    f = lib(ms.nearfields, **bkw(b, r_probe=t64(pts), E_0=complex(*b["E0"]), **VAR[b["variant"]]))
    s = (len(b["r"]), len(b["k0"]), len(pts), 3)
    return {q: npy(get(f, q, s)) for q in ("E_i", "H_i", "E_s", "H_s", "E_t", "H_t")}


def lab(b, rec):
    rec.label(VAR[b["variant"]].get("backend", "default"), *batch_labels(b))
    rec.nontrivial(any(c != "matched" for c in b["classes"]))


AXES = [unit(0.02, 0.01), unit(0.01, 1.57), unit(0.9998, 0.01)]


# --- continuity of E_t, H_t (tangential), n^2 E_r, H_r (normal)
def t_cont(b, rec):
    pts, meta = [], []
    for mu, ph, j, *_ in b["dirs"]:
        for p, r in enumerate(b["r"]):
            l = j % len(r)
            for s in (1 - 1e-9, 1 + 1e-9):
                pts.append((r[l] * s * unit(mu, ph)).tolist())
            i0 = len(pts) - 2
            for v in AXES:  # other places of the interface: the scale of the field
                pts.append((r[l] * (1 + 1e-9) * v).tolist())
            meta.append((p, l, unit(mu, ph), i0))
    f = nf(b, pts)
    for p, l, u, i in meta:
        for k in range(len(b["k0"])):
            c = pair(b, p, k)
            n1 = complex(*c["n"][l])
            n2 = complex(*c["n"][l + 1]) if l + 1 < len(c["r"]) else complex(c["ne"])
            rho = c["k0"] * c["r"][l] * min(abs(n1), abs(n2))
            kr = c["k0"] * c["r"][l] * max(abs(n1), abs(n2))
            E1, E2 = f["E_t"][p, k, i], f["E_t"][p, k, i + 1]
            H1, H2 = f["H_t"][p, k, i], f["H_t"][p, k, i + 1]
            other = [np.linalg.norm(f[q][p, k, i + 2:i + 5], axis=-1).max() for q in ("E_t", "H_t")]
            sE = max(np.linalg.norm(E1) + np.linalg.norm(E2), other[0]) + 1e-3 * abs(complex(*b["E0"]))
            sH = max(np.linalg.norm(H1) + np.linalg.norm(H2), other[1]) + 1e-3 * abs(complex(*b["E0"]))
            tol = 2e-7 * (1 + 1 / rho) + 1e-7 * kr
            if b["variant"] >= 3:
                tol = tol * 100 + 1e-3  # cancellation between high-order shell terms
            w = "particle %d, wavelength %d, interface %d of %d" % (p, k, l, len(c["r"]))
            close(np.cross(u, E2), np.cross(u, E1), tol * sE, 0, "tangential E across " + w)
            close(np.cross(u, H2), np.cross(u, H1), tol * sH, 0, "tangential H across " + w)
            close(n2 ** 2 * (u @ E2), n1 ** 2 * (u @ E1), tol * sE * max(abs(n1), abs(n2)) ** 2, 0, "radial D across " + w)
            close(u @ H2, u @ H1, tol * sH, 0, "radial B across " + w)
            rec.obs(8)
    lab(b, rec)


ST = [(1, 8.0), (-1, -8.0), (2, -1.0), (-2, 1.0)]


# --- curl E = i k0 H, curl H = -i k0 n^2 E, div E = div H = 0
def t_maxwell(b, rec):
    E0 = abs(complex(*b["E0"]))
    pts, meta = [], []
    for mu, ph, j, t, far, fl in b["dirs"]:
        p = fl % len(b["r"])
        r = b["r"][p]
        reg = j % (len(r) + 1)
        lo = r[reg - 1] if reg else 0.0
        hi = r[reg] if reg < len(r) else r[-1] * far
        s = lo + (hi - lo) * (t if reg or len(r) < 1 else 0.3 + 0.65 * t)
        d = min(s - lo if reg else s, hi - s if reg < len(r) else s)
        kn = max(b["k0"]) * max([abs(complex(*v)) for v in (b["n"][p][reg] if reg < len(r) else [[e, 0.3] for e in b["ne"]])])
        ell = min(1 / kn, s)
        h = min(0.01 * ell, 0.3 * d)
        if h < 1e-5 * ell:
            rec.label("layer too thin for differences")
            continue
        x = s * unit(mu, ph)
        i0 = len(pts)
        pts.append(x.tolist())
        for a in range(3):
            for m, _ in ST:
                y = x.copy()
                y[a] += m * h
                pts.append(y.tolist())
        meta.append((p, reg, i0, h, ell, s))
    if not meta:
        return
    f = nf(b, pts)
    close(f["E_i"][..., 1:], 0 * f["E_i"][..., 1:], 0, 0, "incident E is not x polarised")
    for p, reg, i0, h, ell, s in meta:
        for k in range(len(b["k0"])):
            c = pair(b, p, k)
            out = reg == len(c["r"])
            n = complex(*c["n"][reg]) if not out else complex(c["ne"])
            for q, qi in (("E", "E_i"), ("H", "H_i")):
                w = f[q + "_s"][p, k, i0] + (f[qi][p, k, i0] if out else 0)
                close(f[q + "_t"][p, k, i0], w, 1e-12 * (E0 + np.abs(w).max()), 0, "total %s field, region %d" % (q, reg))
            fields = (("total", f["E_t"], f["H_t"]),) + ((("scattered", f["E_s"], f["H_s"]), ("incident", f["E_i"], f["H_i"])) if out else ())
            rho = abs(n) * c["k0"] * s
            noise = (1e-6 if b["variant"] >= 3 else 1e-11) / (h / ell)
            for nm, E, H in fields:
                J = []
                for F in (E, H):
                    D = np.zeros((3, 3), dtype=complex)  # D[a, i] = d_a F_i
                    for a in range(3):
                        D[a] = sum(w * F[p, k, i0 + 1 + 4 * a + q] for q, (_, w) in enumerate(ST)) / (12 * h)
                    J.append(D)
                cE, cH = [np.array([D[1, 2] - D[2, 1], D[2, 0] - D[0, 2], D[0, 1] - D[1, 0]]) for D in J]
                e, hh = E[p, k, i0], H[p, k, i0]
                sE = np.abs(E[p, k, i0:i0 + 13]).max() + (1e-6 * E0)
                sH = np.abs(H[p, k, i0:i0 + 13]).max() + (1e-6 * E0)
                tE = (5e-5 + 5e-6 / rho + noise) * max(sE / ell, c["k0"] * sH)
                tH = (5e-5 + 5e-6 / rho + noise) * max(sH / ell, c["k0"] * abs(n) ** 2 * sE)
                w = " of the %s field (particle %d, wavelength %d, region %d of %d)" % (nm, p, k, reg, len(c["r"]))
                close(cE, 1j * c["k0"] * hh, tE, 0, "curl E = i k0 H" + w)
                close(cH, -1j * c["k0"] * n ** 2 * e, tH, 0, "curl H = -i k0 n^2 E" + w)
                close(np.trace(J[0]), 0, tE, 0, "div E" + w)
                close(np.trace(J[1]), 0, tH, 0, "div H" + w)
                rec.obs(8)
    lab(b, rec)


def t_both(b, rec):
    t_cont(b, rec)
    t_maxwell(b, rec)


SUBS = [
    Sub("interfaces", s_b(), t_cont, 640),
    Sub("maxwell", s_b(), t_maxwell, 480),
    Sub("many_layers", s_b(vmax=2, x_hi=15.0, mx_hi=40.0, min_layers=6, max_layers=16), t_both, 64),
    Sub("resonances", s_wgm(), t_both, 64),
    Sub("absorbing_host", s_b(host_im=0.3), t_maxwell, 120),
]
RULE = ("batches of 1-2 particles, 1-2 wavelengths, 1-5 layers, all backends, 2-5 directions each; both sides of an "
        "interface, or a 13-point stencil inside one region; non-trivial: a material different from the host")
ASSUMPTIONS = ["derivatives from a 4th order stencil, agreement 5e-5 of the local field scale"]
