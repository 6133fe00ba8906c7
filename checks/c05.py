"""Electric and magnetic fields inside and around layered spheres against the reference."""
from pbt import Sub, st, check
from gen import *
from api import *

KEYS = ("E_i", "H_i", "E_s", "H_s", "E_t", "H_t")


def point(draw, r, P):
    """probe position for a batch of particles with layer radii r[p]"""
    rr = r[draw(st.integers(0, P - 1))]
    L = len(rr)
    j = draw(st.integers(0, 11))
    reg = draw(st.integers(0, L))
    lo = rr[reg - 1] if reg else 0.0
    hi = rr[reg] if reg < L else rr[-1] * LOGU(draw, 1.2, 20.0)
    s = lo + (hi - lo) * U(draw, 0.05, 0.98)
    if j <= 5:
        mu, ph = U(draw, -1, 1), U(draw, -math.pi, math.pi)
        q = math.sqrt(1 - mu * mu)
        return [s * q * math.cos(ph), s * q * math.sin(ph), s * mu], "generic"
    if j <= 7:  # on the axes
        a, sg = draw(st.integers(0, 2)), pick(draw, (1.0, -1.0))
        v = [0.0, 0.0, 0.0]
        v[a] = sg * s
        return v, "axis"
    if j == 8:  # exactly on an interface (belongs to the inner side)
        a, sg = draw(st.integers(0, 2)), pick(draw, (1.0, -1.0))
        v = [0.0, 0.0, 0.0]
        v[a] = sg * rr[draw(st.integers(0, L - 1))]
        return v, "interface"
    if j == 9:  # close to the z axis
        t, ph = LOGU(draw, 1e-12, 1e-3), U(draw, -math.pi, math.pi)
        return [s * t * math.cos(ph), s * t * math.sin(ph), s * pick(draw, (1.0, -1.0))], "near-axis"
    if j == 10:  # close to an interface
        q = rr[draw(st.integers(0, L - 1))] * (1 + pick(draw, (1e-9, -1e-9)))
        ph = U(draw, -math.pi, math.pi)
        return [q * math.cos(ph) * 0.6, q * math.sin(ph) * 0.6, 0.8 * q], "near-interface"
    return [0.0, 0.0, 0.0], "origin"


@st.composite
def s_b(draw, m=(3, 6), closed=False, **kw):
    d = dict(x_lo=0.03, x_hi=30.0, max_layers=5, max_p=3, max_k=3, mx_hi=60.0)
    if closed:
        d.update(x_lo=0.2, x_hi=12.0, max_layers=2, im_hi=4.0, max_p=2, max_k=2)
    d.update(kw)
    b = draw(batch(**d))
    pts = [point(draw, b["r"], len(b["r"])) for _ in range(draw(st.integers(*m)))]
    b["pts"], b["ptags"] = [p for p, _ in pts], sorted({t for _, t in pts})
    b["E0"] = [1.0, 0.0] if draw(st.booleans()) else [U(draw, -2, 2), U(draw, -2, 2)]
    b["nm"] = pick(draw, (None, None, None, 1, 2, 6))
    b["variant"] = pick(draw, (dict(backend="torch"), dict(backend="torch", which_jn="ratios"), dict(backend="scipy"))) if closed else {}
    return b


def t_ref(b, rec):
    P, K, M = len(b["r"]), len(b["k0"]), len(b["pts"])
    E0 = complex(*b["E0"])
    kw = dict(b["variant"])
    if b["nm"]:
        kw["n_max"] = b["nm"]
    nf = lib(ms.nearfields, **bkw(b, r_probe=t64(b["pts"]), **({} if E0 == 1 else dict(E_0=E0)), **kw))
    F = {q: npy(get(nf, q, (P, K, M, 3))) for q in KEYS}
    N = b["nm"] or int(lib(ms.mie_coefficients, **bkw(b, **kw))["n_max"])
    closed = bool(b["variant"])
    for p, k in some_pairs(b, 2):
        c = pair(b, p, k)
        R = sphere_ref(c, N)
        for i, x in enumerate(b["pts"]):
            want = dict(zip(("E_s", "H_s", "E_t", "H_t"), R.fields(x)))
            ph = np.exp(1j * c["k0"] * c["ne"] * x[2])
            want["E_i"], want["H_i"] = np.array([ph, 0, 0]), np.array([0, ph * c["ne"], 0])
            rr = math.sqrt(sum(v * v for v in x))
            reg = sum(rr > q for q in c["r"])
            nm = abs(complex(*c["n"][reg])) if reg < len(c["r"]) else abs(c["ne"])
            rho = max(c["k0"] * rr * nm, 1e-6 if not closed else 1e-2)
            for q in KEYS:
                w = want[q] * E0
                s = abs(E0) * (1.0 if q[0] == "E" else max(1.0, nm)) + np.linalg.norm(w)
                if q[2] != "i":
                    s += np.linalg.norm(want["E_t" if q[0] == "E" else "H_t"] * E0)
                tol = 1e-10 if q[2] == "i" else (5e-8 + 2e-7 / rho if not closed else 2e-6 + 1e-6 / rho)
                if rr == 0 and q[2] != "i":
                    tol = 1e-6
                close(F[q][p, k, i], w, tol * s, 0, "%s of particle %d, wavelength %d at position %d (region %d of %d)" % (
                    q, p, k, i, reg, len(c["r"])))
                rec.obs(3)
    rec.label(*batch_labels(b), *b["ptags"], "n_max=%s" % b["nm"], b["variant"].get("backend", "default"))
    rec.nontrivial(any(c != "matched" for c in b["classes"]))


SUBS = [
    Sub("reference", s_b(), t_ref, 360),
    Sub("large", s_b(x_lo=20.0, x_hi=60.0, mx_hi=150.0, max_p=1, max_k=2, m=(2, 4)), t_ref, 48),
    Sub("small", s_b(x_lo=1e-3, x_hi=0.3, max_p=2, max_k=1), t_ref, 160),
    Sub("absorbing_host", s_b(x_lo=0.03, x_hi=20.0, host_im=0.3, max_k=2, max_p=2, m=(2, 4)), t_ref, 64),
    Sub("mixed_sizes", s_b(x_lo=1e-3, x_hi=50.0, mx_hi=100.0, max_k=2, m=(2, 4)), t_ref, 64),
    Sub("many_layers", s_b(x_lo=0.1, x_hi=15.0, mx_hi=50.0, min_layers=6, max_layers=16, max_k=2, max_p=2, m=(2, 4)), t_ref, 40),
    Sub("closed_form", s_b(closed=True, m=(3, 5)), t_ref, 240),
]
RULE = ("batches of 1-3 particles, 1-3 wavelengths, 1-5 layers and 2-6 probe positions in every region (generic, axes, "
        "centre, on and next to interfaces), all six fields; non-trivial: distinct case with a material different from the host")
ASSUMPTIONS = ["the documented radial offset of the library (1e-8/|k n r|) bounds the accuracy close to the centre"]
