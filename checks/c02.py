"""The solver backends describe the same physics (spheres with one or two layers)."""
from pbt import Sub, st, check
from gen import *
from api import *

VARIANTS = (dict(backend="torch"), dict(backend="torch", which_jn="ratios"), dict(backend="scipy"),
            dict(backend="TORCH"), dict(backend="Scipy"))
DOM = dict(x_lo=0.05, x_hi=25.0, max_layers=2, max_p=2, max_k=3, im_hi=6.0)


@st.composite
def s_b(draw, **kw):
    d = dict(DOM)
    d.update(kw)
    b = draw(batch(**d))
    b["variant"] = draw(st.integers(0, len(VARIANTS) - 1))
    b["legacy"] = draw(st.integers(0, 1)) if b["layout"] in ("L", "LK") and len(b["r"]) == 1 else 0
    b["nm"] = pick(draw, (None, 1, 2, 5, 12))
    b["th"] = [U(draw, -7.0, 7.0) for _ in range(3)]
    return b


def akw(b, **extra):
    kw = bkw(b, **extra)
    if b["legacy"]:
        r, e = kw.pop("r_layers"), kw.pop("eps_layers")
        r = r.reshape(-1)
        kw.update(r_c=r[0], eps_c=e[0])
        if len(r) == 2:
            kw.update(r_s=r[1], eps_s=e[1])
    return kw


@st.composite
def s_wgm(draw, q_max=1e8):
    b = draw(wgm_batch(q_max, max_layers=2))
    b.update(variant=draw(st.integers(0, len(VARIANTS) - 1)), legacy=draw(st.integers(0, 1)) if b["layout"] == "L" else 0,
             nm=pick(draw, (None, b["order"] + 1)))
    return b


def lab(b, rec):
    v = VARIANTS[b["variant"]]
    rec.label(v["backend"].lower() + "/" + v.get("which_jn", "recurrence"), "legacy" if b["legacy"] else "layers",
              *batch_labels(b))
    rec.nontrivial("matched" not in b["classes"] or len(b["r"][0]) > 1)


def t_coef(b, rec):
    nm = {} if b["nm"] is None else dict(n_max=b["nm"])
    P = lib(ms.mie_coefficients, **bkw(b, **nm))
    Q = lib(ms.mie_coefficients, **akw(b, **VARIANTS[b["variant"]], **nm))
    N = min(int(P["n_max"]), int(Q["n_max"]))
    if b["nm"]:
        check(N == b["nm"] == int(Q["n_max"]), "n_max not honoured")
    for q in ("a_n", "b_n"):
        rec.obs(close(npy(Q[q])[:N], npy(P[q])[:N], 1e-7 + 1e-13 * b.get("Q", 0), 0, "%s, %s vs default backend" % (q, VARIANTS[b["variant"]])))
    for q in ("k", "k0", "r_layers", "eps_layers", "m_layers", "n_c", "n_s"):
        close(Q[q], P[q], 0, 1e-12, "metadata %s" % q)
    lab(b, rec)


# --- particles of very different size in one call, tiny cores; accuracy relative to the size of the coefficients
@st.composite
def s_mix(draw):
    b = draw(s_b(x_lo=1e-3, x_hi=40.0, mx_hi=100.0, im_hi=4.0, max_p=3))
    if len(b["r"][0]) == 2 and draw(st.booleans()):
        b["r"] = [[v[1] * LOGU(draw, 2e-3, 0.5), v[1]] for v in b["r"]]
    b["nm"] = pick(draw, (None, None, 2, 30, 45))
    # closed forms need y_n of the smallest argument: stay below the overflow of double precision
    m = [b["ne"][0]] + [abs(complex(*v)) for a in b["n"] for c in a for v in c]
    z = min(b["k0"]) * min(m + b["ne"]) * min(v for q in b["r"] for v in q)
    cap = max(n for n in range(1, 90) if n == 1 or math.lgamma(2 * n + 1) - math.lgamma(n + 1) - n * math.log(2) - (n + 1) * math.log(z) < 600)
    x = max(b["k0"]) * max(b["ne"]) * max(q[-1] for q in b["r"])
    if (b["nm"] or x + 5 * x ** (1 / 3) + 12) > cap:
        b["nm"] = cap
    return b


def t_mix(b, rec):
    nm = {} if b["nm"] is None else dict(n_max=b["nm"])
    P = lib(ms.mie_coefficients, **bkw(b, **nm))
    Q = lib(ms.mie_coefficients, **akw(b, **VARIANTS[b["variant"]], **nm))
    N = min(int(P["n_max"]), int(Q["n_max"]))
    x = np.array(b["k0"])[None, :] * np.array(b["ne"])[None, :] * np.array(b["r"])[:, -1:]
    for q in ("a_n", "b_n"):
        u, v = npy(Q[q])[:N], npy(P[q])[:N]
        rec.obs(close(u, v, np.minimum(1e-7, 1e-6 * np.maximum(np.abs(v), natural(x, N))) + 1e-290, 0, "%s, %s vs default backend" % (q, VARIANTS[b["variant"]])))
    lab(b, rec)
    rec.label("sizes within a factor %s" % (10 if x.max() / x.min() < 10 else 1000 if x.max() / x.min() < 1000 else "> 1000"))


CS = ("cs_ext", "cs_sca", "cs_abs", "q_ext", "q_sca", "q_abs", "cs_geo")


def t_cs(b, rec):
    P = lib(ms.cross_sections, **bkw(b))
    Q = lib(ms.cross_sections, **akw(b, **VARIANTS[b["variant"]]))
    k = (np.array(b["k0"]) * np.array(b["ne"]))[None]
    geo = np.pi * np.array(b["r"])[:, -1:] ** 2
    for q in CS:
        s = 1.0
        if q.startswith("q"):
            s = 1 / geo
        if q == "cs_geo":
            close(Q[q], P[q], 0, 1e-12, q)
            continue
        rec.obs(close(npy(Q[q]), npy(P[q]), 1e-5 / k ** 2 * s, 1e-6, "%s, %s vs default backend" % (q, VARIANTS[b["variant"]])))
    N = min(int(P["n_max"]), int(Q["n_max"]))
    for q in ("cs_ext_multipoles", "cs_sca_multipoles", "cs_abs_multipoles"):
        rec.obs(close(npy(Q[q])[:, :N], npy(P[q])[:, :N], 2e-5 / k ** 2, 1e-6, q))
    lab(b, rec)


def t_ang(b, rec):
    P = lib(ms.angular_scattering, theta=t64(b["th"]), **bkw(b))
    Q = lib(ms.angular_scattering, theta=t64(b["th"]), **akw(b, **VARIANTS[b["variant"]]))
    for q in ("S1", "S2"):
        rec.obs(close(Q[q], P[q], 1e-5, 1e-7, "%s, %s vs default backend" % (q, VARIANTS[b["variant"]])))
    for q in ("i_per", "i_par", "i_unpol"):
        rec.obs(close(Q[q], P[q], 1e-5 * (1 + float(np.abs(npy(P["S1"])).max() + np.abs(npy(P["S2"])).max())), 1e-6, q))
    lab(b, rec)


# --- internal coefficients of the two closed-form backends against the reference
@st.composite
def s_int(draw):
    c = draw(sphere(x_lo=0.05, x_hi=15.0, max_layers=2, resonant=True))
    im = im_mx(c)
    if im > 5.0:
        s = 5.0 / im
        c["r"] = [v * s for v in c["r"]]
    c["variant"] = draw(st.integers(0, 2))
    return c


def t_int(c, rec):
    m = lib(ms.mie_coefficients, return_internal=True, **kw_of(c, **VARIANTS[c["variant"]]))
    N = int(m["n_max"])
    R = sphere_ref(c, N)
    L = len(c["r"])
    # core fields: c_n = TE amplitude, d_n = TM amplitude (of the regular part)
    te = np.array([complex(R.te[0][n][0]) for n in range(1, N + 1)])
    tm = np.array([complex(R.tm[0][n][0]) for n in range(1, N + 1)])
    # only orders that carry field: compare weighted with |psi_n| at the core radius
    import mpmath as mp
    import ref
    with mp.workdps(R.dps):
        z = mp.mpf(c["k0"]) * mp.mpc(complex(*c["n"][0])) * mp.mpf(c["r"][0])
        p, dp, _, _ = ref.riccati(N, z)
        w = np.array([min(1e300, float(abs(p[n]) + abs(dp[n]))) for n in range(1, N + 1)])
    for q, want in (("c_n", te), ("d_n", tm)):
        got = npy(get(m, q, (N, 1, 1)))[:, 0, 0]
        rec.obs(close(got * w, want * w, 2e-6, 1e-6, "internal coefficient %s (weighted with the field at the core surface)" % q))
    rec.label(VARIANTS[c["variant"]]["backend"], "L=%d" % L, *c["classes"])
    rec.nontrivial(any(k != "matched" for k in c["classes"]))


# --- near fields
@st.composite
def s_nf(draw):
    b = draw(s_b(x_lo=0.2, x_hi=12.0, max_k=2, im_hi=4.0))
    P = []
    R = max(r[-1] for r in b["r"])
    for _ in range(draw(st.integers(2, 5))):
        s = LOGU(draw, 0.15, 3.0) * R
        th, ph = U(draw, 0, math.pi), U(draw, -math.pi, math.pi)
        P.append([s * math.sin(th) * math.cos(ph), s * math.sin(th) * math.sin(ph), s * math.cos(th)])
    P.append(pick(draw, ([0.0, 0.0, 0.4 * R], [0.0, 0.0, -1.7 * R], [0.3 * R, 0.0, 0.0], [0.0, -1.2 * R, 0.0])))
    b["pts"] = P
    b["E0"] = [U(draw, -1.5, 1.5), U(draw, -1.5, 1.5)]
    return b


def t_nf(b, rec):
    E0 = complex(*b["E0"])
    kw = dict(r_probe=t64(b["pts"]), E_0=E0)
    N = int(lib(ms.mie_coefficients, **bkw(b))["n_max"])
    P = lib(ms.nearfields, **bkw(b, **kw))
    Q = lib(ms.nearfields, **akw(b, n_max=N, **VARIANTS[b["variant"]], **kw))
    for q in ("E_i", "H_i"):
        close(Q[q], P[q], 1e-9, 1e-9, q)
    # rounded radial offset of both backends: 1e-8 / (k n r)
    rm = min(math.sqrt(sum(v * v for v in p)) for p in b["pts"])
    zmin = rm * min(b["k0"]) * min([abs(complex(*v)) for a in b["n"] for c in a for v in c] + b["ne"])
    for q in ("E_s", "H_s", "E_t", "H_t"):
        s = float(np.abs(npy(P[q])).max())
        rec.obs(close(Q[q], P[q], (1e-5 + 1e-6 / zmin) * (abs(E0) + s), 0, "%s, %s vs default backend" % (q, VARIANTS[b["variant"]])))
    lab(b, rec)


SUBS = [
    Sub("coefficients", s_b(), t_coef, 1200),
    Sub("cross_sections", s_b(), t_cs, 600),
    Sub("angular", s_b(), t_ang, 500),
    Sub("mixed_sizes", s_mix(), t_mix, 400),
    Sub("resonances", s_wgm(), t_coef, 240),
    Sub("resonant_cs", s_wgm(q_max=1e6), t_cs, 120),
    Sub("internal", s_int(), t_int, 320),
    Sub("nearfields", s_nf(), t_nf, 400),
]
RULE = ("homogeneous and core-shell spheres (batches of 1-2 particles, 1-3 wavelengths, size parameter 0.05-25, "
        "Im(m x) <= 6), every closed-form backend variant and legacy/layer arguments against the default backend; "
        "non-trivial: distinct case with at least two layers or no index-matched material")
ASSUMPTIONS = ["Im(m x) <= 6: beyond it the closed-form backends lose digits as exp(2 Im(m x))"]
