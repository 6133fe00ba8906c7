"""Invariances: units, host medium, fictitious interfaces, mirror symmetry, linearity."""
import copy

from pbt import Sub, st, check
from gen import *
from api import *

VAR = (dict(), dict(), dict(), dict(backend="torch"), dict(backend="scipy"), dict(backend="torch", which_jn="ratios"))


@st.composite
def s_b(draw, **kw):
    v = draw(st.integers(0, len(VAR) - 1))
    d = dict(x_lo=2e-2, x_hi=30.0, max_layers=4, max_p=2, max_k=2, mx_hi=80.0)
    if v >= 3:
        d.update(x_lo=0.3, x_hi=10.0, max_layers=2, im_hi=4.0, mx_hi=25.0)
    d.update(kw)
    if v >= 3:
        d["max_layers"] = min(d["max_layers"], 2)
    b = draw(batch(**d))
    b["variant"], b["envdisp"] = v, b["envdisp"]
    f = draw(st.integers(0, 5))  # nm -> arbitrary, angstrom, um, mm, m
    b["s"] = U(draw, 0.5, 2.0) if f == 0 else LOGU(draw, 1e-3, 1e3) if f == 1 else (10.0, 1e-3, 1e-6, 1e-9)[f - 2]
    b["c"] = U(draw, 0.6, 1.6)
    b["t"] = U(draw, 0.05, 0.95)
    b["j"] = draw(st.integers(0, 5))
    b["pts"] = []
    R = [v for r in b["r"] for v in r]
    for _ in range(draw(st.integers(2, 4))):
        s, mu, ph = pick(draw, R) * LOGU(draw, 0.3, 3.0), U(draw, -0.99, 0.99), U(draw, -3.1, 3.1)
        q = math.sqrt(1 - mu * mu)
        b["pts"].append([s * q * math.cos(ph), s * q * math.sin(ph), s * mu])
    b["theta"] = [U(draw, 0, math.pi), pick(draw, (0.0, math.pi))]
    b["E0"] = [U(draw, -2, 2), U(draw, -2, 2)]
    return b


def order(b):
    N = int(lib(ms.mie_coefficients, **bkw(b, **VAR[b["variant"]]))["n_max"])
    if b["variant"] >= 3:
        N = min(N, 6 + int(2 * min(x_outer(pair(b, p, k)) for p, k in pairs(b))))
    return N


def go(b, N, what=("coef", "cs", "ang", "nf"), pts=None, E0=1.0):
    kw = dict(bkw(b, **VAR[b["variant"]]), n_max=N)
    P, K = len(b["r"]), len(b["k0"])
    o = {}
    if "coef" in what:
        m = lib(ms.mie_coefficients, **kw)
        o.update(a=np.moveaxis(npy(get(m, "a_n", (N, P, K))), 0, 2), b=np.moveaxis(npy(get(m, "b_n", (N, P, K))), 0, 2))
    if "cs" in what:
        m = lib(ms.cross_sections, **kw)
        for q in ("q_ext", "q_sca", "q_abs", "cs_ext", "cs_sca", "cs_abs"):
            o[q] = npy(get(m, q, (P, K)))
        for q in ("q_ext", "q_sca", "q_abs", "cs_ext", "cs_sca", "cs_abs"):
            o[q + "_mp"] = np.moveaxis(npy(get(m, q + "_multipoles", (2, N, P, K))), (2, 3), (0, 1))
    if "ang" in what:
        m = lib(ms.angular_scattering, theta=t64(b["theta"]), **kw)
        for q in ("S1", "S2", "i_unpol"):
            o[q] = npy(m[q])
    if "nf" in what:
        m = lib(ms.nearfields, r_probe=t64(pts if pts is not None else b["pts"]), E_0=E0, **kw)
        for q in ("E_i", "H_i", "E_s", "H_s", "E_t", "H_t"):
            o[q] = npy(m[q])
    return o


def same(b, A, B, what, rec, scale=None, loose=1.0, mask=None):
    """entries of A times scale equal entries of B"""
    x = np.array([[x_outer(pair(b, p, k)) for k in range(len(b["k0"]))] for p in range(len(b["r"]))])
    geo = np.array([[math.pi * r[-1] ** 2] * len(b["k0"]) for r in b["r"]])
    for q in A:
        s = (scale or {}).get(q, 1.0)
        u, v = A[q] * s, B[q]
        t = (1e-8 if b["variant"] < 3 else 1e-5) * loose
        ax = tuple(range(2, v.ndim))
        m = np.abs(v).max(axis=ax) if ax else np.abs(v)
        if q in ("a", "b", "S1", "S2", "i_unpol"):
            lim = t * m + (1e-12 * np.minimum(1, x) ** (3 if q != "i_unpol" else 6) if b["variant"] < 3 else 1e-9)
        elif q[:2] in ("q_", "cs"):
            g = geo * (scale or {}).get("geo", 1.0) if q[:2] == "cs" else 1.0
            lim = t * m + t * np.minimum(1, x) * g
        else:
            # fields: radial offset of 1e-8 in k n r
            lim = t * (1 + m) + 1e-7 * (1 + m) / near(b) * (1 if b["variant"] < 3 else 30)
        rec.obs(close(u, v, lim.reshape(lim.shape + (1,) * (v.ndim - 2)), 0, "%s %s" % (q, what)))


def near(b):
    r = min(math.sqrt(sum(c * c for c in p)) for p in b["pts"])
    return r * min(b["k0"]) * min([abs(complex(*v)) for a in b["n"] for c in a for v in c] + b["ne"])


def lab(b, rec, nt=True):
    rec.label(VAR[b["variant"]].get("backend", "default"), *batch_labels(b))
    rec.nontrivial(nt and any(c != "matched" for c in b["classes"]))


def t_scale(b, rec):
    """all lengths times s, wavenumber divided by s"""
    s, N = b["s"], order(b)
    c = dict(b, k0=[k / s for k in b["k0"]], r=[[v * s for v in r] for r in b["r"]], pts=[[v * s for v in p] for p in b["pts"]])
    sc = {"cs_" + q + m: s * s for q in ("ext", "sca", "abs") for m in ("", "_mp")}
    sc["geo"] = s * s
    same(b, go(b, N), go(c, N), "with all lengths scaled", rec, sc)
    check(order(c) == N or order(b) != N, "automatic n_max depends on the unit of length")
    lab(b, rec)


def t_env(b, rec):
    """host and particle indices divided by c, wavenumber times c"""
    f, N = b["c"], order(b)
    c = copy.deepcopy(b)
    c["k0"] = [k * f for k in b["k0"]]
    c["ne"] = [v / f for v in b["ne"]]
    c["n"] = [[[[v[0] / f, v[1] / f] for v in l] for l in a] for a in b["n"]]
    same(b, go(b, N), go(c, N), "with all indices scaled", rec, {q: 1 / f for q in ("H_i", "H_s", "H_t")})
    lab(b, rec)


def split(b, l, t):
    """insert a fictitious interface in layer l"""
    c = copy.deepcopy(b)
    for p, r in enumerate(c["r"]):
        lo = r[l - 1] if l else 0.0
        r.insert(l, lo + t * (r[l] - lo))
        c["n"][p].insert(l, copy.deepcopy(c["n"][p][l]))
    return c


@st.composite
def s_split(draw):
    b = draw(s_b(max_layers=3))
    if b["variant"] >= 3 and len(b["r"][0]) > 1:
        b["variant"] = 0
    return b


def t_split(b, rec):
    """interfaces between equal materials have no effect"""
    N = order(b)
    l = b["j"] % len(b["r"][0])
    c = split(b, l, b["t"])
    c["layout"] = "PLK"
    if b["variant"] < 3 and b["j"] > 2:
        c = split(c, b["j"] % len(c["r"][0]), 0.5)
    what = ("coef", "cs", "ang", "nf")
    # high orders of thin closed-form shells cancel
    same(b, go(b, N, what), go(c, N, what), "with a fictitious interface in layer %d" % l, rec, loose=3.0 if b["variant"] < 3 else 100.0)
    lab(b, rec)


@st.composite
def s_slices(draw):
    b = draw(s_b(max_layers=2))
    b["variant"] %= 3
    b["slices"] = [[draw(st.integers(0, 40)), U(draw, 0.1, 0.9)] for _ in range(draw(st.integers(3, 24)))]
    return b


def t_slices(b, rec):
    """cutting layers into many slices of the same materials has no effect"""
    N = order(b)
    c = dict(b, layout="PLK")
    for j, t in b["slices"]:
        c = split(c, j % len(c["r"][0]), t)
    what = ("coef", "cs", "ang", "nf")
    same(b, go(b, N, what), go(c, N, what), "cut into %d layers" % len(c["r"][0]), rec, loose=3.0 + len(c["r"][0]))
    lab(b, rec)


@st.composite
def s_coat(draw):
    b = draw(s_b(max_layers=3))
    if b["variant"] >= 3 and len(b["r"][0]) > 1:
        b["variant"] = 0
    return b


def t_coat(b, rec):
    """a coating made of the host medium has no effect"""
    N = order(b)
    c = copy.deepcopy(b)
    f = 1 + b["t"]
    for p, r in enumerate(c["r"]):
        r.append(r[-1] * f)
        c["n"][p].append([[e, 0.0] for e in b["ne"]])
    c["layout"] = "PLK"
    A, B = go(b, N, ("coef", "cs", "ang")), go(c, N, ("coef", "cs", "ang"))
    sc = {"q_" + q + m: 1 / f ** 2 for q in ("ext", "sca", "abs") for m in ("", "_mp")}
    same(b, A, B, "with a coating of host medium", rec, sc, loose=3.0 if b["variant"] < 3 else 300.0)
    # inside the coating the total field is the one of the bare particle
    pts = [p for p in b["pts"]]
    u, v = go(b, N + 10 if b["variant"] < 3 else N, ("nf",), pts), go(c, N + 10 if b["variant"] < 3 else N, ("nf",), pts)
    for q in ("E_t", "H_t"):
        m = 1 + np.abs(u[q]).max((2, 3), keepdims=True)
        if b["variant"] < 3:
            rec.obs(close(v[q], u[q], (1e-6 + 1e-7 / near(b)) * m, 0, q + " with a coating of host medium"))
    lab(b, rec)


MIR = (((-1, 1, 1), dict(E=(1, -1, -1), H=(-1, 1, 1))), ((1, -1, 1), dict(E=(1, -1, 1), H=(-1, 1, -1))))


def t_mirror(b, rec):
    """mirror planes of the x-polarised wave; fields are linear in the amplitude"""
    N = order(b)
    A = go(b, N, ("nf",))
    for flip, par in MIR:
        B = go(b, N, ("nf",), [[u * v for u, v in zip(p, flip)] for p in b["pts"]])
        for q in A:
            m = np.abs(A[q]).max((2, 3), keepdims=True) + 1e-14
            t = np.where(np.linalg.norm(np.array(b["pts"]), axis=-1) > 0, 1e-9, 1e-7)[None, None, :, None]
            rec.obs(close(B[q], A[q] * np.array(par[q[0]]), t * m * 10, 0, "%s mirrored %s" % (q, flip)))
    E0 = complex(*b["E0"])
    C = go(b, N, ("nf",), E0=E0)
    for q in A:
        m = np.abs(A[q]).max((2, 3), keepdims=True) + 1e-14
        rec.obs(close(C[q], A[q] * E0, 1e-9 * m * (abs(E0) + 1e-3), 0, "%s for a complex amplitude" % q))
    lab(b, rec)


def t_match(b, rec):
    """a particle made of the host medium is invisible"""
    c = copy.deepcopy(b)
    for p in range(len(c["r"])):
        c["n"][p] = [[[e, 0.0] for e in b["ne"]] for _ in c["r"][p]]
    c["layout"] = "PLK"
    N = order(c)
    A = go(c, N)
    t = 1e-10 if b["variant"] < 3 else 1e-6
    for q in ("a", "b", "q_ext", "q_sca", "q_abs", "S1", "S2"):
        rec.obs(close(A[q], 0 * A[q], t * (N if q[0] == "S" else 1), 0, "%s of an invisible particle" % q))
    if b["variant"] < 3 and int(lib(ms.mie_coefficients, **bkw(c))["n_max"]) == N:
        close(A["E_t"], A["E_i"], 1e-6 + 2e-7 / near(c), 0, "total field of an invisible particle")
        close(A["H_t"], A["H_i"], (1e-6 + 2e-7 / near(c)) * 3, 0, "total H field of an invisible particle")
    lab(b, rec)


SUBS = [
    Sub("length_unit", s_b(), t_scale, 120),
    Sub("index_unit", s_b(), t_env, 120),
    Sub("fictitious_interface", s_split(), t_split, 120),
    Sub("slices", s_slices(), t_slices, 64),
    Sub("host_coating", s_coat(), t_coat, 120),
    Sub("mirror_linear", s_b(), t_mirror, 120),
    Sub("invisible", s_b(), t_match, 80),
]
RULE = ("batches of layered spheres (1-2 particles, 1-2 wavelengths, all material classes, all backends) and their transformed "
        "counterparts, all observables; non-trivial: distinct case with a material different from the host")
ASSUMPTIONS = ["equality up to rounding amplified by the conditioning (1e-8; closed-form backends 1e-5 and looser for thin shells)"]
