"""Vectorised evaluation equals one-by-one evaluation, for every layout and order."""
from pbt import Sub, st, check
from gen import *
from api import *

VAR = (dict(), dict(), dict(), dict(backend="torch"), dict(backend="scipy"), dict(backend="torch", which_jn="ratios"))
FUN = dict(coef=ms.mie_coefficients, cs=ms.cross_sections, ang=ms.angular_scattering, nf=ms.nearfields)
OUT = dict(coef=("a_n", "b_n"),
           cs=("q_ext", "q_sca", "q_abs", "cs_ext", "cs_sca", "cs_abs", "q_ext_multipoles", "q_sca_multipoles",
               "q_abs_multipoles", "cs_ext_multipoles", "cs_sca_multipoles", "cs_abs_multipoles"),
           ang=("S1", "S2", "i_per", "i_par", "i_unpol", "pol_degree"),
           nf=("E_i", "H_i", "E_s", "H_s", "E_t", "H_t"))
# axis of particles in each output; wavelengths follow
PAX = dict(coef=lambda q: 1, cs=lambda q: 2 if "multipoles" in q else 0, ang=lambda q: 0, nf=lambda q: 0)


@st.composite
def s_b(draw, kinds=("coef", "cs", "ang", "nf"), **kw):
    v = draw(st.integers(0, len(VAR) - 1))
    d = dict(x_lo=0.02, x_hi=30.0, max_layers=5, max_p=4, max_k=4, mx_hi=80.0)
    if v >= 3:
        d.update(x_lo=0.3, x_hi=10.0, max_layers=2, im_hi=4.0, mx_hi=25.0)
    d.update(kw)
    b = draw(batch(**d))
    b["variant"] = v
    b["kind"] = pick(draw, kinds)
    if b["kind"] == "ang":
        b["theta"] = [U(draw, -7, 7) for _ in range(draw(st.integers(1, 5)))] + [0.0]
    if b["kind"] == "nf":
        R = [v for r in b["r"] for v in r]
        b["pts"] = []
        for _ in range(draw(st.integers(2, 5))):
            s = pick(draw, R) * LOGU(draw, 0.3, 3.0)
            mu, ph = U(draw, -1, 1), U(draw, -3.1, 3.1)
            q = math.sqrt(1 - mu * mu)
            b["pts"].append([s * q * math.cos(ph), s * q * math.sin(ph), s * mu])
    b["salt"] = draw(st.integers(0, 1000))
    return b


def call(b, kw, N):
    kw = dict(kw, n_max=N, **VAR[b["variant"]])
    if b["kind"] == "ang":
        kw["theta"] = t64(b["theta"])
    if b["kind"] == "nf":
        kw["r_probe"] = t64(b["pts"])
    return lib(FUN[b["kind"]], **kw)


def tol(b, w):
    """bound for values of magnitude w (one particle, one wavelength)"""
    m = float(np.abs(w).max()) if w.size else 0.0
    return (1e-8 if b["variant"] < 3 else 1e-5) * m + (1e-14 * (b["kind"] != "coef") if b["variant"] < 3 else 1e-11)


def sub(v, q, b, P, K):
    """array -> indexed [particle, wavelength, ...]"""
    ax = PAX[b["kind"]](q)
    v = npy(v)
    check(v.shape[ax:ax + 2] == (P, K), lambda: "%s has shape %s for %d particles and %d wavelengths" % (q, v.shape, P, K))
    return np.moveaxis(v, (ax, ax + 1), (0, 1))


def noise(b, q, p, k, w):
    t = tol(b, w)
    x = x_outer(pair(b, p, k))
    if b["variant"] < 3:
        t += 1e-13 * min(1.0, x) ** 3  # nearly invisible particles
    if q.startswith(("q_abs", "cs_abs")) or q == "pol_degree":
        geo = math.pi * b["r"][p][-1] ** 2 if q.startswith("cs") else 1.0
        t += (1e-8 if b["variant"] < 3 else 1e-5) * geo * min(1.0, x) if q != "pol_degree" else 1e-6
    return t


def visible(b, q, p, k, inten):
    """angles where the degree of polarisation is well defined"""
    s = math.sqrt(inten.max())
    if s < (1e-6 * min(1.0, x_outer(pair(b, p, k))) ** 3 if b["variant"] < 3 else 1e-6):
        return np.zeros(inten.shape, dtype=bool)
    return inten > 1e-4 * inten.max()


def t_single(b, rec):
    P, K = len(b["r"]), len(b["k0"])
    N = int(lib(ms.mie_coefficients, **bkw(b, **VAR[b["variant"]]))["n_max"])
    if b["variant"] >= 3:
        N = min(N, 6 + int(2 * min(x_outer(pair(b, p, k)) for p, k in pairs(b))))
    A = call(b, bkw(b), N)
    for p in range(P):
        for k in range(K):
            c = pair(b, p, k)
            B = call(b, kw_of(c), N)
            for q in OUT[b["kind"]]:
                x, y = sub(A[q], q, b, P, K)[p, k], sub(B[q], q, b, 1, 1)[0, 0]
                if q == "pol_degree":
                    s = visible(b, q, p, k, npy(A["i_unpol"])[p, k])
                    x, y = x[s], y[s]
                rec.obs(close(x, y, noise(b, q, p, k, y), 0, "%s of particle %d, wavelength %d in a batch vs alone" % (q, p, k)))
    rec.label(b["kind"], VAR[b["variant"]].get("backend", "default"), *batch_labels(b))
    rec.nontrivial(P * K > 1)


def t_perm(b, rec):
    """reordering, repeating or dropping entries only reorders, repeats or drops results"""
    P, K = len(b["r"]), len(b["k0"])
    N = int(lib(ms.mie_coefficients, **bkw(b, **VAR[b["variant"]]))["n_max"])
    if b["variant"] >= 3:
        N = min(N, 6 + int(2 * min(x_outer(pair(b, p, k)) for p, k in pairs(b))))
    s = b["salt"]
    ip = [(s + 3 * i + i * i) % P for i in range(1 + s % (P + 1))]
    ik = [(s // 5 + 5 * i + i * i) % K for i in range(1 + (s // 7) % (K + 1))]
    c = dict(b, r=[b["r"][p] for p in ip], k0=[b["k0"][k] for k in ik], ne=[b["ne"][k] for k in ik],
             n=[[[b["n"][p][l][k] for k in ik] for l in range(len(b["r"][0]))] for p in ip], layout="PLK", flags=s % 16)
    inner = {}
    if b["kind"] == "ang":
        it = [(s + 7 * i) % len(b["theta"]) for i in range(1 + s % 6)]
        c["theta"] = [b["theta"][i] for i in it]
    if b["kind"] == "nf":
        it = [(s + 7 * i) % len(b["pts"]) for i in range(1 + s % 6)]
        c["pts"] = [b["pts"][i] for i in it]
        if len(it) == 1:
            it, c["pts"] = it * 2, c["pts"] * 2
    A = call(b, bkw(b), N)
    B = call(c, bkw(c), N)
    for q in OUT[b["kind"]]:
        x, y = sub(A[q], q, b, P, K), sub(B[q], q, b, len(ip), len(ik))
        for i, p in enumerate(ip):
            for j, k in enumerate(ik):
                u, v = x[p, k], y[i, j]
                full = u
                if b["kind"] in ("ang", "nf"):
                    u = u[it]
                t = noise(b, q, p, k, full)
                if q == "pol_degree":
                    m = visible(b, q, p, k, npy(A["i_unpol"])[p, k])[it]
                    u, v = u[m], v[m]
                rec.obs(close(v, u, t, 0, "%s of particle %d, wavelength %d after reordering" % (q, p, k)))
    rec.label(b["kind"], VAR[b["variant"]].get("backend", "default"), *batch_labels(b))
    rec.nontrivial(ip != list(range(P)) or ik != list(range(K)))


@st.composite
def s_long(draw, kinds=None):
    """many entries along one of the axes"""
    b = draw(s_b(**pick(draw, (dict(x_lo=0.05, x_hi=4.0, mx_hi=15.0), dict(x_lo=6.0, x_hi=15.0, mx_hi=40.0))), im_hi=3.0, max_p=2, max_k=2, max_layers=2,
                 kinds=kinds or ("coef", "cs", "ang", "nf")))
    ax = "m" if kinds else pick(draw, ("k", "p") + (("m", "m") if b["kind"] in ("ang", "nf") else ()))
    m = draw(st.integers(5, 40)) if draw(st.integers(0, 2)) == 0 else draw(st.integers(40, 400))
    if b["kind"] == "nf" and ax != "m":
        m = min(m, 120)
    if ax == "m":
        m = m * 2 if draw(st.booleans()) else m
    f = lambda i, j=0: (0.5 + 0.25 * j + i * GOLD) % 1.0
    b["flags"] &= ~16
    if ax == "k":
        b["k0"] = [b["k0"][0] * (0.4 + 0.6 * f(i)) for i in range(m)]
        amp = pick(draw, (0.0, 0.05, 0.05))
        b["n"] = [[[[v[0][0] * (1 + amp * math.sin(9 * f(i, l))), v[0][1] * (1 + amp * math.cos(7 * f(i, l)))] for i in range(m)]
                   for l, v in enumerate(q)] for q in b["n"]]
        b["envdisp"] = draw(st.booleans())
        b["ne"] = [b["ne"][0] * (1 + 0.1 * b["envdisp"] * f(i, 2)) for i in range(m)]
        b["layout"], b["disp"] = "PLK", 1
    elif ax == "p":
        m = min(m, 120)
        r, q = b["r"][0], b["n"][0]
        b["r"] = [[v * (0.3 + 0.7 * f(i)) for v in r] for i in range(m)]
        amp = pick(draw, (0.0, 0.05))
        b["n"] = [[[[w[0] * (1 + amp * math.sin(9 * f(i, l))), w[1]] for w in v] for l, v in enumerate(q)] for i in range(m)]
        b["layout"], b["pp"] = "PLK", 1
    elif b["kind"] == "ang":
        b["theta"] = [math.pi * f(i) * pick(draw, (1, 2, -1)) if i < 3 else math.pi * f(i) for i in range(m)]
    else:
        R = [v for r in b["r"] for v in r]
        b["pts"] = []
        for i in range(m):
            s, mu, ph = R[i % len(R)] * (0.3 + 2 * f(i, 1)), 2 * f(i) - 1, 6.28 * f(i * i, 2)
            q = math.sqrt(1 - mu * mu)
            b["pts"].append([s * q * math.cos(ph), s * q * math.sin(ph), s * mu])
    b["axis"] = ax
    return b


def t_long(b, rec):
    P, K = len(b["r"]), len(b["k0"])
    N = int(lib(ms.mie_coefficients, **bkw(b, **VAR[b["variant"]]))["n_max"])
    if b["variant"] >= 3:
        N = min(N, 6 + int(2 * min(x_outer(pair(b, p, k)) for p, k in pairs(b))))
    A = call(b, bkw(b), N)
    key = "theta" if b["kind"] == "ang" else "pts"
    m = len(b.get(key, [0]))
    s = b["salt"]
    some = {(0, 0), (P - 1, K - 1), (P // 2, K // 2)} | {((s + 7 * i) % P, (s // 3 + 11 * i) % K) for i in range(3)}
    for p, k in sorted(some):
        c = pair(b, p, k)
        it = sorted({0, m - 1, m // 2, s % m, (s + p + 31 * k) % m})
        if len(it) == 1:
            it = it * 2
        d = dict(b, **{key: [b[key][i] for i in it]}) if key in b else b
        B = call(d, kw_of(c), N)
        for q in OUT[b["kind"]]:
            full = x = sub(A[q], q, b, P, K)[p, k]
            y = sub(B[q], q, b, 1, 1)[0, 0]
            if key in b:
                check(x.shape[0] == m, lambda: "%s has %d entries, expected %d" % (q, x.shape[0], m))
                x = x[it]
            if q == "pol_degree":
                v = visible(b, q, p, k, npy(A["i_unpol"])[p, k])[it]
                x, y = x[v], y[v]
            rec.obs(close(x, y, noise(b, q, p, k, full), 0, "%s of particle %d, wavelength %d in a large batch vs alone" % (q, p, k)))
    rec.label(b["kind"], "axis=" + b["axis"], VAR[b["variant"]].get("backend", "default"), "%s entries" % ("<32" if max(P, K, m) < 32 else "<256" if max(P, K, m) < 256 else ">=256"),
              "%s orders" % ("<=12" if N <= 12 else ">12"))
    rec.nontrivial(max(P, K, m) > 4)


def t_layout(b, rec):
    """all accepted layouts of the same materials, memory orders and scalar forms"""
    P, K = len(b["r"]), len(b["k0"])
    L = len(b["r"][0])
    N = int(lib(ms.mie_coefficients, **bkw(b, **VAR[b["variant"]]))["n_max"])
    if b["variant"] >= 3:
        N = min(N, 6 + int(2 * min(x_outer(pair(b, p, k)) for p, k in pairs(b))))
    ref = dict(b, layout="PLK", flags=0)
    A = call(ref, bkw(ref), N)
    lays = [l for l in LAYOUTS[(b["pp"], b["disp"])] if not (l == "LK" and (P, L) == (L, K)) and not (l == "PL" and P == L == 1)]
    for lay in lays:
        c = dict(b, layout=lay)
        B = call(c, bkw(c), N)
        for q in OUT[b["kind"]]:
            x, y = sub(A[q], q, b, P, K), sub(B[q], q, b, P, K)
            t = np.array([[noise(b, q, p, k, x[p, k]) for k in range(K)] for p in range(P)])
            if q == "pol_degree":
                continue
            rec.obs(close(y, x, t.reshape((P, K) + (1,) * (x.ndim - 2)), 0, "%s, eps_layers layout %s" % (q, lay)))
    rec.label(b["kind"], *["layout=" + l for l in lays])
    rec.nontrivial(P * K > 1)


SUBS = [
    Sub("one_by_one", s_b(), t_single, 280),
    Sub("reorder", s_b(), t_perm, 400),
    Sub("long", s_long(), t_long, 320),
    Sub("maps", s_long(("nf", "nf", "ang")), t_long, 320),
    Sub("layouts", s_b(), t_layout, 280),
]
RULE = ("batches of up to 4 particles x 4 wavelengths (x angles / positions), every function and backend; non-trivial: distinct "
        "case with more than one entry (one_by_one, layouts), a selection different from the identity (reorder)")
ASSUMPTIONS = ["explicit common n_max, so that both sides sum the same orders", "equality up to rounding (1e-8, closed-form backends 1e-5)"]
