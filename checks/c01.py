"""External coefficients against the arbitrary-precision multilayer reference."""
import mpmath as mp
from pbt import Sub, st, check
from gen import *
from api import *
import ref


def ref_ab(c, N):
    """reference a_n, b_n and |psi_n/xi_n| at the outer size parameter"""
    R = sphere_ref(c, N)
    a, b = R.ab()
    with mp.workdps(R.dps):
        x = mp.mpf(c["k0"]) * mp.mpc(c["ne"]) * mp.mpf(c["r"][-1])
        p, _, ch, _ = ref.riccati(N, x)
        q = np.array([float(abs(u / v)) for u, v in zip(p, ref.xi_of(p, ch))])[1:]
    return a, b, q


def compare(a, b, c, N, rec, what, atol=1e-9, srel=1e-7):
    ra, rb, q = ref_ab(c, N)
    for got, want, nm in ((a, ra, "a_n"), (b, rb, "b_n")):
        tol = np.minimum(atol, srel * np.maximum(q, np.abs(want))) + 1e-200
        close(got, want, tol, 0.0, "%s %s" % (what, nm))
        rec.obs(len(want))
    return ra, rb


# --- batches of layered spheres, automatic truncation
def t_batch(b, rec):
    P, K = len(b["r"]), len(b["k0"])
    m = lib(ms.mie_coefficients, **bkw(b))
    N = int(m["n_max"])
    A = npy(get(m, "a_n", (N, P, K)))
    B = npy(get(m, "b_n", (N, P, K)))
    for p, k in some_pairs(b, 2):
        compare(A[:, p, k], B[:, p, k], pair(b, p, k), N, rec, "particle %d wavelength %d" % (p, k))
    rec.label(*batch_labels(b))
    rec.nontrivial(x_outer(pair(b, 0, 0)) > 0.05)


# --- one sphere, explicit truncation order
@st.composite
def s_nmax(draw):
    c = draw(sphere(x_lo=1e-3, x_hi=40.0))
    c["n_max"] = pick(draw, (1, 2, 3)) if draw(st.booleans()) else draw(st.integers(1, 80))
    c["as"] = pick(draw, ("int", "tensor", "numpy"))
    return c


def t_nmax(c, rec):
    N = c["n_max"]
    v = {"int": N, "tensor": torch.tensor(N), "numpy": np.int64(N)}[c["as"]]
    m = lib(ms.mie_coefficients, **kw_of(c, n_max=v))
    check(int(m["n_max"]) == N, "n_max=%d requested, %d reported" % (N, int(m["n_max"])))
    check(npy(m["n"]).tolist() == list(range(1, N + 1)), "orders are not 1..n_max")
    a, b = npy(get(m, "a_n", (N, 1, 1)))[:, 0, 0], npy(get(m, "b_n", (N, 1, 1)))[:, 0, 0]
    compare(a, b, c, N, rec, "n_max=%d" % N)
    rec.label("n_max=%s" % ("1" if N == 1 else "<10" if N < 10 else ">=10"), size_label(x_outer(c)), c["tag"])
    rec.nontrivial(x_outer(c) > 0.05)


# --- large spheres
@st.composite
def s_large(draw):
    return draw(sphere(x_lo=50.0, x_hi=220.0, max_layers=4,
                       classes=("dielectric", "absorbing", "metal", "low", "idealmetal")))


def t_large(c, rec):
    m = lib(ms.mie_coefficients, **kw_of(c))
    N = int(m["n_max"])
    a, b = npy(get(m, "a_n", (N, 1, 1)))[:, 0, 0], npy(get(m, "b_n", (N, 1, 1)))[:, 0, 0]
    compare(a, b, c, N, rec, "large sphere", atol=1e-8)
    rec.label("x>=100" if x_outer(c) >= 100 else "x<100", "L=%d" % len(c["r"]))
    rec.nontrivial()


# --- tiny spheres: dipole of the right relative size
def t_small(c, rec):
    m = lib(ms.mie_coefficients, **kw_of(c))
    N = int(m["n_max"])
    a, b = npy(get(m, "a_n", (N, 1, 1)))[:, 0, 0], npy(get(m, "b_n", (N, 1, 1)))[:, 0, 0]
    compare(a, b, c, N, rec, "small sphere")
    rec.label(c["tag"], "L=%d" % len(c["r"]), *c["classes"])
    rec.nontrivial(any(k not in ("matched",) for k in c["classes"]))


# --- reported metadata describes the inputs
def t_meta(b, rec):
    P, K, L = len(b["r"]), len(b["k0"]), len(b["r"][0])
    m = lib(ms.mie_coefficients, **bkw(b))
    k0, ne, r = np.array(b["k0"]), np.array(b["ne"]), np.array(b["r"])
    n = np.array(b["n"])
    n = n[..., 0] + 1j * n[..., 1]
    close(get(m, "k0", (1, K)), k0[None], 0, 1e-13, "k0")
    close(npy(get(m, "n_env"))[0] + np.zeros(K), ne, 0, 1e-13, "n_env")
    close(npy(get(m, "eps_env"))[0] + np.zeros(K), ne ** 2, 0, 1e-13, "eps_env")
    close(get(m, "k", (1, K)), (k0 * ne)[None], 0, 1e-13, "k")
    close(get(m, "r_layers", (P, L)), r, 0, 1e-13, "r_layers")
    close(get(m, "eps_layers", (P, L, K)), n ** 2, 1e-13, 1e-13, "eps_layers")
    close(get(m, "m_layers", (P, L, K)), n / ne, 1e-13, 1e-13, "m_layers")
    close(get(m, "r_c", (P, K)), r[:, :1] + np.zeros((P, K)), 0, 1e-13, "r_c")
    close(get(m, "r_s", (P, K)), r[:, -1:] + np.zeros((P, K)), 0, 1e-13, "r_s")
    close(get(m, "n_c", (P, K)), n[:, 0], 1e-13, 1e-13, "n_c")
    close(get(m, "n_s", (P, K)), n[:, -1], 1e-13, 1e-13, "n_s")
    close(get(m, "eps_c", (P, K)), n[:, 0] ** 2, 1e-13, 1e-13, "eps_c")
    close(get(m, "eps_s", (P, K)), n[:, -1] ** 2, 1e-13, 1e-13, "eps_s")
    check(int(m["L"]) == L, "number of layers: %s, expected %d" % (m["L"], L))
    N = int(m["n_max"])
    check(npy(m["n"]).tolist() == list(range(1, N + 1)), "orders are not 1..n_max")
    get(m, "a_n", (N, P, K)), get(m, "b_n", (N, P, K))
    rec.obs(13)
    rec.label(*batch_labels(b))
    rec.nontrivial(P * K > 1)


# --- on and around whispering-gallery resonances of any sharpness
@st.composite
def s_wgm(draw):
    b = draw(wgm_batch())
    b["nm"] = pick(draw, (None, b["order"], b["order"] + 2))
    return b


def t_wgm(b, rec):
    K = len(b["k0"])
    m = lib(ms.mie_coefficients, **bkw(b, **({} if b["nm"] is None else dict(n_max=b["nm"]))))
    N = int(m["n_max"])
    A, B = npy(get(m, "a_n", (N, 1, K))), npy(get(m, "b_n", (N, 1, K)))
    top = 0.0
    for p, k in some_pairs(b, 2):
        ra, rb = compare(A[:, p, k], B[:, p, k], pair(b, p, k), N, rec, "resonance of order %d, Q = %.1e, wavelength %d" % (
            b["order"], b["Q"], k), atol=1e-9 + 1e-13 * b["Q"], srel=1e-7 * (1 + 1e-6 * b["Q"]))
        if b["order"] <= N:
            top = max(top, abs(ra[b["order"] - 1]), abs(rb[b["order"] - 1]))
    rec.label(q_label(b["Q"]), "order<10" if b["order"] < 10 else "order>=10", "loss" if b["loss"] else "lossless", "L=%d" % len(b["r"][0]))
    rec.nontrivial(top > 0.05)


def t_thin(b, rec):
    t_batch(b, rec)
    rec.label(thin_label(b))


EXPL = [
    # regressions: x on a zero of sin, strong refraction at large x, thin layers, ideal metals
    dict(k0=0.01, r=[100 * 3.141592653589793], n=[[2.0, 0.0]], ne=1.0, classes=["dielectric"], tag="sin-zero"),
    dict(k0=0.01, r=[2500.0], n=[[4.0, 0.5]], ne=1.0, classes=["absorbing"], tag="generic"),
    dict(k0=0.01, r=[10.0, 10.1, 300.0], n=[[0.0, 2.0], [1.5, 0.0], [3.5, 0.01]], ne=1.33,
         classes=["idealmetal"], tag="generic"),
    dict(k0=0.01, r=[0.1], n=[[1.5, 0.0]], ne=1.0, classes=["dielectric"], tag="generic"),
]
SUBS = [
    Sub("batch", batch(x_lo=1e-2, x_hi=60.0), t_batch, 320),
    Sub("n_max", s_nmax(), t_nmax, 320),
    Sub("large", s_large(), t_large, 40, explicit=EXPL),
    Sub("small", sphere(x_lo=1e-4, x_hi=0.3), t_small, 320, explicit=EXPL),
    Sub("active", batch(x_lo=1e-2, x_hi=40.0, host_im=0.3, classes=("gain", "dielectric", "absorbing", "metal", "gain")), t_batch, 120),
    Sub("many_layers", batch(x_lo=0.05, x_hi=30.0, mx_hi=120.0, min_layers=6, max_layers=40, max_p=2, max_k=2), t_batch, 64),
    Sub("thin_layers", thin_batch(x_lo=0.05, x_hi=40.0, max_p=2, max_k=2), t_thin, 160),
    Sub("resonances", s_wgm(), t_wgm, 160),
    Sub("metadata", batch(), t_meta, 400),
]
RULE = ("Hypothesis draws spheres of 1-5 layers (dielectric, absorbing, metallic, ideal-metal, low-index, gain and "
        "index-matched layers, size parameters 1e-4..220, arguments on zeros of sin), batches of 1-3 particles x 1-4 "
        "unsorted wavelengths in every accepted layout; non-trivial: distinct case whose size parameter exceeds 0.05 "
        "(batch, n_max), or with a layer that is not index-matched (small), or whose resonant coefficient exceeds 0.05 (resonances: spheres on or a few widths off a whispering-gallery mode of known order, Q up to 1e8), or more than one particle/wavelength (metadata)")
ASSUMPTIONS = ["mpmath evaluates sin, cos, exp correctly", "Im n of gain media > -0.1, Im of the host size parameter < 0.2"]
