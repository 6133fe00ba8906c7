"""Generators: plain JSON-able cases, everything drawn through Hypothesis."""
import math

import numpy as np

from hypothesis import strategies as st

M = 2 ** 20
GOLD = 0.6180339887498949


def U(draw, lo, hi):
    """Float in [lo, hi].  Hypothesis prefers small integers and repeats values; the
    golden-ratio sequence turns those into points spread over the whole interval
    (0, the simplest value, is lo)."""
    return lo + (hi - lo) * ((draw(st.integers(0, M)) * GOLD) % 1.0)


def LOGU(draw, lo, hi):
    return float(math.exp(U(draw, math.log(lo), math.log(hi))))


def pick(draw, seq):
    return seq[draw(st.integers(0, len(seq) - 1))]


INDEX_CLASSES = ("dielectric", "absorbing", "metal", "idealmetal", "low", "matched")


def index(draw, ne=1.0, classes=INDEX_CLASSES):
    """[re, im], class"""
    c = pick(draw, classes)
    if c == "dielectric":
        v = [U(draw, 1.05, 4.0), 0.0]
    elif c == "absorbing":
        v = [U(draw, 0.5, 4.5), LOGU(draw, 1e-4, 1.5)]
    elif c == "gain":
        v = [U(draw, 1.05, 3.5), -LOGU(draw, 1e-4, 0.1)]
    elif c == "weak":
        v = [U(draw, 1.0, 4.0), LOGU(draw, pick(draw, (1e-4, 1e-12)), 0.1)]
    elif c == "metal":
        v = [U(draw, 0.05, 2.0), U(draw, 1.0, 8.0)]
    elif c == "idealmetal":
        v = [0.0, U(draw, 0.3, 5.0)]
    elif c == "low":
        v = [pick(draw, (1.0, 0.7, 0.9)), 0.0]
        c = c if v[0] != ne else "matched"
    else:  # matched
        v = [ne * (1.0 + pick(draw, (0.0, 1e-9, 1e-6, 1e-3))), 0.0]
    return v, c


def n_env(draw):
    return pick(draw, (1.0, 1.33, 1.5, 1.0, 2.0)) if draw(st.booleans()) else U(draw, 1.0, 2.2)


def fractions(draw, L, min_gap=0.01):
    """strictly increasing outer radii fractions, last one is 1"""
    w = [LOGU(draw, 0.02, 1.0) for _ in range(L)]
    w[0] = LOGU(draw, 0.02, 1.0) if L > 1 else 1.0
    s, out = 0.0, []
    for v in w:
        s += max(v, min_gap)
        out.append(s)
    out = [v / out[-1] for v in out]
    out[-1] = 1.0
    return out


def n_layers(draw, hi=5, lo=1):
    return draw(st.integers(lo, hi))


@st.composite
def sphere(draw, x_lo=1e-3, x_hi=60.0, max_layers=5, classes=INDEX_CLASSES, resonant=True,
           mx_hi=None):
    """One layered sphere at one wavelength: k0 (rad/nm), r (nm), n, ne."""
    ne = n_env(draw)
    L = n_layers(draw, max_layers)
    n, cl = [], []
    for _ in range(L):
        v, c = index(draw, ne, classes)
        n.append(v)
        cl.append(c)
    x = LOGU(draw, x_lo, x_hi)
    if mx_hi is not None:
        mmax = max(abs(complex(*v)) / ne for v in n)
        x = min(x, mx_hi / mmax)
    wl = U(draw, 300.0, 1500.0)
    k0 = 2 * math.pi / wl
    ro = x / (k0 * ne)
    r = [f * ro for f in fractions(draw, L)]
    tag = "generic"
    if resonant and draw(st.integers(0, 4)) == 0:
        # put one radial argument on a zero of sin(z): k0 * n_j * r_l = p*pi
        l = draw(st.integers(0, L - 1))
        j = pick(draw, [l, min(l + 1, L)])
        nj = ne if j == L else n[j][0]
        if nj > 0 and (j == L or n[j][1] == 0.0):
            p = max(1, round(k0 * nj * r[l] / math.pi))
            s = p * math.pi / (k0 * nj * r[l])
            if s * x < max(x_hi, 4.0):
                r = [v * s for v in r]
                tag = "sin-zero"
    return dict(k0=k0, r=r, n=n, ne=ne, classes=cl, tag=tag)


def wgm_roots(m, n, pol, q_max=1e8):
    """size parameters at which order n of a lossless sphere of index m is resonant: [(x, Q)], sharpest first"""
    from scipy.special import spherical_jn as j, spherical_yn as y
    def pq(x):
        z = m * x
        ps, dps = z * j(n, z), j(n, z) + z * j(n, z, True)
        p, dp = x * j(n, x), j(n, x) + x * j(n, x, True)
        c, dc = x * y(n, x), y(n, x) + x * y(n, x, True)
        u, v = (m, 1.0) if pol == "a" else (1.0, m)
        return u * ps * dp - v * p * dps, u * ps * dc - v * c * dps
    g = np.linspace(n / m * 0.98, n + 0.5, 400)
    v = pq(g)[1] * g ** n
    out = []
    for i in np.nonzero(np.sign(v[1:]) != np.sign(v[:-1]))[0]:
        lo, hi, s = g[i], g[i + 1], np.sign(v[i])
        for _ in range(200):
            mid = 0.5 * (lo + hi)
            if mid == lo or mid == hi:
                break
            if np.sign(pq(mid)[1]) == s:
                lo = mid
            else:
                hi = mid
        x = 0.5 * (lo + hi)
        h = 1e-6 * x
        sl = (pq(x + h)[1] - pq(x - h)[1]) / (2 * h)
        Q = abs(x * sl / (2 * pq(x)[0]))
        if np.isfinite(Q) and 2 < Q < q_max:
            out.append((float(x), float(Q)))
    return sorted(out, key=lambda t: -t[1])


@st.composite
def wgm(draw, q_max=1e8):
    """a lossless sphere on, or a few widths from, a whispering-gallery resonance; optionally cut into
    index-matched layers or with a loss comparable to the width"""
    pol, ne = pick(draw, "ab"), n_env(draw)
    m = U(draw, 1.4, 4.0)
    n = draw(st.integers(2, 30))
    roots = wgm_roots(m, n, pol, q_max)
    while not roots and n > 1:  # too sharp: a lower order
        n -= 1
        roots = wgm_roots(m, n, pol, q_max)
    roots = roots or [(1.0, 5.0)]
    x, Q = pick(draw, roots[:3])
    off = pick(draw, (0.0, 0.0, 0.5, -0.5, 1.0, -2.0, 5.0))
    x *= 1 + off / (2 * Q)
    k0 = 2 * math.pi / U(draw, 300.0, 1500.0)
    loss = pick(draw, (0.0, 0.0, 1.0, 0.1))
    v = [m * ne, loss * m * ne / (2 * Q)]
    fr = pick(draw, ([1.0], [1.0], [0.4, 1.0], [0.2, 0.7, 1.0]))
    ro = x / (k0 * ne)
    return dict(k0=k0, r=[f * ro for f in fr], n=[list(v) for _ in fr], ne=ne, tag="resonance", order=n, pol=pol, Q=Q,
                off=off, loss=loss, classes=["dielectric" if loss == 0 else "absorbing"])


@st.composite
def wgm_batch(draw, q_max=1e8, max_layers=3):
    """the sphere of wgm() at wavelengths across its resonance, in the format of batch()"""
    c = draw(wgm(q_max))
    K = draw(st.integers(1, 4))
    k0 = [c["k0"]] + [c["k0"] * (1 + draw(st.integers(-8, 8)) / (4 * c["Q"])) for _ in range(K - 1)]
    L = min(len(c["r"]), max_layers)
    return dict(k0=k0, r=[c["r"][-L:]], n=[[[v] * K for v in c["n"][-L:]]], ne=[c["ne"]] * K,
                layout=pick(draw, ("L", "PLK")) if L > 1 or K > 1 else "L", envdisp=False, disp=0, pp=0, classes=c["classes"], Q=c["Q"], order=c["order"],
                loss=c["loss"], flags=draw(st.integers(0, 63)))


def q_label(Q):
    return "Q<1e%d" % max(2, math.ceil(math.log10(Q)))


def cx(v):
    return complex(v[0], v[1])


def x_outer(c):
    return c["k0"] * abs(c["ne"]) * c["r"][-1]


def im_mx(c):
    """largest imaginary part of a radial argument"""
    return max(abs(v[1]) for v in c["n"]) * c["k0"] * c["r"][-1]


def size_label(x):
    for hi, s in ((0.1, "x<0.1"), (1, "x<1"), (5, "x<5"), (15, "x<15"), (40, "x<40")):
        if x < hi:
            return s
    return "x>=40"


# ------------------------------------------------------------------ batches
LAYOUTS = {  # (per particle, dispersive) -> layouts of eps_layers
    (0, 0): ("L", "PL", "1L1", "PL1", "PLK"),
    (1, 0): ("PL", "PL1", "PLK"),
    (0, 1): ("LK", "1LK", "PLK"),
    (1, 1): ("PLK",),
}


@st.composite
def batch(draw, x_lo=1e-2, x_hi=30.0, max_layers=5, max_p=3, max_k=4, classes=INDEX_CLASSES,
          mx_hi=None, im_hi=None, n_env_fixed=None, min_k=1, host_im=None, min_layers=1):
    """Several layered spheres at several wavelengths, in one of the accepted layouts.

    n[p][l][k] = [re, im]; ne[k]; r[p][l]; k0[k] (unsorted, sometimes repeated).
    Non-negative `im_hi` bounds the imaginary part of all radial arguments; `host_im` allows
    absorbing hosts (imaginary parts nei[k] of the index up to this value)."""
    P = draw(st.integers(1, max_p))
    if max_p >= 3 and draw(st.integers(0, 11)) == 0:
        P = draw(st.integers(4, 8))
    K = draw(st.integers(min_k, max_k))
    if max_k >= 3 and draw(st.integers(0, 11)) == 0:
        K = draw(st.integers(5, 9))
    L = n_layers(draw, max_layers, min_layers)
    pp = draw(st.integers(0, 1)) if P > 1 else 0
    disp = draw(st.integers(0, 1)) if K > 1 else 0
    envdisp = draw(st.integers(0, 3)) == 0 and K > 1
    ne0 = n_env(draw) if n_env_fixed is None else n_env_fixed
    # variation along wavelengths and particles: usually large, sometimes barely noticeable
    amp = pick(draw, (0.1, 0.1, 3e-3, 1e-4, 3e-6))
    if envdisp and draw(st.booleans()):
        ne = [ne0 * (1 + amp * 0.3 * math.sin(1.3 * k)) for k in range(K)]
    else:
        ne = [n_env(draw) if envdisp else ne0 for _ in range(K)]
    base = [[index(draw, ne0, classes) for _ in range(L)] for _ in range(P if pp else 1)]
    cl = sorted({c for row in base for _, c in row})
    n = []
    for p in range(P):
        row = []
        for l in range(L):
            v = base[p if pp else 0][l][0]
            if disp:
                row.append([[v[0] * (1 + amp * math.sin(1.7 * k + l)), v[1] * (1 + amp * math.cos(2.3 * k + l))]
                            for k in range(K)])
            else:
                row.append([v] * K)
        n.append(row)
    wl0 = U(draw, 300.0, 1500.0)
    k0 = []
    for k in range(K):
        if k and draw(st.integers(0, 5)) == 0:
            k0.append(k0[0] * (1 + pick(draw, (0.0, amp * 0.1))))
        else:
            k0.append(2 * math.pi / (wl0 * (1.0 if k == 0 else U(draw, 0.4, 1.6))))
    kmax = max(k0)
    nmx = max(abs(complex(*v)) for a in n for b in a for v in b)
    nim = max(abs(v[1]) for a in n for b in a for v in b)
    r = []
    for p in range(P):
        if p and draw(st.integers(0, 3)) == 0:  # similar particles
            r.append([v * (1 + (-1) ** p * amp * 0.3) for v in r[0]])
            continue
        x = LOGU(draw, x_lo, x_hi)
        ro = x / (kmax * max(ne))
        if mx_hi is not None:
            ro = min(ro, mx_hi / (kmax * nmx))
        if im_hi is not None and nim > 0:
            ro = min(ro, im_hi / (kmax * nim))
        r.append([f * ro for f in fractions(draw, L)])
    lay = pick(draw, LAYOUTS[(pp, disp)])
    if lay == "LK" and (P, L) == (L, K):
        lay = "1LK"  # documented precedence of (N_part, L)
    if lay == "PL" and P == 1 and L == 1:
        lay = "L"
    b = dict(k0=k0, r=r, n=n, ne=ne, layout=lay, envdisp=envdisp, disp=disp, pp=pp,
             classes=cl, flags=draw(st.integers(0, 63)))
    if host_im:
        hi = min(host_im, 0.2 / (kmax * max(q[-1] for q in r)))
        i0 = LOGU(draw, 1e-3 * hi, hi)
        b["nei"] = [i0 * (1 + 0.5 * math.sin(2.1 * k) * envdisp) / 1.5 for k in range(K)]
    return b


def thin_radii(draw, r, lo=1e-10, hi=1e-2):
    """radii with one or two layers of a relative thickness between lo and hi"""
    r = list(r)
    for _ in range(draw(st.integers(1, 2))):
        i = draw(st.integers(1, len(r) - 1))
        r[i - 1] = r[i] * (1 - LOGU(draw, lo, hi))
        for j in range(i - 2, -1, -1):  # keep them increasing
            if r[j] >= r[j + 1] * (1 - lo):
                r[j] = r[j + 1] * 0.7
    return r


@st.composite
def thin_batch(draw, lo=1e-10, hi=1e-2, **kw):
    b = draw(batch(min_layers=2, **kw))
    b["r"] = [thin_radii(draw, r, lo, hi) for r in b["r"]]
    b["thin"] = min(1 - r[i - 1] / r[i] for r in b["r"] for i in range(1, len(r)))
    return b


def thin_label(b):
    return "thinnest layer <1e%d" % math.ceil(math.log10(b["thin"]))


def pair(b, p, k):
    """one particle, one wavelength of a batch as a single-sphere case"""
    ne = b["ne"][k] if "nei" not in b else complex(b["ne"][k], b["nei"][k])
    return dict(k0=b["k0"][k], r=b["r"][p], n=[b["n"][p][l][k] for l in range(len(b["r"][p]))], ne=ne)


def pairs(b):
    return [(p, k) for p in range(len(b["r"])) for k in range(len(b["k0"]))]


def some_pairs(b, m):
    """m pairs: always the last particle/wavelength, the others spread"""
    q = pairs(b)
    q = [q[-1]] + q[:-1]
    if len(q) <= m:
        return q
    s = b["flags"]
    return [q[0]] + [q[1 + (s + 7 * i) % (len(q) - 1)] for i in range(m - 1)]


def batch_labels(b):
    return ["P=%d" % len(b["r"]), "K=%d" % len(b["k0"]), "L=%d" % len(b["r"][0]), "layout=" + b["layout"]] + \
        ["env-dispersive"] * bool(b["envdisp"]) + ["absorbing host"] * ("nei" in b) + b["classes"] + [size_label(x_outer(pair(b, 0, 0)))]
