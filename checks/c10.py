"""Truncation: orders are independent of n_max, and the automatic n_max is converged."""
from pbt import Sub, st, check
from gen import *
from api import *

VAR = (dict(), dict(), dict(), dict(backend="torch"), dict(backend="scipy"), dict(backend="torch", which_jn="ratios"))


@st.composite
def s_b(draw, **kw):
    v = draw(st.integers(0, len(VAR) - 1))
    d = dict(x_lo=1e-2, x_hi=50.0, max_layers=5, max_p=2, max_k=3, mx_hi=100.0)
    if v >= 3:
        d.update(x_lo=0.3, x_hi=12.0, max_layers=2, im_hi=4.0, mx_hi=30.0)
    d.update(kw)
    if v >= 3:
        d.update(max_layers=2, im_hi=4.0, x_lo=max(0.3, d["x_lo"]))
    b = draw(batch(**d))
    b["variant"] = v
    b["N1"], b["dN"] = draw(st.integers(1, 40)), draw(st.integers(1, 25))
    b["nform"] = draw(st.integers(0, 2))
    b["theta"] = [U(draw, 0, math.pi), pick(draw, (0.0, math.pi, 1.0))]
    return b


def xs(b):
    return np.array([[x_outer(pair(b, p, k)) for k in range(len(b["k0"]))] for p in range(len(b["r"]))])


def form(n, f):
    """n_max as int, numpy integer or tensor"""
    return n if f == 0 else (np.int64(n) if f == 1 else torch.tensor(n))


def t_prefix(b, rec):
    P, K = len(b["r"]), len(b["k0"])
    if b["variant"] >= 3:
        b = dict(b, N1=min(b["N1"], 5 + int(xs(b).max())), dN=min(b["dN"], 6))
    N1, N2 = b["N1"], b["N1"] + b["dN"]
    A = lib(ms.mie_coefficients, n_max=form(N1, b["nform"] % 2), **bkw(b, **VAR[b["variant"]]))
    B = lib(ms.mie_coefficients, n_max=form(N2, b["nform"] % 2), **bkw(b, **VAR[b["variant"]]))
    x = xs(b)
    for q in ("a_n", "b_n"):
        u, v = npy(get(A, q, (N1, P, K))), npy(get(B, q, (N2, P, K)))[:N1]
        t = 1e-14 * np.minimum(1, x) ** 3 + 1e-300 if b["variant"] < 3 else 1e-10
        rec.obs(close(u, v, t + 1e-12 * (np.abs(v) > 1e-6), 1e-7 if b["variant"] < 3 else 1e-6, "%s with n_max=%d vs n_max=%d" % (q, N1, N2)))
    check(int(A["n_max"]) == N1 and int(B["n_max"]) == N2, "reported n_max")
    check(npy(A["n"]).reshape(-1).tolist() == list(range(1, N1 + 1)), "reported orders")
    # sums over the common orders
    c1 = lib(ms.cross_sections, n_max=N1, **bkw(b, **VAR[b["variant"]]))
    c2 = lib(ms.cross_sections, n_max=N2, **bkw(b, **VAR[b["variant"]]))
    for q in ("ext", "sca", "abs"):
        m1, m2 = npy(get(c1, "q_%s_multipoles" % q, (2, N1, P, K))), npy(get(c2, "q_%s_multipoles" % q, (2, N2, P, K)))[:, :N1]
        t = (1e-10 if b["variant"] < 3 else 1e-6) * np.minimum(1, x)
        rec.obs(close(m1, m2, t, 1e-6, "q_%s_multipoles with n_max=%d vs n_max=%d" % (q, N1, N2)))
        close(npy(c1["q_" + q]), m2.sum((0, 1)), 10 * t, 1e-6, "q_%s with n_max=%d is the partial sum" % (q, N1))
    rec.label(VAR[b["variant"]].get("backend", "default"), *batch_labels(b))
    rec.nontrivial(any(c != "matched" for c in b["classes"]))


def t_conv(b, rec):
    """automatic truncation: adding orders changes nothing"""
    P, K = len(b["r"]), len(b["k0"])
    V = VAR[b["variant"]]
    kw = bkw(b, **V)
    m = lib(ms.mie_coefficients, **kw)
    N = int(m["n_max"])
    check(N >= xs(b).max(), lambda: "automatic n_max = %d for size parameter %.3g" % (N, xs(b).max()))
    M = N + b["dN"] if b["variant"] < 3 else N + 2
    x = xs(b)
    rt = 1e-9 if b["variant"] < 3 else 1e-6
    A, B = lib(ms.cross_sections, **kw), lib(ms.cross_sections, n_max=M, **kw)
    check(int(A["n_max"]) == N, "n_max of cross sections differs from the one of the coefficients")
    for q in ("q_ext", "q_sca", "q_abs"):
        rec.obs(close(A[q], npy(B[q]), rt * np.minimum(1, x), rt, "%s with automatic n_max=%d vs n_max=%d" % (q, N, M)))
    C, D = [lib(ms.angular_scattering, theta=t64(b["theta"]), **kw, **e) for e in (dict(), dict(n_max=M))]
    for q in ("S1", "S2", "i_unpol"):
        y = npy(D[q])
        s = np.abs(y).max(-1, keepdims=True)
        rec.obs(close(C[q], y, 10 * rt * s + (1e-15 * np.minimum(1, x)[:, :, None] ** 3 if b["variant"] < 3 else 1e-10), 0, "%s with automatic n_max=%d vs n_max=%d" % (q, N, M)))
    R = b["r"][-1]
    pts = [[0.3 * R[-1], 0.4 * R[0], 0.2 * R[0]], [0.0, 0.9 * R[-1], 0.5 * R[-1]], [R[-1], R[-1], -R[-1]]]
    if b["variant"] < 3:
        E, F = [lib(ms.nearfields, r_probe=t64(pts), **kw, **e) for e in (dict(), dict(n_max=M))]
        for q in ("E_t", "H_t", "E_s", "H_s"):
            y = npy(F[q])
            rec.obs(close(E[q], y, 1e-7 * (1 + np.abs(y).max((2, 3), keepdims=True)), 0, "%s with automatic n_max=%d vs n_max=%d" % (q, N, M)))
    rec.label(V.get("backend", "default"), *batch_labels(b))
    rec.nontrivial(any(c != "matched" for c in b["classes"]))


SUBS = [
    Sub("prefix", s_b(), t_prefix, 360),
    Sub("converged", s_b(), t_conv, 240),
]
RULE = ("batches through every backend with two explicit n_max (1..65), or automatic n_max vs more orders; non-trivial: distinct "
        "case with a material different from the host")
ASSUMPTIONS = ["closed-form backends: a few more orders than the size parameter (they lose digits for n >> x)"]
