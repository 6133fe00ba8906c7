"""Energy conservation, passivity and bookkeeping of the cross sections."""
from pbt import Sub, st, check
from gen import *
from api import *

VAR = (dict(), dict(), dict(), dict(backend="torch"), dict(backend="scipy"), dict(backend="torch", which_jn="ratios"))
LOSSLESS = ("dielectric", "low", "idealmetal", "matched")


@st.composite
def s_b(draw, **kw):
    v = draw(st.integers(0, len(VAR) - 1))
    d = dict(x_lo=1e-2, x_hi=40.0, max_layers=5)
    if v >= 3:
        d = dict(x_lo=0.05, x_hi=20.0, max_layers=2, im_hi=5.0, max_p=2)
    d.update(kw)
    b = draw(batch(**d))
    b["variant"] = v
    b["nm"] = pick(draw, (None, None, 1, 3, 10))
    return b


@st.composite
def s_wgm(draw):
    v = draw(st.integers(0, len(VAR) - 1))
    b = draw(wgm_batch(max_layers=2 if v >= 3 else 3))
    b["n"] = [[[[q[0], 0.0] for q in l] for l in p] for p in b["n"]]
    b.update(variant=v, nm=None, classes=["dielectric"])
    return b


def run(b):
    P, K = len(b["r"]), len(b["k0"])
    kw = dict(VAR[b["variant"]])
    if b["nm"]:
        kw["n_max"] = b["nm"]
    cs = lib(ms.cross_sections, **bkw(b, **kw))
    m = lib(ms.mie_coefficients, **bkw(b, **kw))
    N = int(cs["n_max"])
    check(N == int(m["n_max"]) and (not b["nm"] or N == b["nm"]), "n_max of the cross sections is %d" % N)
    return cs, npy(m["a_n"]), npy(m["b_n"]), N, P, K


def ctol(b):
    return (1e-9 if b["variant"] < 3 else 1e-6) + 1e-13 * b.get("Q", 0)


# --- definitions
def t_def(b, rec):
    cs, a, bb, N, P, K = run(b)
    k = (np.array(b["k0"]) * np.array(b["ne"]))[None, None, None, :]
    n = np.arange(1, N + 1)[None, :, None, None]
    ab = np.stack((a, bb))
    geo = np.pi * np.array(b["r"])[:, -1] ** 2
    pre = 2 * np.pi / k ** 2 * (2 * n + 1)
    want = dict(ext=pre * ab.real, sca=pre * np.abs(ab) ** 2)
    want["abs"] = want["ext"] - want["sca"]
    g = np.broadcast_to(npy(cs["cs_geo"]).reshape(-1, K) if npy(cs["cs_geo"]).size == P * K else npy(cs["cs_geo"]), (P, K))
    close(g, geo[:, None] + np.zeros((P, K)), 0, 1e-12, "geometric cross section")
    rnd = 1e-13 * pre * np.abs(ab)
    for q, w in want.items():
        mp_ = npy(get(cs, "cs_%s_multipoles" % q, (2, N, P, K)))
        close(mp_, w, rnd + 1e-300, 1e-12, "cs_%s_multipoles" % q)
        close(npy(get(cs, "q_%s_multipoles" % q, (2, N, P, K))), w / geo[:, None], (rnd + 1e-300) / geo[:, None], 1e-12, "q_%s_multipoles" % q)
        tot, rt = w.sum((0, 1)), 10 * rnd.sum((0, 1))
        close(npy(get(cs, "cs_" + q, (P, K))), tot, rt, 1e-12, "cs_%s is not the sum of the multipoles" % q)
        close(npy(get(cs, "q_" + q, (P, K))), tot / geo[:, None], rt / geo[:, None], 1e-12, "q_" + q)
        rec.obs(4 * w.size)
    close(npy(cs["cs_ext"]), npy(cs["cs_sca"]) + npy(cs["cs_abs"]), 10 * rnd.sum((0, 1)), 1e-11, "ext = sca + abs")
    close(npy(cs["k0"]).reshape(-1), np.array(b["k0"]), 0, 1e-12, "k0")
    close(npy(cs["wavelength"]).reshape(-1), 2 * np.pi / np.array(b["k0"]), 0, 1e-12, "wavelength")
    check(npy(cs["n"]).reshape(-1).tolist() == list(range(1, N + 1)), "orders are not 1..n_max")
    rec.label("backend=%s" % VAR[b["variant"]].get("backend", "default"), *batch_labels(b))
    rec.nontrivial(P * K > 1)


# --- lossless particles do not absorb, order by order
def t_lossless(b, rec):
    cs, a, bb, N, P, K = run(b)
    x = np.array(b["k0"])[None, :] * np.array(b["ne"])[None, :] * np.array(b["r"])[:, -1:]
    rat = natural(x, N)
    for v, nm in ((a, "a_n"), (bb, "b_n")):
        # Re v = |v|^2 up to the accuracy of v itself
        d = np.abs(v.real - np.abs(v) ** 2)
        lim = ctol(b) if b["variant"] >= 3 else np.minimum(ctol(b), 1e-7 * np.maximum(np.abs(v), rat)) + 1e-200
        check(bool(np.all(d <= lim)), lambda: "%s of a lossless sphere: |Re - abs^2| exceeds its bound by %.3g" % (
            nm, float(np.max(d - lim))))
    k2 = (np.array(b["k0"]) * np.array(b["ne"])) ** 2
    ext, ab = npy(cs["cs_ext"]), npy(cs["cs_abs"])
    close(ab, np.zeros((P, K)), 1e-6 * np.abs(ext) + ctol(b) * 1e2 * N / k2, 0, "absorption of a lossless sphere")
    check(bool(np.all(npy(cs["cs_sca"]) >= 0)), "negative scattering cross section")
    close(ext, npy(cs["cs_sca"]), 1e-300 + ctol(b) * 1e2 * N / k2, 1e-6, "ext = sca for a lossless sphere")
    rec.obs(a.size * 2 + P * K * 3)
    rec.label("backend=%s" % VAR[b["variant"]].get("backend", "default"), *batch_labels(b))
    rec.nontrivial(any(c != "matched" for c in b["classes"]))


# --- small lossless spheres: absorption vanishes relative to scattering
def t_tiny(b, rec):
    b = dict(b, variant=0, nm=None)
    cs, a, bb, N, P, K = run(b)
    ext, sca, ab = npy(cs["cs_ext"]), npy(cs["cs_sca"]), npy(cs["cs_abs"])
    if "matched" in b["classes"] and len(b["classes"]) == 1:
        return
    rat = natural(np.array(b["k0"])[None, :] * np.array(b["ne"])[None, :] * np.array(b["r"])[:, -1:], N)
    # the real part of a_n is only as accurate as |a_n|
    w = (2 * np.arange(1, N + 1) + 1)[:, None, None]
    tol = 1e-7 * 2 * np.pi / (np.array(b["k0"]) * np.array(b["ne"])) ** 2 * np.sum(w * (np.abs(a) + np.abs(bb) + 1e-4 * rat), 0)
    close(ext, sca, tol + 1e-300, 1e-7, "ext = sca for a small lossless sphere")
    close(ab, 0 * ab, tol + 1e-300, 0, "absorption of a small lossless sphere")
    check(bool(np.all(sca >= 0)), "negative scattering cross section")
    rec.obs(3 * P * K)
    rec.nontrivial()


# --- passive particles: no gain in any channel, unitarity bounds, absorption where there is loss
def t_passive(b, rec):
    cs, a, bb, N, P, K = run(b)
    t = ctol(b)
    k2 = (np.array(b["k0"]) * np.array(b["ne"])) ** 2
    nn = np.arange(1, N + 1)[None, :, None, None]
    unit = 2 * np.pi / k2 * (2 * nn + 1)
    e, s, q = [npy(cs["cs_%s_multipoles" % x]) / unit for x in ("ext", "sca", "abs")]
    check(bool(np.all(q >= -t)), lambda: "negative multipole absorption %.3g" % q.min())
    check(bool(np.all(s >= 0)), "negative multipole scattering")
    check(bool(np.all(e <= 1 + t) and np.all(s <= 1 + t)), "multipole exceeds the unitarity limit: %.6f" % max(e.max(), s.max()))
    check(bool(np.all(q <= 0.25 + t)), "multipole absorption exceeds its single-channel limit: %.6f" % q.max())
    check(bool(np.all(e >= -t)), "negative multipole extinction")
    A, E = npy(cs["cs_abs"]), npy(cs["cs_ext"])
    check(bool(np.all(A >= -1e-9 * np.abs(E) - t * 10 * N / k2)), "negative absorption cross section")
    # a particle with a clearly absorbing outermost layer absorbs
    rec.obs(5 * q.size)
    rec.label("backend=%s" % VAR[b["variant"]].get("backend", "default"), *batch_labels(b))
    rec.nontrivial(any(c in ("absorbing", "metal") for c in b["classes"]))


# --- values against the reference
@st.composite
def s_ref(draw):
    return draw(s_b(max_p=2, max_k=3, x_hi=25.0))


def t_ref(b, rec):
    cs, a, bb, N, P, K = run(b)
    for p, k in some_pairs(b, 2):
        c = pair(b, p, k)
        R = sphere_ref(c, N)
        want = R.cross_sections()
        ra, rb = R.ab()
        k2 = (c["k0"] * c["ne"]) ** 2
        # accuracy of the coefficients: relative to the coefficient for tiny spheres
        amp = float(np.sum((2 * np.arange(1, N + 1) + 1) * (np.abs(ra) + np.abs(rb) + 1e-4 * natural(x_outer(c), N))))
        tol = (min(1e-8, 1e-6 * amp) if b["variant"] < 3 else 1e-5) * 10 / k2
        for q, w in zip(("cs_ext", "cs_sca", "cs_abs"), want):
            close(npy(cs[q])[p, k], w, tol if q != "cs_sca" or b["variant"] >= 3 else tol * min(1.0, amp) + 1e-300, 1e-7, "%s of particle %d, wavelength %d" % (q, p, k))
            rec.obs()
    rec.label("backend=%s" % VAR[b["variant"]].get("backend", "default"), *batch_labels(b))
    rec.nontrivial(any(c != "matched" for c in b["classes"]))


SUBS = [
    Sub("definitions", s_b(), t_def, 500),
    Sub("gain", s_b(classes=("gain", "weak", "gain", "absorbing")), t_def, 200),
    Sub("transparent", s_b(classes=("weak",)), t_def, 200),
    Sub("lossless", s_b(classes=LOSSLESS), t_lossless, 700),
    Sub("tiny_lossless", batch(x_lo=1e-3, x_hi=0.5, classes=("dielectric", "idealmetal", "low"), max_k=2), t_tiny, 400),
    Sub("passive", s_b(classes=("absorbing", "metal", "weak", "dielectric", "idealmetal")), t_passive, 700),
    Sub("resonances", s_wgm(), t_lossless, 120),
    Sub("reference", s_ref(), t_ref, 240),
]
RULE = ("batches of layered spheres through every backend; non-trivial: distinct case with more than one "
        "particle/wavelength (definitions), a material different from the host (lossless, reference), a lossy "
        "material (passive)")
ASSUMPTIONS = ["absorption is decided up to rounding: 1e-9 of the single-channel limit (1e-6 for the closed-form backends)"]
