"""Reduced precision: the `precision` option and single-precision inputs."""
import copy

from pbt import Sub, st, check
from gen import *
from api import *

BACK = (dict(), dict(), dict(), dict(backend="torch"), dict(backend="torch", which_jn="ratios"), dict(backend="scipy"))
OUT = dict(mie_coefficients=("a_n", "b_n"), cross_sections=("q_ext", "q_sca", "q_abs"), angular_scattering=("S1", "S2", "i_unpol"),
           nearfields=("E_s", "H_s", "E_t", "H_t", "E_i", "H_i"))
CL = ("dielectric", "absorbing", "metal", "weak", "idealmetal", "low")


@st.composite
def s_b(draw):
    v = draw(st.integers(0, len(BACK) - 1))
    d = dict(x_lo=2e-3, x_hi=20.0, max_layers=4, max_p=2, max_k=3, mx_hi=40.0, classes=CL)
    if v >= 3:
        d.update(x_lo=0.3, x_hi=8.0, max_layers=2, im_hi=1.0, mx_hi=20.0)
    b = draw(batch(**d))
    b.update(variant=v, func=pick(draw, sorted(OUT)), low=draw(st.integers(0, 3)), word=pick(draw, ("single", "Single", "SINGLE")),
             theta=[U(draw, 0.02, 6.2) for _ in range(draw(st.integers(1, 3)))])
    R = b["r"][-1]
    b["pts"] = []
    for _ in range(draw(st.integers(1, 3))):
        s, mu, ph = R[-1] * LOGU(draw, 0.4, 4.0), U(draw, -0.98, 0.98), U(draw, -3.1, 3.1)
        for r in b["r"]:  # away from interfaces: rounded radii must not change the region
            for q in r:
                if abs(s / q - 1) < 1e-4:
                    s = q * 1.001
        q = math.sqrt(1 - mu * mu)
        b["pts"].append([s * q * math.cos(ph), s * q * math.sin(ph), s * mu])
    return b


def inputs(b, dx=0.0):
    """exactly representable in single precision"""
    kw = bkw(dict(b, flags=0))
    f32 = lambda t: t.to(torch.complex64 if t.is_complex() else torch.float32).to(t.dtype)
    kw = {k: f32(v) for k, v in kw.items()}
    if dx:
        kw["k0"], kw["eps_layers"] = kw["k0"] * (1 + dx), kw["eps_layers"] * (1 - 0.7 * dx)
    if b["func"] == "angular_scattering":
        kw["theta"] = f32(t64(b["theta"]))
    if b["func"] == "nearfields":
        kw["r_probe"] = f32(t64(b["pts"]))
    kw.update(BACK[b["variant"]])
    return kw


def amount(b, q, v):
    """magnitude an entry is compared with: the maximum over angles, positions or orders"""
    if q in ("a_n", "b_n"):
        return np.maximum(np.abs(v).max(0, keepdims=True), 1e-2 * min(1, min(x_outer(pair(b, p, k)) for p, k in pairs(b))) ** 3)
    if v.ndim > 2:
        ax = tuple(range(2, v.ndim))
        return np.abs(v).max(ax, keepdims=True) + (1e-9 if q[0] in "EH" else 0)
    return np.abs(v) + 1e-12


def t_prec(b, rec):
    f = getattr(ms, b["func"])
    kw = inputs(b)
    N = int(lib(ms.mie_coefficients, **{k: v for k, v in kw.items() if k not in ("theta", "r_probe")})["n_max"])
    if b["variant"] >= 3:
        N = min(N, 5 + int(1.5 * min(x_outer(pair(b, p, k)) for p, k in pairs(b))))
        # y_N of the smallest argument stays within the range of single precision
        z = min(b["k0"]) * min(r[0] for r in b["r"]) * min(abs(complex(*v)) for a in b["n"] for l in a for v in l)
        while N > 1 and math.lgamma(2 * N + 1) - math.lgamma(N + 1) - N * math.log(2) - (N + 1) * math.log(z) > 32 * math.log(10):
            N -= 1
    kw["n_max"] = N
    B = lib(f, **kw)
    S = [lib(f, **dict(inputs(b, dx), n_max=N)) for dx in (3e-7, -3e-7)]
    low = {k: v.to(torch.complex64 if v.is_complex() else torch.float32) if isinstance(v, torch.Tensor) else v for k, v in kw.items()}
    A = {"precision=%s" % b["word"]: lib(f, **kw, precision=b["word"]), "single-precision inputs": lib(f, **low),
         "single-precision inputs and precision": lib(f, **low, precision="single")}
    if b["low"] == 1:  # one input only
        key = ("k0", "r_layers", "eps_layers", "eps_env")[b["flags"] % 4]
        A["single-precision %s" % key] = lib(f, **dict(kw, **{key: low[key]}))
    for what, a in A.items():
        check(set(a) == set(B), lambda: "%s: entries differ: %s" % (what, sorted(set(a) ^ set(B))))
        for q in OUT[b["func"]]:
            v = npy(B[q]).astype(np.complex128)
            s = sum(np.abs(npy(w[q]) - v) for w in S)
            sc = amount(b, q, v)
            if q == "q_abs":
                sc = np.abs(npy(B["q_ext"])) + 1e-12
            t = 5e-4 if b["variant"] < 3 else 1e-2
            small = 3e-6 if q[0] == "q" else (1e-6 if q not in ("a_n", "b_n") else 1e-7)
            if q in ("q_ext", "q_abs"):  # relative error of the amplitudes, not of their squares
                xo = np.array(b["k0"])[None] * np.array(b["ne"])[None] * np.array(b["r"])[:, -1:]
                small = small + 1e-5 * np.sqrt(6 * np.abs(npy(B["q_ext"]))) / xo
            if q[0] in "EH":
                sc, t = sc + 1.0 * (q[-1] != "s"), t * 10
            ax = tuple(range(2, v.ndim)) if q not in ("a_n", "b_n") else (0,)
            s = 100 * (s.max(ax, keepdims=True) if ax else s)
            rec.obs(close(npy(a[q]), v, s + t * sc + small, 0, "%s with %s" % (q, what)))
    rec.label(b["func"], BACK[b["variant"]].get("backend", "default"), *batch_labels(b))
    rec.nontrivial()


# ------------------------------------------------------------------ special functions
@st.composite
def s_f(draw):
    lo = pick(draw, (0.3, 1e-3, 1e-12, 1e-18))
    Z = []
    for _ in range(draw(st.integers(1, 4))):
        x = LOGU(draw, lo, pick(draw, (1.0, 20.0)))
        Z.append([x, pick(draw, (0.0, U(draw, 0, 2.0) * min(x, 1.0)))])
    return dict(z=Z, n=draw(st.integers(1, 10)), real=draw(st.booleans()))


def t_fun(b, rec):
    z = np.array([complex(*v) for v in b["z"]]).astype(np.complex64)
    if b["real"] and not z.imag.any():
        z = z.real
    nmax, S = b["n"], pmd.special
    z1 = torch.as_tensor(z)
    z2 = z1.to(C128 if z1.is_complex() else F64)
    az = np.abs(z).astype(float)
    N = np.arange(nmax + 1)[:, None]
    cl = torch.complex64
    for name in ("pena_D1_n", "D1n_torch", "sph_jn_torch", "sph_jn_torch_via_rec"):
        lo = dict(pena_D1_n=0.0, D1n_torch=3e-10, sph_jn_torch=0.0, sph_jn_torch_via_rec=1e-9)[name]
        ok = az > lo
        if not ok.any():
            continue
        f = getattr(S, name)
        want = npy(lib(f, nmax, z2[torch.as_tensor(ok)]))
        for what, q in (("the option", z2), ("option and argument", z1)):
            got = lib(f, nmax, q[torch.as_tensor(ok)], precision="single")
            check(got.dtype == cl, "%s(precision='single') gives %s" % (name, got.dtype))
            got, a = npy(got).astype(complex), az[ok]
            if "D1" in name:
                lim = 2e-5 * (np.abs(want) + 1 + N / a) + 2e-6 * (1 + a) * np.abs(want) ** 2
                got, w, lim = got[1:], want[1:], lim[1:]  # order 0 has poles, not used
            else:
                w, lim = want, 1e-4 * (np.abs(want) + np.abs(want).max(0) * np.minimum(1.0, a / (N + 1.0)) ** N) + 1e-36
            rec.obs(close(got, w, lim, 0, "%s with single precision of %s" % (name, what)))
    d1, d1s = S.pena_D1_n(nmax, z2), S.pena_D1_n(nmax, z1, precision="single")
    d3, d3s = lib(S.pena_D3_n, nmax, z2), lib(S.pena_D3_n, nmax, z1, precision="single")
    want = dict(D3=d3, psi_over_zeta=lib(S.pena_psi_over_zeta_n, nmax, z2, d1, d3))
    got = dict(D3=d3s, psi_over_zeta=lib(S.pena_psi_over_zeta_n, nmax, z1, d1s, d3s, precision="single"))
    for q, f in (("z", z2), ("zs", z1)):
        (want if q == "z" else got).update(zip(("psi", "zeta"), lib(S.pena_psi_zeta_n, nmax, f, *((d1, d3) if q == "z" else (d1s, d3s)), precision="double" if q == "z" else "single")))
    for k in want:
        check(got[k].dtype == cl, "pena %s(precision='single') gives %s" % (k, got[k].dtype))
        w, g = npy(want[k])[1:], npy(got[k]).astype(complex)[1:]
        ok = (np.abs(w) < 1e15) & (np.abs(w) > 1e-30)
        lim = 1e-3 * np.abs(w) + (1e-4 * np.minimum(1.0, az / (N[1:] + 1.0)) ** (N[1:] + 1) if "psi" in k else 0)
        rec.obs(close(g[ok], w[ok], lim[ok], 0, "pena %s in single precision" % k))
    rec.label("n<=3" if nmax <= 3 else "n>3", "tiny" if az.min() < 1e-6 else "moderate")
    rec.nontrivial()


SUBS = [Sub("precision", s_b(), t_prec, 480), Sub("functions", s_f(), t_fun, 400)]
RULE = "special functions with precision='single' at arguments down to 1e-18 and batches of layered spheres evaluated with precision='single' and / or single-precision inputs, all observables and backends; every distinct case"
ASSUMPTIONS = ["allowed error: 100 times the effect of a relative 3e-7 change of the inputs, plus 5e-4 (closed form 1e-2, fields ten times more)"]
