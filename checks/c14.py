"""Spherical Bessel / Hankel and Riccati-Bessel functions and their automatic derivatives."""
import cmath

import mpmath as mp
import ref
from pbt import Sub, st, check
from gen import *
from api import *

sp = pmd.special


def table(nmax, z):
    """j, y and their first and second derivatives, orders 0..nmax (complex128 arrays)"""
    with mp.mp.workdps(ref.guard_digits(nmax + 1, [z])):
        Z = mp.mpc(z)
        psi, dpsi, chi, dchi = ref.riccati(nmax, Z)
        o = {}
        o["j"] = [p / Z for p in psi]
        o["y"] = [-c / Z for c in chi]
        o["j'"] = [d / Z - p / Z ** 2 for p, d in zip(psi, dpsi)]
        o["y'"] = [-d / Z + p / Z ** 2 for p, d in zip(chi, dchi)]
        for f in "jy":
            o[f + "''"] = [(n * (n + 1) / Z ** 2 - 1) * o[f][n] - 2 / Z * o[f + "'"][n] for n in range(nmax + 1)]
        o["psi"], o["psi'"], o["chi"], o["chi'"] = psi, dpsi, chi, dchi
        for f in ("psi", "chi"):
            o[f + "''"] = [(n * (n + 1) / Z ** 2 - 1) * o[f][n] for n in range(nmax + 1)]
        for d in ("", "'", "''"):
            o["h" + d] = [a + 1j * b for a, b in zip(o["j" + d], o["y" + d])]
            o["xi" + d] = [a - 1j * b for a, b in zip(o["psi" + d], o["chi" + d])]
        return {k: np.array([complex(v) for v in q]) for k, q in o.items()}


# name -> (function, value(s), kind)
JN = {
    "sph_jn": ("j",), "sph_jn_torch": ("j",), "sph_jn_torch_via_rec": ("j",), "sph_jn_der": ("j'",),
    "sph_yn": ("y",), "sph_yn_torch": ("y",), "sph_yn_der": ("y'",),
    "sph_h1n": ("h",), "sph_h1n_torch": ("h",), "sph_h1n_der": ("h'",),
    "psi": ("psi", "psi'"), "chi": ("chi", "chi'"), "xi": ("xi", "xi'"),
    "psi_torch": ("psi", "psi'"), "chi_torch": ("chi", "chi'"), "xi_torch": ("xi", "xi'"),
}
NAMES = sorted(JN)


def scale(T, key, nz, nmax):
    """size of the function around z (does not vanish at its zeros)"""
    base = key.rstrip("'")
    parts = {"h": ("j", "y"), "xi": ("psi", "chi")}.get(base, (base,))
    w = np.minimum(1.0, nz / (np.arange(nmax + 1) + 1.0))
    return sum(np.abs(T[p + key[len(base):]]) + np.abs(T[p + key[len(base):] + "'"]) * w for p in parts
               if p + key[len(base):] + "'" in T)


@st.composite
def s_z(draw, grad=False):
    name = pick(draw, NAMES)
    cplx = draw(st.booleans())
    nmax = draw(st.integers(1, 30)) if draw(st.booleans()) else draw(st.integers(1, 6))
    if name in ("sph_jn", "sph_yn", "sph_h1n", "sph_jn_torch", "sph_jn_torch_via_rec", "sph_yn_torch", "sph_h1n_torch", "sph_jn_der") \
            and draw(st.integers(0, 9)) == 0 and not (grad and name.endswith("rec")):
        nmax = 0
    Z = []
    z0 = LOGU(draw, 1e-2, 60.0)
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 7))
        x = LOGU(draw, 1e-3, 90.0)
        if k == 0:
            x = math.pi * max(1, round(z0 / math.pi))
        elif k == 1:
            x = nmax + U(draw, 0.01, 1.5)
        elif k == 2:
            x = float(max(1, round(z0)))
        elif k == 3:
            x = LOGU(draw, 2e-9 if not grad else 1e-6, 1e-3)
        y = 0.0
        if cplx:
            y = pick(draw, (0.0, U(draw, 0, 0.1), U(draw, 0, 4.0), U(draw, 0, 4.0)))
            y = min(y, 3 * x)
            if y > 0 and draw(st.integers(0, 9)) == 0:
                x, y = 0.0, min(x, 4.0)
        # values of the functions have to be representable
        a = math.hypot(x, y)
        while nmax > a and (math.lgamma(2 * nmax + 3) - math.lgamma(nmax + 2) - nmax * math.log(2) - (nmax + 2) * math.log(a)) / math.log(10) > 120:
            nmax -= 1
        Z.append([x, y])
    return dict(name=name, nmax=max(nmax, 0 if nmax == 0 else 1), z=Z, cplx=cplx, shape=draw(st.integers(0, 3)),
                n_form=draw(st.integers(0, 2)), zero=draw(st.integers(0, 5)) == 0,
                opt=draw(st.integers(0, 5)))


def arg(b):
    z = np.array([complex(*v) for v in b["z"]])
    if not b["cplx"]:
        z = z.real
    return z


def shaped(z, k):
    if k == 1 and z.size == 1:
        return z.reshape(())
    if k == 2:
        return z.reshape(1, -1)
    if k == 3:
        return z.reshape(-1, 1)
    return z


def norder(b):
    n = b["nmax"]
    return (n, torch.tensor(n), torch.tensor([n]))[b["n_form"]]


def tol_of(name, z):
    # scipy: complex arguments through Bessel functions of half integer order
    t = 2e-11 if "torch" in name else 2e-10
    return t * (1 + np.abs(z) / 10)


def kwargs_of(b, z):
    kw = {}
    if b["name"] in ("sph_jn_torch", "sph_jn_torch_via_rec") and b["opt"] == 0:
        kw["n_add"] = int(np.abs(z).max()) + 30
        if b["name"].endswith("rec"):
            kw["n_add"] = int(np.abs(z).max() + 4.05 * np.abs(z).max() ** (1 / 3)) + 14
    if "torch" in b["name"] and b["opt"] == 1:
        kw["precision"] = pick_precision = "Double"
    if b["opt"] == 2:
        kw["some_ignored_option"] = 1
    return kw


def t_values(b, rec):
    z = arg(b)
    name, nmax = b["name"], b["nmax"]
    keys = JN[name]
    has_zero = b["zero"] and keys[0] == "j" and name != "sph_jn_torch_via_rec"
    zz = z
    if has_zero:
        tiny = (0.0, 3e-9, 2e-9)[b["opt"] % 3] if name == "sph_jn_torch" else 0.0
        zz = np.concatenate((z[:1], [tiny], z[1:]))
    x = shaped(zz, b["shape"])
    t = torch.as_tensor(x)
    keep = t.clone()
    out = lib(getattr(sp, name), norder(b), t, **kwargs_of(b, z))
    check(torch.equal(t, keep), name + " modified its argument")
    out = out if isinstance(out, tuple) else (out,)
    check(len(out) == len(keys), "%s returns %d tensors, expected %d" % (name, len(out), len(keys)))
    shp = (nmax + 1,) + np.atleast_1d(x).shape
    T = {v: table(nmax, v) for v in set(z.tolist())}
    for o, key in zip(out, keys):
        check(tuple(o.shape) == shp, "%s: shape %s, expected %s" % (name, tuple(o.shape), shp))
        if not b["cplx"] and key[0] in "jy" and "torch" not in name:
            check(not o.is_complex(), name + ": real argument, real values expected")
        f = npy(o).reshape(nmax + 1, -1)
        if has_zero:
            w = zz[1].real
            want = np.array([float(w) ** n / float(mp.fac2(2 * n + 1)) for n in range(nmax + 1)])
            rec.obs(close(f[:, 1], want + 0 * f[:, 1], 1e-200, 1e-12, name + " at z=%g" % w))
            f = np.delete(f, 1, axis=1)
        for i, v in enumerate(z.tolist()):
            s = scale(T[v], key, abs(v), nmax)
            lim = tol_of(name, v) * s
            if key in ("chi'", "xi'"):  # -y_n - z y_n' cancels for small z
                lim = lim + 2e-15 * (np.arange(nmax + 1) + 2) * np.abs(T[v][key[:-1]]) / abs(v)
            d = np.abs(f[:, i] - T[v][key])
            n = int(np.argmax(np.where(np.isnan(d), np.inf, d / (lim + 1e-300))))
            check(d[n] <= lim[n] + 1e-250, lambda: "%s (%s): order %d at z=%s: got %s, expected %s (error %.2g, allowed %.2g)" % (
                name, key, n, v, f[n, i], T[v][key][n], d[n], lim[n]))
            rec.obs(nmax + 1)
    rec.label(name, "complex" if b["cplx"] else "real", "zero" if has_zero else "nonzero")
    rec.nontrivial()


def t_grad(b, rec):
    z = arg(b)
    name, nmax = b["name"], b["nmax"]
    keys = JN[name]
    t = torch.as_tensor(shaped(z, b["shape"])).clone().requires_grad_()
    out = lib(getattr(sp, name), norder(b), t, **kwargs_of(b, z))
    out = out if isinstance(out, tuple) else (out,)
    T = {v: table(nmax, v) for v in set(z.tolist())}
    for o, key in zip(out, keys):
        if not o.requires_grad:
            check(False, name + ": not differentiable")
        for n in sorted({0, nmax, min(nmax, b["opt"]), nmax // 2}):
            for ph in ((1.0, 1j) if o.is_complex() else (1.0,)):
                y = o[n].reshape(-1)
                w = torch.as_tensor(np.full(len(z), ph))
                (g,) = torch.autograd.grad((y * w.conj() if o.is_complex() else y).real.sum() if o.is_complex() else y.sum(), t, retain_graph=True)
                g = npy(g).reshape(-1)
                for i, v in enumerate(z.tolist()):
                    d = T[v][key + "'"][n]
                    # gradient convention of torch: d Re(conj(ph) f) -> conj(conj(ph) f')
                    want = np.conj(np.conj(ph) * d)
                    if not b["cplx"]:
                        want = want.real
                    s = scale_d(T[v], key, abs(v), n)
                    lim = 50 * tol_of(name, v) * s + 1e-250
                    err = abs(g[i] - want)
                    check(err <= lim, lambda: "derivative of %s (%s), order %d at z=%s: got %s, expected %s (error %.2g, allowed %.2g)" % (
                        name, key, n, v, g[i], want, err, lim))
                    rec.obs(1)
    rec.label(name, "complex" if b["cplx"] else "real")
    rec.nontrivial()


def scale_d(T, key, nz, n):
    base = key.rstrip("'")
    parts = {"h": ("j", "y"), "xi": ("psi", "chi")}.get(base, (base,))
    k = key[len(base):]
    r = (n + 1.0) / nz
    return sum(np.abs(T[p + k][n]) * max(1.0, r) + np.abs(T[p + k + "'"][n]) for p in parts) * max(1.0, 1.0 / nz if k else 1.0)


def t_fder(b, rec):
    """f_der: derivative of any solution of the spherical Bessel equation"""
    z = arg(b)
    nmax = max(1, b["nmax"])
    T = {v: table(nmax, v) for v in set(z.tolist())}
    c1, c2 = 0.3 + b["opt"], (-1.0) ** b["opt"] * 0.5
    for key in ("j", "y", "h", "mix"):
        def val(v, d):
            return T[v][key + d] if key != "mix" else c1 * T[v]["j" + d] + c2 * T[v]["y" + d]
        f = np.stack([val(v, "") for v in z.tolist()], axis=1)
        if not b["cplx"] and key != "h":
            f = f.real
        o = npy(lib(sp.f_der, nmax, torch.as_tensor(z), torch.as_tensor(f)))
        check(o.shape == f.shape, "f_der: shape")
        for i, v in enumerate(z.tolist()):
            parts = ("j", "y") if key in ("mix", "h") else (key,)
            s = sum(np.abs(T[v][p]) * np.maximum(1, (np.arange(nmax + 1) + 1) / abs(v)) + np.abs(T[v][p + "'"]) for p in parts) * (1 + abs(c1))
            d = np.abs(o[:, i] - val(v, "'"))
            check(np.all(d <= 1e-12 * s + 1e-250), lambda: "f_der (%s) at z=%s: %s expected %s" % (key, v, o[:, i], val(v, "'")))
            rec.obs(nmax + 1)
    rec.nontrivial()


SUBS = [
    Sub("values", s_z(), t_values, 4000),
    Sub("gradients", s_z(grad=True), t_grad, 2000),
    Sub("f_der", s_z(), t_fder, 320),
]
RULE = ("all 16 public Bessel / Hankel / Riccati-Bessel functions, orders 0..30, real and complex arguments 1e-3..90 (Im<=4, zeros of "
        "sin, turning points, exact zero), values and autograd derivatives against mpmath; every distinct case counts")
ASSUMPTIONS = ["mpmath evaluates Bessel functions correctly"]
