"""Materials: dispersion data and models, independent of the history of calls."""
import contextlib
import io
import re
import os
import tempfile
import warnings

os.environ["MPLBACKEND"] = "Agg"
import pbt
from pbt import Sub, st, check, must_raise
from gen import *
from api import *
import yaml as _yaml

mats = pmd.materials
DATA = os.path.join(os.path.dirname(mats.__file__), "data")
NAMES = sorted(f.split("_")[0] for f in os.listdir(DATA) if f.endswith(".yml"))
assert len(NAMES) >= 10


def f32(w):
    return np.asarray(w, dtype=np.float32).astype(np.float64)


class Model:
    """reference: dispersion of the first entry of a refractiveindex.info file"""

    def __init__(self, dat):
        self.kind = dat["type"].split()[0]
        if self.kind == "tabulated":
            rows = [[float(v) for v in l.split()] for l in dat["data"].split("\n") if l.split()]
            rows.sort()
            self.w = np.array([1000 * q[0] for q in rows])
            self.e = np.array([(q[1] + 1j * (q[2] if len(q) > 2 else 0.0)) ** 2 for q in rows])
            self.range = (self.w[0], self.w[-1])
        else:
            self.c = [float(v) for v in dat["coefficients"].split()]
            q = (dat.get("range") or dat.get("wavelength_range")).split()
            self.range = (1e3 * float(q[0]), 1e3 * float(q[1]))

    def __call__(self, w):
        """eps, tolerance, d eps / d w, tolerance of it (one wavelength)"""
        w = float(w)
        if self.kind == "tabulated":
            e = np.interp(w, self.w, self.e.real) + 1j * np.interp(w, self.w, self.e.imag)
            i = np.searchsorted(self.w, w)
            s = [0.0] if w < self.w[0] or w > self.w[-1] else []
            lo, hi = max(0, i - 2), min(len(self.w), i + 3)
            sl = np.abs(np.diff(self.e[lo:hi]) / np.diff(self.w[lo:hi]))
            m = np.abs(self.e[max(0, i - 1):i + 1]).max()
            tol = 2e-6 * m + 3e-7 * w * (sl.max() if len(sl) else 0)
            near = min(abs(self.w - w)) < 1e-5 * w
            j = min(max(i, 1), len(self.w) - 1)
            d = (self.e[j] - self.e[j - 1]) / (self.w[j] - self.w[j - 1])
            h = self.w[j] - self.w[j - 1]
            if s:
                d, h = 0.0, min(abs(w - self.w[0]), abs(w - self.w[-1])) + 1e-30
            return e, tol, (None if near else d), 1e-5 * m / h + 1e-6 * w / h * abs(d)
        W = w / 1000.0
        e, tol, d = 1.0 + self.c[0], 1e-6, 0.0
        cond = 1.0
        for a, b in zip(self.c[1::2], self.c[2::2]):
            den = W * W - b * b
            t = a * W * W / den
            e += t
            tol += 1e-6 * abs(t) * (1 + W * W / abs(den))
            d += a * (2 * W / den - W * W * 2 * W / den ** 2) / 1000
            cond += abs(a) * (2 * W / abs(den) + 2 * W ** 3 / den ** 2) / 1000 * (1 + 2 * W * W / abs(den))
        return complex(e), tol, d, 2e-6 * cond


_MODELS = {}


def model_of(name):
    if name not in _MODELS:
        fn = [f for f in os.listdir(DATA) if f.split("_")[0] == name][0]
        with open(os.path.join(DATA, fn), encoding="utf8") as f:
            _MODELS[name] = Model(_yaml.load(f, Loader=_yaml.BaseLoader)["DATA"][0])
    return _MODELS[name]


def yml_path(name):
    return os.path.join(DATA, [f for f in os.listdir(DATA) if f.split("_")[0] == name][0])


# ------------------------------------------------------------------ generators
def wavelength(draw, rng, knots=None):
    lo, hi = rng
    k = draw(st.integers(0, 9))
    if k == 0:
        return pick(draw, (lo, hi))
    if k == 1:
        return lo * U(draw, 0.75, 1.0) if knots is not None else lo * U(draw, 1.0, 1.1)
    if k == 2:
        return hi * U(draw, 1.0, 1.2)
    if k <= 5 and knots is not None:
        i = draw(st.integers(0, len(knots) - 1))
        if k == 3 or i + 1 == len(knots):
            return float(knots[i])
        return float(knots[i] + (knots[i + 1] - knots[i]) * U(draw, 0, 1))
    return lo + (hi - lo) * U(draw, 0, 1)


OPS = ("scalar", "vector", "vector", "np", "one", "grad", "vgrad", "nograd", "int", "list", "repr", "device", "plot", "column", "many", "many")


@st.composite
def s_hist(draw, custom=False):
    objs = []
    for _ in range(draw(st.integers(1, 2))):
        if custom:
            objs.append(draw(s_yaml()))
        else:
            objs.append(dict(name=pick(draw, NAMES)))
        objs[-1].update(how=draw(st.integers(0, 3)))
    init = [U(draw, 400, 900) for _ in range(draw(st.integers(1, 3)))] if draw(st.booleans()) else []
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        i = draw(st.integers(0, len(objs) - 1))
        m = Model(objs[i]["entry"]) if custom else model_of(objs[i]["name"])
        kn = m.w if m.kind == "tabulated" else None
        w = [wavelength(draw, m.range, kn) for _ in range(draw(st.integers(1, 4)))]
        if len(w) > 2 and draw(st.booleans()):
            w[2] = w[0]
        if ops and draw(st.booleans()):  # the same wavelength again
            w[0] = ops[-1]["w"][0] if ops[-1]["obj"] == i else w[0]
        if init and draw(st.integers(0, 2)) == 0:  # at or next to an entry of the initial table
            v = pick(draw, init)
            v = pick(draw, (v, float(math.floor(v)), float(math.ceil(v)), round(v, 1), round(v, -1), v + 0.01))
            if m.range[0] <= v <= m.range[1]:
                w[0] = v
        ops.append(dict(obj=i, op=pick(draw, OPS), w=w))
        if ops[-1]["op"] == "many":
            ops[-1].update(m=pick(draw, (16, 40, 100, 200, 400)) + draw(st.integers(0, 3)), order=draw(st.integers(0, 3)), grad=draw(st.booleans()))
    return dict(objs=objs, ops=ops, init=init, initform=draw(st.integers(0, 3)))


@st.composite
def s_yaml(draw):
    tab = draw(st.integers(0, 2)) > 0
    if tab:
        n = draw(st.integers(2, 12))
        w, rows = U(draw, 0.2, 0.6), []
        nk = draw(st.booleans())
        for _ in range(n):
            rows.append([w, U(draw, 0.05, 5.0)] + ([LOGU(draw, 1e-3, 6.0) * draw(st.integers(0, 1))] if nk else []))
            w += U(draw, 0.005, 0.2)
        if draw(st.integers(0, 3)) == 0:
            rows = rows[::-1]
        sep = pick(draw, (" ", "  ", "\t"))
        entry = dict(type="tabulated nk" if nk else "tabulated n",
                     data="\n".join(sep.join("%.6f" % v for v in q) for q in rows) + pick(draw, ("", "\n", "\n\n")))
    else:
        c = [pick(draw, (0.0, 0.5, 1.2))]
        for _ in range(draw(st.integers(1, 8))):
            c += [U(draw, 0.1, 4.0), pick(draw, (U(draw, 0.02, 0.2), U(draw, 10.0, 30.0)))]
        entry = dict(type="formula 1", coefficients=" ".join("%.7g" % v for v in c))
        entry[pick(draw, ("wavelength_range", "range"))] = "0.35 4.5"
    return dict(entry=entry, title=pick(draw, ("", "my material", "Si")), multi=draw(st.integers(0, 3)) == 0)


# ------------------------------------------------------------------ tests
def make(o, d, i, init, form=0):
    name = o.get("name")
    kw = {}
    if init:
        kw["init_lookup_wavelengths"] = (t64(init).to(torch.float32), list(init), t64(init), np.array(init))[form]
    if name:
        h = o["how"]
        if h == 0:
            m = lib(mats.MatDatabase, name, **kw)
        elif h == 1:
            m = lib(mats.MatDatabase, name.upper(), **kw)
        elif h == 2:
            m = lib(mats.MatDatabase, name=name.lower(), device="cpu", **kw)
        else:
            m = lib(mats.MatDatabase, yaml_file=yml_path(name), **kw)
        check(m.__name__ == (name if h < 3 else os.path.basename(yml_path(name))[:-4]), "name of the material: %s" % m.__name__)
        return m, model_of(name)
    p = os.path.join(d, "mat_%d.yml" % i)
    data = [dict(o["entry"])]
    if o["multi"]:
        data.append(dict(type="tabulated nk", data="0.1 9 9\n9.9 9 9\n"))
    with open(p, "w") as f:
        _yaml.safe_dump(dict(REFERENCES="x", DATA=data), f)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        m = lib(mats.MatDatabase, **(dict(name=o["title"]) if o["title"] else {}), yaml_file=p, **kw)
    check(bool(ws) == o["multi"] or not o["multi"], "spurious warning")
    if o["multi"]:
        check(any("entries" in str(w.message) for w in ws), "no warning about several entries")
    check(m.__name__ == (o["title"] or "mat_%d" % i), "name of the material: %s" % m.__name__)
    return m, Model(o["entry"])


def cmp_eps(got, ref, w, what):
    e, tol, d, dt = ref(f32(w))
    close(np.asarray(complex(got)), np.asarray(e), tol, 0, "%s at %.6g nm" % (what, w))


def t_hist(b, rec):
    d = tempfile.mkdtemp(prefix="verif_mat_")
    try:
        _hist(b, rec, d)
    finally:
        import shutil
        shutil.rmtree(d, True)


def _hist(b, rec, d):
    objs = [make(o, d, i, b["init"] if i == 0 else [], b.get("initform", 0)) for i, o in enumerate(b["objs"])]
    listed = lib(mats.list_available_materials)
    for op in b["ops"]:
        m, ref = objs[op["obj"]]
        w, o = op["w"], op["op"]
        what = "%s, %s" % (m.__name__, o)
        if o in ("repr", "list", "device"):
            if o == "repr":
                s = lib(repr, m)
                q = [float(v) for v in re.findall(r"\d+(?:\.\d+)?", s.replace(m.__name__, " "))]
                check(m.__name__ in s and all(any(abs(v - e) < 0.06 + 1e-6 * e for v in q) for e in ref.range), "description: " + s)
            elif o == "list":
                with contextlib.redirect_stdout(io.StringIO()) as f:
                    l = lib(mats.list_available_materials, verbose=True)
                check(sorted(l) == sorted(listed) == sorted(n.lower() for n in NAMES), "list of materials changed")
                check(all(n.lower() in f.getvalue() for n in NAMES), "listing is incomplete")
            else:
                lib(m.set_device, "cpu")
            o = "scalar"
        if o == "many":  # a long spectrum: shuffled, ascending, descending, repeating itself
            lo, hi = ref.range if ref.kind == "tabulated" else (max(ref.range[0], 200.0), min(ref.range[1], 5000.0))
            lo, hi = (lo * 0.97, hi * 1.03) if ref.kind == "tabulated" else (lo, hi)
            u = (np.arange(op["m"]) * GOLD + 0.3) % 1.0
            u = (u, np.sort(u), np.sort(u)[::-1], u[np.arange(op["m"]) % 13])[op["order"]]
            w, o = [float(v) for v in lo * (hi / lo) ** u] + w, "vgrad" if op["grad"] else "vector"
        if o == "plot":
            import matplotlib.pyplot as plt
            plt.figure()
            ww = t64(sorted(w) + [max(w) + 1.0])
            nidx = len(w) % 2
            lib(m.plot_refractive_index if nidx else m.plot_epsilon, ww)
            L = plt.gca().get_lines()
            check(len(L) == 2, "plot shows two curves")
            want = np.array([ref(f32(q))[0] for q in npy(ww)])
            tol = max(ref(f32(q))[1] for q in npy(ww))
            if nidx:
                tol = tol / np.abs(np.sqrt(want)).min() + 1e-6
                want = np.sqrt(want)
            if not (nidx and np.abs(want).min() < 0.05):
                close(np.asarray(L[0].get_ydata()), want.real, 2 * tol, 1e-6, what + ": real part")
                close(np.asarray(L[1].get_ydata()), want.imag, 2 * tol, 1e-6, what + ": imaginary part")
            close(np.asarray(L[0].get_xdata()), npy(ww), 0, 1e-6, what + ": wavelengths")
            plt.close("all")
            continue
        if o in ("scalar", "int", "one", "nograd", "grad"):
            v = float(w[0])
            if o == "int":
                v = int(round(v))
            x = v
            if o == "one":
                x = t64([v])
            elif o == "nograd":
                x = torch.tensor(v, dtype=torch.float64, requires_grad=True)
            elif o == "grad":
                x = torch.tensor(v, dtype=(torch.float64, torch.float32)[len(w) % 2], requires_grad=True)
            with (torch.no_grad() if o == "nograd" else contextlib.nullcontext()):
                e = lib(m.get_epsilon, x)
            check(isinstance(e, torch.Tensor) and e.is_complex() and e.numel() == 1, what + ": a complex scalar tensor expected")
            cmp_eps(npy(e).reshape(-1)[0], ref, float(v), what)
            rec.obs(1)
            if o == "grad":
                grads(e, x, [v], ref, what)
            continue
        x = t64(w)
        if o == "np":
            x = np.array(w)
        elif o == "column":
            x = x.reshape(-1, 1)
        elif o == "vgrad":
            x = x.requires_grad_()
        e = lib(m.get_epsilon, x) if o != "list" else None
        check(npy(e).size == len(w), what + ": one value per wavelength expected")
        if len(w) > 1:
            check(tuple(e.shape) == (len(w),), what + ": shape %s" % (tuple(e.shape),))
        for g, v in zip(npy(e).reshape(-1), w):
            cmp_eps(g, ref, v, what)
        rec.obs(len(w))
        if o == "vgrad":
            grads(e, x, w, ref, what)
    rec.label(*sorted({q["op"] for q in b["ops"]}))
    rec.label(*[r.kind for _, r in objs])
    rec.nontrivial(len(b["ops"]) > 1)


def grads(e, x, w, ref, what):
    if not e.requires_grad:
        pbt.fail(what + ": not differentiable with respect to the wavelength")
    for part, f in (("Re", lambda z: z.real), ("Im", lambda z: z.imag)):
        (g,) = torch.autograd.grad(f(e).sum(), x, retain_graph=True, allow_unused=True)
        g = np.zeros(len(w)) if g is None else npy(g).reshape(-1)
        for gi, v in zip(g, w):
            _, _, d, dt = ref(f32(v))
            if d is None:
                check(np.isfinite(gi), what + ": derivative is not finite at %.6g nm" % v)
                continue
            d = complex(d).real if part == "Re" else complex(d).imag
            close(np.asarray(gi), np.asarray(d), 3 * dt, 1e-4, "%s: derivative of %s at %.6g nm" % (what, part, v))


# ------------------------------------------------------------------ use in a particle
@st.composite
def s_use(draw):
    L = draw(st.integers(1, 3))
    K = draw(st.integers(1, 4)) if draw(st.integers(0, 7)) else draw(st.integers(30, 200))
    env = pick(draw, (1.0, 1.33, "SiO2", "Al2O3o"))
    m = [pick(draw, NAMES + [2.0, 1.45]) for _ in range(L)]
    if all(not isinstance(v, str) for v in m):
        m[0] = pick(draw, NAMES)
    if all(v == env for v in m):
        m[-1] = "Si"
    return dict(mats=m, env=env, wl=[U(draw, 420.0, 1100.0) for _ in range(K)] if K < 5 else [420 + 680 * ((0.3 + GOLD * i) % 1) for i in range(K)],
                r=[U(draw, 20, 250) * f for f in [1.0]] if L == 1 else [round(v * U(draw, 60, 250), 3) for v in fractions(draw, L)],
                kind=draw(st.integers(0, 3)), warm=[U(draw, 420, 1100) for _ in range(draw(st.integers(0, 2)))],
                share=draw(st.booleans()), legacy=draw(st.booleans()), grad=draw(st.booleans()))


def t_use(b, rec):
    r = np.sort(np.array(b["r"]))
    for i in range(1, len(r)):
        r[i] = max(r[i], r[i - 1] + 1.0)
    L, K = len(r), len(b["wl"])
    wl = list(b["wl"])
    refs = []
    for v in b["mats"] + [b["env"]]:
        if isinstance(v, str):
            m = model_of(v)
            refs.append(m)
            if m.kind == "tabulated":  # keep away from the kinks of the interpolation
                for i in range(K):
                    j = int(np.clip(np.searchsorted(m.w, wl[i]), 1, len(m.w) - 1))
                    if b["grad"] and m.w[0] < wl[i] < m.w[-1] and min(wl[i] - m.w[j - 1], m.w[j] - wl[i]) < 0.25 * (m.w[j] - m.w[j - 1]):
                        wl[i] = 0.6 * m.w[j - 1] + 0.4 * m.w[j]
        else:
            refs.append(float(v) ** 2)
    grad = b["grad"]
    k0 = 2 * math.pi / t64(wl)
    cache = {}

    def obj(v):
        if not isinstance(v, str):
            return v
        if b["share"]:
            if v not in cache:
                cache[v] = mats.MatDatabase(v)
            return cache[v]
        return mats.MatDatabase(v)

    ml = [obj(v) for v in b["mats"]]
    if b["legacy"] and L <= 2:
        p = lib(pmd.Particle, r_core=float(r[0]), mat_core=ml[0], mat_env=obj(b["env"]),
                **(dict(r_shell=float(r[1]), mat_shell=ml[1]) if L == 2 else {}))
    else:
        p = lib(pmd.Particle, r_layers=t64(r), mat_layers=ml, mat_env=obj(b["env"]))
    for w in b["warm"] + b["wl"][:1]:
        lib(p.get_cross_sections, torch.tensor(2 * math.pi / w, dtype=torch.float64))
    ev = np.zeros((L + 1, K), complex)
    de = np.zeros((L + 1, K), complex)
    et = np.zeros((L + 1, K))
    kink = False
    for l, m in enumerate(refs):
        for k, w in enumerate(wl):
            if isinstance(m, float):
                ev[l, k], et[l, k] = m, 1e-6 * m
            else:
                e, tol, d, dt = m(w)
                ev[l, k], et[l, k] = e, tol + 3e-7 * w * abs(d or 0)
                if d is None or dt > 1e-3 * (abs(d) + abs(e) / w):
                    kink = True
                de[l, k] = 0 if d is None else d
    kk = k0.clone().requires_grad_(grad)
    el, ee = lib(p.get_material_permittivities, kk)
    check(tuple(el.shape) in ((L, K),) + (((L,),) if K == 1 else ()), "layer permittivities: shape %s" % (tuple(el.shape),))
    got_l = np.broadcast_to(npy(el).reshape(L, -1), (L, K))
    rec.obs(close(got_l, ev[:L], et[:L], 0, "layer permittivities"))
    rec.obs(close(np.broadcast_to(npy(ee).reshape(-1), (K,)), ev[L], et[L], 0, "host permittivity"))
    # the particle uses exactly these permittivities
    # (first order model around the values of the library, carrying the reference derivative)
    k2 = k0.clone().requires_grad_(grad)
    dwl = 2 * math.pi / k2 - 2 * math.pi / k0
    el2 = torch.as_tensor(got_l.astype(complex)) + torch.as_tensor(de[:L]) * dwl
    ee2 = torch.as_tensor(npy(ee).reshape(-1).astype(complex)).expand(K) + torch.as_tensor(de[L]) * dwl
    kind = b["kind"]
    th = t64([0.3, 1.4, 2.9])
    pts = t64([[0.1, 0.2, 0.3], [0.9, -1.1, 0.8], [-1.6, 0.4, 2.0]]) * float(r[-1])
    # same precision on both sides (weak contrasts amplify the rounding of the materials)
    kw = dict(k0=k2, r_layers=t64(r), eps_layers=el2.to(el.dtype), eps_env=ee2.to(ee.dtype))
    if b["legacy"] and L <= 2:
        kw["r_layers"] = t64(r.astype(np.float32).astype(float))
    if kind == 0:
        A, B, keys = lib(p.get_mie_coefficients, kk), lib(ms.mie_coefficients, **kw), ("a_n", "b_n")
    elif kind == 1:
        A, B, keys = lib(p.get_cross_sections, kk), lib(ms.cross_sections, **kw), ("q_ext", "q_sca", "q_abs")
        close(npy(A["wavelength"]).reshape(-1), np.array(wl), 0, 1e-6, "wavelength")
    elif kind == 2:
        A, B, keys = lib(p.get_angular_scattering, kk, th), lib(ms.angular_scattering, theta=th, **kw), ("S1", "S2", "i_unpol")
    else:
        A, B, keys = lib(p.get_nearfields, kk, pts), lib(ms.nearfields, r_probe=pts, **kw), ("E_s", "H_s", "E_t")
    for q in keys:
        u, v = A[q].squeeze(), B[q].squeeze()
        s = float(v.abs().max()) if q != "q_abs" else float(B["q_ext"].abs().max())
        rec.obs(close(u, npy(v), 2e-5 * s + 1e-9, 0, "Particle: " + q))
        if grad and not kink:
            wt = torch.as_tensor(np.cos(1.0 + 2.4 * np.arange(v.numel())).reshape(v.shape))
            f = (lambda z: (z.real * wt + (z.imag * wt.flip(0) if z.is_complex() else 0)).sum()) if v.ndim else (lambda z: z.real + (z.imag if z.is_complex() else 0))
            (ga,) = torch.autograd.grad(f(u), kk, retain_graph=True)
            (gb,) = torch.autograd.grad(f(v), k2, retain_graph=True)
            ga, gb = npy(ga), npy(gb)
            sc = np.abs(gb) + s / npy(k0)
            rec.obs(close(ga / sc, gb / sc, 2e-3, 0, "derivative of %s with respect to k0 (dispersive materials)" % q))
            rec.label("gradient")
    rec.label(*[v for v in b["mats"] + [b["env"]] if isinstance(v, str)])
    rec.nontrivial()


# ------------------------------------------------------------------ constants, errors
@st.composite
def s_const(draw):
    v = index(draw)[0]
    return dict(n=v, form=draw(st.integers(0, 4)), wl=[U(draw, 200, 2000) for _ in range(draw(st.integers(1, 5)))],
                bad=draw(st.integers(0, 3)), name="".join(chr(97 + draw(st.integers(0, 25))) for _ in range(5)))


def t_const(b, rec):
    eps = complex(*b["n"]) ** 2
    arg = [eps, torch.tensor(eps), np.complex128(eps), torch.tensor(eps, dtype=torch.complex64), eps][b["form"]]
    if b["n"][1] == 0 and b["form"] == 4:
        arg = eps.real
    m = lib(mats.MatConstant, arg)
    for w in (b["wl"][0], t64(b["wl"]), np.array(b["wl"]), t64(b["wl"]).reshape(1, -1), t64(b["wl"][:1])):
        e = npy(lib(m.get_epsilon, w))
        k = int(np.asarray(w).size)
        check(e.size == k and (k == 1 or e.shape == (k,)), "MatConstant: shape %s for %d wavelengths" % (e.shape, k))
        rec.obs(close(e.reshape(-1), np.full(k, eps), 1e-6 * abs(eps), 0, "MatConstant"))
    lib(m.set_device, "cpu")
    close(npy(lib(m.get_epsilon, 500.0)), np.asarray(eps), 1e-6 * abs(eps), 0, "MatConstant after set_device")
    # invalid requests
    k = b["bad"]
    if k == 0 and b["name"] not in [n.lower() for n in NAMES]:
        try:
            mats.MatDatabase(b["name"])
            pbt.fail("unknown material accepted")
        except ValueError:
            pass
    elif k == 1:
        try:
            mats.MaterialBase().get_epsilon(500.0)
            pbt.fail("the base class has no permittivity")
        except NotImplementedError:
            pass
    elif k >= 2:
        d = tempfile.mkdtemp(prefix="verif_mat_")
        try:
            f = os.path.join(d, "m.yml")
            with open(f, "w") as fh:
                _yaml.safe_dump(dict(DATA=[dict(type="formula %d" % (2 + len(b["wl"])) if k == 2 else "model x",
                                                wavelength_range="0.2 1.0", coefficients="0 1 0.1")]), fh)
            try:
                mats.MatDatabase(yaml_file=f).get_epsilon(500.0)
                pbt.fail("unsupported dispersion model accepted")
            except ValueError:
                pass
        finally:
            import shutil
            shutil.rmtree(d, True)
    rec.nontrivial()


SUBS = [
    Sub("database", s_hist(), t_hist, 640),
    Sub("custom", s_hist(custom=True), t_hist, 640),
    Sub("use", s_use(), t_use, 400),
    Sub("constant", s_const(), t_const, 200),
]
RULE = ("histories of up to 7 queries (scalars, vectors, repeated wavelengths, with and without gradients, plots, device moves) on "
        "database and generated material files, against an independent reading of the files; particles made of them; non-trivial: "
        "distinct history with more than one operation")
ASSUMPTIONS = ["materials work in single precision (tolerance from the local slope)", "host materials are lossless"]
