"""Automatic derivatives equal finite differences for every input, output and backend."""
from pbt import Sub, st, check
from gen import *
from api import *

VAR = (dict(), dict(), dict(), dict(backend="torch"), dict(backend="scipy"), dict(backend="torch", which_jn="ratios"))
OUT = {
    "coef": ("a_n", "b_n"),
    "internal": ("a_n", "b_n", "c_n", "d_n", "f_n", "g_n", "v_n", "w_n"),
    "cs": ("q_ext", "q_sca", "q_abs", "cs_ext", "cs_sca", "cs_abs", "cs_geo", "q_ext_multipoles", "q_sca_multipoles",
           "q_abs_multipoles", "cs_ext_multipoles", "cs_sca_multipoles", "cs_abs_multipoles"),
    "ang": ("S1", "S2", "i_per", "i_par", "i_unpol", "pol_degree"),
    "nf": ("E_i", "H_i", "E_s", "H_s", "E_t", "H_t"),
}


KINDS = ("coef", "cs", "ang", "nf")


@st.composite
def s_b(draw, kind, vmax=len(VAR) - 1, **kw):
    v = draw(st.integers(0, vmax))
    kind = pick(draw, KINDS) if kind == "any" else kind
    if kind == "internal":
        v = 3 + v % 3
    d = dict(x_lo=0.1, x_hi=12.0, max_layers=4, max_p=2, max_k=3, mx_hi=40.0,
             classes=("dielectric", "absorbing", "metal", "idealmetal", "weak"))
    if v >= 3:
        d.update(x_lo=0.3, x_hi=8.0, max_layers=2, im_hi=4.0, max_k=2, mx_hi=20.0)
    d.update(kw)
    if v >= 3:
        d["max_layers"] = 2
    b = draw(batch(**d))
    b["flags"] &= 0b101111  # requires_grad is set below
    b["kind"], b["variant"] = kind, v
    b["outs"] = sorted(set(draw(st.lists(st.integers(0, len(OUT[kind]) - 1), min_size=1, max_size=3))))
    g = ["k0", "r", "eps", "env"] + dict(ang=["theta"], nf=["probe"]).get(kind, [])
    b["groups"] = sorted(set(draw(st.lists(st.sampled_from(g), min_size=1, max_size=2))))
    b["salt"] = draw(st.integers(0, 1000))
    b["single"] = draw(st.integers(0, 1))
    if kind == "cs" and max(b["outs"]) > 6:
        b["single"] = 0  # tiny differences of multipoles: see the exact derivatives
    if kind == "ang":
        b["theta"] = [U(draw, 0.01, 3.13) for _ in range(draw(st.integers(1, 4)))]
        if draw(st.integers(0, 3)) == 0:
            b["theta"].append(pick(draw, (0.0, math.pi, math.pi / 2)))
    if kind == "nf":
        pts = []
        rr = b["r"][0]
        for _ in range(draw(st.integers(2, 4))):
            reg = draw(st.integers(0, len(rr)))
            lo, hi = (rr[reg - 1] if reg else 0.3 * rr[0]), (rr[reg] if reg < len(rr) else 3 * rr[-1])
            s = lo + (hi - lo) * U(draw, 0.1, 0.9)
            mu, ph = U(draw, -0.98, 0.98), U(draw, -3.1, 3.1)
            if draw(st.integers(0, 4)) == 0:
                mu, ph = pick(draw, ((1.0, 0.0), (-1.0, 0.0), (0.0, 0.0), (0.0, math.pi / 2)))
            q = math.sqrt(1 - mu * mu)
            pts.append([s * q * math.cos(ph), s * q * math.sin(ph), s * mu])
        b["pts"] = pts
    return b


def rnd(shape, salt):
    """deterministic weights in [-1, 1]"""
    n = int(np.prod(shape)) if shape else 1
    return np.cos(0.7 + 2.399963 * (np.arange(n) + 1) * (1 + 0.137 * salt) + salt).reshape(shape)


def inputs(b):
    kw = {k: v.detach().clone() for k, v in bkw(b).items()}
    if b["kind"] == "ang":
        kw["theta"] = t64(b["theta"])
    if b["kind"] == "nf":
        kw["r_probe"] = t64(b["pts"])
    return kw


NAME = dict(k0="k0", r="r_layers", eps="eps_layers", env="eps_env", theta="theta", probe="r_probe")


def direction(b, kw):
    d = {}
    for g in b["groups"]:
        t = kw[NAME[g]]
        s = b["salt"] + 7 * len(g)
        if g == "eps":
            w = rnd(tuple(t.shape), s) + 1j * rnd(tuple(t.shape), s + 3)
            e = npy(t)
            # the square root has its branch cut on the negative axis
            w = np.where((e.real < 0) & (np.abs(e.imag) < 0.05 * np.abs(e)), w.real, w)
            d[g] = torch.as_tensor(w * (np.abs(e) if True else 1))
        elif g == "theta":
            d[g] = torch.as_tensor(rnd(tuple(t.shape), s))
        elif g == "probe":
            r = np.linalg.norm(npy(t), axis=-1, keepdims=True)
            d[g] = torch.as_tensor(rnd(tuple(t.shape), s) * r * 0.5)
        else:
            d[g] = t * torch.as_tensor(rnd(tuple(t.shape), s))
    return d


def run(b, kw, N):
    k = dict(VAR[b["variant"]], n_max=N)
    f = dict(coef=ms.mie_coefficients, internal=ms.mie_coefficients, cs=ms.cross_sections,
             ang=ms.angular_scattering, nf=ms.nearfields)[b["kind"]]
    if b["kind"] == "internal":
        k["return_internal"] = True
    return lib(f, **kw, **k)


def phi(b, res, mask=None):
    """real functional of the chosen outputs, and its natural size"""
    tot, size = 0.0, 0.0
    for i in b["outs"]:
        q = OUT[b["kind"]][i]
        v = get(res, q)
        if v is None:
            continue
        w = rnd(tuple(v.shape), b["salt"] + i)
        if mask is not None:
            w = w * mask
        if b["single"]:  # one entry, on its own scale, fixed at the base point
            if q not in b["_keep"]:
                e = npy(v.detach().abs()) * (np.abs(w) > 0)
                e = np.argsort(e.reshape(-1))[::-1]
                b["_keep"][q] = e[(b["salt"] * 7 + i) % max(1, (2 * len(e)) // 3)]
            w = (np.arange(w.size) == b["_keep"][q]).reshape(w.shape) * w
        w = torch.as_tensor(w)
        # scale-free: normalised by the detached magnitude at the base point
        z = b["_norm"].setdefault(q, max(1e-200, float((w.abs() * get(res, q.replace("abs", "ext")).detach().abs()).sum())))
        c = (w * v.real).sum() + ((0.6 * w * v.imag).sum() if v.is_complex() else 0.0)
        tot = tot + c / z
        size += 1.0
    return tot, size


def t_grad(b, rec):
    b = dict(b, _norm={}, _keep={})
    kw = inputs(b)
    N = int(lib(ms.mie_coefficients, **bkw(b, **VAR[b["variant"]]))["n_max"])
    if b["kind"] == "internal":
        N = min(N, 4 + int(3 * x_outer(pair(b, 0, 0))))
    mask = None
    if b["kind"] == "nf":
        r = np.linalg.norm(np.array(b["pts"]), axis=-1)
        ok = np.array([[all(abs(q / s - 1) > 0.04 for s in R) for q in r] for R in b["r"]], dtype=float)
        mask = ok[:, None, :, None]
    d = direction(b, kw)
    # plain values, then the same with gradient tracking
    base = run(b, kw, N)
    leafs = {g: kw[NAME[g]].detach().clone().requires_grad_() for g in b["groups"]}
    res = run(b, {**kw, **{NAME[g]: t for g, t in leafs.items()}}, N)
    for i in b["outs"]:
        q = OUT[b["kind"]][i]
        if base[q] is not None:
            close(res[q], npy(base[q]), 1e-300, 1e-13, "%s with gradient tracking" % q)
    F, size = phi(b, res, mask)
    if not torch.is_tensor(F):
        return
    keys = list(leafs)
    if F.requires_grad:
        try:
            G = torch.autograd.grad(F, [leafs[g] for g in keys], allow_unused=True)
        except Exception as e:
            raise Violation("backward pass failed: %s" % str(e)[:300])
    else:
        G = [None] * len(keys)
    ad = 0.0
    for g, gr in zip(keys, G):
        if gr is not None:
            check(bool(torch.isfinite(torch.view_as_real(gr) if gr.is_complex() else gr).all()), "gradient with respect to %s is not finite" % g)
            ad += float((gr.conj() * d[g]).real.sum()) if gr.is_complex() else float((gr * d[g]).sum())

    def val(t):
        p = dict(kw)
        for g in keys:
            p[NAME[g]] = kw[NAME[g]] + t * d[g]
        return float(phi(b, run(b, p, N), mask)[0])

    mx = max(b["k0"]) * max(r[-1] for r in b["r"]) * max(abs(complex(*v)) for a in b["n"] for c in a for v in c)
    h = 2e-3 / (1 + 0.3 * max(mx, x_outer(pair(b, 0, 0))))
    h *= min(1.0, 3 * min(abs(r[l] - (r[l - 1] if l else 0)) / r[l] for r in b["r"] for l in range(len(r))) + 0.02)

    def fd(h):
        return (8 * (val(h) - val(-h)) - (val(2 * h) - val(-2 * h))) / (12 * h)

    D1, D2 = fd(h), fd(h / 2)
    err = abs(D1 - D2)
    tol = (2e-6 if b["variant"] < 3 else 1e-4) * (size * (1 + mx) + abs(D2)) + 3 * err
    if err > 1e-2 * (size + abs(D2)):
        rec.label("differences not converged")
        return
    check(abs(ad - D2) <= tol, lambda: "derivative of %s with respect to %s: autograd %.10g, differences %.10g (allowed %.2g)" % (
        [OUT[b["kind"]][i] for i in b["outs"]], keys, ad, D2, tol))
    rec.obs()
    rec.label(VAR[b["variant"]].get("backend", "default"), *batch_labels(b), *["d/d" + g for g in keys], "one entry" if b["single"] else "all entries")
    rec.nontrivial(abs(D2) > 100 * tol)


# --- Particle interface
@st.composite
def s_part(draw):
    b = draw(s_b("cs", max_p=1, max_k=2))
    b["layout"], b["envdisp"], b["disp"] = "L", False, 0
    b["n"] = [[[v[0]] * len(b["k0"]) for v in a] for a in b["n"]]
    b["ne"] = [b["ne"][0]] * len(b["k0"])
    b["groups"] = sorted(set(draw(st.lists(st.sampled_from(["k0", "r", "eps"]), min_size=1, max_size=2))))
    return b


def t_part(b, rec):
    """gradients through Particle equal those of the functional interface"""
    N = int(lib(ms.mie_coefficients, **bkw(b, **VAR[b["variant"]]))["n_max"])

    def go(r, eps, k0):
        mats = [pmd.materials.MatConstant(eps=eps[i]) for i in range(len(b["r"][0]))]
        p = pmd.Particle(r_layers=r, mat_layers=mats, mat_env=pmd.materials.MatConstant(eps=torch.tensor(b["ne"][0] ** 2)))
        return p.get_cross_sections(k0=k0, n_max=N, **VAR[b["variant"]])

    eps = eps_of([c[0] for c in b["n"][0]])
    L = {g: t.clone().requires_grad_() for g, t in (("r", t64(b["r"][0])), ("eps", eps), ("k0", t64(b["k0"])))}
    M = {g: t.detach().clone().requires_grad_() for g, t in L.items()}
    A = lib(go, L["r"], L["eps"], L["k0"])
    B = lib(ms.cross_sections, k0=M["k0"], r_layers=M["r"], eps_layers=M["eps"].to(torch.complex64), eps_env=torch.tensor(b["ne"][0] ** 2 + 0j, dtype=torch.complex64), n_max=N, **VAR[b["variant"]])
    for i in b["outs"]:
        q = OUT["cs"][i]
        va, vb = A[q], B[q]
        geo = math.pi * b["r"][0][-1] ** 2 if q.startswith("cs_") else 1.0
        # materials are stored in single precision (same values on both sides)
        close(npy(va).reshape(-1), npy(vb).reshape(-1), 1e-9 * geo, 1e-6, "Particle: " + q)
        w = torch.as_tensor(rnd(tuple(vb.shape), b["salt"]))
        ga = torch.autograd.grad((va.reshape(-1) * w.reshape(-1)).sum(), [L[g] for g in ("r", "eps", "k0")], allow_unused=True, retain_graph=True)
        gb = torch.autograd.grad((vb * w).sum(), [M[g] for g in ("r", "eps", "k0")], allow_unused=True, retain_graph=True)
        for g, x, y in zip(("r", "eps", "k0"), ga, gb):
            y = torch.zeros_like(M[g]) if y is None else y
            x = torch.zeros_like(y) if x is None else x
            sc = float(y.abs().max())
            par = dict(r=b["r"][0][0], eps=float(M["eps"].abs().min()), k0=b["k0"][0])[g]
            close(x, npy(y), 1e-5 * sc + 1e-7 * geo / par, 1e-4, "Particle: gradient of %s with respect to %s" % (q, g))
            rec.obs(y.numel())
    rec.label(VAR[b["variant"]].get("backend", "default"), *batch_labels(b))
    rec.nontrivial()


# --- derivatives of single coefficients, each on its own scale, against the arbitrary-precision reference
@st.composite
def s_exact(draw, kind="generic"):
    v = draw(st.integers(0, len(VAR) - 1))
    ml = 4 if v < 3 else 2
    if kind == "wgm":
        c = draw(wgm(q_max=1e6))
        c["r"], c["n"] = c["r"][-ml:], c["n"][-ml:]
    else:
        c = draw(sphere(x_lo=1e-3, x_hi=40.0, max_layers=ml, mx_hi=120.0, classes=("dielectric", "absorbing", "weak", "metal", "idealmetal", "gain")))
        if v >= 3 and im_mx(c) > 3:
            s = 3 / im_mx(c)
            c["r"] = [q * s for q in c["r"]]
        c["order"] = draw(st.integers(1, 2 + int(1.3 * x_outer(c))))
        c["pol"] = pick(draw, "ab")
    c["variant"], c["more"], c["part"] = v, draw(st.integers(0, 3)), pick(draw, ("real", "imag"))
    c["other"] = [LOGU(draw, 0.02, 4.0), U(draw, 0.6, 1.5)]
    return c


def t_exact(c, rec):
    """d(Re or Im of a_n or b_n) / d(every radius, permittivity, k0, host) of one particle in a small batch"""
    import mpmath as mp
    import ref
    n, L = c["order"], len(c["r"])
    q = c["pol"] + "_n"
    # optionally accompanied by a particle of another size and another wavelength
    r, k0 = [c["r"]], [c["k0"]]
    if c["more"] & 1:
        r = [[v * c["other"][0] for v in c["r"]], c["r"]]
    if c["more"] & 2:
        k0 = [c["k0"], c["k0"] * c["other"][1]]
    leaf = dict(r_layers=t64(r), eps_layers=eps_of(c["n"]), k0=t64(k0), eps_env=t64(c["ne"] ** 2))
    leaf = {k: v.requires_grad_() for k, v in leaf.items()}
    nm = n + (0, 1, 3, 8)[c["more"]]
    m = lib(ms.mie_coefficients, n_max=nm, **leaf, **VAR[c["variant"]])
    v = m[q][n - 1, len(r) - 1, 0]
    G = torch.autograd.grad(v.real if c["part"] == "real" else v.imag, list(leaf.values()), allow_unused=True)
    G = {k: None if g is None else npy(g) for k, g in zip(leaf, G)}
    part = (lambda z: z.real) if c["part"] == "real" else (lambda z: z.imag)
    eps = [complex(z) for z in npy(leaf["eps_layers"])]
    env = float(leaf["eps_env"])
    zs = [c["k0"] * s * w ** 0.5 for s in c["r"] for w in eps]
    dps = ref.guard_digits(nm, zs + [c["k0"] * s * env ** 0.5 for s in c["r"]]) + 45
    x = c["k0"] * c["r"][-1] * env ** 0.5
    mx = max([abs(z) for z in zs] + [x])
    nat = float(natural(x, n)[-1])
    with mp.mp.workdps(dps):
        def val(dr={}, de={}, dk=0, dv=0):
            S = ref.Sphere(mp.mpf(c["k0"]) * (1 + dk), [mp.mpf(s) * (1 + dr.get(i, 0)) for i, s in enumerate(c["r"])],
                           [mp.sqrt(mp.mpc(w) * (1 + de.get(i, 0))) for i, w in enumerate(eps)], mp.sqrt(mp.mpf(env) * (1 + dv)), n, extra=45, exact=True)
            return (S.a if c["pol"] == "a" else S.b)[n - 1]
        h = mp.mpf(10) ** -16
        z0 = val()
        want, curv = {}, mp.mpf(0)
        for key, f in [(("k0", 0), lambda t: dict(dk=t)), (("eps_env", 0), lambda t: dict(dv=t))] + \
                [(("r_layers", i), lambda t, i=i: dict(dr={i: t})) for i in range(L)] + \
                [(("eps_layers", i, u), lambda t, i=i, u=u: dict(de={i: t * u})) for i in range(L) for u in (1, 1j)]:
            p, o = val(**f(h)), val(**f(-h))
            want[key] = float(part((p - o) / (2 * h)))
            curv = max(curv, abs((p + o - 2 * z0) / h ** 2))
        curv, z0 = float(curv), complex(z0)
    top = max(abs(w) for w in want.values())
    # rounding moves the inputs by ~1e-16 each, amplified by the second derivative
    tol = (1e-8 if c["variant"] < 3 else 2e-6) * (1 + 0.1 * mx) * max(top, abs(z0), nat) + 3e-14 * (1 + mx + n) * curv + 1e-250
    for key, w in want.items():
        g, i = G[key[0]], key[1]
        if g is None:
            got = 0.0
        elif key[0] == "r_layers":
            got = float(g[-1, i] * c["r"][i])
        elif key[0] == "eps_layers":
            # torch: df = Re(conj(g) de)
            got = float((np.conj(g[i]) * eps[i] * key[2]).real)
        elif key[0] == "k0":
            got = float(g[0] * c["k0"])
        else:
            got = float(g * env)
        check(abs(got - w) <= tol, lambda: "%s, %s backend: logarithmic derivative of %s(%s), n=%d, with respect to %s: %.10g, exact %.10g (allowed %.2g)" % (
            c["tag"], VAR[c["variant"]].get("backend", "default"), c["part"], q, n, key, got, w, tol))
        rec.obs()
    rec.label(VAR[c["variant"]].get("backend", "default"), size_label(x_outer(c)), "L=%d" % L, c["tag"], "order>x" if n > x_outer(c) else "order<=x", *c["classes"])
    rec.nontrivial(top > 10 * tol)


SUBS = [
    Sub("exact", s_exact(), t_exact, 800),
    Sub("exact_resonances", s_exact("wgm"), t_exact, 300),
    Sub("coefficients", s_b("coef"), t_grad, 180),
    Sub("internal", s_b("internal"), t_grad, 120),
    Sub("cross_sections", s_b("cs"), t_grad, 180),
    Sub("angular", s_b("ang"), t_grad, 180),
    Sub("nearfields", s_b("nf", x_lo=0.2, max_layers=3, max_k=2, mx_hi=15.0), t_grad, 120),
    Sub("many_layers", s_b("any", vmax=2, x_lo=0.2, x_hi=6.0, min_layers=5, max_layers=12, max_k=2, mx_hi=15.0), t_grad, 64),
    Sub("particle", s_part(), t_part, 120),
]
RULE = ("random functional of 1-3 outputs differentiated along a random direction in 1-2 input groups (k0, radii, complex "
        "permittivities, host, angles, probe positions), all backends; non-trivial: distinct case whose converged difference "
        "quotient exceeds 100 times the tolerance (particle: every case)")
ASSUMPTIONS = ["4th order differences at two step sizes; cases where they have not converged are counted, not judged"]
