"""Second derivatives, forward-mode derivatives and function transforms."""
from pbt import Sub, st, check, Violation
from gen import *
from api import *
from checks import c14
from checks.c08 import s_b as s_first, OUT, VAR, NAME, inputs, direction, run, phi


@st.composite
def s_b(draw):
    kind = pick(draw, ("coef", "internal", "cs", "ang", "nf"))
    kw = dict(x_lo=0.2, max_layers=3, max_k=2, max_p=2, mx_hi=12.0)
    b = draw(s_first(kind, **kw))
    b["mode"] = pick(draw, ("hvp", "hvp", "hvp", "forward", "func"))
    if kind == "internal" and len(b["r"][0]) == 1:  # shell coefficients v_n, w_n of homogeneous spheres are rounding noise
        b["outs"] = [i for i in b["outs"] if i < 6] or [2]
    if b["mode"] == "forward" and VAR[b["variant"]].get("backend") == "scipy":
        b["mode"] = "hvp"  # no forward mode: raises NotImplementedError
    b["groups"] = [g for g in b["groups"] if g != "probe"] or ["r"]
    return b


def setup(b):
    b = dict(b, _norm={}, _keep={})
    kw = inputs(b)
    N = int(lib(ms.mie_coefficients, **bkw(b, **VAR[b["variant"]]))["n_max"])
    N = min(N, 4 + int(2 * x_outer(pair(b, 0, 0))))
    mask = None
    if b["kind"] == "nf":
        r = np.linalg.norm(np.array(b["pts"]), axis=-1)
        ok = np.array([[all(abs(q / s - 1) > 0.06 for s in R) for q in r] for R in b["r"]], dtype=float)
        mask = ok[:, None, :, None]
    d = direction(b, kw)
    base = run(b, kw, N)
    if b["kind"] == "cs":  # absorption of lossless spheres is rounding noise
        noise = [i for i in b["outs"] if "abs" in OUT["cs"][i] and not
                 bool((base[OUT["cs"][i]].abs().amax() > 1e-6 * base[OUT["cs"][i].replace("abs", "ext")].abs().amax()))]
        b["outs"] = [i for i in b["outs"] if i not in noise] or [0]
    phi(b, base, mask)  # fixes the normalisation
    return b, kw, N, mask, d


def t_second(b, rec):
    b, kw, N, mask, d = setup(b)
    keys = b["groups"]

    def F(leafs):
        return phi(b, run(b, {**kw, **{NAME[g]: t for g, t in leafs.items()}}, N), mask)[0]

    def slope(t, again=False):
        """derivative along d at kw + t d, and its own derivative"""
        leafs = {g: (kw[NAME[g]] + t * d[g]).detach().clone().requires_grad_() for g in keys}
        f = F(leafs)
        if not (torch.is_tensor(f) and f.requires_grad):
            return None
        try:
            G = torch.autograd.grad(f, list(leafs.values()), allow_unused=True, create_graph=again)
            s = sum((g.conj() * d[k]).real.sum() if g.is_complex() else (g * d[k]).sum() for k, g in zip(keys, G) if g is not None)
            if not again or not torch.is_tensor(s):
                return s
            if not s.requires_grad:
                return s, torch.zeros(())
            H = torch.autograd.grad(s, list(leafs.values()), allow_unused=True)
            h = sum((g.conj() * d[k]).real.sum() if g.is_complex() else (g * d[k]).sum() for k, g in zip(keys, H) if g is not None)
            return s, h
        except Exception as e:
            raise Violation("differentiation failed: %s: %s" % (type(e).__name__, str(e)[:300]))

    lab = [b["kind"], b["mode"], VAR[b["variant"]].get("backend", "default"), "L=%d" % len(b["r"][0])] + ["d/d" + g for g in keys]
    s0 = slope(0.0)
    if s0 is None or not torch.is_tensor(s0):
        return
    s0 = float(s0)
    if b["mode"] == "hvp":
        s, h2 = slope(0.0, True)
        check(abs(float(s) - s0) <= 1e-9 * (1 + abs(s0)), "first derivative depends on create_graph")
        h2 = float(h2)
        check(math.isfinite(h2), "second derivative of %s is not finite" % [OUT[b["kind"]][i] for i in b["outs"]])
        mx = max(b["k0"]) * max(r[-1] for r in b["r"]) * max(abs(complex(*v)) for a in b["n"] for c in a for v in c)
        h = 2e-3 / (1 + 0.3 * max(mx, x_outer(pair(b, 0, 0))))
        h *= min(1.0, 3 * min(abs(r[l] - (r[l - 1] if l else 0)) / r[l] for r in b["r"] for l in range(len(r))) + 0.02)

        def fd(h):
            v = [float(slope(q * h)) for q in (1, -1, 2, -2)]
            return (8 * (v[0] - v[1]) - (v[2] - v[3])) / (12 * h)

        D1, D2 = fd(h), fd(h / 2)
        err = abs(D1 - D2)
        tol = (2e-6 if b["variant"] < 3 else 2e-4) * ((1 + mx) ** 2 + abs(D2)) + 3 * err
        if err > 1e-2 * (1 + abs(D2)):
            rec.label("differences not converged")
            return
        check(abs(h2 - D2) <= tol, lambda: "second derivative of %s with respect to %s: autograd %.10g, differences of gradients %.10g (allowed %.2g)" % (
            [OUT[b["kind"]][i] for i in b["outs"]], keys, h2, D2, tol))
        rec.nontrivial(abs(D2) > 100 * tol)
    elif b["mode"] == "forward":
        x, t = tuple(kw[NAME[g]] for g in keys), tuple(d[g].to(kw[NAME[g]].dtype) for g in keys)
        try:
            f0, jv = torch.func.jvp(lambda *a: F(dict(zip(keys, a))), x, t)
        except Exception as e:
            raise Violation("forward-mode differentiation failed: %s: %s" % (type(e).__name__, str(e)[:300]))
        check(abs(float(jv) - s0) <= 1e-7 * (1 + abs(s0)), lambda: "forward-mode derivative %.12g, reverse-mode %.12g" % (float(jv), s0))
        rec.nontrivial(abs(s0) > 1e-6)
    else:
        g0 = keys[0]
        x = kw[NAME[g0]]
        outs = [OUT[b["kind"]][i] for i in b["outs"]]

        def vec(a):
            res = run(b, {**kw, NAME[g0]: a}, N)
            v = [res[q] for q in outs if res[q] is not None]
            v = torch.cat([torch.stack((u.real, u.imag), -1).reshape(-1) if u.is_complex() else u.reshape(-1) for u in v])
            return v[:24]

        if x.is_complex():  # real Jacobian with respect to the real part
            base = x
            x = base.real.clone()
            fun = lambda a: vec(torch.complex(a, base.imag))
        else:
            fun = vec
        try:
            J = torch.func.jacrev(fun)(x)
        except Exception as e:
            raise Violation("torch.func.jacrev failed: %s: %s" % (type(e).__name__, str(e)[:300]))
        a = x.detach().clone().requires_grad_()
        v = fun(a)
        top = 0.0
        for i in range(v.numel()):
            if not v.requires_grad:
                break
            gi = torch.autograd.grad(v[i], a, retain_graph=True, allow_unused=True)[0]
            gi = torch.zeros_like(a) if gi is None else gi
            sc = float(gi.abs().max())
            top = max(top, sc)
            rec.obs(close(J[i], npy(gi), 1e-8 * sc + 1e-11 * top + 1e-300, 0, "row %d of torch.func.jacrev" % i))
        rec.nontrivial()
    rec.obs()
    rec.label(*lab)


# ------------------------------------------------------------------ special functions
def t_special(b, rec):
    """double backward of the special functions against their differential equations"""
    z = c14.arg(b)
    name, nmax = b["name"], b["nmax"]
    t = torch.as_tensor(c14.shaped(z, b["shape"])).clone().requires_grad_()
    out = lib(getattr(c14.sp, name), c14.norder(b), t, **c14.kwargs_of(b, z))
    out = out if isinstance(out, tuple) else (out,)
    T = {v: c14.table(nmax, v) for v in set(z.tolist())}
    for v, q in T.items():
        n = np.arange(nmax + 1)
        w = n * (n + 1) / v ** 2 - 1
        for f in ("j", "y", "h", "psi", "chi", "xi"):
            dw = -2 * n * (n + 1) / v ** 3
            q[f + "'''"] = w * q[f + "'"] + dw * q[f]
            if f in "jyh":
                q[f + "'''"] = q[f + "'''"] + 2 / v ** 2 * q[f + "'"] - 2 / v * q[f + "''"]
    for o, key in zip(out, c14.JN[name]):
        for n in sorted({0, nmax, min(nmax, b["opt"])}):
            y = o[n].reshape(-1)
            try:
                (g,) = torch.autograd.grad(y.real.sum() if y.is_complex() else y.sum(), t, create_graph=True)
                # second derivative along one (complex) direction
                e = torch.as_tensor(1.0 if not t.is_complex() or b["opt"] % 2 else 0.6 + 0.8j, dtype=t.dtype)
                check(g.requires_grad, "%s: derivative is not differentiable" % name)
                s = (g.conj() * e).real.sum() if g.is_complex() else g.sum()
                (h,) = torch.autograd.grad(s, t, retain_graph=True)
            except RuntimeError as e:
                raise Violation("differentiation failed: %s: %s" % (type(e).__name__, str(e)[:300]))
            h = npy(h).reshape(-1)
            for i, v in enumerate(z.tolist()):
                # d Re(f' e) -> conj(f'' e)
                want = np.conj(T[v][key + "''"][n] * complex(e))
                if not b["cplx"]:
                    want = want.real
                r = max(1.0, (n + 1) / abs(v))
                k0 = key.rstrip("'")
                parts = {"h": ("j", "y"), "xi": ("psi", "chi")}.get(k0, (k0,))
                sc = sum(abs(T[v][q + key[len(k0):] + d][n]) * r ** m for q in parts for d, m in (("", 2), ("'", 1), ("''", 0)))
                if key != k0:
                    sc = sc * max(1.0, 1 / abs(v)) ** 2
                lim = 500 * c14.tol_of(name, v) * sc + 1e-250
                rec.obs(1)
                check(abs(h[i] - want) <= lim, lambda: "second derivative of %s (%s), order %d at z=%s: got %s, expected %s (error %.2g, allowed %.2g)" % (
                    name, key, n, v, h[i], want, abs(h[i] - want), lim))
    rec.label(name, "complex" if b["cplx"] else "real")
    rec.nontrivial()


SUBS = [Sub("second_order", s_b(), t_second, 240), Sub("special_functions", c14.s_z(grad=True), t_special, 800)]
RULE = ("random functional of 1-3 outputs, second derivative along a random direction in 1-2 input groups by double backward (also forward mode and "
        "torch.func.jacrev), all observables and backends; non-trivial: distinct case whose converged value exceeds 100 times the tolerance")
ASSUMPTIONS = ["4th order differences of reverse-mode gradients at two step sizes; unconverged cases are counted, not judged",
               "backend='scipy' offers no forward mode (an exception, not a wrong number)"]
