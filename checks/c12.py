"""All ways to describe the same particle give the same results."""
import importlib
import re

from pbt import Sub, st, check
from gen import *
from api import *

VAR = (dict(), dict(), dict(), dict(backend="torch"), dict(backend="scipy"), dict(backend="torch", which_jn="ratios"))
FUN = dict(coef="mie_coefficients", cs="cross_sections", ang="angular_scattering", nf="nearfields")
GET = dict(coef="get_mie_coefficients", cs="get_cross_sections", ang="get_angular_scattering", nf="get_nearfields")


@st.composite
def s_b(draw, **kw):
    v = draw(st.integers(0, len(VAR) - 1))
    d = dict(x_lo=5e-2, x_hi=20.0, max_layers=4, max_p=1, max_k=3, mx_hi=40.0, classes=("dielectric", "absorbing", "metal", "weak", "idealmetal"))
    if v >= 3:
        d.update(x_lo=0.3, x_hi=8.0, max_layers=2, im_hi=4.0, mx_hi=20.0)
    d.update(kw)
    if v >= 3:
        d["max_layers"] = min(2, d["max_layers"])
    b = draw(batch(**d))
    b["variant"] = v
    b["kind"] = pick(draw, ("coef", "cs", "ang", "nf"))
    b["form"] = draw(st.integers(0, 11))
    b["nm"] = pick(draw, (None, None, 3, 1))
    if len(b["r"][0]) > 1 and draw(st.integers(0, 3)) == 0:  # a thin layer
        for r in b["r"]:
            r[-2] = max(r[-2], r[-1] / (1 + LOGU(draw, 1e-4 if b["variant"] < 3 else 3e-3, 3e-2)))
    b["int"] = draw(st.integers(0, 3)) == 0
    b["ints"] = draw(st.integers(0, 2)) if b["form"] % 8 in (3, 6, 7) else 0  # whole numbers, given as Python integers
    if b["ints"]:
        if b["ints"] == 2:
            b["ne"] = [float(round(v)) for v in b["ne"]]
        lo = math.ceil(max(b["ne"]) + 0.3)
        b["n"] = [[[[float(max(lo, round(v[0]))), v[1] if b["ints"] == 1 else 0.0] for v in q] for q in a] for a in b["n"]]
    b["theta"] = [U(draw, 0, 6.3) for _ in range(draw(st.integers(1, 4)))]
    R = b["r"][0]
    b["pts"] = [[R[-1] * U(draw, -2, 2) + 1e-3 * R[-1] for _ in range(3)] for _ in range(draw(st.integers(2, 4)))]
    return b


def extra(b):
    kw = dict(VAR[b["variant"]])
    if b["nm"]:
        kw["n_max"] = b["nm"]
    if b["kind"] == "ang":
        kw["theta"] = t64(b["theta"])
    if b["kind"] == "nf":
        kw["r_probe"] = t64(b["pts"])
    if b["kind"] == "coef" and b["variant"] >= 3:
        kw["return_internal"] = True
    return kw


def fn(b, mod=None, **kw):
    return lib(getattr(mod or ms, FUN[b["kind"]]), **kw, **extra(b))


def same(A, B, what, rec, squeezed=False, t=1e-9):
    """A: result in question, B: oracle"""
    check(set(A) == set(B), lambda: "%s: entries %s, expected %s" % (what, sorted(A), sorted(B)))
    for q in B:
        if not isinstance(B[q], torch.Tensor) and not isinstance(B[q], np.ndarray):
            if B[q] is None:
                check(A[q] is None, "%s: %s should be None" % (what, q))
            elif isinstance(B[q], (int, float)):
                check(float(A[q]) == float(B[q]), "%s: %s differs" % (what, q))
            continue
        u, v = npy(A[q]), npy(B[q])
        if squeezed:
            v = v.squeeze()
        if q in ("r_c", "r_s", "r_layers", "eps_c", "eps_s", "eps_layers", "n_c", "n_s", "m_layers", "L") and u.shape != v.shape:
            u, v = np.broadcast_arrays(u, v) if u.size and v.size else (u, v)
        m = float(np.nanmax(np.abs(v))) if v.size else 0.0
        if q in ("v_n", "w_n"):
            m = max(m, 1e-3)  # zero up to rounding for homogeneous spheres
        if q == "pol_degree":
            m = 100.0
        if q.startswith(("q_abs", "cs_abs")):
            o = npy(B[q.replace("abs", "ext")])
            m = float(np.abs(o).max()) + (1 if q[0] == "q" else float(npy(B["cs_geo"]).max()))
        bad = np.isnan(u) != np.isnan(v)
        check(not bad.any(), "%s: NaN in %s" % (what, q))
        ok = ~np.isnan(v)
        check(u.shape == v.shape, lambda: "%s: %s has shape %s, expected %s" % (what, q, u.shape, v.shape))
        rec.obs(close(u[ok], v[ok], t * m, 0, what + ": " + q))


def rounded(b):
    """materials as a Particle stores them (single precision, constant)"""
    L = len(b["r"][0])
    eps = torch.stack([torch.as_tensor(complex(*b["n"][0][l][0]) ** 2).to(torch.complex64) for l in range(L)])
    return eps


def t_particle(b, rec):
    """Particle methods vs functions"""
    K, L = len(b["k0"]), len(b["r"][0])
    f = b["form"] % 8
    k0 = t64(b["k0"])
    if f == 0 and K == 1:
        k0 = k0[0]
    r = t64(b["r"][0])
    eps = eps_of([b["n"][0][l][0] for l in range(L)])
    ne = b["ne"][0]
    env = torch.tensor(ne ** 2, dtype=torch.complex64)
    if f <= 1:  # permittivities given directly
        p = lib(pmd.Particle, r_layers=r, eps_layers=eps, mat_env=ne)
        want = fn(b, k0=k0, r_layers=r, eps_layers=eps, eps_env=env)
    elif f == 2:  # dispersive permittivities
        e = eps_of(b["n"][0])
        p = lib(pmd.Particle, r_layers=r, eps_layers=e, mat_env=ne)
        want = fn(b, k0=k0, r_layers=r, eps_layers=e, eps_env=env)
    elif f <= 5:  # materials: refractive index as scalar / tensor, or material objects
        def mat(i):
            v = complex(*b["n"][0][i][0])
            if f == 3:
                return v if v.imag else int(v.real) if b["ints"] else v.real
            if f == 4:
                return torch.tensor(v)
            return pmd.materials.MatConstant(eps=v ** 2)
        me = (int(ne) if b["ints"] == 2 else ne, np.float64(ne), pmd.materials.MatConstant(ne ** 2))[f - 3]
        e64 = torch.stack([(torch.tensor(complex(*b["n"][0][i][0])) ** 2 if f == 4 else torch.as_tensor(complex(*b["n"][0][i][0]) ** 2)).to(torch.complex64) for i in range(L)])
        p = lib(pmd.Particle, r_layers=r, mat_layers=[mat(i) for i in range(L)], mat_env=me)
        want = fn(b, k0=k0, r_layers=r, eps_layers=e64, eps_env=env)
    else:  # legacy core / shell
        rr = r[:2]
        L = len(rr)
        mats = [complex(*b["n"][0][i][0]) for i in range(L)]
        mats = [int(v.real) if b["ints"] and not v.imag else v for v in mats]
        kw = dict(r_core=rr[0], mat_core=mats[0])
        if L == 2:
            kw.update(r_shell=rr[1], mat_shell=pmd.materials.MatConstant(mats[1] ** 2) if f == 6 else mats[1])
        p = lib(pmd.Particle, mat_env=int(ne) if b["ints"] == 2 else ne, **kw)
        want = fn(b, k0=k0, r_layers=rr, eps_layers=rounded(b)[:L], eps_env=env)
    if b["form"] >= 8:
        lib(p.set_device, "cpu")
    rr = r[:L]
    check(float(p.r_c) == float(rr[0]), "r_c is not the innermost radius")
    check(p.r_s is None if L == 1 else float(p.r_s) == float(rr[-1]), "r_s is not the outermost radius")
    if f > 2:
        for m, i in ((p.mat_c, 0), (p.mat_s, L - 1)):
            if L == 1 and m is p.mat_s:
                check(m is None or m is p.mat_c, "mat_s of a homogeneous particle")
                continue
            e1, e2 = complex(lib(m.get_epsilon, 500.0)), complex(*b["n"][0][i][0]) ** 2
            check(abs(e1 - e2) <= 1e-5 * (1 + abs(e2)), lambda: "mat_%s has permittivity %s, expected %s" % ("cs"[i > 0], e1, e2))
    num = [float(v) for v in re.findall(r"[0-9.]+(?:e[+-]?[0-9]+)?", repr(p).split("radii")[1].split("nm")[0].split("dtype")[0]) if v.strip(".")]
    check(len(num) == L and all(abs(u - float(v)) <= 1e-3 * float(rr[-1]) for u, v in zip(num, rr)), lambda: "radii in the summary: %s, expected %s" % (num, rr.tolist()))
    check("multilayer" in repr(p) if L > 1 else "homogeneous" in repr(p), "repr does not describe the particle")
    check(str(L) in repr(p).split("radii")[0], "repr does not state the number of layers")
    for _ in range(2):  # repeated evaluation of the same object
        got = lib(getattr(p, GET[b["kind"]]), k0, **extra(b))
        # index of refraction in single precision: same on both sides
        same(got, want, "Particle.%s (form %d)" % (GET[b["kind"]], f), rec, squeezed=True, t=1e-6 if b["variant"] < 3 else 1e-4)
    el, ee = lib(p.get_material_permittivities, k0)
    close(np.asarray(npy(ee)).reshape(-1), np.broadcast_to(ne ** 2 + 0j, npy(ee).size), 1e-6, 0, "host permittivity")
    rec.label(b["kind"], "form=%d" % f, *["integer indices"] * bool(b["ints"]), VAR[b["variant"]].get("backend", "default"))
    rec.nontrivial()


@st.composite
def s_legacy(draw):
    b = draw(s_b(max_layers=2, max_p=3))
    b["lform"] = draw(st.integers(0, 3))
    if len(b["r"][0]) == 2 and draw(st.integers(0, 2)) == 0:  # thin shells
        for r in b["r"]:
            r[0] = r[1] / (1 + LOGU(draw, 1e-6 if b["variant"] < 3 else 1e-3, 3e-2))
    return b


def t_legacy(b, rec):
    """r_c, eps_c, r_s, eps_s of the functional interface, and the coreshell module"""
    P, K, L = len(b["r"]), len(b["k0"]), len(b["r"][0])
    e = eps_of(b["n"])  # P, L, K
    r = t64(b["r"])
    lf = b["lform"]
    kw = dict(k0=t64(b["k0"]), eps_env=t64(b["ne"]) ** 2)
    if P == 1 and lf == 0:  # scalars
        rl, el = [r[0, l] for l in range(L)], [e[0, l, 0] for l in range(L)]
        eref = e[:, :, :1]
    elif P == 1 and lf == 1:  # spectral
        rl, el = [r[0, l] for l in range(L)], [e[0, l] for l in range(L)]
        eref = e
    elif P > 1 and lf < 2 and P != K:  # one constant per particle
        rl, el = [r[:, l] for l in range(L)], [e[:, l, 0] for l in range(L)]
        eref = e[:, :, :1]
    else:
        rl, el = [r[:, l] for l in range(L)], [e[:, l] for l in range(L)]
        eref = e
    lk = dict(r_c=rl[0], eps_c=el[0])
    if L == 2:
        lk.update(r_s=rl[1], eps_s=el[1])
    elif lf == 3:
        lk.update(r_s=rl[0], eps_s=el[0])
    A = fn(b, mod=importlib.import_module("pymiediff.coreshell") if b["form"] % 2 else None, **kw, **lk)
    B = fn(b, **kw, r_layers=r, eps_layers=eref)
    same(A, B, "legacy arguments (form %d)" % lf, rec)
    rec.label(b["kind"], "lform=%d" % lf, VAR[b["variant"]].get("backend", "default"))
    rec.nontrivial(P * K > 1 or L > 1)


def t_forms(b, rec):
    """numbers, lists, numpy arrays and tensors; integer radii; real permittivities"""
    K, L = len(b["k0"]), len(b["r"][0])
    f = b["form"]
    r = np.array(b["r"][0])
    if b["int"]:
        r = np.cumsum(np.maximum(1, np.round(np.diff(np.concatenate(([0], r))))))
        r = np.minimum(r, 200 + np.arange(L))
        if L > 1 and not np.all(np.diff(r) > 0):
            r = np.arange(20, 20 + 10 * L, 10.0)[:L]
    n = np.array(b["n"])[0]  # L, K, 2
    real = not n[..., 1].any()
    eps = (n[..., 0] + 1j * n[..., 1]) ** 2
    ee = np.array(b["ne"]) ** 2
    k0 = np.array(b["k0"])
    B = fn(b, k0=torch.as_tensor(k0), r_layers=torch.as_tensor(r), eps_layers=torch.as_tensor(eps), eps_env=torch.as_tensor(ee))
    kw = dict(k0=k0, r_layers=r, eps_layers=eps, eps_env=ee)
    t = 1e-9
    if f % 4 == 0:
        pass  # numpy arrays
    elif f % 4 == 1:
        kw = {q: torch.as_tensor(v) for q, v in kw.items()}
        kw["k0"] = kw["k0"].reshape(1, -1)
        if real:
            kw["eps_layers"] = kw["eps_layers"].real
    elif f % 4 == 2:
        kw = {q: torch.as_tensor(v) for q, v in kw.items()}
        kw["r_layers"] = kw["r_layers"].reshape(1, -1)
        kw["eps_layers"] = kw["eps_layers"].reshape(1, L, K)
        if not b["envdisp"]:
            kw["eps_env"] = kw["eps_env"][0]
        kw["eps_env"] = kw["eps_env"] + 0j
    else:
        kw = {q: torch.as_tensor(v) for q, v in kw.items()}
        if b["int"]:
            kw["r_layers"] = kw["r_layers"].to(torch.int64)
        if K == 1:
            kw["k0"] = kw["k0"][0]
        if real:
            kw["eps_layers"] = kw["eps_layers"].real
    A = fn(b, **kw)
    if b["int"] and f % 4 == 3:  # torch promotes int64 * float scalars to single precision
        t = 1e-6 if b["variant"] < 3 else 1e-4
    same(A, B, "input form %d%s" % (f % 4, ", integer radii" if b["int"] else ""), rec, t=t)
    rec.label(b["kind"], "form=%d" % (f % 4), "int" if b["int"] else "float", VAR[b["variant"]].get("backend", "default"))
    rec.nontrivial()


SUBS = [
    Sub("particle", s_b(), t_particle, 640),
    Sub("legacy", s_legacy(), t_legacy, 640),
    Sub("forms", s_b(), t_forms, 480),
]
RULE = ("one layered sphere described in two ways (Particle with permittivities / materials / numbers / core-shell arguments, "
        "functional core-shell arguments, numpy / tensor / integer inputs), all four observables and backends; every distinct "
        "case counts (legacy: more than one entry or layer)")
ASSUMPTIONS = ["Particle stores materials in single precision: the oracle gets the same rounded numbers"]
