"""Invalid inputs are rejected, the valid neighbour of each is accepted."""
import os
import shutil
import tempfile

from pbt import Sub, st, check, must_raise, lib
from gen import *
from api import *
import pbt

FUNCS = ("mie_coefficients", "cross_sections", "angular_scattering", "nearfields")


def call(func, kw):
    """one of the four observables, through the functional interface"""
    kw = dict(kw)
    if func == "angular_scattering":
        kw.setdefault("theta", t64([0.3, 1.2]))
    if func == "nearfields":
        kw.setdefault("r_probe", t64([[1.0, 2.0, 3.0], [500.0, 20.0, -30.0]]))
    return getattr(ms, func)(**kw)


# ------------------------------------------------------------------ functional interface, layers
def b_swap(kw, a):
    r = kw["r_layers"].clone()
    l = a % (r.shape[1] - 1)
    p = (a // 7) % r.shape[0]
    if a % 2:
        r[p, l + 1] = r[p, l]
    else:
        r[p, l], r[p, l + 1] = float(r[p, l + 1]), float(r[p, l])
    return dict(kw, r_layers=r)


def b_only_r(kw, a):
    kw = dict(kw)
    del kw["eps_layers"]
    return kw


def b_only_eps(kw, a):
    kw = dict(kw)
    del kw["r_layers"]
    return kw


def b_nothing(kw, a):
    kw = dict(kw)
    del kw["r_layers"], kw["eps_layers"]
    return kw


def full(kw):
    P, L = kw["r_layers"].shape
    e = kw["eps_layers"]
    return e, P, L, len(kw["k0"])


def b_eps1(kw, a):
    e, P, L, K = full(kw)
    n = L + 1 + a % 2 if a % 3 or L < 3 else L - 1
    return dict(kw, eps_layers=e[0, 0, 0].expand(n).clone())


def wrong(n, a):
    """a number of entries that is neither 1 nor n: fewer, more, divisors, multiples"""
    q = [v for v in range(2, 2 * n + 3) if v != n]
    return q[(a * 5 + a // 3) % len(q)]


def b_eps2(kw, a):
    e, P, L, K = full(kw)
    A, B = [(max(P, L) + 1, max(L, K) + 1 + a % 2), (P, wrong(L, a)), (L, wrong(K, a)), (wrong(P, a), wrong(K, a // 2)), (P, K)][a % 5]
    if A in (1, P) and B == L or A == L and B in (1, K) or A == 1 and L == 1 or B == 1:  # one of the accepted readings
        A, B = max(P, L) + 1, max(L, K) + 1 + a % 2
    return dict(kw, eps_layers=e[0, 0, 0].expand(A, B).clone())


def b_eps3_p(kw, a):
    e, P, L, K = full(kw)
    return dict(kw, eps_layers=e[:1].expand(wrong(P, a), L, K).clone())


def b_eps3_l(kw, a):
    e, P, L, K = full(kw)
    return dict(kw, eps_layers=torch.cat([e, e[:, :1]], 1) if a % 2 or L < 3 else e[:, :L - 1])


def b_eps3_k(kw, a):
    e, P, L, K = full(kw)
    n = wrong(K, a)
    return dict(kw, eps_layers=e[:, :, :1].expand(P, L, n).clone())


def b_eps4(kw, a):
    return dict(kw, eps_layers=kw["eps_layers"].unsqueeze(a % 4))


def b_env_len(kw, a):
    K = len(kw["k0"])
    n = wrong(K, a)
    return dict(kw, eps_env=kw["eps_env"].reshape(-1)[:1].expand(n).clone())


def b_env_2d(kw, a):
    return dict(kw, eps_env=kw["eps_env"].reshape(-1)[:1].expand(2 + a % 3, (len(kw["k0"]), 1)[a // 3 % 2]).clone())


def b_k0_2d(kw, a):
    return dict(kw, k0=kw["k0"].reshape(1, -1).expand(2 + a % 2, -1).repeat(1, 1 + a // 2 % 2))


def b_r3(kw, a):
    return dict(kw, r_layers=kw["r_layers"].unsqueeze(a % 3))


def b_backend(kw, a):
    return dict(kw, backend=("mie", "", "pena ", "torchscipy", "numpy")[a % 5])


def b_deep_closed(kw, a):
    return dict(kw, backend=("torch", "scipy")[a % 2], n_max=2)


BREAK = dict(increasing=b_swap, only_radii=b_only_r, only_eps=b_only_eps, nothing=b_nothing, eps_1d=b_eps1, eps_2d=b_eps2,
             eps_particles=b_eps3_p, eps_layers=b_eps3_l, eps_spectral=b_eps3_k, eps_4d=b_eps4, env_length=b_env_len, env_2d=b_env_2d,
             k0_2d=b_k0_2d, radii_3d=b_r3, backend=b_backend, too_many_layers=b_deep_closed)
KINDS = tuple(sorted(BREAK))


@st.composite
def s_layers(draw):
    b = draw(batch(x_lo=0.1, x_hi=3.0, max_layers=4, classes=("dielectric", "absorbing", "metal"), mx_hi=8.0, max_p=4, max_k=6))
    b["layout"] = "PLK"
    b["flags"] = 0
    return dict(b=b, kind=pick(draw, KINDS), func=pick(draw, FUNCS), a=draw(st.integers(0, 41)))


def applicable(kind, L, func):
    if kind == "increasing":
        return L >= 2
    if kind == "too_many_layers":
        return L >= 3 and func != "nearfields_"
    return True


def t_layers(c, rec):
    kw = bkw(c["b"])
    L = kw["r_layers"].shape[1]
    kind = c["kind"] if applicable(c["kind"], L, c["func"]) else KINDS[c["a"] % len(KINDS)]
    if not applicable(kind, L, c["func"]):
        kind = "only_radii"
    rec.label(kind, c["func"])
    rec.nontrivial()
    lib(call, c["func"], kw)  # the valid neighbour is accepted
    bad = BREAK[kind](kw, c["a"])
    try:
        call(c["func"], bad)
    except Exception:
        rec.obs(2)
        return
    raise pbt.Violation("%s accepted an invalid input (%s)" % (c["func"], kind))


# ------------------------------------------------------------------ legacy arguments
LEG = ("half_layers", "shell_smaller", "core_radius_only", "core_eps_only", "shapes", "no_core")


@st.composite
def s_legacy(draw):
    ne = n_env(draw)
    return dict(kind=pick(draw, LEG), func=pick(draw, FUNCS), ne=ne, x=LOGU(draw, 0.1, 3.0), f=U(draw, 0.2, 0.9),
                n=[index(draw, ne, ("dielectric", "absorbing"))[0] for _ in range(2)], wl=U(draw, 300.0, 1200.0),
                backend=pick(draw, ("pena", "torch", "scipy")), tens=draw(st.booleans()))


def t_legacy(c, rec):
    k0 = 2 * math.pi / c["wl"]
    rs = c["x"] / (k0 * c["ne"])
    e = [complex(*v) ** 2 for v in c["n"]]
    T = (lambda v: torch.as_tensor(v, dtype=C128 if isinstance(v, complex) else F64)) if c["tens"] else (lambda v: v)
    kw = dict(k0=t64([k0]), r_c=T(c["f"] * rs), r_s=T(rs), eps_c=T(e[0]), eps_s=T(e[1]), eps_env=c["ne"] ** 2, backend=c["backend"])
    rec.label(c["kind"], c["func"], c["backend"])
    rec.nontrivial()
    # closed-form near fields are two-layer formulas as well, all backends accept this
    lib(call, c["func"], kw)
    bad = dict(kw)
    if c["kind"] == "half_layers":  # complete legacy description and one half of a layer description
        bad.update([dict(r_layers=t64([c["f"] * rs, rs])), dict(eps_layers=torch.tensor(e, dtype=C128))][int(c["wl"]) % 2])
    elif c["kind"] == "shell_smaller":
        bad["r_c"], bad["r_s"] = kw["r_s"], kw["r_c"]
    elif c["kind"] == "core_radius_only":
        del bad["eps_c"]
    elif c["kind"] == "core_eps_only":
        del bad["r_c"]
    elif c["kind"] == "no_core":
        del bad["r_c"], bad["eps_c"]
    else:
        bad["r_c"] = t64([c["f"] * rs, 0.5 * c["f"] * rs])
        bad["r_s"] = t64([rs, rs, rs])
    try:
        call(c["func"], bad)
    except Exception:
        rec.obs(2)
        return
    raise pbt.Violation("%s accepted an invalid input (%s)" % (c["func"], c["kind"]))


# ------------------------------------------------------------------ Particle
PK = ("both_apis", "mixed_apis", "mixed_apis", "no_radii", "eps_and_mat", "no_material", "radii_2d", "no_layers", "mat_length", "nothing", "core_without_material",
      "material_without_core", "shell_radius_only", "shell_material_only", "shell_smaller", "shell_equal", "layers_not_increasing",
      "probe_shape", "unknown_material", "scalar_radii")


@st.composite
def s_particle(draw):
    ne = n_env(draw)
    L = draw(st.integers(1, 4))
    return dict(kind=pick(draw, PK), ne=ne, L=L, n=[index(draw, ne, ("dielectric", "absorbing"))[0] for _ in range(L)],
                r=fractions(draw, L), ro=U(draw, 20.0, 150.0), wl=U(draw, 400.0, 1200.0), a=draw(st.integers(0, 41)),
                mix=draw(st.integers(0, 104)), lists=draw(st.booleans()), func=pick(draw, FUNCS))


def run_particle(p, c):
    k0 = t64([2 * math.pi / c["wl"]])
    return {"mie_coefficients": lambda: p.get_mie_coefficients(k0),
            "cross_sections": lambda: p.get_cross_sections(k0),
            "angular_scattering": lambda: p.get_angular_scattering(k0, t64([0.1, 0.2])),
            "nearfields": lambda: p.get_nearfields(k0, t64([[200.0, 0.0, 10.0]]))}[c["func"]]()


def t_particle(c, rec):
    L, a = c["L"], c["a"]
    r = [f * c["ro"] for f in c["r"]]
    n = [complex(*v) for v in c["n"]]
    eps = torch.tensor([v ** 2 for v in n], dtype=C128)
    lay = dict(r_layers=r if c["lists"] else t64(r), mat_env=c["ne"])
    leg = dict(r_core=r[0], mat_core=n[0], mat_env=c["ne"])
    kind = c["kind"]
    rec.label(kind, "L=%d" % L)
    rec.nontrivial()
    P = pmd.Particle
    for good in (dict(lay, eps_layers=[v ** 2 for v in n] if c["lists"] else eps), dict(lay, mat_layers=list(n)), leg,
                 dict(leg, r_shell=1.5 * r[0], mat_shell=n[-1])):
        lib(run_particle, lib(P, **good), c)

    def use(**kw):
        return run_particle(P(**kw), c)
    if kind == "both_apis":
        must_raise(P, **dict(lay, eps_layers=eps, **[dict(r_core=10.0), dict(mat_core=2.0), dict(r_shell=10.0), dict(mat_shell=2.0)][a % 4]))
    elif kind == "mixed_apis":  # any of the layer arguments with any of the legacy ones
        A = dict(r_layers=lay["r_layers"], eps_layers=eps, mat_layers=list(n))
        B = dict(r_core=r[0], mat_core=n[0], r_shell=1.5 * r[0], mat_shell=n[-1])
        i, j = 1 + c["mix"] % 7, 1 + c["mix"] // 7
        kw = {q: v for d, m in ((A, i), (B, j)) for l, (q, v) in enumerate(d.items()) if m >> l & 1}
        must_raise(use, mat_env=c["ne"], **kw)
    elif kind == "no_radii":
        must_raise(P, **[dict(eps_layers=eps), dict(mat_layers=n)][a % 2])
    elif kind == "eps_and_mat":
        must_raise(P, **dict(lay, eps_layers=eps, mat_layers=n))
    elif kind == "no_material":
        must_raise(P, **lay)
    elif kind == "radii_2d":
        must_raise(P, **dict(lay, r_layers=t64([r, r][:1 + a % 2]), eps_layers=eps))
    elif kind == "scalar_radii":
        must_raise(P, r_layers=t64(r[0]), eps_layers=eps[:1])
    elif kind == "no_layers":
        must_raise(P, **[dict(r_layers=t64([]), mat_layers=[]), dict(r_layers=[], eps_layers=[])][a % 2])
    elif kind == "mat_length":
        m = n + n[:1 + a % 2] if a % 3 or L == 1 else n[:-1]
        must_raise(P, **dict(lay, mat_layers=m))
    elif kind == "nothing":
        must_raise(P, **[dict(), dict(mat_env=1.5), dict(r_shell=50.0, mat_shell=2.0)][a % 3])
    elif kind == "core_without_material":
        must_raise(P, **[dict(r_core=r[0]), dict(r_core=r[0], r_shell=2 * r[0], mat_shell=2.0)][a % 2])
    elif kind == "material_without_core":
        must_raise(P, **[dict(mat_core=n[0]), dict(mat_core=n[0], r_shell=2 * r[0], mat_shell=2.0)][a % 2])
    elif kind == "shell_radius_only":
        must_raise(P, **dict(leg, r_shell=2 * r[0]))
    elif kind == "shell_material_only":
        must_raise(P, **dict(leg, mat_shell=2.0))
    elif kind == "shell_smaller":
        must_raise(P, **dict(leg, r_shell=[r[0] * 0.7, t64(r[0] * 0.999)][a % 2], mat_shell=2.0))
    elif kind == "shell_equal":
        must_raise(P, **dict(leg, r_shell=r[0], mat_shell=2.0))
    elif kind == "layers_not_increasing":
        rr = list(r) + [r[-1] * (1.0 if a % 2 else 0.9)] if a % 3 else [2 * r[-1]] + list(r)
        must_raise(use, r_layers=t64(rr), mat_layers=n + n[:1], mat_env=c["ne"])
    elif kind == "probe_shape":
        p = P(**dict(lay, eps_layers=eps))
        must_raise(p.get_nearfields, t64([2 * math.pi / c["wl"]]), t64([[200.0] * [2, 4, 1][a % 3]]))
    elif kind == "unknown_material":
        must_raise(pmd.materials.MatDatabase, ["Unobtainium", "au2", "none", "sio"][a % 4])
    rec.obs(5)


# ------------------------------------------------------------------ files, special functions, helpers
MK = ("formula_type", "data_type", "missing_file", "vsh_kind", "vsh_pena_kind", "neg_order", "interp_length", "interp_complex", "internal_pena",
      "n_max_zero")


@st.composite
def s_misc(draw):
    return dict(kind=pick(draw, MK), a=draw(st.integers(0, 999)), z=U(draw, 0.1, 5.0), m=draw(st.integers(1, 5)), d=draw(st.integers(1, 3)))


def yaml_file(d, typ, line):
    f = os.path.join(d, "mat.yml")
    with open(f, "w") as h:
        h.write("REFERENCES: none\nDATA:\n  - type: %s\n    %s\n" % (typ, line))
    return f


def t_misc(c, rec):
    a, kind = c["a"], c["kind"]
    rec.label(kind)
    rec.nontrivial()
    S = pmd.special
    th = t64([[[[c["z"] / 2]]]])
    ok = "wavelength_range: 0.3 2.0\n    coefficients: 0 0.6961663 0.0684043 0.4079426 0.1162414"
    d = tempfile.mkdtemp(prefix="c19_")
    try:
        if kind == "formula_type":
            f = yaml_file(d, "formula %d" % (2 + a % 8), ok)
            must_raise(lambda: pmd.materials.MatDatabase(yaml_file=f).get_epsilon(500.0 + a))
            g = yaml_file(d, "formula 1", ok)
            lib(lambda: pmd.materials.MatDatabase(yaml_file=g).get_epsilon(500.0 + a))
        elif kind == "data_type":
            f = yaml_file(d, ("model 1", "table nk", "polynomial")[a % 3], ok)
            must_raise(lambda: pmd.materials.MatDatabase(yaml_file=f).get_epsilon(500.0 + a))
        elif kind == "missing_file":
            must_raise(pmd.materials.MatDatabase, ("", "Au", "x")[a % 3], yaml_file=os.path.join(d, "nothing.yml"))
        elif kind == "vsh_kind":
            x = t64(c["z"]).reshape(1, 1, 1, 1)
            lib(S.vsh, 3, x * 0 + 1, x * 0 + 1.5, x, th, th, kind=1 + a % 3)
            must_raise(S.vsh, 3, x * 0 + 1, x * 0 + 1.5, x, th, th, kind=(0, 4, -1, 5)[a % 4])
        elif kind == "vsh_pena_kind":
            x = t64(c["z"]).reshape(1, 1, 1, 1)
            lib(S.vsh_pena, 3, x * 0 + 1, x * 0 + 1.5, x, th, th, kind=(1, 3)[a % 2])
            must_raise(S.vsh_pena, 3, x * 0 + 1, x * 0 + 1.5, x, th, th, kind=(0, 2, 4, -1)[a % 4])
        elif kind == "neg_order":
            z = torch.as_tensor([c["z"] + 0.1j], dtype=C128)
            f = (S.pena_D1_n, S.pena_D3_n)[a % 2]
            lib(f, c["m"], z)
            must_raise(f, -c["m"], z)
        elif kind == "interp_length":
            x = t64(np.arange(c["m"] + 1.0))
            y = t64(np.arange(c["m"] + 1.0 + c["d"]))
            I = pmd.helper.interp1d
            lib(I, t64([0.5]), x, y[:len(x)])
            must_raise(I, t64([0.5]), x, y)
            must_raise(I, t64([0.5]), y, x)
        elif kind == "interp_complex":
            x = t64(np.arange(c["m"] + 1.0))
            must_raise(pmd.helper.interp1d, t64([0.5]), x + 0j, x)
        elif kind == "internal_pena":
            kw = dict(k0=t64([0.01]), r_layers=t64([50.0, 60.0]), eps_layers=t64([2.0, 4.0]))
            lib(ms.mie_coefficients, backend="torch", return_internal=True, **kw)
            must_raise(ms.mie_coefficients, backend="pena", return_internal=True, **kw)
        elif kind == "n_max_zero":
            kw = dict(k0=t64([0.01]), r_layers=t64([50.0, 60.0]), eps_layers=t64([2.0, 4.0]))
            lib(call, FUNCS[a % 2], dict(kw, n_max=1))
            must_raise(call, FUNCS[a % 2], dict(kw, n_max=-(a % 3)))
        rec.obs(2)
    finally:
        shutil.rmtree(d, True)


SUBS = [
    Sub("layers", s_layers(), t_layers, 960),
    Sub("legacy", s_legacy(), t_legacy, 480),
    Sub("particle", s_particle(), t_particle, 640),
    Sub("misc", s_misc(), t_misc, 320),
]
RULE = ("a valid configuration (1-3 particles x 1-3 wavelengths x 1-4 layers; legacy; Particle; helper call) and one invalid neighbour of it, in "
        "all four observables; the valid one must be accepted, the invalid one rejected; every distinct case counts")
ASSUMPTIONS = ["any ordinary exception is a rejection"]
