"""torchGDM bridge: effective dipoles, global polarizability matrices, autodiff patches."""
import contextlib
import importlib
import subprocess
import sys
import warnings

import ref
import pbt
from pbt import Sub, st, check, must_raise
from gen import *
from api import *

with contextlib.redirect_stdout(None):
    import torchgdm as tg
    import torchgdm.linearsystem as ls
T = importlib.import_module("pymiediff.helper.tg")
F32 = torch.float32


def unit(mu, ph):
    s = math.sqrt(1 - mu * mu)
    return np.array([s * math.cos(ph), s * math.sin(ph), mu])


def fib(n):
    i = np.arange(n) + 0.5
    mu, ph = 1 - 2 * i / n, math.pi * (1 + 5 ** 0.5) * i
    s = np.sqrt(1 - mu ** 2)
    return np.stack([s * np.cos(ph), s * np.sin(ph), mu], 1)


@st.composite
def s_part(draw, x_lo, x_hi, max_layers=4, max_k=3, classes=("dielectric", "absorbing", "metal", "weak"), mx_hi=6.0, im_hi=3.0):
    """a particle (constant materials) and wavelengths, single-precision numbers"""
    ne = pick(draw, (1.0, 1.33, 1.5, 1.0)) if draw(st.booleans()) else float(np.float32(U(draw, 1.0, 1.8)))
    L = draw(st.integers(1, max_layers))
    n = [index(draw, ne, classes)[0] for _ in range(L)]
    wl = [float(np.float32(U(draw, 400.0, 1200.0))) for _ in range(draw(st.integers(1, max_k)))]
    x = LOGU(draw, x_lo, x_hi)
    k = 2 * math.pi / min(wl)
    ro = x / (k * ne)
    ro = min(ro, mx_hi / (k * max(abs(complex(*v)) for v in n)))
    nim = max(v[1] for v in n)
    if nim > 0:
        ro = min(ro, im_hi / (k * nim))
    return dict(ne=ne, n=n, wl=wl, r=[f * ro for f in fractions(draw, L, 0.05)], api=draw(st.integers(0, 2)),
                backend=pick(draw, (None, None, "pena") + (("torch", "scipy") if L <= 2 else ())))


def particle(b, r=None):
    L = len(b["r"])
    r = t64(b["r"]) if r is None else r
    n = [complex(*v) for v in b["n"]]
    n = [v if v.imag else v.real for v in n]
    if b["api"] == 1 and L <= 2:
        kw = dict(r_core=r[0], mat_core=n[0])
        if L == 2:
            kw.update(r_shell=r[1], mat_shell=n[1])
        return lib(pmd.Particle, mat_env=b["ne"], **kw)
    if b["api"] == 2:
        return lib(pmd.Particle, r_layers=r, eps_layers=torch.tensor([v ** 2 + 0j for v in n]), mat_env=pmd.materials.MatConstant(b["ne"] ** 2))
    return lib(pmd.Particle, r_layers=r, mat_layers=n, mat_env=b["ne"])


def exact(b, i, N):
    """reference coefficients a_n, b_n, n = 1..N, with the rounding of the stored materials"""
    k0 = float(2 * np.pi / np.float32(b["wl"][i]))
    n = []
    for v in b["n"]:
        e = complex(*v) ** 2
        n.append(np.sqrt(complex(np.complex64(e)) if b["api"] != 2 else e))
    c = ref.Sphere(k0, b["r"], n, float(np.sqrt(float(np.float32(b["ne"] ** 2)))), N)
    return k0, np.array([complex(v) for v in c.a][-N:]), np.array([complex(v) for v in c.b][-N:])


# ------------------------------------------------------------------ effective dipoles
@st.composite
def s_dip(draw):
    b = draw(s_part(0.1, 2.5))
    b.update(N=draw(st.integers(1, 5)), wform=draw(st.integers(0, 4)), env=draw(st.booleans()), tol=U(draw, 0.01, 0.3),
             r0=[U(draw, -500, 500) for _ in range(3)] if draw(st.booleans()) else None,
             plane=pick(draw, ("xz", "yz")), ang=U(draw, -3, 3), pol=(lambda a: [math.cos(a), math.sin(a)])(U(draw, 0, 6.2)))
    return b


def wls(b):
    f, w = b["wform"], b["wl"]
    if f == 0:
        return torch.tensor(w, dtype=F32)
    if f == 1:
        return t64(w)
    if f == 2:
        return list(w)
    if f == 3:
        return np.array(w)
    return torch.tensor(w[0]) if len(w) == 1 else torch.tensor(w)


def sim(structs, ne, wl, fields, **kw):
    env = tg.env.freespace_3d.EnvHomogeneous3D(env_material=ne ** 2)
    s = tg.simulation.Simulation(structures=structs, environment=env, illumination_fields=fields,
                                 wavelengths=torch.tensor(wl, dtype=F32), **kw)
    s.run(verbose=False, progress_bar=False)
    return s


def wave(plane, ang, p=1.0, s=0.0):
    return tg.env.freespace_3d.PlaneWave(e0p=p, e0s=s, inc_angle=ang, inc_plane=plane)


def t_dip(b, rec):
    p = particle(b)
    K, N = len(b["wl"]), b["N"]
    ex = [exact(b, i, max(N, 2)) for i in range(K)]
    kw = dict(n_env=b["ne"]) if b["env"] else {}
    if N != 2:
        kw["n_max"] = N
    t = 2e-4
    a, bb = lib(T.mie_ab_sphere_3d_AD, p, wls(b), backend=b["backend"], **kw)
    for nm, v, j in (("a_n", a, 1), ("b_n", bb, 2)):
        w = np.stack([e[j][:N] for e in ex])
        o = npy(v)
        check(o.shape == (K, N), "%s: shape %s, expected (wavelengths, orders)" % (nm, o.shape))
        # closed-form backends lose digits in high orders: the scale of lower orders decides
        # and the materials are rounded to single precision: the larger coefficient of an order decides for tiny ones
        w2 = np.stack([np.maximum(np.abs(e[1][:N]), np.abs(e[2][:N])) for e in ex])
        s = np.maximum(np.maximum(np.abs(w), 0.01 * w2), 1e-5 * np.abs(w).max(axis=1, keepdims=True)) + 1e-7
        rec.obs(close(o / s, w / s, t, 0, "torchGDM %s" % nm))
    d = lib(T.mie_ab_sphere_3d_AD, p, wls(b), backend=b["backend"], as_dict=True, **kw)
    check(torch.equal(d["a_n"], a) and torch.equal(d["b_n"], bb), "as_dict changes the coefficients")
    close(npy(d["wavelengths"]), np.array(b["wl"]), 1e-9, 1e-6, "wavelengths of the dictionary")
    close(np.asarray(float(d["r_enclosing"])), np.asarray(b["r"][-1]), 0, 1e-6, "enclosing radius")
    nn = npy(d["n_env"]).reshape(-1)
    close(nn, np.full(nn.shape, b["ne"] + 0j), 1e-6, 0, "host index of the dictionary")
    # polarizability
    kw = dict(n_env=b["ne"]) if b["env"] else {}
    if b["r0"] is not None:
        kw["r0"] = (torch.tensor(b["r0"]), b["r0"], np.array([b["r0"]]))[b["wform"] % 3]
    with warnings.catch_warnings(record=True) as rw:
        warnings.simplefilter("always")
        s = lib(T.StructAutodiffMieEffPola3D, p, wls(b), backend=b["backend"], quadrupol_tol=b["tol"], verbose=False, **kw)
    txt = " ".join(str(v.message) for v in rw)
    for q, j in (("electric", 1), ("magnetic", 2)):
        c2 = np.array([abs(e[j][1]) for e in ex])
        if np.abs(c2 / b["tol"] - 1).min() > 1e-3:
            check(("%s quadrupole" % q in txt) == bool((c2 > b["tol"]).any()), "warning about the %s quadrupole: %r, |coefficients| %s, tolerance %s" % (q, txt, c2, b["tol"]))
    k0 = np.array([e[0] for e in ex])
    aE = 1.5j * np.array([e[1][0] for e in ex]) / k0 ** 3 / b["ne"]
    aM = 1.5j * np.array([e[2][0] for e in ex]) / k0 ** 3 / b["ne"] ** 3
    env = tg.env.freespace_3d.EnvHomogeneous3D(env_material=b["ne"] ** 2)
    for i in range(K):
        al = npy(s.get_polarizability_6x6(b["wl"][i], env)).reshape(6, 6)
        w = np.diag([aE[i]] * 3 + [aM[i]] * 3)
        sc = np.full((6, 6), abs(aE[i]) * 1e-9)
        sc[range(6), range(6)] = [abs(aE[i])] * 3 + [abs(aM[i])] * 3
        sc = np.maximum(sc, 1e-5 * max(abs(aE[i]), abs(aM[i])) + 1e-7 * 1.5 / k0[i] ** 3)
        rec.obs(close(al / sc, w / sc, 2e-4, 0, "polarizability at wavelength %d" % i))
    r0 = b["r0"] or [0.0, 0.0, 0.0]
    close(npy(s.r0).reshape(-1), np.array(r0), 1e-3, 0, "position")
    # extinction of the coupled-dipole simulation: dipole part of the Mie series
    with contextlib.redirect_stdout(None):
        S = sim([s], b["ne"], b["wl"], [wave(b["plane"], b["ang"], *b["pol"])])
        cs = S.get_spectra_crosssections(progress_bar=False)
    kk = k0 * b["ne"]
    w = 6 * math.pi / kk ** 2 * np.array([(e[1][0] + e[2][0]).real for e in ex])
    o = npy(cs["ecs"]).reshape(-1)
    wl = npy(cs["wavelengths"]).reshape(-1)
    order = np.array([int(np.argmin(np.abs(np.array(b["wl"]) - v))) for v in wl])
    close(np.array(b["wl"])[order], wl, 0, 1e-6, "wavelengths of the simulation")
    mag = 6 * math.pi / kk ** 2 * np.array([abs(e[1][0]) + abs(e[2][0]) for e in ex])
    if abs(b["ne"]) > 0:
        rec.obs(close(o / mag[order], (w / mag)[order], 2e-3, 0, "extinction of the effective dipole"))
    rec.label("L=%d" % len(b["r"]), "backend=%s" % b["backend"], "api=%d" % b["api"], "n_max=%d" % N)
    rec.nontrivial()


# ------------------------------------------------------------------ global polarizability matrix
@st.composite
def s_gpm(draw):
    b = draw(s_part(0.3, 1.5, max_layers=3, max_k=1, mx_hi=4.0, im_hi=2.0))
    for _ in range(pick(draw, (0, 1, 1, 2))):
        b["wl"].insert(draw(st.integers(0, 1)), float(np.float32(b["wl"][0] * (U(draw, 1.02, 1.8) if len(b["wl"]) == 1 else 1.27))))
    b.update(rform=pick(draw, (0, 1, 2, 0, 1, 2, 3)), env=draw(st.booleans()), r0=[U(draw, -300, 300) for _ in range(3)] if draw(st.booleans()) else None,
             plane=pick(draw, ("xz", "yz")), ang=U(draw, -3, 3), pol=(lambda a: [math.cos(a), math.sin(a)])(U(draw, 0, 6.2)),
             pts=[[U(draw, -1, 1), U(draw, -3, 3), LOGU(draw, 1.05, 5.0)] for _ in range(4)])
    return b


def t_gpm(b, rec):
    R = b["r"][-1]
    n_pr = 110
    kw = dict(n_env=b["ne"]) if b["env"] else {}
    if b["r0"] is not None:
        kw["r0"] = b["r0"]
    add = 0.35 * R + 10.0
    if b["rform"] == 0:
        rg = 24
    elif b["rform"] == 1:
        rg = torch.tensor(fib(24) * R * 0.55 * (0.3 + 0.7 * (np.arange(24) % 3)[:, None] / 2), dtype=F32)
    else:
        rg = 26.0
    if b["rform"] == 3:  # automatic positions
        rg = None
        kw.update(r_probe_add=add)
    else:
        kw.update(r_probe=torch.tensor(fib(n_pr) * (R + add)))
    p = particle(b)
    K = len(b["wl"])
    s = lib(T.StructAutodiffMieGPM3D, p, torch.tensor(b["wl"]), rg, n_src_pw_angles=6, n_max=6,
            backend=b["backend"], verbose=False, progress_bar=False, **kw)
    g = s.gpm_dict[0]
    n = int(g["n_gpm_dp"])
    check(tuple(g["GPM_N6xN6"].shape) == (K, 6 * n, 6 * n) and tuple(g["r_gpm"].shape) == (n, 3), "shapes of the GPM")
    check(n == {0: 24, 1: 24, 2: 26, 3: 36}[b["rform"]], "number of GPM dipoles")
    check(float(g["r_gpm"].norm(dim=-1).max()) < R, "GPM dipoles outside the particle")
    close(np.asarray(float(g["enclosing_radius"])), np.asarray(R), 0, 1e-6, "enclosing radius")
    close(npy(g["wavelengths"]), np.array(b["wl"]), 0, 1e-6, "wavelengths of the GPM")
    close(npy(g["k0_spectrum"]), 2 * math.pi / np.array(b["wl"]), 0, 1e-6, "wavevectors of the GPM")
    with contextlib.redirect_stdout(None):
        S = sim([s], b["ne"], b["wl"], [wave(b["plane"], b["ang"], *b["pol"])])
        cs = npy(S.get_spectra_crosssections(progress_bar=False)["ecs"]).reshape(-1)
        check(cs.size == K, "extinction spectrum of the GPM: %d values for %d wavelengths" % (cs.size, K))
        r0 = np.array(b["r0"] or [0.0, 0.0, 0.0])
        pts = np.array([unit(m, f) * (R + add) * q for m, f, q in b["pts"]])
        f = S.get_nearfield(b["wl"][-1], r_probe=torch.tensor(np.concatenate((r0[None], r0 + pts)), dtype=F32), progress_bar=False)
    ks = 2 * math.pi / np.array(b["wl"], dtype=np.float32).astype(float)
    kp = dict(r_layers=t64(b["r"]), eps_layers=eps_of(b["n"]), eps_env=t64(b["ne"] ** 2))
    m = lib(ms.cross_sections, k0=t64(ks), **kp)
    ext = npy(m["cs_ext"]).reshape(-1)
    # forward amplitude as scale: a lossless particle may scatter little
    S0 = npy(lib(ms.angular_scattering, theta=t64([0.0, 1.0]), k0=t64(ks), **kp)["S1"])[0, :, 0]
    amp = 4 * math.pi / (ks * b["ne"]) ** 2 * np.abs(S0)
    for i in range(K):
        geo = max(ext[i], float(m["cs_sca"].reshape(-1)[i]), 1e-9, amp[i])
        rec.obs(close(cs[i:i + 1], ext[i:i + 1], 0.02 * geo, 0, "extinction of the GPM, wavelength %d of %d" % (i, K)))
    k0 = float(ks[-1])
    E0, H0 = npy(f["inc"].get_efield())[0], npy(f["inc"].get_hfield())[0]
    e, h = E0[0], H0[0]
    A = np.linalg.norm(e)
    ph = e[np.argmax(np.abs(e))]
    ph = ph / abs(ph)
    x, y = (e / ph / A).real, (h / ph / np.linalg.norm(h)).real
    Q = np.stack([x, y, np.cross(x, y)])
    q = lib(ms.nearfields, k0=t64([k0]), r_probe=t64(pts @ Q.T), r_layers=t64(b["r"]), eps_layers=eps_of(b["n"]), eps_env=t64(b["ne"] ** 2))
    for nm, got, inc in (("E", npy(f["sca"].get_efield())[0], E0), ("H", npy(f["sca"].get_hfield())[0], H0)):
        w = npy(q[nm + "_s"]).reshape(-1, 3) @ Q * A * ph
        got = got[1:]
        sc = np.linalg.norm(w, axis=1, keepdims=True)
        wi = npy(q[nm + "_i"]).reshape(-1, 3) @ Q * A * ph
        close(inc[1:] / A, wi / A, 1e-4 * (1 + np.abs(k0 * r0).sum()), 0, "incident %s field (harness)" % nm)
        sc = np.maximum(sc, 0.05 * sc.max())
        rec.obs(close(got / sc, w / sc, 0.06, 0, "scattered %s field of the GPM" % nm))
    rec.label("L=%d" % len(b["r"]), "backend=%s" % b["backend"], "rform=%d" % b["rform"], "K=%d" % K, *["wavelengths not ascending"] * (b["wl"] != sorted(b["wl"])))
    rec.nontrivial()


# ------------------------------------------------------------------ patched linear system, combination, gradients
@st.composite
def s_pair(draw):
    kind = pick(draw, ("dipole", "gpm", "dipole", "dipole"))
    b = dict(kind=kind, p=[draw(s_part(0.2, 1.0, max_layers=2, max_k=1, mx_hi=3.0, im_hi=1.5)) for _ in range(2)])
    b["p"][1]["wl"] = b["p"][0]["wl"]
    b["p"][1]["ne"] = b["p"][0]["ne"]
    b.update(d=LOGU(draw, 1.3, 4.0), dir=[U(draw, -1, 1), U(draw, -3, 3)], plane=pick(draw, ("xz", "yz")), ang=U(draw, -3, 3), off=[U(draw, -100, 100) for _ in range(3)])
    return b


SAVE = ((ls.LinearSystemBase, "_get_full_Gdotalpha"), (ls.LinearSystemFullInverse, "_zero_fill_nonpolarizable_fields"),
        (ls.LinearSystemFullMemEff, "_zero_fill_nonpolarizable_fields"), (ls.LinearSystemFullMemEff, "solve"))


@contextlib.contextmanager
def patched(on=True):
    old = [(c, a, c.__dict__.get(a)) for c, a in SAVE]
    try:
        if on:
            lib(T.patch_torchgdm_autodiff)
        yield
    finally:
        for c, a, v in old:
            if v is not None:
                setattr(c, a, v)
            elif a in c.__dict__:
                delattr(c, a)


def t_pair(b, rec):
    q = b["p"]
    for v in q:
        k = 2 * math.pi / v["wl"][0]
        v["r"] = [w * min(1.0, 1.2 / (k * v["ne"] * v["r"][-1])) for w in v["r"]]
    D = b["d"] * (q[0]["r"][-1] + q[1]["r"][-1]) + 5.0
    off = np.array(b["off"])
    pos = [off, off + unit(*b["dir"]) * D]
    wl, ne = q[0]["wl"], q[0]["ne"]
    k0 = 2 * math.pi / wl[0]

    def make(r1=None):
        out = []
        for i, v in enumerate(q):
            p = particle(v, r1 if i == 0 and r1 is not None else None)
            if b["kind"] == "dipole":
                s = lib(T.StructAutodiffMieEffPola3D, p, torch.tensor(wl), backend=v["backend"], r0=pos[i], quadrupol_tol=1e9, verbose=False)
            else:
                R = v["r"][-1]
                s = lib(T.StructAutodiffMieGPM3D, p, torch.tensor(wl), 8, r_probe=torch.tensor(fib(40) * (R + 20)), n_src_pw_angles=4, n_max=4,
                        backend=v["backend"], r0=pos[i], verbose=False, progress_bar=False)
            out.append(s)
        return out

    W = [wave(b["plane"], b["ang"]), wave(b["plane"], b["ang"] + 1.0, 0.0, 1.0)]
    pr = torch.tensor(np.array([unit(0.3, 0.7), unit(-0.8, 2.0)]) * 3 * D + off, dtype=F32)

    def res(structs, **kw):
        with contextlib.redirect_stdout(None):
            S = sim(structs, ne, wl, W, **kw)
            f = S.get_nearfield(wl[0], r_probe=pr, progress_bar=False)["sca"]
            return S.get_spectra_crosssections(progress_bar=False)["ecs"].reshape(-1), torch.cat((f.get_efield(), f.get_hfield()), -1)

    S = make()
    with patched(False):
        e0, f0 = res(S)
    with patched():
        e1, f1 = res(S)
        if b["kind"] == "gpm":
            env = tg.env.freespace_3d.EnvHomogeneous3D(env_material=ne ** 2)
            C = lib(T.combine_gpm_structures_autodiff, S, environment=env)
            check(C.environment is env, "the given environment of the combined structure is not used")
            check(lib(T.combine_gpm_structures_autodiff, S).environment is S[0].environment, "environment of the combined structure")
            e2, f2 = res(C, copy_structures=False)
            C = lib(T.combine_gpm_structures_autodiff, S[::-1])
            e3, f3 = res(C)
    s = npy(e0)
    sE = np.abs(s).max() + 1e-3 * k0 * sum(4 / 3 * math.pi * v["r"][-1] ** 3 for v in q)
    sF = np.abs(npy(f0)).max(axis=(1, 2), keepdims=True)
    rec.obs(close(npy(e1), s, 1e-4 * sE, 0, "extinction with the patched solver"))
    rec.obs(close(npy(f1) / sF, npy(f0) / sF, 1e-4, 0, "fields with the patched solver"))
    if b["kind"] == "gpm":
        rec.obs(close(npy(e2), s, 5e-4 * sE, 0, "extinction of the combined GPM structure"))
        rec.obs(close(npy(f2) / sF, npy(f0) / sF, 5e-4, 0, "fields of the combined GPM structure"))
        rec.obs(close(npy(e3), s, 5e-4 * sE, 0, "extinction of the combined structure, reversed"))
    # derivative with respect to the radii of the first particle
    r = t64(q[0]["r"]).requires_grad_()
    w = rndv(len(q[0]["r"]))
    dr = t64(np.array(q[0]["r"]) * w)

    def objective(rr, grad=False):
        S = make(rr)
        if b["kind"] == "dipole":
            d = [dict(r0=v.r0, r0_MD=v.r0, r0_ED=v.r0, alpha_6x6=v.alpha_data[0], wavelengths=torch.tensor(wl, dtype=F32), environment=v.environment,
                      enclosing_radius=w["r"][-1], k0_spectrum=torch.tensor([k0], dtype=F32)) for v, w in zip(S, q)]
            e, f = res(tg.struct.StructEffPola3D(positions=torch.tensor(np.array(pos), dtype=F32), alpha_dicts=d, device="cpu"), copy_structures=False)
        else:
            C = lib(T.combine_gpm_structures_autodiff, S, environment=tg.env.freespace_3d.EnvHomogeneous3D(env_material=ne ** 2))
            e, f = res(C, copy_structures=False)
        return (e.sum() / sE + (f.abs() ** 2).sum() / float((sF ** 2).sum()))

    with patched():
        F = objective(r)
        try:
            (G,) = torch.autograd.grad(F, r)
        except Exception as ex:
            raise Violation("backward pass through the coupled simulation failed: %s" % str(ex)[:300])
        ad = float((G * dr).sum())
        if b["kind"] == "dipole":
            h = 0.02

            def fd(h):
                with torch.no_grad():
                    return float((8 * (objective(r + h * dr) - objective(r - h * dr)) - (objective(r + 2 * h * dr) - objective(r - 2 * h * dr))) / (12 * h))

            d1, d2 = fd(h), fd(h / 2)
            check(abs(ad - d2) <= 2e-3 * (1 + abs(d2)) + 3 * abs(d1 - d2) or abs(d1 - d2) > 0.1 * (1 + abs(d2)),
                  "derivative of the coupled system with respect to the radii: %.6g, differences %.6g" % (ad, d2))
        else:
            check(math.isfinite(ad) and abs(ad) > 0, "gradient of the coupled GPM simulation: %r" % ad)
    rec.label(b["kind"], *["L=%d" % len(v["r"]) for v in q])
    rec.nontrivial()


def rndv(n):
    return np.array([(0.37 + 0.61 * i) % 1.0 + 0.2 for i in range(n)])


# ------------------------------------------------------------------ gradients of single structures
@st.composite
def s_grad(draw):
    b = draw(s_part(0.3, 1.2, max_layers=3, max_k=2, mx_hi=3.5, im_hi=2.0))
    b["backend"] = pick(draw, (None, "pena", "torch", "scipy")) if len(b["r"]) < 3 else None
    b["api"] = 2 * draw(st.integers(0, 1))
    b["gpm"] = draw(st.integers(0, 3)) == 0
    if b["gpm"]:
        b["wl"] = b["wl"][:1]
    return b


def t_gradients(b, rec):
    """derivative of the extinction of a structure with respect to radii: that of the Mie series"""
    r = t64(b["r"]).requires_grad_()
    p = particle(b, r)
    K = len(b["wl"])
    w = torch.tensor([1.0, -0.6][:K], dtype=torch.float64)
    if b["gpm"]:
        R = b["r"][-1]
        s = lib(T.StructAutodiffMieGPM3D, p, torch.tensor(b["wl"]), 24, r_probe=torch.tensor(fib(110) * (1.35 * R + 10)), n_src_pw_angles=6,
                n_max=6, backend=b["backend"], verbose=False, progress_bar=False)
    else:
        s = lib(T.StructAutodiffMieEffPola3D, p, torch.tensor(b["wl"]), backend=b["backend"], quadrupol_tol=1e9, verbose=False)
    with contextlib.redirect_stdout(None):
        S = sim([s], b["ne"], b["wl"], [wave("xz", 0.4)], copy_structures=False)
        cs = S.get_spectra_crosssections(progress_bar=False)
    o = torch.stack([cs["ecs"].reshape(-1)[int(np.argmin(np.abs(npy(cs["wavelengths"]).reshape(-1) - v)))] for v in b["wl"]])
    try:
        (G,) = torch.autograd.grad((o * w).sum(), r)
    except Exception as e:
        raise Violation("backward pass through torchGDM failed: %s" % str(e)[:300])
    r2 = t64(b["r"]).requires_grad_()
    k0 = 2 * math.pi / t64(b["wl"])
    m = lib(ms.cross_sections, k0=k0, r_layers=r2, eps_layers=eps_of(b["n"]), eps_env=t64(b["ne"] ** 2), n_max=12)
    if b["gpm"]:
        v = m["cs_ext"].reshape(-1)
    else:
        v = m["cs_ext_multipoles"].reshape(2, -1, K)[:, 0].sum(0)
    (W,) = torch.autograd.grad((v * w).sum(), r2)
    # scale: amplitudes (a lossless particle extinguishes little), torchGDM uses single precision
    c = lib(ms.mie_coefficients, k0=k0, r_layers=t64(b["r"]), eps_layers=eps_of(b["n"]), eps_env=t64(b["ne"] ** 2), n_max=2)
    amp = 6 * math.pi / (npy(k0) * b["ne"]) ** 2 * (np.abs(npy(c["a_n"])) + np.abs(npy(c["b_n"]))).reshape(2, -1, K)[0].sum(0)
    sc = amp.sum() / b["r"][-1]
    rec.obs(close(npy(G), npy(W), (0.03 if b["gpm"] else 2e-3) * (np.abs(npy(W)).max() + sc), 0, "derivative of the extinction with respect to the radii"))
    rec.label("gpm" if b["gpm"] else "dipole", "L=%d" % len(b["r"]), "backend=%s" % b["backend"])
    rec.nontrivial()


# ------------------------------------------------------------------ rotations, illuminations, missing dependency
@st.composite
def s_misc(draw):
    return dict(al=[U(draw, -7, 7), U(draw, -7, 7)], dt=draw(st.booleans()), form=draw(st.integers(0, 2)), n=draw(st.integers(1, 20)),
                planes=draw(st.lists(st.sampled_from(["xz", "xy", "yz"]), min_size=1, max_size=3, unique=True)), default=draw(st.booleans()))


def t_misc(b, rec):
    from torchgdm.tools import geometry
    dt = torch.float64 if b["dt"] else F32
    e = 1e-12 if b["dt"] else 1e-6
    for ax in range(3):
        f = getattr(T, "rotation_" + "xyz"[ax])
        a1, a2 = b["al"]
        A = lambda a: lib(f, (a, torch.tensor(a, dtype=torch.float64), np.float64(a))[b["form"]], **(dict(DTYPE_FLOAT=dt) if b["dt"] else {}))
        M = npy(A(a1))
        check(M.shape == (3, 3) and A(a1).dtype == dt, "rotation matrix: shape or type")
        i, j = (ax + 1) % 3, (ax + 2) % 3
        w = np.eye(3)
        w[i, i] = w[j, j] = math.cos(a1)
        w[j, i], w[i, j] = math.sin(a1), -math.sin(a1)
        rec.obs(close(M, w, e * 4, 0, "rotation matrix"))
        rec.obs(close(M @ npy(A(a2)), npy(A(a1 + a2)), e * 10, 0, "rotations add up"))
        close(M, npy(getattr(geometry, "rotation_" + "xyz"[ax])(a1)), 2e-6, 0, "rotation matrix vs torchGDM")
    kw = {} if b["default"] else dict(inc_planes=list(b["planes"]))
    pl = ["xz", "xy"] if b["default"] else b["planes"]
    c = lib(T.setup_plane_waves_configs, b["n"], **kw)
    got = sorted((round(float(v["angle"]), 5), v["inc_plane"], v["polarization"]) for v in c)
    want = sorted((round(2 * math.pi * i / b["n"], 5), q, s) for i in range(b["n"]) for q in pl for s in "sp")
    check(len(got) == len(want) and all(abs(u[0] - v[0]) < 3e-5 and u[1:] == v[1:] for u, v in zip(got, want)), "illumination configurations")
    rec.obs(len(want))
    rec.nontrivial()


CODE = """
import sys, importlib.abc
class B(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        return None
import importlib.machinery as m
sys.path.insert(0, %r)
old = m.PathFinder.find_spec
m.PathFinder.find_spec = classmethod(lambda c, n, p=None, t=None: None if n.split('.')[0] == 'torchgdm' else old(n, p, t))
import torch, pymiediff as pmd
from pymiediff.helper import tg
p = pmd.Particle(r_layers=torch.tensor([%r]), mat_layers=[%r])
q = p.get_cross_sections(k0=torch.tensor([0.01], dtype=torch.float64))['q_ext']
assert bool(torch.isfinite(q).all())
for c in (tg.StructAutodiffMieEffPola3D, tg.StructAutodiffMieGPM3D):
    try:
        c(p, wavelengths=torch.tensor([600.0]))
    except RuntimeError as e:
        assert 'torchgdm' in str(e), e
    else:
        raise SystemExit('accepted')
tg.patch_torchgdm_autodiff()
print('fine')
"""


@st.composite
def s_missing(draw):
    return dict(r=round(U(draw, 5, 300), 2), n=round(U(draw, 1.2, 4), 3))


def t_missing(b, rec):
    r = subprocess.run([sys.executable, "-c", CODE % (pbt.REPO + "/src", b["r"], b["n"])], capture_output=True, text=True, timeout=300)
    check(r.stdout.strip() == "fine", "without torchgdm: %s" % (r.stdout + r.stderr)[-400:])
    rec.obs()
    rec.nontrivial()


SUBS = [
    Sub("dipole", s_dip(), t_dip, 320),
    Sub("gpm", s_gpm(), t_gpm, 32),
    Sub("coupled", s_pair(), t_pair, 40),
    Sub("gradients", s_grad(), t_gradients, 64),
    Sub("misc", s_misc(), t_misc, 160),
    Sub("missing", s_missing(), t_missing, 3, thorough=12),
]
RULE = ("particles of 1-4 layers given in three ways, 1-3 wavelengths, all backends: coefficients, polarizabilities and torchGDM simulations against the "
        "Mie series; GPM fields at 4 random positions for a random incidence; pairs of particles with and without the autodiff patches; radii gradients; "
        "every distinct case counts")
ASSUMPTIONS = ["torchGDM works in single precision; GPM accuracy 2% (extinction) and 6% (fields) with 24 dipoles", "installed torchGDM is trusted"]
