"""Coordinate and field-basis transformations."""
import mpmath as mp
import pbt
from pbt import Sub, st, check
from gen import *
from api import *

H = pmd.helper


@st.composite
def s_pts(draw):
    P = []
    sc = LOGU(draw, 1e-3, 1e5)
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 9))
        if k == 0:
            v = [0.0, 0.0, pick(draw, (1.0, -1.0)) * sc]  # poles
        elif k == 1:
            v = [pick(draw, (1.0, -1.0)) * sc * LOGU(draw, 1e-9, 1e-3), sc * LOGU(draw, 1e-9, 1e-3), pick(draw, (1.0, -1.0)) * sc]  # near the poles
        elif k == 2:
            v = [pick(draw, (-1.0, 0.0, 1.0)) * sc, pick(draw, (-1.0, 0.0, 1.0)) * sc, 0.0]  # axes, maybe the origin
        elif k == 3:
            v = [-sc, pick(draw, (1.0, -1.0)) * sc * LOGU(draw, 1e-9, 1e-3), U(draw, -1, 1) * sc]  # next to the cut of phi
        else:
            v = [sc * U(draw, -1, 1) for _ in range(3)]
        P.append(v)
    F = [[[U(draw, -1, 1), U(draw, -1, 1)] for _ in range(3)] for _ in P]
    return dict(p=P, f=F, shape=draw(st.integers(0, 3)), cplx=draw(st.booleans()), grad=draw(st.booleans()))


def shp(t, k):
    if k == 1:
        return t.reshape(1, -1)
    if k == 2 and t.numel() == 1:
        return t.reshape(())
    if k == 3:
        return noncontig(t)
    return t


def exact(v):
    with mp.mp.workdps(40):
        x, y, z = [mp.mpf(float(q)) for q in v]
        r = mp.sqrt(x * x + y * y + z * z)
        th = mp.atan2(mp.sqrt(x * x + y * y), z)
        ph = mp.atan2(y, x) if (x or y) else mp.mpf(0)
        return float(r), float(th), float(ph)


def t_coord(b, rec):
    p = np.array(b["p"])
    x, y, z = [shp(torch.as_tensor(p[:, i].copy()), b["shape"]) for i in range(3)]
    if b["grad"]:
        x, y, z = [v.clone().requires_grad_() for v in (x, y, z)]
    r, th, ph = lib(H.transform_xyz_to_spherical, x, y, z)
    for o in (r, th, ph):
        check(o.shape == x.shape, "shape of the spherical coordinates")
    R, T, F = [npy(o).reshape(-1) for o in (r, th, ph)]
    for i, v in enumerate(p):
        e = exact(v)
        s = e[0]
        check(abs(R[i] - e[0]) <= 1e-14 * s, lambda: "r of %s: %r, expected %r" % (v, R[i], e[0]))
        if s == 0:
            check(0 <= T[i] <= math.pi and abs(F[i]) <= math.pi, "angles of the origin: %s %s" % (T[i], F[i]))
            continue
        check(abs(T[i] - e[1]) <= 4e-15 + 1e-13 * e[1], lambda: "theta of %s: %r, expected %r" % (v, T[i], e[1]))
        on = v[0] == 0 and v[1] == 0
        if on:
            check(np.isfinite(F[i]), "phi on the z axis")
        else:
            d = abs(F[i] - e[2])
            check(min(d, 2 * math.pi - d) <= 1e-14 + 1e-13 * abs(e[2]), lambda: "phi of %s: %r, expected %r" % (v, F[i], e[2]))
        rec.obs(3)
    X = lib(H.transform_spherical_to_xyz, r, th, ph)
    for i, q in enumerate(X):
        rec.obs(close(npy(q).reshape(-1) / (R + 1e-300), p[:, i] / (R + 1e-300), 1e-14, 0, "round trip of %s" % "xyz"[i]))
    if b["grad"]:
        # analytic Jacobian of r, theta, phi away from the axis; finite everywhere else
        for o, nm in ((r, "r"), (th, "theta"), (ph, "phi")):
            g = torch.autograd.grad(o.sum(), (x, y, z), retain_graph=True, allow_unused=True)
            g = np.stack([npy(v).reshape(-1) if v is not None else np.zeros(len(p)) for v in g], axis=1)
            for i, (a, c, d) in enumerate(p):
                rho2 = a * a + c * c
                rr = math.sqrt(rho2 + d * d)
                if rr == 0:
                    continue
                if rho2 == 0:
                    if nm != "phi":
                        check(np.isfinite(g[i]).all(), "derivative of %s on the z axis: %s" % (nm, g[i]))
                    continue
                rho = math.sqrt(rho2)
                w = dict(r=(a / rr, c / rr, d / rr), theta=(a * d / (rho * rr * rr), c * d / (rho * rr * rr), -rho / rr ** 2),
                         phi=(-c / rho2, a / rho2, 0.0))[nm]
                sc = 1.0 if nm == "r" else 1 / rho
                rec.obs(close(g[i] / sc, np.array(w) / sc, 1e-9, 1e-9, "derivative of %s at %s" % (nm, p[i])))
    rec.label("shape=%d" % b["shape"], "gradient" if b["grad"] else "value")
    rec.nontrivial()


def t_sph(b, rec):
    """from angles: any theta, phi; inverse on the standard domain"""
    p = np.array(b["p"])
    f = np.array(b["f"])
    r = np.abs(p[:, 0]) + 1e-3
    th = (f[:, 0, 0] + 1) * math.pi / 2 * 0.998 + 1e-3
    ph = f[:, 1, 0] * math.pi * 0.999
    T = [shp(torch.as_tensor(v), b["shape"]) for v in (r, th, ph)]
    x, y, z = lib(H.transform_spherical_to_xyz, *T)
    st_ = np.sin(th)
    want = np.stack([r * st_ * np.cos(ph), r * st_ * np.sin(ph), r * np.cos(th)])
    for i, v in enumerate((x, y, z)):
        check(v.shape == T[0].shape, "shape of the cartesian coordinates")
        rec.obs(close(npy(v).reshape(-1) / r, want[i] / r, 1e-14, 0, "xyz"[i]))
    back = lib(H.transform_xyz_to_spherical, x, y, z)
    for v, w, nm in zip(back, (r, th, ph), ("r", "theta", "phi")):
        rec.obs(close(npy(v).reshape(-1), w, 1e-11, 1e-12, "inverse: " + nm))
    # any angles, beyond the standard domain
    th, ph = f[:, 0, 1] * 7.0, f[:, 1, 1] * 13.0
    T = [shp(torch.as_tensor(v), b["shape"]) for v in (r, th, ph)]
    want = np.stack([r * np.sin(th) * np.cos(ph), r * np.sin(th) * np.sin(ph), r * np.cos(th)])
    for i, v in enumerate(lib(H.transform_spherical_to_xyz, *T)):
        rec.obs(close(npy(v).reshape(-1) / r, want[i] / r, 1e-14, 0, "xyz"[i] + " of angles beyond the standard domain"))
    rec.nontrivial()


def t_fields(b, rec):
    """orthonormal right-handed basis: components, norm, cross product, radial direction"""
    p = np.array(b["p"])
    f = np.array(b["f"])
    f = f[..., 0] + (1j * f[..., 1] if b["cplx"] else 0)  # (N, 3) spherical components
    g = np.roll(f, 1, axis=1).conj() * 0.7 + 0.1
    sph = np.array([exact(v) for v in p])
    T = [shp(torch.as_tensor(sph[:, i].copy()), b["shape"]) for i in range(3)]

    def conv(c):
        o = lib(H.transform_fields_spherical_to_cartesian, *[shp(torch.as_tensor(c[:, i].copy()), b["shape"]) for i in range(3)], *T)
        check(all(v.shape == T[0].shape for v in o), "shape of the cartesian components")
        return np.stack([npy(v).reshape(-1) for v in o], axis=1)

    A, B = conv(f), conv(g)
    th, ph = sph[:, 1], sph[:, 2]
    er = np.stack([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)], axis=1)
    et = np.stack([np.cos(th) * np.cos(ph), np.cos(th) * np.sin(ph), -np.sin(th)], axis=1)
    ep = np.stack([-np.sin(ph), np.cos(ph), 0 * ph], axis=1)
    rec.obs(close(A, f[:, :1] * er + f[:, 1:2] * et + f[:, 2:] * ep, 1e-13, 0, "cartesian components"))
    rec.obs(close(np.sum(A * A.conj(), axis=1).real, np.sum(f * f.conj(), axis=1).real, 1e-13, 0, "norm"))
    rec.obs(close(np.sum(A * B, axis=1), np.sum(f * g, axis=1), 1e-13, 0, "scalar product"))
    rec.obs(close(np.cross(A, B), conv(np.cross(f, g)), 1e-12, 0, "cross product (handedness)"))
    # a vector field along the position has only a radial component
    rad = np.zeros_like(f)
    rad[:, 0] = sph[:, 0]
    ok = sph[:, 0] > 0
    rec.obs(close(conv(rad)[ok].real / sph[ok, :1], p[ok] / sph[ok, :1], 1e-13, 0, "radial direction"))
    rec.label("complex" if b["cplx"] else "real")
    rec.nontrivial()


SUBS = [
    Sub("coordinates", s_pts(), t_coord, 2400),
    Sub("angles", s_pts(), t_sph, 800),
    Sub("fields", s_pts(), t_fields, 1600),
]
RULE = ("1-6 points over 8 decades (generic, poles, next to the poles, axes, next to the cut of phi, origin), exact angles from mpmath, "
        "round trips, Jacobians; complex field vectors; every distinct case counts")
ASSUMPTIONS = []
