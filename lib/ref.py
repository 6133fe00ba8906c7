"""Independent arbitrary-precision reference for light scattering by layered spheres.

Nothing in this file comes from the code under test.  Radial functions are
computed with mpmath: psi_n by a Miller (downward) sweep whose starting order is
chosen from |z| and n, chi_n by the upward recurrence, both with enough guard
digits that cancellation (large orders, strong absorption) cannot matter.
Coefficients come from a 2x2 transfer-matrix march through the layers (not from
closed formulas or log-derivative recursions), so the only thing shared with
the library is the physics.
"""
import math

import numpy as np
import mpmath as mp

mpf, mpc = mp.mpf, mp.mpc


def guard_digits(nmax, zs):
    """digits so that chi/psi, exp(Im z) style cancellation is harmless."""
    im = max([abs(complex(z).imag) for z in zs] + [0.0])
    amin = min([abs(complex(z)) for z in zs] + [1.0])
    # chi_n/psi_n ~ ((2n-1)!!)^2/z^(2n)
    lg = 0.0
    if nmax > amin > 0:
        lg = 2 * (math.lgamma(2 * nmax + 1) - math.lgamma(nmax + 1) - nmax * math.log(2)
                  - nmax * math.log(amin)) / math.log(10)
    return int(30 + 0.9 * im + max(0.0, lg) * 0.5)


def psi_chi(nmax, z):
    """psi_n(z)=z j_n, chi_n(z)=-z y_n for n=0..nmax in the current mp context."""
    z = mpc(z)
    az = float(abs(z))
    # Miller start: well above the transition order so that the seed error is
    # below the working precision
    digits = mp.mp.dps
    start = int(max(nmax, az)) + 20
    # decay of the ratio beyond the transition: find order with log10 decay > digits
    acc = 0.0
    n = int(max(nmax, az)) + 1
    while acc < digits + 10:
        r = az / (2.0 * n + 1)
        # |psi_{n+1}/psi_n| ~ 1/(t+sqrt(t^2-1)), t = (n+.5)/|z|
        t = max((n + 0.5) / az, 1.0 + 1e-9) if az > 0 else 1e9
        acc += math.log10(t + math.sqrt(t * t - 1.0))
        n += 1
    start = max(start, n + 5)
    f = [mpc(0)] * (start + 2)
    f[start + 1] = mpc(0)
    f[start] = mpc(mpf(10) ** (-digits))
    for k in range(start, 0, -1):
        f[k - 1] = (2 * k + 1) / z * f[k] - f[k + 1]
    s, c = mp.sin(z), mp.cos(z)
    p0 = s
    p1 = s / z - c
    if abs(p0) >= abs(p1):
        sc = p0 / f[0]
    else:
        sc = p1 / f[1]
    psi = [f[k] * sc for k in range(nmax + 1)]
    chi = [c, c / z + s]
    for k in range(1, nmax):
        chi.append((2 * k + 1) / z * chi[k] - chi[k - 1])
    return psi, chi[: nmax + 1]


def der(f, f_m1, z, nmax):
    """derivatives of Riccati functions: f_n' = f_{n-1} - n/z f_n."""
    z = mpc(z)
    out = [f_m1]
    for k in range(1, nmax + 1):
        out.append(f[k - 1] - k / z * f[k])
    return out


def riccati(nmax, z):
    """psi, dpsi, chi, dchi  (lists 0..nmax)."""
    z = mpc(z)
    psi, chi = psi_chi(max(nmax, 1), z)
    dpsi = der(psi, mp.cos(z), z, nmax)
    dchi = der(chi, -mp.sin(z), z, nmax)
    return psi[: nmax + 1], dpsi, chi[: nmax + 1], dchi


def xi_of(psi, chi):
    """xi_n = z h^(1)_n = psi - i chi."""
    return [p - 1j * c for p, c in zip(psi, chi)]


class Sphere:
    """Layered sphere at one wavelength, solved in arbitrary precision.

    k0, radii, indices (complex refractive indices), n_env are python numbers
    (exactly the doubles given to the library).
    """

    def __init__(self, k0, radii, n_layers, n_env, nmax, extra=0, exact=False):
        # exact: keep arbitrary-precision inputs
        self.k0 = k0
        self.radii = [r if exact else float(r) for r in radii]
        self.nl = [v if exact else complex(v) for v in n_layers]
        self.ne = n_env if exact or isinstance(n_env, complex) else float(n_env)
        self.nmax = int(nmax)
        zs = [complex(k0 * n * r) for n in self.nl + [self.ne] for r in self.radii]
        self.dps = guard_digits(nmax, zs) + extra
        with mp.mp.workdps(self.dps):
            self._solve()

    def _solve(self):
        k0 = mpf(self.k0)
        R = [mpf(r) for r in self.radii]
        N = [mpc(n) for n in self.nl]
        ne = mpc(self.ne)
        nmax = self.nmax
        L = len(R)
        # per layer (A,B) for TE (u/m, u' continuous) and TM (u'/m, u continuous)
        te = [[(mpc(1), mpc(0))] * (nmax + 1)]
        tm = [[(mpc(1), mpc(0))] * (nmax + 1)]
        for l in range(L):
            nin = N[l]
            nout = N[l + 1] if l + 1 < L else ne
            zi, zo = k0 * nin * R[l], k0 * nout * R[l]
            pi_, dpi, ci, dci = riccati(nmax, zi)
            po, dpo, co, dco = riccati(nmax, zo)
            te_o, tm_o = [None], [None]
            mr = nout / nin
            last = l == L - 1
            for n in range(1, nmax + 1):
                A, B = te[l][n]
                u, du = A * pi_[n] + B * ci[n], A * dpi[n] + B * dci[n]
                U, dU = u * mr, du
                # psi chi' - psi' chi = -1 ... W = psi*chi' - psi'*chi
                W = po[n] * dco[n] - dpo[n] * co[n]
                te_o.append(((U * dco[n] - dU * co[n]) / W, (po[n] * dU - dpo[n] * U) / W))
                A, B = tm[l][n]
                u, du = A * pi_[n] + B * ci[n], A * dpi[n] + B * dci[n]
                U, dU = u, du * mr
                tm_o.append(((U * dco[n] - dU * co[n]) / W, (po[n] * dU - dpo[n] * U) / W))
            te.append(te_o)
            tm.append(tm_o)
        # outside: A psi + B chi = s (psi - a xi) = s((1-a) psi + i a chi)
        # => B/A = i a/(1-a) => a = B/(B + iA) ; s = A/(1-a) = A + B/i = A - iB
        self.a, self.b = [], []
        self.te, self.tm = [], []
        sc_te, sc_tm = [None], [None]
        for n in range(1, nmax + 1):
            A, B = tm[L][n]
            self.a.append(B / (B + 1j * A))
            sc_tm.append(1 / (A - 1j * B))
            A, B = te[L][n]
            self.b.append(B / (B + 1j * A))
            sc_te.append(1 / (A - 1j * B))
        for l in range(L):
            self.te.append([None] + [(te[l][n][0] * sc_te[n], te[l][n][1] * sc_te[n]) for n in range(1, nmax + 1)])
            self.tm.append([None] + [(tm[l][n][0] * sc_tm[n], tm[l][n][1] * sc_tm[n]) for n in range(1, nmax + 1)])

    # -- observables
    def ab(self):
        return (np.array([complex(v) for v in self.a]), np.array([complex(v) for v in self.b]))

    def cross_sections(self):
        with mp.mp.workdps(self.dps):
            k = mpf(self.k0) * mpf(self.ne)
            ext = sca = mpf(0)
            for n in range(1, self.nmax + 1):
                a, b = self.a[n - 1], self.b[n - 1]
                ext += (2 * n + 1) * (a.real + b.real)
                sca += (2 * n + 1) * (abs(a) ** 2 + abs(b) ** 2)
            pre = 2 * mp.pi / k**2
            return float(pre * ext), float(pre * sca), float(pre * (ext - sca))

    def S12(self, theta):
        a, b = self.ab()
        s1, s2 = [], []
        n = np.arange(1, self.nmax + 1)
        for t in np.atleast_1d(theta):
            p, q = pi_tau(self.nmax, float(t))
            w = (2 * n + 1) / (n * (n + 1))
            s1.append(np.sum(w * (a * p + b * q)))
            s2.append(np.sum(w * (a * q + b * p)))
        return np.array(s1), np.array(s2)

    def fields(self, xyz):
        """(E_s, H_s, E_t, H_t) at one cartesian point, doubles in, complex128 out.

        Library convention: x-polarised unit plane wave travelling along +z,
        exp(-i w t); inside the particle the 'scattered' field is the full
        internal field; H in units of the vacuum admittance.
        """
        with mp.mp.workdps(self.dps + 10):
            x, y, z = [mpf(float(v)) for v in xyz]
            r = mp.sqrt(x * x + y * y + z * z)
            rho_xy = mp.sqrt(x * x + y * y)
            if r == 0:
                ct, st = mpf(1), mpf(0)
            else:
                ct, st = z / r, rho_xy / r
            if rho_xy == 0:
                cp, sp = mpf(1), mpf(0)
            else:
                cp, sp = x / rho_xy, y / rho_xy
            reg = len(self.radii)
            for i, R in enumerate(self.radii):
                if r <= mpf(R):
                    reg = i
                    break
            L = len(self.radii)
            nmed = mpc(self.nl[reg]) if reg < L else mpc(self.ne)
            if r == 0:
                # only n=1 N-mode survives: j_1(rho)/rho -> 1/3 ; psi1'/rho -> 2/3
                A = self.tm[0][1][0]
                fac = mpc(0, 1) * mpf(3) / 2
                Ex = -1j * fac * A * mpf(2) / 3
                Hy = -nmed * 1j * fac * self.te[0][1][0] * mpf(2) / 3
                E = np.array([complex(Ex), 0, 0])
                H = np.array([0, complex(Hy), 0])
                return E, H, E.copy(), H.copy()
            k = mpf(self.k0) * nmed
            rho = k * r
            psi, dpsi, chi, dchi = riccati(self.nmax, rho)
            if reg == L:
                xi, dxi = xi_of(psi, chi), xi_of(dpsi, dchi)
            Er = Et = Ep = Hr = Ht = Hp = mpc(0)
            pim1, pin = mpf(0), mpf(1)
            for n in range(1, self.nmax + 1):
                tau = n * ct * pin - (n + 1) * pim1
                En = mpc(0, 1) ** n * mpf(2 * n + 1) / (n * (n + 1))
                if reg == L:
                    ute, dute = -self.b[n - 1] * xi[n], -self.b[n - 1] * dxi[n]
                    utm, dutm = -self.a[n - 1] * xi[n], -self.a[n - 1] * dxi[n]
                else:
                    A, B = self.te[reg][n]
                    ute, dute = A * psi[n] + B * chi[n], A * dpsi[n] + B * dchi[n]
                    A, B = self.tm[reg][n]
                    utm, dutm = A * psi[n] + B * chi[n], A * dpsi[n] + B * dchi[n]
                # E = En (M_o[ute] - i N_e[utm])
                Er += En * (-1j) * cp * n * (n + 1) * st * pin * utm / rho**2
                Et += En * (cp * pin * ute / rho - 1j * cp * tau * dutm / rho)
                Ep += En * (-sp * tau * ute / rho + 1j * sp * pin * dutm / rho)
                # H = -nmed En (M_e[utm] + i N_o[ute])
                Hr += -nmed * En * 1j * sp * n * (n + 1) * st * pin * ute / rho**2
                Ht += -nmed * En * (-sp * pin * utm / rho + 1j * sp * tau * dute / rho)
                Hp += -nmed * En * (-cp * tau * utm / rho + 1j * cp * pin * dute / rho)
                pim1, pin = pin, ((2 * n + 1) * ct * pin - (n + 1) * pim1) / n
            def cart(a, b, c):
                return np.array([
                    complex(a * st * cp + b * ct * cp - c * sp),
                    complex(a * st * sp + b * ct * sp + c * cp),
                    complex(a * ct - b * st)])
            E, H = cart(Er, Et, Ep), cart(Hr, Ht, Hp)
            Et_, Ht_ = E.copy(), H.copy()
            if reg == L:
                ph = complex(mp.exp(1j * mpf(self.k0) * nmed * z))
                Et_[0] += ph
                Ht_[1] += ph * complex(self.ne)
            return E, H, Et_, Ht_


def pi_tau(nmax, theta):
    """pi_n, tau_n for n=1..nmax as float arrays (computed with guard digits)."""
    with mp.mp.workdps(30):
        mu = mp.cos(mpf(theta))
        return pi_tau_mu(nmax, mu)


def pi_tau_mu(nmax, mu):
    with mp.mp.workdps(30):
        mu = mpf(mu)
        p0, p1 = mpf(0), mpf(1)
        P, T = [], []
        for n in range(1, nmax + 1):
            P.append(float(p1))
            T.append(float(n * mu * p1 - (n + 1) * p0))
            p0, p1 = p1, ((2 * n + 1) * mu * p1 - (n + 1) * p0) / n
        return np.array(P), np.array(T)
