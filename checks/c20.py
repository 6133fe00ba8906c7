"""Histories of calls in one process against each call alone in a pristine process."""
import random

from pbt import Sub, st, check, Violation, HarnessError
from gen import *
from api import *
import fresh

FUNCS = ("mie_coefficients", "cross_sections", "angular_scattering", "nearfields")
OBS = dict(mie_coefficients=("a_n", "b_n"), cross_sections=("q_ext", "q_sca", "q_abs", "cs_ext", "cs_sca", "cs_abs"),
           angular_scattering=("S1", "S2", "i_unpol"), nearfields=("E_s", "H_s", "E_i", "H_i", "E_t", "H_t"))
MATS = ("Au", "Ag", "Si", "Ge", "SiO2", "TiO2", "constant")
KEYS = ("k0", "r_layers", "eps_layers", "eps_env", "theta", "r_probe")


def same_state():
    s = np.random.get_state()
    return (torch.get_default_dtype(), torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.get_num_threads(),
            torch.are_deterministic_algorithms_enabled(), tuple(sorted(np.geterr().items())), hash(torch.random.get_rng_state().numpy().tobytes()),
            hash(s[1].tobytes()), s[2], hash(random.getstate()), torch.is_anomaly_enabled())


class World:
    """everything a user session shares between calls"""

    def __init__(self, pool, mats):
        self.pool = [{k: torch.as_tensor(np.array(v)) for k, v in p.items()} for p in pool]
        self.mats, self.parts, self.spec = {}, {}, mats

    def arrays(self):
        return [{k: npy(v).copy() for k, v in p.items()} for p in self.pool]

    def mat(self, name):
        if name not in self.mats:
            with torch.inference_mode(False):
                self.mats[name] = pmd.materials.MatConstant(6.25 + 0.5j) if name == "constant" else pmd.materials.MatDatabase(name)
        return self.mats[name]

    def particle(self, i):
        if i not in self.parts:
            s = self.spec[i]
            m = [self.mat(v) if isinstance(v, str) else complex(*v) for v in s["mats"]]
            if s["legacy"] and len(m) <= 2:
                kw = dict(r_core=s["r"][0], mat_core=m[0])
                if len(m) == 2:
                    kw.update(r_shell=s["r"][1], mat_shell=m[1])
            else:
                kw = dict(r_layers=torch.as_tensor(s["r"], dtype=F64), mat_layers=m)
            with torch.inference_mode(False):  # objects outlive the context of the first call
                self.parts[i] = pmd.Particle(mat_env=s["ne"], **self.fresh(kw))
        return self.parts[i]

    @staticmethod
    def fresh(kw):
        return {k: v.clone() if isinstance(v, torch.Tensor) else v for k, v in kw.items()}

    def call(self, op):
        """(result dict, input tensors)"""
        k = op["op"]
        if k == "obs":
            p = self.pool[op["cfg"]]
            kw = {q: p[q] for q in KEYS[:4]}
            if op["func"] == "angular_scattering":
                kw["theta"] = p["theta"]
            if op["func"] == "nearfields":
                kw["r_probe"] = p["r_probe"]
            ins = dict(kw)
            L = p["r_layers"].shape[-1]
            if op["backend"] and L <= 2:
                kw["backend"] = op["backend"]
                if op["backend"] == "torch":
                    kw["which_jn"] = op["jn"]
            if op["n_max"]:
                kw["n_max"] = op["n_max"]
            if op["single"] and kw.get("backend", "pena") == "pena":
                kw["precision"] = "single"
            if op["internal"] and op["func"] == "mie_coefficients" and kw.get("backend", "pena") != "pena":
                kw["return_internal"] = True
            res = getattr(ms, op["func"])(**kw)
            keys = OBS[op["func"]]
            return {q: res[q] for q in keys}, res, ins
        if k == "particle":
            p = self.particle(op["part"])
            k0 = torch.as_tensor([2 * math.pi / w for w in op["wl"]], dtype=F64)
            f = op["func"]
            if op["mode"] == 2:
                k0.requires_grad_(True)
            ins = dict(k0=k0)
            if f == "angular_scattering":
                ins["theta"] = torch.as_tensor(op["th"], dtype=F64)
            if f == "nearfields":
                ins["r_probe"] = torch.as_tensor([[150.0, 20.0, -30.0], [3.0, 4.0, 5.0]], dtype=F64)
            res = {"mie_coefficients": p.get_mie_coefficients, "cross_sections": p.get_cross_sections,
                   "angular_scattering": p.get_angular_scattering, "nearfields": p.get_nearfields}[f](**ins)
            return {q: res[q] for q in OBS[f]}, res, ins
        if k == "material":
            w = torch.as_tensor(op["wl"] if len(op["wl"]) > 1 else op["wl"][0])
            if op["mode"] == 2:
                w.requires_grad_(True)
            e = self.mat(op["name"]).get_epsilon(w)
            return dict(eps=e), dict(eps=e), dict(w=w) if w.is_floating_point() else {}
        if k == "special":
            S = pmd.special
            p = self.pool[op["cfg"]]
            z = p["k0"].reshape(-1)[:1] * p["r_layers"].reshape(-1) * 1.3
            mu = torch.cos(p["theta"])
            n = op["n"]
            ins = dict(z=z, mu=mu)
            zc = z.to(C128)
            v = {0: lambda: S.pi_tau(n, mu), 1: lambda: S.sph_jn(torch.tensor(n), z), 2: lambda: S.sph_yn_torch(n, zc),
                 3: lambda: S.sph_jn_torch(n, zc), 4: lambda: S.pena_D1_n(n, zc), 5: lambda: S.psi(torch.tensor(n), z),
                 6: lambda: pmd.helper.transform_xyz_to_spherical(*p["r_probe"].T), 7: lambda: S.xi_torch(n, zc)}[op["fn"]]()
            v = v if isinstance(v, (tuple, list)) else (v,)
            d = {"v%d" % i: t for i, t in enumerate(v)}
            return d, d, ins
        raise ValueError(k)

    def run(self, op, scribble=False):
        """numpy outputs (and gradients) of one call; checks that it leaves its surroundings alone"""
        k = op["op"]
        if k == "mutate":
            with torch.no_grad():
                self.pool[op["cfg"]][op["key"]].mul_(op["f"])
            return {}
        if k == "fail":
            p = self.pool[op["cfg"]]
            try:
                ms.cross_sections(p["k0"], r_layers=p["r_layers"].flip(-1), eps_layers=p["eps_layers"][..., :1, :0], eps_env=p["eps_env"])
            except Exception:
                return {}
            raise Violation("cross_sections accepted an empty permittivity")
        if k == "device":
            self.particle(op["part"]).set_device("cpu")
            return {}
        if k == "repr":
            str(self.particle(op["part"]))
            str(self.mats)
            return {}
        mode = op["mode"]
        before = same_state()
        diff = {}
        if mode == 2 and k in ("obs", "special"):
            p = self.pool[op["cfg"]]
            diff = {q: p[q] for q in ("k0", "r_layers", "eps_layers") if k == "obs"}
            if k == "special":
                diff = dict(k0=p["k0"], theta=p["theta"])
            for t in diff.values():
                t.requires_grad_(True)
        snap = [{q: (v, v.detach().clone(), v._version) for q, v in p.items()} for p in self.pool]
        ctx = {1: torch.no_grad, 3: torch.inference_mode}.get(mode, torch.enable_grad)
        out = {}
        try:
            with ctx():
                sel, res, ins = self.call(op)
                isnap = {q: v.detach().clone() for q, v in ins.items()}
                out = {q: npy(v).copy() for q, v in sel.items()}
                if mode == 2 and not diff:
                    diff = {q: v for q, v in ins.items() if v.requires_grad}
                if diff and any(v.requires_grad for v in sel.values()):
                    s = sum((v.real * 1.1 + (v.imag * 0.7 if v.is_complex() else 0)).sum() / float(v.detach().abs().max() + 1e-300)
                            for v in sel.values() if v.requires_grad)
                    for rep in range(1 + op["twice"]):
                        gs = torch.autograd.grad(s, list(diff.values()), allow_unused=True, retain_graph=rep < op["twice"])
                    for q, g in zip(diff, gs):
                        if g is not None:
                            out["d/d" + q] = npy(g).copy()
                for q, v in ins.items():
                    if not torch.equal(v.detach(), isnap[q]):
                        raise Violation("%s was modified during the evaluation" % q)
                if scribble:
                    own = {v.untyped_storage().data_ptr() for p in self.pool for v in p.values()} | {v.untyped_storage().data_ptr() for v in ins.values()}
                    with torch.no_grad():
                        for v in sel.values():  # metadata may alias the inputs
                            if isinstance(v, torch.Tensor) and v.untyped_storage().data_ptr() not in own and v.numel() and v.is_inference() == (mode == 3) \
                                    and 0 not in v.stride():
                                v.detach().fill_(3)
        finally:
            for t in diff.values():
                if t.grad is not None:
                    t.grad = None
                t.requires_grad_(False)
        for i, p in enumerate(snap):
            for q, (v, old, ver) in p.items():
                if self.pool[i][q] is not v or not torch.equal(v.detach(), old) or v._version != ver:
                    raise Violation("the call modified the input %s of configuration %d" % (q, i))
                if v.requires_grad:
                    raise Violation("input %s was left with requires_grad" % q)
        if same_state() != before:
            raise Violation("the call changed a global setting or a random number generator: %s -> %s" % (before, same_state()))
        return out


def evaluate(req):
    """in the pristine process"""
    if req.get("dd"):
        torch.set_default_dtype(torch.float64)
    w = World(req["pool"], req["mats"])
    try:
        return w.run(req["op"])
    except Exception as e:
        return dict(error="%s: %s" % (type(e).__name__, str(e)[:200]))


@st.composite
def s_hist(draw):
    pool, mats = [], []
    base = draw(batch(x_lo=0.2, x_hi=6.0, max_layers=3, max_p=2, max_k=2, mx_hi=12.0, im_hi=4.0, classes=("dielectric", "absorbing", "metal", "weak")))
    base["layout"] = "PLK"
    m, q = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    for j in range(draw(st.integers(1, 3))):
        b = base
        if j == 1:  # same shapes, other numbers
            b = dict(base, r=[[v * 0.83 for v in r] for r in base["r"]], k0=[v * 1.05 for v in base["k0"]])
        if j == 2:  # same radii and wavelengths, other materials
            b = dict(base, n=[[[[v[0] * 1.1, v[1]] for v in l] for l in p] for p in base["n"]])
        pool.append(dict(b=b, th=[U(draw, 0.05, 3.1) for _ in range(m)], pos=[[U(draw, -1.6, 1.6) for _ in range(3)] for _ in range(q)]))
    for _ in range(2):
        L = draw(st.integers(1, 3))
        mats.append(dict(r=[U(draw, 20.0, 50.0) + 40 * l for l in range(L)], ne=pick(draw, (1.0, 1.33)), legacy=draw(st.booleans()),
                         mats=[pick(draw, MATS) if draw(st.booleans()) else index(draw, 1.0, ("dielectric", "absorbing"))[0] for _ in range(L)]))
    wls = [U(draw, 450.0, 900.0) for _ in range(4)]
    ops = []
    focus = draw(st.integers(0, 3)) == 0  # many spectra, one object
    one = pick(draw, MATS) if draw(st.integers(0, 3)) == 0 else None  # one material and a particle made of it
    if one:
        mats[0]["mats"][0] = one
    func = pick(draw, (None,) + FUNCS) if focus else None  # ... and one observable
    th0 = [U(draw, 0.05, 3.1) for _ in range(2)] if draw(st.booleans()) else None
    for _ in range(draw(st.integers(2, 9))):
        k = pick(draw, ("material", "material", "particle")) if one else pick(draw, ("particle", "particle", "particle", "material", "device", "repr")) if focus else pick(draw, ("obs", "obs", "obs", "particle", "particle", "material", "special", "mutate", "fail", "device", "repr", "obs"))
        c = draw(st.integers(0, len(pool) - 1))
        o = dict(op=k, cfg=c, mode=0 if draw(st.booleans()) else draw(st.integers(1, 3)), part=0 if focus or one else draw(st.integers(0, 1)), func=func or pick(draw, FUNCS), twice=draw(st.integers(0, 1)))
        if k == "obs":
            o.update(backend=pick(draw, (None, None, "torch", "scipy")), jn=pick(draw, ("recurrence", "ratios")), n_max=pick(draw, (None, None, 3, 5)),
                     single=draw(st.integers(0, 5)) == 0, internal=draw(st.booleans()))
        elif k in ("particle", "material"):
            # spectra with shared values; often equal ends and length, or another order
            wl = [wls[0], pick(draw, wls[2:]), wls[1]]
            wl = [wl, wl[::-1], [wl[1], wl[0], wl[2]], [wl[0], wl[0], wl[2]]][draw(st.integers(0, 3))] if draw(st.booleans()) else \
                [pick(draw, wls) for _ in range(draw(st.integers(1, 3)))]
            if one and k == "material" and draw(st.booleans()):
                wl = wl[:1]
            if func:
                wl = [wls[j] for j in draw(st.permutations(range(3)))]
            th = th0[::pick(draw, (1, -1))] if th0 else [U(draw, 0.05, 3.1) for _ in range(2)]
            o.update(wl=wl, th=th, name=one or pick(draw, MATS))
        elif k == "special":
            o.update(fn=draw(st.integers(0, 7)), n=draw(st.integers(1, 6)))
        elif k == "mutate":
            o.update(key=pick(draw, KEYS), f=pick(draw, (0.9, 1.07)))
        ops.append(o)
    return dict(pool=pool, mats=mats, ops=ops, dd=draw(st.integers(0, 3)) == 0, scribble=draw(st.booleans()) or bool(one))


def arrays(p):
    kw = bkw(dict(p["b"], flags=0))
    d = {k: npy(kw[k]) for k in KEYS[:4]}
    d["eps_env"] = np.array(d["eps_env"])
    d["theta"] = np.array(p["th"])
    d["r_probe"] = np.array(p["pos"]) * float(np.max(d["r_layers"]))
    return {k: np.array(v) for k, v in d.items()}


def t_hist(c, rec):
    old = torch.get_default_dtype()
    try:
        if c["dd"]:
            torch.set_default_dtype(torch.float64)
        w = World([arrays(p) for p in c["pool"]], c["mats"])
        for i, op in enumerate(c["ops"]):
            if op["op"] == "fail" and c["pool"][op["cfg"]]["b"] is None:
                continue
            now = w.arrays()
            try:
                got = w.run(op, c["scribble"])
            except Violation as e:
                raise Violation("call %d (%s): %s" % (i, op["op"], e))
            except Exception as e:
                got = dict(error="%s: %s" % (type(e).__name__, str(e)[:200]))
            rec.label(op["op"], "mode%d" % op["mode"])
            if op["op"] in ("mutate", "fail", "device", "repr"):
                check("error" not in got, lambda: "%s: %s" % (op["op"], got["error"]))
                continue
            want = fresh.ask("checks.c20", dict(pool=now, mats=c["mats"], op=op, dd=c["dd"]))
            what = "call %d (%s %s)" % (i, op["op"], op.get("func", ""))
            if "error" in want:
                raise Violation("%s alone raised %s" % (what, want["error"]))
            check("error" not in got, lambda: "%s raised %s" % (what, got["error"]))
            check(set(got) == set(want), lambda: "%s returns %s, alone it returns %s" % (what, sorted(got), sorted(want)))
            loose = 1e-5 if op.get("backend") else (1e-3 if op.get("single") else 1e-8)
            for q in sorted(want):
                fin = np.isfinite(want[q])
                sc = float(np.abs(want[q][fin]).max()) if fin.any() else 0.0
                check(got[q].shape == want[q].shape and bool((np.isfinite(got[q]) == fin).all()), "%s: %s differs from the call alone" % (what, q))
                rec.obs(close(got[q][fin], want[q][fin], loose * sc, 0, "%s: %s, compared with the call alone in a new process" % (what, q)))
            rec.nontrivial(i > 0)
    finally:
        torch.set_default_dtype(old)


SUBS = [Sub("histories", s_hist(), t_hist, 480)]
RULE = ("histories of 2-9 calls (all observables and backends, Particle objects with shared materials, materials, special functions, rejected calls, "
        "in-place updates of the caller's tensors, no_grad / inference mode / gradients, float64 default type, overwritten results), each compared with "
        "the same call alone in a forked pristine process; non-trivial: distinct history with a comparison after the first call")
ASSUMPTIONS = ["single-threaded torch", "agreement up to rounding (1e-8; closed-form backends 1e-5, precision='single' 1e-3)"]
