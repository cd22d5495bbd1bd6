"""Catalogue of the public interface: every function, its arguments as named physical
quantities, its documented way of taking arrays, its outputs. The dimensions of the outputs
are part of the specification (spec/c_units.qnt, same numbering)."""
import math
import numpy as np
import conc
from conc import j, PI

# dimension of a quantity: (2 * power of length, power of time)
DIM = dict(mu=(6, -2), dt=(0, 1), alpha=(-2, 0), a=(2, 0), ah=(2, 0), chi=(1, 0), s0=(1, 0), s1=(1, 0), r0=(2, 0), r1=(2, 0), v=(2, -1),
           p=(2, 0), h=(4, -1), P=(0, 1), R0=(2, 0), V0=(2, -1), R1=(2, 0), V1=(2, -1), HV=(4, -1), NV=(4, -1), rmin=(2, 0),
           F=(0, 0), G=(0, 1), Ft=(0, -1), Gt=(0, 0), C=(2, 1), X=None, R_eq=(2, 0), U1=(1, 0), U2=(2, 0), U4=(4, 0), U5=(5, 0))
VEC = {"R0", "V0", "R1", "V1", "HV", "NV", "EV"}


class Fn:
    def __init__(self, fid, name, fn, args, bc, nout=1, mu=False, angle=(), slack=None, core=None, outs=None, disc=False, ndef=0):
        self.fid, self.name, self.fn, self.args, self.bc = fid, name, fn, args.split(), bc
        self.nout, self.mu, self.angle, self.slack = nout, mu, angle, slack
        self.core, self.disc = core, disc
        self.outs = outs

    def split(self, y):
        """the answer as a list of flat arrays, one per output of the catalogue"""
        if self.name == "dxdx0":
            y = np.asarray(y)
            return [y[..., :3, :3], y[..., :3, 3:], y[..., 3:, :3], y[..., 3:, 3:]]
        if isinstance(y, (tuple, list)):
            return [np.asarray(q) for q in y]
        return [np.asarray(y)]


def catalogue(adx):
    tb, g, u = adx.twobody, adx.gravity, adx.utils
    out = []

    def add(name, fn, args, bc, **k):
        out.append(Fn(len(out), name, fn, args, bc, **k))
    # bc: "b" broadcasts scalars against each other, "v" vectors (..., 3), "s" all but alpha broadcast,
    # "n" one problem per call (batches through vmap)
    add("kepler_equ_elps", adx.kepler_equ_elps, "E e M", "b")
    add("kepler_equ_hypb", adx.kepler_equ_hypb, "H eh N", "b")
    add("dE", adx.dE, "E e", "b")
    add("dH", adx.dH, "H eh", "b")
    add("mean_anomaly_elps", adx.mean_anomaly_elps, "a dt mu", "b", mu=True)
    add("mean_anomaly_hypb", adx.mean_anomaly_hypb, "ah dt mu", "b", mu=True)
    add("kepler_equ_uni", adx.kepler_equ_uni, "chi alpha r0 s0 dt mu", "s", mu=True)
    add("generalized_anomaly", adx.generalized_anomaly, "alpha s1 s0 dt mu", "b", mu=True)
    add("orb_period", adx.orb_period, "a mu", "b", mu=True)
    add("a_from_period", adx.a_from_period, "P mu", "b", mu=True)
    add("angular_momentum", adx.angular_momentum, "R0 V0", "v", core=(3,))
    add("semimajor_axis", adx.semimajor_axis, "r0 v mu", "b", mu=True)
    add("eccentricity_vector", adx.eccentricity_vector, "R0 V0 mu", "v", mu=True, core=(3,))
    add("semiparameter", adx.semiparameter, "h mu", "b", mu=True)
    add("mean_motion", adx.mean_motion, "P", "b")
    add("equ_of_orbit", adx.equ_of_orbit, "p e f", "b")
    add("equ_of_orb_uvi", adx.equ_of_orb_uvi, "U0 U1 U2 r0 s0", "b")
    add("radius_periapsis", adx.radius_periapsis, "p e", "b")
    add("radius_apoapsis", adx.radius_apoapsis, "p e", "b")
    add("semipara_from_ae", adx.semipara_from_ae, "a e", "b")
    add("a_from_pe", adx.a_from_pe, "p e", "b")
    add("rv2coe", adx.rv2coe, "R0 V0 mu", "v", mu=True, nout=6, angle=(2, 3, 4, 5), core="1")
    add("coe2rv", adx.coe2rv, "p e incl raan argp f mu", "b", mu=True, nout=2, core=(3,))
    add("inclination", adx.inclination, "HV", "v", angle=(0,), core=())
    add("true_anomaly", adx.true_anomaly, "R0 EV", "v", angle=(0,), core=())
    add("right_ascension", adx.right_ascension, "NV", "v", angle=(0,), core=())
    add("argument_of_periapsis", adx.argument_of_periapsis, "NV EV", "v", angle=(0,), core=())
    add("sigma_fn", tb.sigma_fn, "R0 V0 mu", "v", mu=True, core=(1,))
    for n in range(6):
        add("ufunc%d" % n, getattr(tb, "ufunc%d" % n), "chi alpha", "s")
    add("lagrange_F", tb.lagrange_F, "U2 r0", "b")
    add("lagrange_G", tb.lagrange_G, "U1 U2 s0 r0 mu", "b", mu=True)
    add("lagrange_Ft", tb.lagrange_Ft, "U1 r1 r0 mu", "b", mu=True)
    add("lagrange_Gt", tb.lagrange_Gt, "U2 r1", "b")
    add("C_func", tb.C_func, "chi U2 U4 U5 dt mu", "b", mu=True)
    add("prpr0", tb.prpr0, "R1 V1 R0 V0 F C mu", "n", mu=True)
    add("prpv0", tb.prpv0, "R1 V1 R0 V0 F G C mu", "n", mu=True)
    add("pvpr0", tb.pvpr0, "R1 V1 R0 V0 Ft C mu", "n", mu=True)
    add("pvpv0", tb.pvpv0, "R1 V1 R0 V0 F Gt C mu", "n", mu=True)
    add("dxdx0", tb.dxdx0, "R1 V1 R0 V0 dt mu", "n", mu=True, nout=4)
    add("nmax_by_periapsis", tb.nmax_by_periapsis, "rmin r0 r1 dt mu", "n", mu=True, disc=True)
    add("is_short_way", tb.is_short_way, "R0 V0 R1", "n", disc=True)
    add("pass_perigee", tb.pass_perigee, "R0 V0 R1 mu", "n", mu=True, disc=True)
    add("rp_islower_rmin", tb.rp_islower_rmin, "rmin R0 V0 mu", "n", mu=True, disc=True)

    def grav(f, jn):
        if jn is None:
            return lambda t, x, mu: f(t, x, {"mu": mu})
        return lambda t, x, mu, J, R: f(t, x, {"mu": mu, jn: J, "R_eq": R})
    add("point_mass_grav", grav(g.point_mass_grav, None), "dt X mu", "n")
    add("j2_acc", grav(g.j2_acc, "J2"), "dt X mu J R_eq", "n")
    add("j3_acc", grav(g.j3_acc, "J3"), "dt X mu J R_eq", "n")
    add("j4_acc", grav(g.j4_acc, "J4"), "dt X mu J R_eq", "n")
    add("radius_islow", lambda t, x, r: adx.events.radius_islow(t, x, {"rmin": r}), "dt X rmin", "n")
    add("rotmat3dx", u.rotmat3dx, "f", "b", core=(3, 3))
    add("rotmat3dy", u.rotmat3dy, "f", "b", core=(3, 3))
    add("rotmat3dz", u.rotmat3dz, "f", "b", core=(3, 3))
    add("kepler", adx.prop.kepler, "dt R0 V0 mu", "n", mu=True, nout=2, slack="kepler")
    add("solve_kepler_elps", adx.solve_kepler_elps, "M e", "n", slack="elps")
    add("solve_kepler_hypb", adx.solve_kepler_hypb, "N eh", "n", slack="hypb")
    add("solve_kepler_uni", adx.solve_kepler_uni, "dt alpha r0 s0 mu", "n", mu=True, slack="uni")

    # numerical propagation with prescribed steps (no step-size control, hence no absolute scale)
    def vf(t, x, args):
        import jax.numpy as jnp
        return jnp.concatenate([x[3:], g.point_mass_grav(t, x, args) + g.j2_acc(t, x, args)])

    def dyn(mu, J, R):
        return adx.prop.OrbDynx(terms=adx.diffeq.ODETerm(vf), args={"mu": mu, "J2": J, "R_eq": R})

    def fixed(x, dt, mu, J, R):
        s = adx.prop.fixed_steps(dyn(mu, J, R), x, dt, dt / 6, max_steps=8)
        return s.ts[:7], s.ys[:7]

    def final(x, dt, mu, J, R):
        s = adx.prop.to_final(dyn(mu, J, R), x, dt, dt0=dt / 7, max_steps=16, stepsize_controller=adx.diffeq.ConstantStepSize())
        return s.ts[0], s.ys[0]
    add("fixed_steps", fixed, "X dtp mu J R_eq", "n", nout=2)
    return out


def stumpff45(z):
    if abs(z) < 1e-3:
        return 1 / 24 - z / 720 + z * z / 40320, 1 / 120 - z / 5040 + z * z / 362880
    c0, c1, c2, c3 = conc.stumpff(z)
    return (0.5 - c2) / z, (1 / 6 - c3) / z


def sample(c, f32, units=(0, 1, 6, 5, 0, 6, 1)):
    """all quantities for one regime, as floats of the call's precision"""
    c = dict(c)
    c["units"] = units[c["units"] % len(units)]
    t = (lambda x: float(np.float32(x))) if f32 else float
    o = conc.orbit(c, f32)
    dt = conc.span(c, o, f32)
    if f32 and o["alpha"] > 0 and o["e"] < 0.99:
        T = 2 * PI / math.sqrt(o["mu"] * o["alpha"] ** 3)
        dt = t(math.copysign(min(abs(dt), 2 * T), dt))
    mu, q = o["mu"], math.sqrt(o["mu"])
    chi = conc.chi_hint(mu, o["r0"], o["v0"], dt)
    lim = 20.0 if f32 else 200.0
    al = o["alpha"]
    if al < 0 and -al * chi * chi > lim:
        chi = math.copysign(math.sqrt(lim / -al), chi)
    z = al * chi * chi
    c0, c1, c2, c3 = conc.stumpff(z)
    c4, c5 = stumpff45(z)
    U = [c0, chi * c1, chi**2 * c2, chi**3 * c3, chi**4 * c4, chi**5 * c5]
    R1, V1 = conc.flow(mu, o["r0"], o["v0"], dt)
    r1 = math.sqrt(sum(x * x for x in R1))
    dt_p = abs(dt)
    dyn = math.sqrt(o["r"] ** 3 / mu)
    R0, V0 = o["r0"], o["v0"]
    h = [R0[1] * V0[2] - R0[2] * V0[1], R0[2] * V0[0] - R0[0] * V0[2], R0[0] * V0[1] - R0[1] * V0[0]]
    rv = sum(a * b for a, b in zip(R0, V0))
    v2 = o["v"] ** 2
    ev = [((v2 - mu / o["r"]) * a - rv * b) / mu for a, b in zip(R0, V0)]
    e = min(o["e"], 0.98)
    eh = max(o["e"], 1.02)
    E = (2 * j(c, 1) - 1) * 6
    H = (2 * j(c, 2) - 1) * 3
    a = o["r"] * (0.6 + 2 * j(c, 3))
    d = dict(mu=mu, R0=R0, V0=V0, R1=R1, V1=V1, dt=dt, dtp=(0.05 + 0.3 * j(c, 6)) * dyn, alpha=al, chi=chi, s0=o["s0"],
             s1=sum(x * y for x, y in zip(R1, V1)) / q, r0=o["r"], r1=r1, v=o["v"], p=max(o["p"], 0.1 * o["r"]), e=e, eh=eh, f=(2 * j(c, 4) - 1) * 1.5,
             E=E, M=E - e * math.sin(E) + 0.5 * (j(c, 5) - 0.5), H=H, N=eh * math.sinh(H) - H + 0.5 * (j(c, 5) - 0.5), a=a, ah=-a,
             P=2 * PI * math.sqrt(a**3 / mu), h=o["r"] * o["v"] * (0.3 + j(c, 2)), HV=h, EV=ev, NV=[-h[1], h[0], 0.0],
             incl=PI * j(c, 1), raan=2 * PI * j(c, 2), argp=2 * PI * j(c, 3), U0=U[0], U1=U[1], U2=U[2], U4=U[4], U5=U[5],
             F=1 - U[2] / o["r"], G=(o["r"] * U[1] + o["s0"] * U[2]) / q, Ft=-q * U[1] / (r1 * o["r"]), Gt=1 - U[2] / r1,
             C=(3 * U[5] - chi * U[4] - q * dt * U[2]) / q, rmin=o["r"] * (0.2 + 0.9 * j(c, 6)), X=list(R0) + list(V0),
             J=[1e-3, -2e-3, 0.05][c["c"] % 3], R_eq=o["r"] * (0.3 + 0.5 * j(c, 5)), dt_p=dt_p)
    for k, x in d.items():
        d[k] = [t(y) for y in x] if isinstance(x, list) else t(x)
    d["_o"] = o
    return d


def ok_sample(d):
    for k, x in d.items():
        if k == "_o":
            continue
        for y in (x if isinstance(x, list) else [x]):
            if not math.isfinite(y) or abs(y) > 1e25:
                return False
    return True


def slack(kind, d):
    """effect of the documented stopping tolerance of the solvers (1e-6), per output"""
    if kind == "kepler":
        r = min(d["r0"], d["r1"])
        rp = d["_o"]["rp"]
        tm = 2.2e-6 / math.sqrt(d["mu"])
        vm = math.sqrt(2 * d["mu"] / d["r1"] + abs(d["alpha"]) * d["mu"])
        return [tm * vm, tm * d["mu"] / d["r1"] ** 2]
    if kind == "elps":
        return [2.2e-6 / (1 - d["e"])]
    if kind == "hypb":
        return [2.2e-6 / (d["eh"] - 1)]
    if kind == "uni":
        return [2.2e-6 / max(d["r1"], 1e-3 * d["r0"])]
    return None


DIMK = {"X": [(2, 0)] * 3 + [(2, -1)] * 3, "dtp": (0, 1)}


def convert(name, x, k, m):
    """the quantity in units scaled by 4^k in length and 2^m in time (exact in binary)"""
    dim = DIMK.get(name, DIM.get(name, (0, 0)))
    if name == "X":
        return [y * 2.0 ** (k * dd[0] + m * dd[1]) for y, dd in zip(x, dim)]
    s = 2.0 ** (k * dim[0] + m * dim[1])
    return [y * s for y in x] if isinstance(x, list) else x * s
