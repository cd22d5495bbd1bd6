"""Driver of the sensitivities of numerical propagation (C22)."""
import math
import numpy as np
import conc
from conc import j
from rec import Raised, lst
from drv_cowell import Env, orb, zonal_par, args_of, peri_rate, brief, method, METHODS

FR = [0.0, 0.2, 0.35, 0.6, 0.8, 1.0]
FIX = [0.0, 0.2, 0.4, 0.6, 0.8, 1.0]
KEYS = ["mu", "J2", "J3", "J4", "R_eq"]


def C22(rec, cmds, f32, tier, part):
    E = Env(rec, f32, tier)
    jax, jnp, p, dq, dx = E.jax, E.jnp, E.adx.prop, E.adx.diffeq, E.dx
    quick = tier == "quick"
    os_ = [o for o in (orb(E, c, emax=0.8) for c in cmds) if o is not None and o["rp"] > 0.05 * o["r"]]
    A = lambda v: jnp.array(v, E.t)
    small = [o for o in os_ if max(o["r"], 2 / o["alpha"] if o["alpha"] > 0 else 0) < 100]
    fld = ["pm", "j2", "j3", "j4", "all"]

    def jac(fn, field):
        def g(x0, t1, a):
            return fn(E.dyn(field, a), x0, t1)
        return jax.jit(lambda x0, t1, a: jax.jacrev(g, argnums=(0, 1, 2))(x0, t1, a))

    # 1. prescribed grids: the derivative of the recurrence itself
    step = lambda t1: dx.StepTo(ts=t1 * A(FR))
    modes = [("fixed_steps", FIX, [2, 5], lambda d, x0, t1, kw: p.fixed_steps(d, x0, t1, t1 / 5, max_steps=8, **kw).ys[jnp.array([2, 5])]),
             ("adaptive_steps", FR, [3, 5], lambda d, x0, t1, kw: p.adaptive_steps(d, x0, t1, max_steps=8, stepsize_controller=step(t1), **kw).ys[jnp.array([3, 5])]),
             ("custom_steps", FR, [1, 5], lambda d, x0, t1, kw: p.custom_steps(d, x0, t1, t1 * A([FR[1], FR[5]]), stepsize_controller=step(t1), **kw).ys),
             ("to_final", FR, [5], lambda d, x0, t1, kw: p.to_final(d, x0, t1, stepsize_controller=step(t1), **kw).ys[-1:]),
             ("cowell_method", FR, [5], lambda d, x0, t1, kw: p.cowell_method(d, x0, t1, dq.SaveAt(t1=True), max_steps=9, stepsize_controller=step(t1), **kw).ys[-1:])]
    combos = [(z, m) for z in range(len(modes)) for m in [5, 4, 0, 3, 2, 1]]
    for q, (z, m) in enumerate(combos):
        # compilations dominate: the parts of a run share the combinations
        if quick and (2 * z + q + 3 * part + int(f32)) % 6:
            continue
        nm, fr, pick, fn = modes[z]
        field = fld[(q + part) % 5]
        # the default method is left to the default
        kw = {} if m == 5 else {"solver": method(E, m)}
        f = jac(lambda d, x0, t1: fn(d, x0, t1, kw), field)
        for k in range(3 if quick else 8):
            # (binary32 with J3, J4: see gravity())
            pool = small if f32 and field in ("j3", "j4", "all") else os_
            o = dict(pool[(k * 11 + q * 17 + part * 5) % len(pool)])
            par = [E.q(v) for v in zonal_par(o, o["cmd"], field)]
            o["t1"] = E.q(min(o["t1"], 0.9 / peri_rate(o)))
            args = args_of(E, o, par)
            meta = {"f": "jacrev(%s)" % nm, "method": METHODS[m], "field": field, "par": par, "o": brief(o)}
            try:
                jx, jt, ja = rec.call(meta, f, A(o["x0"]), A(o["t1"]), {a: A(v) for a, v in args.items()})
            except Raised:
                rec.flush()
                continue
            jx, jt, ja = np.asarray(jx, float), np.asarray(jt, float), {a: np.asarray(v, float) for a, v in ja.items()}
            rec.ev(92, [int(jx.shape == (len(pick), 6, 6) and jt.shape == (len(pick), 6)), 1], dict(meta, shapes=[list(jx.shape), list(jt.shape)]))
            env = [o["mu"]] + par
            act = {"pm": [0], "j2": [0, 1, 4], "j3": [0, 2, 4], "j4": [0, 3, 4], "all": [0, 1, 2, 3, 4]}[field]
            for w, row in enumerate(pick):
                ts = [float(v) * o["t1"] for v in fr[:row + 1]]
                cols = [(i, jx[w, :, i]) for i in range(6)] + [(6 + i, ja[KEYS[i]][w]) for i in act] + [(11, jt[w] / fr[row])]
                for n, (prm, d) in enumerate(cols):
                    if quick and (n + k + w) % 2 and prm < 6:
                        continue
                    rec.ev(57, [m] + env + [o["x0"], prm, lst(d), row] + ts, dict(meta, row=row, wrt=prm))
            rec.flush()
    # 2. the controller chooses the steps: derivatives of the motion
    def last(sol):
        return sol.ys[jnp.sum(jnp.isfinite(sol.ts)) - 1][None]
    free = [("to_final", [1.0], lambda d, x0, t1: p.to_final(d, x0, t1).ys[-1:], 1),
            ("custom_steps", [0.1, 0.55, 1.0], lambda d, x0, t1: p.custom_steps(d, x0, t1, t1 * A([0.1, 0.55, 1.0])).ys, 1),
            ("adaptive_steps", [1.0], lambda d, x0, t1: last(p.adaptive_steps(d, x0, t1, max_steps=400)), 1),
            ("cowell_method", [0.3, 1.0], lambda d, x0, t1: p.cowell_method(d, x0, t1, dq.SaveAt(ts=t1 * A([0.3, 1.0]))).ys, 1),
            ("to_final tight", [1.0], lambda d, x0, t1: p.to_final(d, x0, t1, solver=dx.Dopri8(), stepsize_controller=dq.PIDController(rtol=1e-11, atol=1e-12)).ys[-1:], 0),
            ("fixed_steps", [1.0], lambda d, x0, t1: last(p.fixed_steps(d, x0, t1, t1 / 127.5, max_steps=140)), 2)]
    # in single precision the controller itself works on noise at the default tolerance
    for q, (nm, fr, fn, acc) in enumerate([] if f32 else free):
        f = jac(fn, "pm")
        for k in range(4 if quick else 24):
            o = dict(os_[(k * 13 + q * 19 + part * 7) % len(os_)])
            o["t1"] = E.q(min(o["t1"], (6.0 if acc == 2 else 40.0) / peri_rate(o)))
            meta = {"f": "jacrev(%s)" % nm, "o": brief(o)}
            args = {"mu": o["mu"]}
            try:
                jx, jt, ja = rec.call(meta, f, A(o["x0"]), A(o["t1"]), {a: A(v) for a, v in args.items()})
            except Raised:
                rec.flush()
                continue
            jx, jt, ja = np.asarray(jx, float), np.asarray(jt, float), np.asarray(ja["mu"], float)
            rel = [1e-9, 1e-5, 1e-6][acc] * (1 + 1 / min(o["v"], o["r"]))
            for w, fk in enumerate(fr):
                t = fk * o["t1"]
                hint = conc.chi_hint(o["mu"], o["r0"], o["v0"], t)
                for n, (prm, d) in enumerate([(i, jx[w, :, i]) for i in range(6)] + [(6, ja[w]), (11, jt[w])]):
                    if quick and (n + k) % 2 and prm < 6:
                        continue
                    rec.ev(58, [o["mu"], t, hint, o["x0"], prm, fk, lst(d), rel], dict(meta, t=t, wrt=prm))
            rec.flush()
    gravity(rec, cmds, f32, quick, E)
    rec.flush()


def gravity(rec, cmds, f32, quick, E):
    """derivatives of the accelerations themselves, in both modes"""
    from drv_grav import place
    jax, jnp = E.jax, E.jnp
    g = E.adx.gravity
    A = lambda v: jnp.array(v, E.t)
    S = [place(c, f32) for c in cmds]
    fns = [(1, g.point_mass_grav), (2, g.j2_acc), (3, g.j3_acc), (4, g.j4_acc)]
    known = "derivatives of j3_acc and j4_acc in binary32: the square of r**7 leaves the range"
    if f32:
        # the powers of the radius, and their squares in the derivatives, must be in range
        S = [s for s in S if 1e-2 < min(math.hypot(*s["x"]), s["R"]) and max(math.hypot(*s["x"]), s["R"]) < 100 and 1e-6 < abs(s["mu"]) < 1e6]
        for n, f in fns[2:]:
            x, a = [7000.0, 1000.0, 3000.0], {"mu": 398600.44, "J3": 1e-3, "J4": 1e-3, "R_eq": 6378.137}
            try:
                J = np.asarray(rec.call("jacfwd", jax.jacfwd(lambda x: f(0.0, x, {k: A(v) for k, v in a.items()})), A(x)))
            except Raised:
                continue
            for i in range(3):
                rec.ev(59, [n, E.q(a["mu"]), E.q(1e-3), E.q(a["R_eq"]), x, i, lst(J[:, i])], {"f": "jacfwd(j%d_acc)" % n, "x": x, "known": known})
    if not S:
        return
    X, MU, R, J = A([s["x"] for s in S]), A([s["mu"] for s in S]), A([s["R"] for s in S]), A([s["J"] for s in S])
    for n, f in fns:
        def h(x, mu, r, j):
            return f(0.0, x, {"mu": mu, "R_eq": r, "J2": j[0], "J3": j[1], "J4": j[2]})
        for q, mode in enumerate((jax.jacfwd, jax.jacrev)):
            try:
                d = rec.call("%s of harmonic %d" % (mode.__name__, n), jax.jit(jax.vmap(mode(h, argnums=(0, 1, 2, 3)))), X, MU, R, J)
            except Raised:
                continue
            d = [np.asarray(v, float) for v in d]
            for i in range((q + n) % 4 if quick else 0, len(S), 8 if quick else 2):
                s = S[i]
                m = {"f": "%s of harmonic %d" % (mode.__name__, n), "s": {k: s[k] for k in ("mu", "R", "J", "x")}}
                cols = [(p, d[0][i][:, p]) for p in range(3)] + [(6, d[1][i])]
                if n > 1:
                    cols += [(7, d[3][i][:, n - 2]), (10, d[2][i])]
                for p, v in cols:
                    rec.ev(59, [n, s["mu"], s["J"][n - 2] if n > 1 else 0.0, s["R"], s["x"], p, lst(v)], dict(m, wrt=p))
            rec.flush()
