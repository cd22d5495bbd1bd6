"""Driver of the force models and the event function (C10; radius_islow for C13)."""
import math
import numpy as np
import conc
from conc import j, logu, PI
from rec import Raised, lst

BODY = [  # mu, R_eq, J2, J3, J4
    (1.0, 1.0, 1e-3, -2.5e-6, -1.6e-6), (398600.4418, 6378.137, 1.08262668e-3, -2.5327e-6, -1.6196e-6),
    (2.959e-4, 0.00465, 2e-7, 1e-8, -4e-9), (3.986004418e14, 6378137.0, 1.08262668e-3, -2.5327e-6, -1.6196e-6),
    (1.32712440018e11, 696000.0, 2.2e-7, 1e-9, -4e-9), (1.0, 30.0, 0.02, 0.03, -0.05), (2.5, 0.7, 0.3, 0.2, 0.1)]


def direction(c):
    g = c["geo"]
    a, b = 2 * PI * j(c, 1), math.asin(2 * j(c, 2) - 1)
    if g == 3:
        b = 0.0
    elif g == 4:  # the polar axis
        return (0.0, 0.0, 1.0 if c["c"] % 2 else -1.0)
    elif g == 5:  # the other axes
        return [(1.0, 0.0, 0.0), (-1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, -1.0, 0.0)][c["c"] % 4]
    elif g == 6:  # near the pole
        b = (PI / 2 - logu(1e-7, 0.1, j(c, 2))) * (1 if c["c"] % 2 else -1)
    elif g == 7:  # near the equator
        b = logu(1e-9, 0.05, j(c, 2)) * (1 if c["c"] % 2 else -1)
    elif g == 8:  # coordinate planes and diagonals
        return [(1.0, 0.0, 1.0), (0.0, -1.0, 1.0), (1.0, 1.0, 1.0), (-1.0, 1.0, -1.0), (1.0, -1.0, 0.0)][c["c"] % 5]
    return (math.cos(a) * math.cos(b), math.sin(a) * math.cos(b), math.sin(b))


def place(c, f32):
    t = np.float32 if f32 else np.float64
    mu, R, J2, J3, J4 = BODY[c["units"]]
    d = direction(c)
    r = R * [1.0, 1 + 0.2 * j(c, 3), 1 + 5 * j(c, 3), logu(1, 60, j(c, 3)), logu(0.2, 1, j(c, 3))][c["time"] % 5]
    s = [1, 1, 1, -1, 0][c["sector"] % 5]
    x = [float(t(r * q)) for q in d]
    J = [float(t(s * v * (0.5 + 2 * j(c, 4)))) for v in (J2, J3, J4)]
    if c["sector"] == 7:
        mu = -mu  # a repelling centre: "parameters of either sign"
    return dict(mu=float(t(mu)), R=float(t(R)), J=J, x=x, cmd=c)


def C10(rec, cmds, f32, tier, part):
    import jax, jax.numpy as jnp
    import astrodynx as adx
    g = adx.gravity
    t = np.float32 if f32 else np.float64
    quick = tier == "quick"
    S = [place(c, f32) for c in cmds]
    fns = [(1, "point_mass_grav", g.point_mass_grav), (2, "j2_acc", g.j2_acc), (3, "j3_acc", g.j3_acc), (4, "j4_acc", g.j4_acc)]
    mk = lambda mu, J, R: {"mu": mu, "J2": J[0], "J3": J[1], "J4": J[2], "R_eq": R, "rmin": 0.1, "extra": 3.0}

    def ev(n, s, a, what):
        a = np.asarray(a)
        rec.ev(92, [int(a.shape == (3,)), 1, int(a.dtype == t), 1], {"f": what + " shape/dtype", "shape": list(a.shape), "dtype": str(a.dtype)})
        if a.shape == (3,):
            ev0(n, s, a, what)

    def ev0(n, s, a, what):
        tag = ""
        if f32 and n > 2 and math.sqrt(sum(q * q for q in s["x"])) ** 7 > 3.4e38 and not np.any(np.asarray(a)):
            tag = "j%d_acc in binary32: r**7 overflows, the answer is zero" % n
        rec.ev(60, [n, s["mu"], s["J"][n - 2] if n > 1 else 0.0, s["R"] if n > 1 else 1.0, s["x"], lst(a)],
               {"f": what, "known": tag, "s": {k: s[k] for k in ("mu", "R", "J", "x")}})

    X = jnp.array([s["x"] for s in S], t)
    V = jnp.array([[10 * (2 * j(s["cmd"], k) - 1) * math.sqrt(abs(s["mu"]) / s["R"]) for k in (3, 4, 5)] for s in S], t)
    T = jnp.array([(2 * j(s["cmd"], 6) - 1) * 1e4 for s in S], t)
    A = {"mu": jnp.array([s["mu"] for s in S], t), "R_eq": jnp.array([s["R"] for s in S], t)}
    for k in range(3):
        A["J%d" % (k + 2)] = jnp.array([s["J"][k] for s in S], t)
    for n, name, f in fns:
        try:
            # 1. positions alone, and full states at various times: only the position counts
            y = rec.call("jit(vmap(%s))" % name, jax.jit(jax.vmap(f)), T, jnp.concatenate([X, V], 1), A)
            rec.ev(92, [int(y.shape == (len(S), 3)), 1, int(y.dtype == t), 1], name + " vmap shape/dtype")
            for i in range(n % 2 if quick else 0, len(S), 2 if quick else 1):
                ev0(n, S[i], y[i], "jit(vmap(%s)) of a state" % name)
            y = rec.call("vmap(%s)" % name, jax.vmap(f), 0 * T, X, A)
            for i in range((n + 1) % 3, len(S), 7 if quick else 2):
                ev0(n, S[i], y[i], "vmap(%s) of a position" % name)
        except Raised:
            pass
        rec.flush()
        # 2. eager calls in every form
        for k in range(8 if quick else 60):
            i = (k * 37 + 11 * n + part) % len(S)
            s = S[i]
            x = s["x"]
            J = [t(v) for v in s["J"]]
            vel = [float(v) for v in np.asarray(V[i])]
            try:
                what = {"f": name, "form": k % 6}
                if k % 6 == 0:
                    a = rec.call(what, f, 0.0, jnp.array(x, t), mk(s["mu"], s["J"], s["R"]))
                elif k % 6 == 1:
                    a = rec.call(what, f, jnp.asarray(-3.5), jnp.array(x + vel, t), mk(jnp.asarray(s["mu"], t), [jnp.asarray(v) for v in J], jnp.asarray(s["R"], t)))
                elif k % 6 == 2:
                    a = rec.call(what, f, 7, jnp.array(x + vel + [17.0], t), mk(s["mu"], s["J"], s["R"]))
                elif k % 6 == 3:
                    a = rec.call(what, jax.jit(f), 1e5, jnp.array(x + vel, t), mk(s["mu"], s["J"], s["R"]))
                elif k % 6 == 4:
                    a = rec.call(what, f, 2.0, np.array(x + vel, t), mk(t(s["mu"]), J, t(s["R"])))
                else:
                    # only the keys it documents
                    d = {"mu": s["mu"]}
                    if n > 1:
                        d["J%d" % n], d["R_eq"] = s["J"][n - 2], s["R"]
                    a = rec.call(what, f, t=0.5, x=jnp.array(x + vel, t), args=d)
                ev(n, s, a, "%s form %d" % (name, k % 6))
            except Raised:
                pass
        # 3. documented defaults
        for i in range(0, len(S), max(1, len(S) // 3)):
            s = dict(S[i], mu=1.0, R=1.0, J=[0.0, 0.0, 0.0])
            q = max(abs(v) for v in s["x"])
            s["x"] = [float(t(v / q)) for v in s["x"]]
            try:
                ev(n, s, rec.call(name + " defaults", f, 0.0, jnp.array(s["x"], t)), name + " defaults")
            except Raised:
                pass
        rec.flush()
