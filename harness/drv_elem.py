"""Drivers of classical elements (C05, C06) and path predicates (C15)."""
import math
import numpy as np
import conc
from conc import j, logu, PI
from rec import Raised, lst


def typ(f32):
    return np.float32 if f32 else np.float64


def regular(o, f32):
    """the domain of rv2coe: a distinct periapsis, node and plane"""
    h = np.cross(o["r0"], o["v0"])
    hm = np.linalg.norm(h)
    if hm == 0 or o["kind"] == 15:
        return False
    sini = math.hypot(h[0], h[1]) / hm
    e = np.cross(o["v0"], h) / o["mu"] - np.array(o["r0"]) / o["r"]
    return np.linalg.norm(e) >= (1e-4 if f32 else 1e-9) and sini > (0.02 if f32 else 0.005)


def elements(c, f32):
    t = typ(f32)
    mu, R = conc.UNIT[c["units"]]
    e = conc.ecc(c, f32)
    if c["kind"] == 14:
        e = [0.0, 0.5, 1.0, 2.0][c["c"] % 4]
    p = R * logu(0.5, 3, j(c, 6)) * (1 + min(e, 3))
    i = [PI * j(c, 1), 0.0, PI / 2, PI, -0.3 * j(c, 1), 2 * PI * j(c, 1)][c["geo"] % 6]
    raan = (2 * j(c, 2) - 1) * [PI, 2 * PI, 4 * PI, 0.0][c["n"] % 4]
    argp = (2 * j(c, 3) - 1) * [PI, 4 * PI, 2 * PI, 0.0, 0.0][c["c"] % 5]
    u = 2 * j(c, 5) - 1
    if e >= 1:
        f = u * 0.9 * math.acos(max(-1.0, -1 / e))
        if c["sector"] < 2:
            f += 2 * PI
    else:
        f = [0.0, PI, -PI / 2, u * PI, u * PI, u * 2 * PI, u * 4 * PI, PI * (1 + 1e-3 * u), u * 0.01, u * 20][c["sector"]]
        if 1 + e * math.cos(f) < 1e-3:
            f *= 0.5
    return tuple(float(t(v)) for v in (mu, p, e, i, raan, argp, f))


def coef(mu, c):
    return [mu] + list(c)


def C05(rec, cmds, f32, tier, part):
    import jax, jax.numpy as jnp
    import astrodynx as adx
    t = typ(f32)
    A = lambda v: jnp.array(v, t)
    os_ = [conc.orbit(c, f32) for c in cmds]
    os_ = [o for o in os_ if regular(o, f32)]
    mus = sorted(set(o["mu"] for o in os_))
    meta = lambda o, f: {"f": f, "o": {k: o[k] for k in ("mu", "r0", "v0", "kind")}}
    g2 = jax.jit(adx.rv2coe)

    def emit(o, coe, f):
        rec.ev(10, [o["mu"], o["r0"], o["v0"]] + [float(x) for x in coe], meta(o, f))

    # arrays: per-orbit mu as (N, 1)
    N = len(os_)
    R0, V0, MU = A([o["r0"] for o in os_]), A([o["v0"] for o in os_]), A([[o["mu"]] for o in os_])
    for q in range(3):
        fn = [adx.rv2coe, g2, jax.vmap(adx.rv2coe)][q]
        try:
            if q < 2:
                y = rec.call("rv2coe arrays %d" % q, fn, R0, V0, MU)
            else:
                y = rec.call("vmap(rv2coe)", fn, R0, V0, MU[:, 0])
        except Raised:
            rec.flush()
            continue
        ok = len(y) == 6 and all(np.shape(v) == (N,) for v in y)
        rec.ev(92, [int(ok), 1, int(all(v.dtype == t for v in y)), 1], {"f": "rv2coe shapes", "shapes": [list(np.shape(v)) for v in y]})
        if ok:
            y = [np.asarray(v) for v in y]
            for i in range(q, N, 3 if tier == "quick" else 1):
                emit(os_[i], [v[i] for v in y], "rv2coe arrays %d" % q)
                rec.flush()
            if q == 1:
                # back again: the round trip through the library alone
                try:
                    cols = [A([v for v in x]) for x in y]
                    r, v = rec.call("vmap(coe2rv) after rv2coe", jax.jit(jax.vmap(adx.coe2rv)), *cols, MU[:, 0])
                    r, v = np.asarray(r), np.asarray(v)
                    for i in range(0, N, 2 if tier == "quick" else 1):
                        c = [float(x[i]) for x in y]
                        rec.ev(11, [os_[i]["mu"]] + c + lst(r[i]) + lst(v[i]), meta(os_[i], "coe2rv(rv2coe)"))
                        rec.ev(14, [os_[i]["mu"], os_[i]["r0"], os_[i]["v0"], lst(r[i]), lst(v[i])], meta(os_[i], "coe2rv(rv2coe(x)) = x"))
                        rec.flush()
                except Raised:
                    pass
    for i in range(0, N, 20 if tier == "quick" else 4):
        o = os_[i]
        try:
            conv = [jnp.array, lambda v: np.array(v, t)][i % 2]
            y = rec.call(meta(o, "rv2coe"), adx.rv2coe, conv(o["r0"]), conv(o["v0"]), [o["mu"], jnp.asarray(o["mu"], t)][(i // 2) % 2])
            rec.ev(92, [int(all(np.shape(v) == () for v in y)), 1], {"f": "rv2coe one orbit", "shapes": [list(np.shape(v)) for v in y]})
            emit(o, [float(v) for v in y], "rv2coe one orbit")
            if o["mu"] == 1.0:
                y = rec.call(meta(o, "rv2coe default mu"), adx.rv2coe, conv(o["r0"]), conv(o["v0"]))
                emit(o, [float(v) for v in y], "rv2coe default mu")
        except Raised:
            pass
        rec.flush()
    # circular and equatorial orbits as well: compiled, one at a time and together
    ex = [o for o in (conc.orbit(c, f32) for c in cmds) if o["kind"] != 15 and not regular(o, f32)]
    # a plane seen from above or below, at every scale
    for c in cmds[::4]:
        if c["kind"] != 15 and c["geo"] not in (3, 5):
            o = conc.orbit(dict(c, geo=3 + 2 * (c["n"] % 2)), f32)
            for k in ("r0", "v0"):
                o[k] = o[k][:2] + [0.0]
            if np.linalg.norm(np.cross(o["r0"], o["v0"])) > 0.1 * o["r"] * o["v"]:
                ex.append(o)
    if ex:
        g1 = jax.jit(adx.rv2coe)
        ys = []
        try:
            y = rec.call("jit(vmap(rv2coe)) of special orbits", jax.jit(jax.vmap(adx.rv2coe)), A([o["r0"] for o in ex]), A([o["v0"] for o in ex]), A([o["mu"] for o in ex]))
            ys += [(o, [np.asarray(v)[i] for v in y], "jit(vmap(rv2coe))") for i, o in enumerate(ex) if i % 3 == 0 or tier != "quick"]
        except Raised:
            rec.flush()
        for i, o in enumerate(ex):
            try:
                y = rec.call(meta(o, "jit(rv2coe)"), g1, A(o["r0"]), A(o["v0"]), A(o["mu"]))
            except Raised:
                rec.flush()
                continue
            # every answer is looked at; those that are undefined are always put on record
            if i % 3 == 1 or tier != "quick" or not all(np.isfinite(float(v)) for v in y):
                ys.append((o, y, "jit(rv2coe)"))
        for o, y, f in ys:
            rec.ev(19, [o["mu"], o["r0"], o["v0"]] + [float(x) for x in y], meta(o, f))
            rec.flush()
    # elements -> state, everywhere, in every form
    es = [elements(c, f32) for c in cmds]
    f2 = jax.jit(adx.coe2rv)
    fv = jax.jit(jax.vmap(adx.coe2rv))

    def emit2(e, r, v, f):
        rec.ev(11, list(e) + lst(r) + lst(v), {"f": f, "mu, p, e, i, raan, argp, f": e})
    try:
        cols = [A([e[k] for e in es]) for k in (1, 2, 3, 4, 5, 6, 0)]
        r, v = rec.call("vmap(coe2rv)", fv, *cols)
        r, v = np.asarray(r), np.asarray(v)
        for i in range(0, len(es), 3 if tier == "quick" else 1):
            emit2(es[i], r[i], v[i], "vmap(coe2rv)")
            rec.flush()
    except Raised:
        pass
    n = 8
    for q in range(0, len(es) - n, 40 if tier == "quick" else 10):
        g = es[q:q + n]
        mu = g[0][0]
        for form in range(7):
            sub = list(g)
            try:
                if form == 0:      # arrays of elements, scalar mu
                    sub = [(mu,) + e[1:] for e in g]
                    r, v = rec.call("coe2rv arrays", [adx.coe2rv, f2][q % 2], *[A([e[k] for e in sub]) for k in range(1, 7)], mu)
                elif form == 1:    # one orbit, many anomalies
                    e0 = g[0]
                    fs = [float(t(0.1 * e[6])) for e in g]
                    sub = [e0[:6] + (x,) for x in fs]
                    sub = [e for e in sub if 1 + e[2] * math.cos(e[6]) > 1e-2] or [e0]
                    r, v = rec.call("coe2rv anomalies", adx.coe2rv, *e0[1:6], A([e[6] for e in sub]), e0[0])
                elif form == 2:    # python floats
                    sub = g[:1]
                    r, v = rec.call("coe2rv floats", adx.coe2rv, *g[0][1:], g[0][0])
                    rec.ev(92, [int(np.shape(r) == (3,) and np.shape(v) == (3,)), 1], {"f": "coe2rv floats", "shape": list(np.shape(r))})
                    r, v = np.asarray(r).reshape(1, 3), np.asarray(v).reshape(1, 3)
                elif form == 3:    # default mu
                    sub = [(1.0,) + g[1][1:]]
                    r, v = rec.call("coe2rv default mu", adx.coe2rv, *[A(x) for x in g[1][1:]])
                    r, v = np.asarray(r).reshape(1, 3), np.asarray(v).reshape(1, 3)
                elif form == 4:    # arrays of p, scalar everything else
                    e0 = g[2]
                    sub = [(e0[0], e[1]) + e0[2:] for e in g]
                    r, v = rec.call("coe2rv array of p", adx.coe2rv, A([e[1] for e in sub]), *e0[2:], e0[0])
                elif form == 5:    # scalar p, arrays of angles and eccentricities
                    e0 = g[3]
                    sub = [(e0[0], e0[1], e[2], e[3], e[4], e[5], e[6]) for e in g]
                    r, v = rec.call("coe2rv scalar p", adx.coe2rv, e0[1], *[A([e[k] for e in sub]) for k in range(2, 7)], e0[0])
                else:              # numpy arrays
                    sub = [(mu,) + e[1:] for e in g]
                    r, v = rec.call("coe2rv numpy", adx.coe2rv, *[np.array([e[k] for e in sub], t) for k in range(1, 7)], t(mu))
            except Raised:
                rec.flush()
                continue
            ok = np.shape(r) == (len(sub), 3) and np.shape(v) == (len(sub), 3)
            rec.ev(92, [int(ok), 1], {"f": "coe2rv form %d" % form, "shape": list(np.shape(r))})
            if ok:
                for k in range((q + form) % 2, len(sub), 2 if len(sub) > 1 else 1):
                    emit2(sub[k], r[k], v[k], "coe2rv form %d" % form)
                if len(sub) == 1:
                    emit2(sub[0], r[0], v[0], "coe2rv form %d" % form)
            rec.flush()


def C06(rec, cmds, f32, tier, part):
    import jax, jax.numpy as jnp
    import astrodynx as adx
    t = typ(f32)
    A = lambda v: jnp.array(v, t)
    inc, raan_, argp_, ta = adx.inclination, adx.right_ascension, adx.argument_of_periapsis, adx.true_anomaly
    # single functions on vectors in every direction, including the axes and octant borders
    hs, Ns, es, rs = [], [], [], []
    for c in cmds:
        s = logu(1e-2, 1e4, j(c, 4))

        def vec(k, plane=False):
            g = [1.0, -1.0, 0.0]
            if c["geo"] in (3, 6):
                v = [g[(c["n"] // 3**m + k) % 3] for m in range(3)]
            else:
                z = 2 * j(c, 1 + k % 3) - 1
                a = 2 * PI * j(c, 1 + (k + 1) % 3)
                q = math.sqrt(1 - z * z)
                v = [q * math.cos(a), q * math.sin(a), z]
                if c["geo"] == 5 and k == 0:
                    eps = logu(1e-3, 1e-1, j(c, 5))
                    v = [eps * math.cos(a), eps * math.sin(a), math.copysign(1, z)]
            if plane:
                v[2] = 0.0
                if c["geo"] in (7, 8):
                    # a hair to either side of an axis
                    tiny = [-1, 1][c["n"] % 2] * logu(1e-15, 1e-4, j(c, 5))
                    v = [[1.0, tiny, 0.0], [-1.0, tiny, 0.0], [tiny, 1.0, 0.0], [tiny, -1.0, 0.0]][c["n"] // 2 % 4]
            if not any(v):
                v = [1.0, 0.0, 0.0]
            if plane and v[0] == 0 and v[1] == 0:
                v = [0.0, 1.0, 0.0]
            return [float(t(s * x)) for x in v]
        hv = vec(0)
        if len(hs) % 3 == 1:
            # the plane of reference itself
            hv = [0.0, 0.0, float(t(math.copysign(s, hv[2])))]
        hs.append(hv)
        N = vec(1, True)
        Ns.append(N)
        # e in the plane that contains N: e = cos w N^ + sin w (k x N), k tilted
        n = math.hypot(N[0], N[1])
        nx, ny = N[0] / n, N[1] / n
        ci, si = math.cos(PI * j(c, 2)), math.sin(PI * j(c, 2))
        w = [2 * PI * j(c, 3), PI / 2, 3 * PI / 2, PI * j(c, 3), PI + PI * j(c, 3)][c["n"] % 5]
        q = [-ny * ci, nx * ci, si]
        em = logu(0.01, 3, j(c, 6))
        e = [em * (math.cos(w) * a + math.sin(w) * b) for a, b in zip((nx, ny, 0.0), q)]
        e = [float(t(x)) for x in e]
        es.append(e)
        rs.append(vec(2))
    n = len(cmds)
    jobs = [("inclination", inc, (hs,), 15), ("right_ascension", raan_, (Ns,), 16), ("argument_of_periapsis", argp_, (Ns, es), 17), ("true_anomaly", ta, (rs, es), 18)]
    for nm, fn, ins, op in jobs:
        arrs = [A(x) for x in ins]
        for q in range(3):
            m = n - n % 6
            w = [lambda x: x, lambda x: x[:m].reshape(2, -1, 3, 3), lambda x: x][q]
            shp = [(n, 1), (2, m // 6, 3, 1), (n, 1)][q]
            try:
                y = rec.call("%s form %d" % (nm, q), jax.jit(fn) if q == 2 else fn, *[w(x) for x in arrs])
            except Raised:
                rec.flush()
                continue
            rec.ev(92, [int(np.shape(y) == shp), 1, int(y.dtype == t), 1], {"f": nm, "shape": list(np.shape(y)), "want": list(shp)})
            y = np.asarray(y).ravel()
            for i in range(q, len(y), 6 if tier == "quick" else 3):
                if op == 18:
                    x = np.linalg.norm(np.cross(rs[i], es[i])) / np.linalg.norm(rs[i]) / np.linalg.norm(es[i])
                rec.ev(op, [v for x in ins for v in x[i]] + [float(y[i])], {"f": nm, "form": q, "args": [x[i] for x in ins]})
            rec.flush()
        f1 = jax.jit(fn)
        for i in range(n):
            # compiled, one at a time, on and off the axes
            try:
                y = float(np.ravel(rec.call({"f": nm, "args": [x[i] for x in ins]}, f1, *[A(x[i]) for x in ins]))[0])
                if i % (12 if tier == "quick" else 4) == 5 or not math.isfinite(y):
                    rec.ev(op, [v for x in ins for v in x[i]] + [y], {"f": "jit(%s)" % nm, "args": [x[i] for x in ins]})
            except Raised:
                pass
        rec.flush()
        for i in range(0, n, 60 if tier == "quick" else 10):
            try:
                y = rec.call({"f": nm, "args": [x[i] for x in ins]}, fn, *[A(x[i]) for x in ins])
                rec.ev(92, [int(np.shape(y) == (1,)), 1], {"f": nm + " one vector", "shape": list(np.shape(y))})
                rec.ev(op, [v for x in ins for v in x[i]] + [float(np.ravel(y)[0])], {"f": nm + " one vector", "args": [x[i] for x in ins]})
            except Raised:
                pass
        rec.flush()
    # histories: coasting leaves five elements alone; a polar turn shifts the node only
    os_ = []
    for c in cmds:
        o = conc.orbit(c, f32)
        if not regular(o, f32):
            continue
        o["dt"] = conc.span(c, o, f32)
        d = (2 * j(c, 6) - 1) * PI
        o["turn"] = float(t([d, PI / 2, PI, -PI / 2, 2 * d][c["c"] % 5]))
        os_.append(o)
    meta = lambda o, f: {"f": f, "o": {k: o[k] for k in ("mu", "r0", "v0", "kind", "dt", "turn")}}
    R0, V0, MU, DT, TN = A([o["r0"] for o in os_]), A([o["v0"] for o in os_]), A([o["mu"] for o in os_]), A([o["dt"] for o in os_]), A([o["turn"] for o in os_])

    def go(dt, r0, v0, mu):
        r, v = adx.prop.kepler(dt, r0, v0, mu)
        return jnp.stack(adx.rv2coe(r0, v0, mu)), jnp.stack(adx.rv2coe(r[0], v[0], mu)), r[0], v[0]

    def turn(d, r0, v0, mu):
        M = adx.utils.rotmat3dz(d)
        return jnp.stack(adx.rv2coe(r0, v0, mu)), jnp.stack(adx.rv2coe(M @ r0, M @ v0, mu))
    try:
        c0, c1, r1, v1 = [np.asarray(x) for x in rec.call("elements along a coast", jax.jit(jax.vmap(go)), DT, R0, V0, MU)]
        for i, o in enumerate(os_):
            if tier == "quick" and i % 2:
                continue
            # the end of the coast must be regular as well
            rec.ev(12, [o["mu"], o["dt"], conc.chi_hint(o["mu"], o["r0"], o["v0"], o["dt"]), o["r0"], o["v0"], lst(c0[i]), lst(c1[i])], meta(o, "coast"))
            rec.flush()
    except Raised:
        pass
    try:
        c0, c1 = [np.asarray(x) for x in rec.call("elements after a polar turn", jax.jit(jax.vmap(turn)), TN, R0, V0, MU)]
        for i, o in enumerate(os_):
            if tier == "quick" and i % 2 == 0:
                continue
            rec.ev(13, [o["mu"], o["turn"], o["r0"], o["v0"], lst(c0[i]), lst(c1[i])], meta(o, "turn"))
            rec.flush()
    except Raised:
        pass
    rec.flush()


def C15(rec, cmds, f32, tier, part):
    import jax, jax.numpy as jnp
    import astrodynx as adx
    t = typ(f32)
    tb = adx.twobody
    A = lambda v: jnp.array(v, t)
    short, peri, low, nmax = tb.is_short_way, tb.pass_perigee, tb.rp_islower_rmin, tb.nmax_by_periapsis
    cases = []
    for c in cmds:
        o = conc.orbit(c, f32)
        if o["kind"] == 15:
            continue
        # a target in the plane of the orbit, at any angle ahead, on or off the orbit
        h = np.cross(o["r0"], o["v0"])
        h = h / np.linalg.norm(h)
        u = np.array(o["r0"]) / o["r"]
        w = np.cross(h, u)
        th = 2 * PI * [j(c, 1), j(c, 1), 0.25, 0.75, 0.5 + 1e-2 * (j(c, 1) - 0.5), 1e-2 * (j(c, 1) - 0.5)][c["mode"]]
        s = o["r"] * logu(0.05, 20, j(c, 2))
        r2 = [float(t(s * (math.cos(th) * a + math.sin(th) * b))) for a, b in zip(u, w)]
        o["r2"] = r2
        rp = o["rp"]
        o["rmin"] = float(t(rp * [0.5, 0.99, 1.01, 2.0, logu(0.1, 10, j(c, 3)), 1.1][c["n"] % 6]))
        o["cmd"] = c
        cases.append(o)
    meta = lambda o, f: {"f": f, "o": {k: o[k] for k in ("mu", "r0", "v0", "r2", "rmin", "kind")}}
    R0, V0, R2 = (A([o[k] for o in cases]) for k in ("r0", "v0", "r2"))
    MU, RM = (A([o[k] for o in cases]) for k in ("mu", "rmin"))
    N = len(cases)
    try:
        s = np.asarray(rec.call("vmap(is_short_way)", jax.vmap(short), R0, V0, R2))
        p = np.asarray(rec.call("vmap(pass_perigee)", jax.jit(jax.vmap(peri)), R0, V0, R2, MU))
        lo = np.asarray(rec.call("vmap(rp_islower_rmin)", jax.jit(jax.vmap(low)), RM, R0, V0, MU))
        rec.ev(92, [int(s.shape == (N,) and s.dtype == bool), 1, int(p.shape == (N,) and p.dtype == bool), 1, int(lo.shape == (N,) and lo.dtype == bool), 1], "predicates are boolean")
        for i, o in enumerate(cases):
            rec.ev(85, [0, o["mu"], o["r0"], o["v0"], o["r2"], int(s[i])], meta(o, "is_short_way"))
            rec.ev(85, [1, o["mu"], o["r0"], o["v0"], o["r2"], int(p[i])], meta(o, "pass_perigee"))
            rec.ev(86, [o["mu"], o["rmin"], o["r0"], o["v0"], int(lo[i])], meta(o, "rp_islower_rmin"))
            rec.flush()
    except Raised:
        pass
    for i in range(0, N, 12 if tier == "quick" else 3):
        o = cases[i]
        conv = [jnp.array, lambda v: np.array(v, t)][i % 2]
        try:
            a = [conv(o[k]) for k in ("r0", "v0", "r2")]
            y = rec.call(meta(o, "is_short_way"), short, *a)
            rec.ev(92, [int(np.shape(y) == ()), 1], "is_short_way shape")
            rec.ev(85, [0, o["mu"], o["r0"], o["v0"], o["r2"], int(y)], meta(o, "is_short_way"))
            y = rec.call(meta(o, "pass_perigee"), peri, *a, o["mu"])
            rec.ev(85, [1, o["mu"], o["r0"], o["v0"], o["r2"], int(y)], meta(o, "pass_perigee"))
            y = rec.call(meta(o, "rp_islower_rmin"), low, o["rmin"], a[0], a[1], o["mu"])
            rec.ev(86, [o["mu"], o["rmin"], o["r0"], o["v0"], int(y)], meta(o, "rp_islower_rmin"))
            # without mu the units are canonical
            q = 1.0
            y = rec.call(meta(o, "pass_perigee default mu"), peri, *a)
            rec.ev(85, [1, q, o["r0"], o["v0"], o["r2"], int(y)], meta(o, "pass_perigee default mu"))
            y = rec.call(meta(o, "rp_islower_rmin default mu"), low, o["rmin"], a[0], a[1])
            rec.ev(86, [q, o["rmin"], o["r0"], o["v0"], int(y)], meta(o, "rp_islower_rmin default mu"))
        except Raised:
            pass
        rec.flush()
    # revolution bound
    rows = []
    for c in cmds:
        mu, R = conc.UNIT[c["units"]]
        r1, r2 = R * logu(0.3, 3, j(c, 1)), R * logu(0.3, 3, j(c, 2))
        rp = min(r1, r2) * j(c, 3)
        a = 0.5 * (max(r1, r2) + rp)
        T = 2 * PI * math.sqrt(a**3 / mu)
        k = [0.5 * j(c, 4), 20 * j(c, 4), 0.999, 1.001, 3.01, 2.99, 100 * j(c, 4)][c["n"] % 7]
        rows.append(tuple(float(t(v)) for v in (rp, r1, r2, k * T, mu)))
    try:
        y = np.asarray(rec.call("nmax arrays", nmax, *[A([r[k] for r in rows]) for k in range(5)]))
        rec.ev(92, [int(y.shape == (len(rows),)), 1], "nmax arrays")
        for i, r in enumerate(rows):
            rec.ev(87, list(r) + [float(y[i])], {"f": "nmax_by_periapsis", "args": r})
        for i in range(0, len(rows), 30):
            r = rows[i]
            y = rec.call({"f": "nmax", "args": r}, [nmax, jax.jit(nmax)][i % 2], *r)
            rec.ev(87, list(r) + [float(y)], {"f": "nmax_by_periapsis scalars", "args": r})
            d = (0.97, 1.0, 1.0, PI, 1.0)
            for n in range(5):
                m = [float(t(v)) for v in (r[:n] + d[n:] if r[4] == 1.0 else d[:n] + d[n:])]
                y = rec.call({"f": "nmax", "args": m[:n]}, nmax, *m[:n])
                rec.ev(87, m + [float(y)], {"f": "nmax_by_periapsis %d args" % n, "args": m})
    except Raised:
        pass
    rec.flush()
