"""Drivers of the closed-form relations (C04, C07, C08, C16, C20)."""
import math
import numpy as np
import conc
from conc import j, logu, PI
from rec import Raised, lst


def typ(f32):
    return np.float32 if f32 else np.float64


class Scal:
    """calls one elementwise function in every documented form and records scalar samples"""

    def __init__(self, rec, f32, tier):
        import jax, jax.numpy as jnp
        self.rec, self.f32, self.tier, self.jax, self.jnp = rec, f32, tier, jax, jnp
        self.t = typ(f32)
        self.q = 0

    def emit(self, kind, args, out, meta, op=20, order=None):
        a = list(args) if order is None else order(args)
        if op == 20:
            self.rec.ev(20, [kind] + (a + [0] * 6)[:6] + [out], meta)
        else:
            self.rec.ev(op, a + [out], meta)

    def run(self, name, fn, kind, cases, ok=lambda *a: True, defaults=(), ints=None, op=20, order=None, scalar_last=0, nscal=6):
        """cases: argument tuples (in the order of the function); defaults: values of trailing
        arguments when omitted; scalar_from: index from which arguments must be scalars"""
        rec, jnp, jax, t = self.rec, self.jnp, self.jax, self.t
        self.q += 1
        cases = [tuple(float(t(v)) for v in c) for c in cases]
        cases = [c for c in cases if ok(*c)]
        if not cases:
            return
        na = len(cases[0])
        A = lambda i, cs=cases: jnp.array([c[i] for c in cs], t)

        def samples(cs, y, form, stride, off=0):
            y = np.asarray(y)
            for i in range(off, len(cs), stride):
                self.emit(kind, cs[i], float(y[i]), {"f": "%s %s" % (name, form), "args": cs[i]}, op, order)

        def guarded(form, f, *a, **k):
            try:
                return rec.call({"f": "%s %s" % (name, form)}, f, *a, **k)
            except Raised:
                return None
        stride = 3 if self.tier == "quick" else 1
        # 1. arrays
        y = guarded("on arrays", fn, *[A(i) for i in range(na)])
        if y is not None:
            rec.ev(92, [int(np.shape(y) == (len(cases),)), 1, int(y.dtype == t), 1], {"f": name + " array shape/dtype", "shape": list(np.shape(y))})
            if np.shape(y) == (len(cases),):
                samples(cases, y, "array", stride, self.q % stride)
        # 2. jit, vmap
        y2 = guarded("under jit", jax.jit(fn), *[A(i) for i in range(na)])
        if y2 is not None and np.shape(y2) == (len(cases),):
            samples(cases, y2, "jit", stride * 4, self.q % 4)
        y3 = guarded("under vmap", jax.vmap(fn), *[A(i) for i in range(na)])
        if y3 is not None and np.shape(y3) == (len(cases),):
            samples(cases, y3, "vmap", stride * 4, (self.q + 2) % 4)
        # 3. outer broadcasting: first argument (k, 1) against the others (m,)
        if na > 1:
            k, m = 3, min(5, len(cases))
            left = cases[self.q % max(1, len(cases) - k):][:k]
            right = cases[-m:]
            grid = [[(l[0],) + r[1:] for r in right] for l in left]
            if all(ok(*g) for row in grid for g in row):
                y = guarded("broadcast", fn, A(0, left)[:, None], *[A(i, right) for i in range(1, na)])
                if y is not None:
                    rec.ev(92, [int(np.shape(y) == (len(left), m)), 1], {"f": name + " broadcast shape", "shape": list(np.shape(y))})
                    if np.shape(y) == (len(left), m):
                        y = np.asarray(y)
                        for a in range(len(left)):
                            for b in range((a + self.q) % 2, m, 2):
                                self.emit(kind, grid[a][b], float(y[a, b]), {"f": name + " broadcast", "args": grid[a][b]}, op, order)
            # scalars against an array
            if scalar_last >= 0:
                g = [c[:1] + right[0][1:] for c in cases]
                g = [c for c in g if ok(*c)][:7]
                if g:
                    y = guarded("array and scalars", fn, jnp.array([c[0] for c in g], t), *right[0][1:])
                    if y is not None and np.shape(y) == (len(g),):
                        samples(g, y, "array and scalars", 2)
                    elif y is not None:
                        rec.ev(92, [0, 1], {"f": name + " array and scalars: shape", "shape": list(np.shape(y))})
        # 4. scalars of every kind
        for q in range(nscal):
            c = cases[(q * 37 + self.q * 11) % len(cases)]
            form = ["python float", "numpy scalar", "0-d array", "1-element array"][q % 4]
            conv = [float, t, lambda v: jnp.asarray(v, t), lambda v: jnp.array([v], t)][q % 4]
            y = guarded(form, fn, *[conv(v) for v in c])
            if y is not None:
                rec.ev(92, [int(np.shape(y) == ((1,) if q % 4 == 3 else ())), 1], {"f": "%s %s shape" % (name, form), "shape": list(np.shape(y))})
                yy = np.asarray(y, dtype=np.float64)
                if yy.size == 1:
                    # a function of python floats may answer in double precision
                    self.emit(kind, c, float(yy.ravel()[0]), {"f": "%s %s" % (name, form), "args": c}, op, order)
        # 5. integers
        if ints:
            for c in ints:
                if not ok(*c):
                    continue
                y = guarded("python ints", fn, *[int(v) for v in c])
                if y is not None:
                    self.emit(kind, c, float(np.asarray(y).ravel()[0]), {"f": name + " ints", "args": c}, op, order)
                y = guarded("integer arrays", fn, *[jnp.array([int(v)]) for v in c])
                if y is not None:
                    self.emit(kind, c, float(np.asarray(y).ravel()[0]), {"f": name + " int arrays", "args": c}, op, order)
        # 6. omitted arguments
        for n in range(1, len(defaults) + 1):
            for q in range(2):
                c = cases[(q * 17 + n) % len(cases)]
                c = c[:na - n] + tuple(defaults[len(defaults) - n:])
                if not ok(*c):
                    continue
                y = guarded("with %d defaults" % n, fn, *[self.jnp.asarray(v, t) for v in c[:na - n]])
                if y is not None:
                    self.emit(kind, c, float(np.asarray(y).ravel()[0]), {"f": "%s with %d defaults" % (name, n), "args": c}, op, order)
        rec.flush()


def orbits(cmds, f32, n=None):
    out = []
    for c in cmds[:n]:
        o = conc.orbit(c, f32)
        o["cmd"] = c
        out.append(o)
    return out


# ---------------------------------------------------------------- C04
def C04(rec, cmds, f32, tier, part):
    import jax, jax.numpy as jnp
    import astrodynx as adx
    from drv_alg import elps_in, hypb_in
    S = Scal(rec, f32, tier)
    Hm = 6.0 if f32 else 20.0
    el, hy, me, mh, ga, ku = [], [], [], [], [], []
    for c in cmds:
        M, e = elps_in(c, f32)
        E = [M, (2 * j(c, 3) - 1) * 30, 0.0, (2 * j(c, 3) - 1) * PI, logu(1e-6, 1, j(c, 3))][c["n"] % 5]
        el.append((E, e, M))
        N, eh = hypb_in(c, f32)
        H = [(2 * j(c, 3) - 1) * Hm, 0.0, logu(1e-6, 1, j(c, 3)), -logu(1e-3, 3, j(c, 3))][c["n"] % 4]
        hy.append((H, eh, N))
        mu, R = conc.UNIT[c["units"]]
        a = R * logu(0.3, 30, j(c, 1))
        o = conc.orbit(c, f32)
        dt = conc.span(c, o, f32)
        me.append((a, dt, mu))
        mh.append((-a, dt, mu))
        x = conc.chi_hint(o["mu"], o["r0"], o["v0"], dt)
        ga.append((o["alpha"], o["s0"] * (1 - 2 * j(c, 2)), o["s0"], dt, o["mu"]))
        f = [1.0, 1.0 + 1e-3 * (j(c, 2) - 0.5), 2 * j(c, 2) - 1, 0.0, 0.5][c["n"] % 5]
        ku.append((x * f, o["alpha"], o["r"], o["s0"], dt, o["mu"]))
    S.run("kepler_equ_elps", adx.kepler_equ_elps, 14, el, defaults=(0.0,), ints=[(3, 0, 1), (-2, 0, 4)])
    S.run("kepler_equ_hypb", adx.kepler_equ_hypb, 15, hy, defaults=(0.0,), ints=[(1, 2, 1), (-2, 3, 4)])
    S.run("dE", adx.dE, 16, [c[:2] for c in el], ints=[(3, 0), (-2, 0)])
    S.run("dH", adx.dH, 17, [c[:2] for c in hy], ints=[(1, 2), (-2, 3)])
    S.run("mean_anomaly_elps", adx.mean_anomaly_elps, 11, me, defaults=(1.0,), ints=[(2, 3, 1), (1, -4, 2)])
    S.run("mean_anomaly_hypb", adx.mean_anomaly_hypb, 12, mh, defaults=(1.0,), ints=[(-2, 3, 1), (-1, -4, 2)])
    S.run("generalized_anomaly", adx.generalized_anomaly, 13, ga, defaults=(0.0, 1.0), ints=[(1, 2, 3, 4, 1)])
    uni(rec, ku, f32, tier, jax, jnp, adx)
    # the relations fit together along one flight: M from time -> E is a root; chi from two states
    t = typ(f32)
    os_ = orbits(cmds, f32)
    n = 0
    kep = jax.jit(adx.prop.kepler)
    for o in os_:
        c = o["cmd"]
        if o["kind"] in (13, 15) or n >= (60 if tier == "quick" else 400):
            continue
        dt = conc.span(c, o, f32)
        try:
            r, v = rec.call({"f": "kepler"}, kep, dt, jnp.array(o["r0"]), jnp.array(o["v0"]), o["mu"])
            s0 = rec.call("sigma_fn", adx.twobody.sigma_fn, jnp.array(o["r0"]), jnp.array(o["v0"]), o["mu"])
            s1 = rec.call("sigma_fn", adx.twobody.sigma_fn, r[0], v[0], o["mu"])
            al = t(o["alpha"])
            chi = rec.call("generalized_anomaly", adx.generalized_anomaly, al, s1, s0, dt, o["mu"])
        except Raised:
            rec.flush()
            continue
        rec.ev(44, [o["mu"], dt, conc.chi_hint(o["mu"], o["r0"], o["v0"], dt), o["r0"], o["v0"], float(np.ravel(chi)[0])],
               {"f": "generalized_anomaly from two states", "o": {k: o[k] for k in ("mu", "r0", "v0", "kind")}, "dt": dt})
        n += 1
        if o["alpha"] * o["r"] > 1e-2 and o["e"] < 0.99:
            try:
                a = rec.call("semimajor_axis", adx.semimajor_axis, t(o["r"]), t(o["v"]), t(o["mu"]))
                M = rec.call("mean_anomaly_elps", adx.mean_anomaly_elps, a, t(dt), t(o["mu"]))
                E = rec.call("solve_kepler_elps", jax.jit(adx.solve_kepler_elps), M, t(o["e"]))
                rec.ev(40, [float(M), float(t(o["e"])), 1e-6, float(E)], {"f": "anomaly after a flight", "dt": dt})
            except Raised:
                pass
        rec.flush()


def uni(rec, ku, f32, tier, jax, jnp, adx):
    """kepler_equ_uni: alpha is a scalar of the call, everything else broadcasts"""
    t = typ(f32)
    lim = 300 if f32 else 4000
    ku = [tuple(float(t(v)) for v in c) for c in ku]
    ku = [c for c in ku if abs(c[1]) * c[0] * c[0] < lim]
    fn = adx.kepler_equ_uni
    try:
        for q, g in enumerate((jax.vmap(fn), jax.jit(jax.vmap(fn)))):
            y = rec.call("vmap(kepler_equ_uni)", g, *[jnp.array([c[i] for c in ku], t) for i in range(6)])
            rec.ev(92, [int(np.shape(y) == (len(ku),)), 1, int(y.dtype == t), 1], "kepler_equ_uni vmap")
            y = lst(y)
            for i in range(q, len(ku), 6 if tier == "quick" else 2):
                rec.ev(43, list(ku[i]) + [y[i]], {"f": "vmap(kepler_equ_uni)", "args": ku[i]})
    except Raised:
        pass
    rec.flush()
    for q in range(12 if tier == "quick" else 60):
        al = ku[(q * 31) % len(ku)][1]
        g = [c[:1] + (al,) + c[2:] for c in ku[q:] if abs(al) * c[0] ** 2 < lim][:6]
        if len(g) < 6:
            continue
        shp = [(6,), (2, 3), (6, 1)][q % 3]
        cols = [jnp.array([c[i] for c in g], t).reshape(shp) for i in range(6)]
        cols[1] = [al, t(al), jnp.asarray(al, t)][q % 3]
        try:
            y = rec.call({"f": "kepler_equ_uni arrays", "alpha": al}, fn, *cols)
            rec.ev(92, [int(np.shape(y) == shp), 1, int(y.dtype == t), 1], {"f": "kepler_equ_uni arrays", "shape": list(np.shape(y))})
            if np.shape(y) == shp:
                for i in range(6):
                    rec.ev(43, list(g[i]) + [lst(y)[i]], {"f": "kepler_equ_uni arrays", "args": g[i]})
            c = ku[(q * 17 + 3) % len(ku)]
            d = (c[0], 1.0, 1.0, 0.0, 0.0, 1.0)
            n = q % 6
            c = c[:6 - n] + d[6 - n:]
            if abs(c[1]) * c[0] ** 2 < lim:
                y = rec.call({"f": "kepler_equ_uni floats", "args": c}, fn, *c[:6 - n])
                rec.ev(43, list(c) + [float(y)], {"f": "kepler_equ_uni with %d defaults" % n, "args": c})
            y = rec.call("kepler_equ_uni 2-d chi", fn, jnp.array([[g[0][0]], [g[1][0]]], t), al, g[0][2], g[0][3], jnp.array([g[0][4], g[1][4]], t), g[0][5])
            for a in range(2):
                for b in range(2):
                    rec.ev(43, [g[a][0], al, g[0][2], g[0][3], g[b][4], g[0][5], float(y[a, b])], "kepler_equ_uni broadcast")
        except Raised:
            pass
        rec.flush()


# ---------------------------------------------------------------- C07
def u_args(c, f32):
    """universal anomaly and alpha: z = alpha chi^2 over the whole line, including the seam |z| = 1"""
    k = c["kind"]
    zmax = 25.0 if f32 else 900.0
    u = j(c, 1)
    z = [0.0, logu(1e-16, 1e-8, u), logu(1e-8, 1e-3, u), logu(1e-3, 0.5, u), 1 - logu(1e-7, 0.5, u), 1 + logu(1e-7, 0.5, u), 1.0,
         logu(1.5, 40, u), logu(40, zmax * 10 if not f32 else 400, u), (2 * PI * (1 + c["n"] % 3)) ** 2 * (1 + 1e-3 * (u - 0.5))][k % 10]
    sign = 1 if (c["time"] % 2 == 0 or k % 10 == 9) else -1
    if sign < 0:
        z = min(z, zmax)
    chi = logu(1e-3, 1e3, j(c, 2)) if not f32 else logu(0.05, 30, j(c, 2))
    if c["mode"] == 0:
        chi = [0.5, 1.0, 2.0, 4.0][c["c"] % 4]
    elif c["mode"] == 1:
        chi = logu(1e2, 1e6, j(c, 2)) if not f32 else logu(10, 1e3, j(c, 2))
    if c["sector"] < 4:
        chi = -chi
    if c["sector"] == 9 and c["c"] < 5:
        return 0.0, sign * logu(1e-3, 10, u)
    al = sign * z / chi**2
    return chi, al


def uref(n, chi, al):
    c = conc.stumpff(al * chi * chi)
    return chi**n * c[n]


def C07(rec, cmds, f32, tier, part):
    import jax, jax.numpy as jnp
    import astrodynx as adx
    tb = adx.twobody
    t = typ(f32)
    fns = [tb.ufunc0, tb.ufunc1, tb.ufunc2, tb.ufunc3, tb.ufunc4, tb.ufunc5]
    cs = []
    for c in cmds:
        x, a = u_args(c, f32)
        cs.append((float(t(x)), float(t(a))))
    # alpha is a scalar of each call (as documented); vectorise over pairs
    outs = []
    for n, fn in enumerate(fns):
        try:
            y = rec.call("vmap(ufunc%d)" % n, jax.jit(jax.vmap(fn)), jnp.array([x for x, _ in cs], t), jnp.array([a for _, a in cs], t))
            rec.ev(92, [int(np.shape(y) == (len(cs),)), 1, int(y.dtype == t), 1], "ufunc%d vmap" % n)
            outs.append(np.asarray(y))
        except Raised:
            outs.append(None)
        rec.flush()
    for i, (x, a) in enumerate(cs):
        for n in range(6):
            if outs[n] is not None and (tier != "quick" or (i + n) % 2 == 0):
                rec.ev(30, [n, x, a, float(outs[n][i])], {"f": "ufunc%d" % n, "chi": x, "alpha": a})
        if all(o is not None for o in outs) and (tier != "quick" or i % 2 == 0):
            rec.ev(31, [x, a] + [float(o[i]) for o in outs], {"f": "identities", "chi": x, "alpha": a})
        rec.flush()
    # arrays of anomalies (1-D, 2-D) against one alpha; eager scalars of every form
    for q in range(0, len(cs), max(1, len(cs) // (14 if tier == "quick" else 60))):
        a = cs[q][1]
        lim = (25.0 if f32 else 600.0)
        xs = [x for x, _ in cs if abs(a) * x * x < lim][:12]
        xs = (xs + [0.0] * 12)[:12]
        n = (q // 3) % 6
        X = jnp.array(xs, t)
        shape = [(12,), (3, 4), (12, 1), (2, 3, 2)][q % 4]
        for n in range(6):
            try:
                al = [a, t(a), jnp.asarray(a, t)][(q + n) % 3]
                y = rec.call({"f": "ufunc%d" % n, "alpha": a, "shape": shape}, fns[n], X.reshape(shape), al)
                rec.ev(92, [int(np.shape(y) == shape), 1, int(y.dtype == t), 1], {"f": "ufunc%d array" % n, "shape": list(np.shape(y))})
                if np.shape(y) == shape:
                    yy = np.asarray(y).ravel()
                    for i in range((q + n) % 4, 12, 4):
                        rec.ev(30, [n, xs[i], a, float(yy[i])], {"f": "ufunc%d array" % n, "chi": xs[i], "alpha": a})
                x = cs[(q + 7 * n) % len(cs)]
                y = rec.call({"f": "ufunc%d scalar" % n, "args": x}, fns[n], x[0], x[1])
                rec.ev(30, [n, x[0], x[1], float(y)], {"f": "ufunc%d python floats" % n, "chi": x[0], "alpha": x[1]})
            except Raised:
                pass
            rec.flush()


# ---------------------------------------------------------------- C08
def C08(rec, cmds, f32, tier, part):
    import jax, jax.numpy as jnp
    import astrodynx as adx
    tb = adx.twobody
    t = typ(f32)
    S = Scal(rec, f32, tier)
    rows = []
    for c in cmds:
        o = conc.orbit(c, f32)
        dt = conc.span(c, o, f32)
        x = conc.chi_hint(o["mu"], o["r0"], o["v0"], dt)
        if abs(o["alpha"]) * x * x > (20 if f32 else 300) and o["alpha"] < 0:
            x = math.copysign(math.sqrt((20 if f32 else 300) / -o["alpha"]), x)
        rows.append((o, float(t(x)), float(t(o["alpha"]))))
    # very eccentric orbits between their ends: the radius changes by orders of magnitude
    for c in cmds[::8]:
        mu, R = conc.UNIT[c["units"]]
        e = 1 - logu(1e-3, 0.1, j(c, 1))
        a = R * logu(0.3, 30, j(c, 2))
        up = c["c"] % 2
        d = [0.0, 1e-2 * (2 * j(c, 3) - 1), 2 * j(c, 3) - 1][c["n"] % 3]
        o = conc.finish(float(t(mu)), [float(t(a * (1 - e if up else 1 + e))), 0.0, 0.0],
                        [0.0, float(t(math.sqrt(mu / a * ((1 + e) / (1 - e) if up else (1 - e) / (1 + e))))), 0.0], dict(kind=6))
        rows.append((o, float(t((PI + d) * math.sqrt(a) * [1, -1][c["sector"] % 2])), float(t(o["alpha"]))))

    def chain(chi, al, r0, s0, mu):
        U = [f(chi, al) for f in (tb.ufunc0, tb.ufunc1, tb.ufunc2)]
        r = adx.equ_of_orb_uvi(U[0], U[1], U[2], r0, s0)
        return tb.lagrange_F(U[2], r0), tb.lagrange_G(U[1], U[2], s0, r0, mu), tb.lagrange_Ft(U[1], r, r0, mu), tb.lagrange_Gt(U[2], r), r, U[1], U[2], U[0]
    cols = [jnp.array([x for _, x, _ in rows], t), jnp.array([a for _, _, a in rows], t)] + [jnp.array([o[k] for o, _, _ in rows], t) for k in ("r", "s0", "mu")]
    cs = [tuple(float(np.asarray(c)[i]) for c in cols) for i in range(len(rows))]
    try:
        y = rec.call("jit(vmap(lagrange))", jax.jit(jax.vmap(chain)), *cols)
        y = [np.asarray(v) for v in y]
    except Raised:
        rec.flush()
        return
    us = []
    for i, (o, x, al) in enumerate(rows):
        chi, al, r0, s0, mu = cs[i]
        rec.ev(32, [mu, r0, s0, chi, al] + [float(y[k][i]) for k in range(5)],
               {"f": "lagrange", "mu": mu, "r0": r0, "s0": s0, "chi": chi, "alpha": al, "kind": o["kind"]})
        # applied to the state: the flow at the time that belongs to the anomaly
        U1, U2, U0 = float(y[5][i]), float(y[6][i]), float(y[7][i])
        us.append((U0, U1, U2, r0, s0, float(y[4][i]), mu))
        rec.flush()
    good = [u for u in us if all(map(math.isfinite, u)) and u[5] > 0]
    # the formulas hold for any arguments, whatever their sizes
    for c in cmds[::6]:
        g = lambda k, w=1e3: logu(1 / w, w, j(c, k))
        good.append(tuple(float(t(v)) for v in (g(1), g(2) * [1, -1][c["n"] % 2], g(3), g(4), g(5) * [1, -1][c["n"] // 2 % 2], g(6), conc.UNIT[c["units"]][0])))
    S.run("lagrange_F", tb.lagrange_F, 19, [(u[2], u[3]) for u in good], defaults=(1.0,), ints=[(3, 2)])
    S.run("lagrange_Gt", tb.lagrange_Gt, 19, [(u[2], u[5]) for u in good], ints=[(3, 2)])
    S.run("lagrange_G", tb.lagrange_G, 20, [(u[1], u[2], u[4], u[3], u[6]) for u in good], defaults=(0.0, 1.0, 1.0),
          order=lambda a: [a[0], a[1], a[2], a[3], a[4]], ints=[(1, 2, 3, 4, 1)])
    S.run("lagrange_Ft", tb.lagrange_Ft, 21, [(u[1], u[5], u[3], u[6]) for u in good], defaults=(1.0, 1.0), ints=[(1, 2, 3, 4)])
    S.run("equ_of_orb_uvi", adx.equ_of_orb_uvi, 6, [u[:5] for u in good], ints=[(1, 2, 3, 4, 5)])
    # the state built from the coefficients is the exact state at the requested time
    fl = jax.jit(jax.vmap(lambda dt, r0, v0, mu: step(adx, jnp, dt, r0, v0, mu)))
    sel = [(o, c) for (o, _, _), c in zip(rows, cmds)]
    ts = [conc.span(c, o, f32) for o, c in sel]
    try:
        r, v, rm = rec.call("state from lagrange coefficients", fl, jnp.array(ts, t), jnp.array([o["r0"] for o, _ in sel], t),
                            jnp.array([o["v0"] for o, _ in sel], t), jnp.array([o["mu"] for o, _ in sel], t))
        r, v, rm = np.asarray(r), np.asarray(v), np.asarray(rm)
        for i, (o, c) in enumerate(sel):
            if tier == "quick" and i % 3:
                continue
            rec.ev(1, [o["mu"], ts[i], conc.chi_hint(o["mu"], o["r0"], o["v0"], ts[i]), o["r0"], o["v0"], lst(r[i]), lst(v[i])],
                   {"f": "F r0 + G v0, Ft r0 + Gt v0", "dt": ts[i], "o": {k: o[k] for k in ("mu", "r0", "v0", "kind")}})
            rec.flush()
    except Raised:
        pass
    rec.flush()


def step(adx, jnp, dt, r0, v0, mu):
    tb = adx.twobody
    rm = jnp.linalg.norm(r0)
    al = 1 / adx.semimajor_axis(rm, jnp.linalg.norm(v0), mu)
    al = 2 / rm - jnp.sum(v0 * v0) / mu
    s0 = tb.sigma_fn(r0, v0, mu)[0]
    chi = adx.solve_kepler_uni(dt, al, rm, s0, mu)
    U0, U1, U2 = tb.ufunc0(chi, al), tb.ufunc1(chi, al), tb.ufunc2(chi, al)
    r = adx.equ_of_orb_uvi(U0, U1, U2, rm, s0)
    F, G = tb.lagrange_F(U2, rm), tb.lagrange_G(U1, U2, s0, rm, mu)
    Ft, Gt = tb.lagrange_Ft(U1, r, rm, mu), tb.lagrange_Gt(U2, r)
    return F * r0 + G * v0, Ft * r0 + Gt * v0, r


# ---------------------------------------------------------------- C16
def C16(rec, cmds, f32, tier, part):
    import jax, jax.numpy as jnp
    import astrodynx as adx
    t = typ(f32)
    fns = [adx.utils.rotmat3dx, adx.utils.rotmat3dy, adx.utils.rotmat3dz]
    ang = []
    for c in cmds:
        k = c["kind"]
        u = j(c, 1)
        a = [0.0, PI / 2, PI, -PI / 2, 2 * PI, (2 * u - 1) * PI, (2 * u - 1) * 2 * PI, (2 * u - 1) * 50, logu(1e-8, 1e-2, u), -logu(1e-8, 1e-2, u),
             PI * (1 + 1e-6 * (u - 0.5)), 1e3 * (2 * u - 1), u * PI, -u * PI, 1.0, -3.0][k]
        ang.append(float(t(a)))
    A = jnp.array(ang, t)
    N = len(ang)
    N4 = N - N % 4
    for ax, fn in enumerate(fns):
        nm = "rotmat3d" + "xyz"[ax]
        forms = [("(n,)", A, (N,)), ("(n/4, 4)", A[:N4].reshape(-1, 4), (N4 // 4, 4)), ("(2, n/4, 2)", A[:N4].reshape(2, -1, 2), (2, N4 // 4, 2)), ("(1, n)", A[None], (1, N))]
        for q, (s, X, shp) in enumerate(forms):
            try:
                y = rec.call({"f": nm + " on " + s}, [fn, jax.jit(fn), fn, jax.vmap(fn)][q], X)
            except Raised:
                rec.flush()
                continue
            rec.ev(92, [int(np.shape(y) == shp + (3, 3)), 1, int(y.dtype == t), 1], {"f": nm + " " + s, "shape": list(np.shape(y))})
            if np.shape(y) == shp + (3, 3):
                m = np.asarray(y).reshape(-1, 9)
                for i in range((q + ax) % 4, len(m), 4 if tier == "quick" else 1):
                    rec.ev(80, [ax, ang[i], lst(m[i])], {"f": nm + " " + s, "angle": ang[i]})
            rec.flush()
        for q in range(12 if tier == "quick" else 60):
            a = ang[(q * 29 + ax) % N]
            conv = [float, t, lambda v: jnp.asarray(v, t)][q % 3]
            try:
                y = rec.call({"f": nm, "angle": a}, fn, conv(a))
                rec.ev(92, [int(np.shape(y) == (3, 3)), 1], {"f": nm + " scalar"})
                rec.ev(80, [ax, a, lst(y)], {"f": nm + " scalar", "angle": a}) if np.shape(y) == (3, 3) else None
            except Raised:
                pass
        for a in (0, 1, -2, 7):
            try:
                y = rec.call({"f": nm, "angle": a}, fn, a)
                rec.ev(80, [ax, a, lst(y)], {"f": nm + " python int", "angle": a})
                y = rec.call({"f": nm, "angle": [a]}, fn, jnp.array([a, 2]))
                rec.ev(80, [ax, a, lst(y[0])], {"f": nm + " int array", "angle": a})
            except Raised:
                pass
        rec.flush()
        # additive composition, inverse by negation
        B = jnp.roll(A, 7)
        try:
            f = jax.jit(fn)
            S = [a + b for a, b in zip(ang, lst(B))]
            ok = [i for i in range(N) if float(t(S[i])) == S[i] or not f32]
            Sm = jnp.array([float(t(s)) for s in S], t)
            MA, MB, MS = (np.asarray(rec.call(nm + " composition", f, X)) for X in (A, B, Sm))
            for i in range(0, N, 6 if tier == "quick" else 1):
                rec.ev(81, [ax, ang[i], lst(B)[i], lst(MA[i]), lst(MB[i]), lst(MS[i])], {"f": nm + " sum", "a": ang[i], "b": lst(B)[i]})
            MN = np.asarray(rec.call(nm + " inverse", f, -A))
            I = np.eye(3)
            for i in range(1, N, 9 if tier == "quick" else 2):
                rec.ev(81, [ax, ang[i], -ang[i], lst(MA[i]), lst(MN[i]), lst(I)], {"f": nm + " inverse", "a": ang[i]})
        except Raised:
            pass
        rec.flush()


# ---------------------------------------------------------------- C20
def C20(rec, cmds, f32, tier, part):
    import jax, jax.numpy as jnp
    import astrodynx as adx
    t = typ(f32)
    S = Scal(rec, f32, tier)
    os_ = orbits(cmds, f32)
    per, ap, sma, sp, mm, eo, pe, ae = [], [], [], [], [], [], [], []
    for o in os_:
        c = o["cmd"]
        mu, R = conc.UNIT[c["units"]]
        a = R * logu(0.1, 100, j(c, 1))
        T = 2 * PI * math.sqrt(a**3 / mu)
        per.append((a, mu))
        ap.append((T * logu(0.5, 2, j(c, 2)), mu))
        sma.append((o["r"], o["v"], o["mu"]))
        sp.append((o["r"] * o["v"] * j(c, 2), mu))
        mm.append((T,))
        e = conc.ecc(c, f32)
        f = [(2 * j(c, 3) - 1) * PI, (2 * j(c, 3) - 1) * 3 * PI, 0.0, PI / 2, -PI / 2][c["n"] % 5]
        if e >= 1:
            f = (2 * j(c, 3) - 1) * 0.9 * math.acos(-1 / e)
        eo.append((a, e, f))
        pe.append((a, e))
        ae.append((a if e < 1 else -a, e))
    ep = 6e-8 if f32 else 1e-16
    S.run("orb_period", adx.orb_period, 0, per, defaults=(1.0,), ints=[(2, 1), (3, 4)])
    S.run("a_from_period", adx.a_from_period, 1, ap, defaults=(1.0,), ints=[(2, 1), (3, 4)])
    S.run("semimajor_axis", adx.semimajor_axis, 2, sma, ok=lambda r, v, m: abs(2 / r - v * v / m) > 1e4 * ep * 2 / r, defaults=(1.0,), ints=[(2, 2, 1), (1, 1, 1)])
    S.run("semiparameter", adx.semiparameter, 3, sp, defaults=(1.0,), ints=[(2, 3)])
    S.run("mean_motion", adx.mean_motion, 4, mm, ints=[(2,), (7,)])
    S.run("equ_of_orbit", adx.equ_of_orbit, 5, eo, ok=lambda p, e, f: 1 + e * math.cos(f) > 1e-3, ints=[(2, 0, 1), (3, 1, 0)])
    S.run("radius_periapsis", adx.radius_periapsis, 7, pe, ints=[(2, 0), (3, 2)])
    S.run("radius_apoapsis", adx.radius_apoapsis, 8, pe, ok=lambda p, e: abs(1 - e) > 100 * ep, ints=[(2, 0), (3, 2)])
    S.run("semipara_from_ae", adx.semipara_from_ae, 9, ae, ints=[(2, 0), (-3, 2)])
    S.run("a_from_pe", adx.a_from_pe, 10, pe, ok=lambda p, e: abs(1 - e) > 100 * ep, ints=[(2, 0), (3, 2)])
    # vector integrals
    R0, V0 = jnp.array([o["r0"] for o in os_], t), jnp.array([o["v0"] for o in os_], t)
    MU = jnp.array([[o["mu"]] for o in os_], t)
    N = len(os_)
    h_, e_, s_ = adx.angular_momentum, adx.eccentricity_vector, adx.twobody.sigma_fn
    N6 = N - N % 6

    def resh(x):
        return x[:N6].reshape((3, -1, 2) + x.shape[1:])
    for q in range(3):
        w = [lambda x: x, resh, lambda x: x][q]
        g = [lambda f: f, lambda f: f, jax.jit][q]
        shp = [(N,), (3, N6 // 6, 2), (N,)][q]
        try:
            H = rec.call("angular_momentum %d" % q, g(h_), w(R0), w(V0))
            E = rec.call("eccentricity_vector %d" % q, g(e_), w(R0), w(V0), w(MU))
            s = rec.call("sigma_fn %d" % q, g(s_), w(R0), w(V0), w(MU))
        except Raised:
            rec.flush()
            continue
        rec.ev(92, [int(np.shape(H) == shp + (3,)), 1, int(np.shape(E) == shp + (3,)), 1, int(np.shape(s) == shp + (1,)), 1, int(H.dtype == t and E.dtype == t and s.dtype == t), 1],
               {"f": "vector integrals", "form": q})
        H, E, s = np.asarray(H).reshape(-1, 3), np.asarray(E).reshape(-1, 3), np.asarray(s).ravel()
        for i in range(q, len(H), 3):
            o = os_[i]
            m = {"o": {k: o[k] for k in ("mu", "r0", "v0", "kind")}, "form": q}
            rec.ev(21, [o["r0"], o["v0"], lst(H[i])], dict(m, f="angular_momentum"))
            rec.ev(22, [o["mu"], o["r0"], o["v0"], lst(E[i])], dict(m, f="eccentricity_vector"))
            rec.ev(23, [o["mu"], o["r0"], o["v0"], float(s[i])], dict(m, f="sigma_fn"))
            rec.flush()
    # single vectors, default mu, one position against many velocities
    for i in range(0, N, 40 if tier == "quick" else 8):
        o = os_[i]
        m = {"o": {k: o[k] for k in ("mu", "r0", "v0", "kind")}}
        conv = [jnp.array, lambda v, t=t: np.array(v, t)][i % 2]
        try:
            H = rec.call(dict(m, f="angular_momentum"), h_, conv(o["r0"]), conv(o["v0"]))
            E = rec.call(dict(m, f="eccentricity_vector"), e_, conv(o["r0"]), conv(o["v0"]), o["mu"])
            s = rec.call(dict(m, f="sigma_fn"), s_, conv(o["r0"]), conv(o["v0"]), o["mu"])
            E1 = rec.call(dict(m, f="eccentricity_vector default mu"), e_, conv([1.5, 0.2, -0.3]), conv([0.1, 0.7, 0.2]))
            s1 = rec.call(dict(m, f="sigma_fn default mu"), s_, conv([1.5, 0.2, -0.3]), conv([0.1, 0.7, 0.2]))
            rec.ev(92, [int(np.shape(H) == (3,)), 1, int(np.shape(E) == (3,)), 1, int(np.shape(s) == (1,)), 1], "single vectors")
            rec.ev(21, [o["r0"], o["v0"], lst(H)], dict(m, f="angular_momentum one"))
            rec.ev(22, [o["mu"], o["r0"], o["v0"], lst(E)], dict(m, f="eccentricity_vector one"))
            rec.ev(23, [o["mu"], o["r0"], o["v0"], lst(s)], dict(m, f="sigma_fn one"))
            x = [float(t(v)) for v in (1.5, 0.2, -0.3, 0.1, 0.7, 0.2)]
            rec.ev(22, [1.0] + x + [lst(E1)], "eccentricity_vector default mu")
            rec.ev(23, [1.0] + x + [lst(s1)], "sigma_fn default mu")
            HB = rec.call(dict(m, f="angular_momentum broadcast"), h_, conv(o["r0"]), V0[i:i + 4] if i + 4 <= N else V0[:4])
            b = i if i + 4 <= N else 0
            for k in range(4):
                rec.ev(21, [o["r0"], os_[b + k]["v0"], lst(HB[k])], dict(m, f="angular_momentum broadcast"))
        except Raised:
            pass
        rec.flush()
    # relations between the integrals of one elliptic state, all computed by the library
    def rel(r, v, mu):
        a = adx.semimajor_axis(jnp.linalg.norm(r), jnp.linalg.norm(v), mu)
        h = h_(r, v)
        e = e_(r, v, mu)
        em = jnp.linalg.norm(e)
        p = adx.semiparameter(jnp.linalg.norm(h), mu)
        P = adx.orb_period(a, mu)
        return a, h, e, p, adx.mean_motion(P), P, adx.radius_periapsis(p, em), adx.radius_apoapsis(p, em), adx.a_from_period(P, mu), adx.a_from_pe(p, em), adx.semipara_from_ae(a, em)
    ell = [i for i, o in enumerate(os_) if o["alpha"] * o["r"] > 1e-3 and o["e"] < (0.99 if f32 else 0.9999) and o["kind"] != 15]
    try:
        y = rec.call("integrals of elliptic states", jax.jit(jax.vmap(rel)), R0[jnp.array(ell)], V0[jnp.array(ell)], MU[jnp.array(ell), 0])
        y = [np.asarray(v) for v in y]
        for q, i in enumerate(ell):
            o = os_[i]
            m = {"o": {k: o[k] for k in ("mu", "r0", "v0", "kind")}}
            rec.ev(24, [o["mu"], o["r0"], o["v0"], float(y[0][q]), lst(y[1][q]), lst(y[2][q])] + [float(y[k][q]) for k in (3, 4, 5, 6, 7)], dict(m, f="integrals"))
            rec.ev(90, [float(y[8][q]), float(y[0][q]), float(y[0][q]), 64 * (1.2e-7 if f32 else 2.3e-16)], dict(m, f="a_from_period(orb_period(a))"))
            em = float(np.linalg.norm(y[2][q].astype(float)))
            k = 1 / abs(1 - em)
            rec.ev(90, [float(y[10][q]), float(y[3][q]), float(y[3][q]), 200 * (1.2e-7 if f32 else 2.3e-16) * k * (1 + o["r"] * o["v"] ** 2 / o["mu"] + 2 * abs(1 / (o["alpha"] * o["r"])))],
                   dict(m, f="semipara_from_ae(a, e) = p"))
            rec.flush()
    except Raised:
        pass
    rec.flush()
