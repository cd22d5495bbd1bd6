"""Drivers of the properties that quantify over the whole interface: batching (C17),
derivatives (C18), units (C19), purity (C21)."""
import hashlib, math
import numpy as np
import api, conc
from conc import j, logu, PI
from rec import Raised, lst

# documented shape of one answer
CORE = {"angular_momentum": [(3,)], "eccentricity_vector": [(3,)], "coe2rv": [(3,), (3,)], "inclination": [(1,)], "true_anomaly": [(1,)],
        "right_ascension": [(1,)], "argument_of_periapsis": [(1,)], "sigma_fn": [(1,)], "rv2coe": [()] * 6,
        "prpr0": [(3, 3)], "prpv0": [(3, 3)], "pvpr0": [(3, 3)], "pvpv0": [(3, 3)], "dxdx0": [(3, 3)] * 4,
        "point_mass_grav": [(3,)], "j2_acc": [(3,)], "j3_acc": [(3,)], "j4_acc": [(3,)],
        "rotmat3dx": [(3, 3)], "rotmat3dy": [(3, 3)], "rotmat3dz": [(3, 3)], "kepler": [(1, 3), (1, 3)], "fixed_steps": [(7,), (7, 6)]}


class Api:
    def __init__(self, rec, cmds, f32, tier):
        import jax, jax.numpy as jnp
        import astrodynx as adx
        self.rec, self.f32, self.tier, self.jax, self.jnp, self.adx = rec, f32, tier, jax, jnp, adx
        self.t = np.float32 if f32 else np.float64
        self.eps = 2.0 ** (-23 if f32 else -52)
        self.fns = api.catalogue(adx)
        self.D = []
        for c in cmds:
            if c.get("act", "ask") != "ask":
                continue
            try:
                d = api.sample(c, f32)
            except (OverflowError, ValueError, ZeroDivisionError):
                continue
            if api.ok_sample(d):
                d["_c"] = c
                self.D.append(d)
        self.rng = np.random.default_rng(12345)

    def core(self, F):
        return CORE.get(F.name, [()] * F.nout)

    def cols(self, F, ds):
        return [np.array([d[a] for d in ds], self.t) for a in F.args]

    def pert(self, cols, q):
        """the inputs moved by a multiple of their rounding (direction number q)"""
        K = (1e3 if self.f32 else 1e4) * self.eps
        out = []
        for x in cols:
            s = np.abs(x) if x.ndim == 1 else np.maximum(np.abs(x), np.max(np.abs(x), axis=1, keepdims=True))
            z = self.rng.choice([-1.0, 1.0], x.shape) * self.rng.uniform(0.5, 1, x.shape)
            out.append((x + K * z * s).astype(self.t))
        return out

    def base(self, F, ds, cols=None):
        """answers one problem at a time, and how far they may move: list of lanes, each a list of
        (value array, tolerance array) per output; None where there is no finite answer"""
        jax, jnp = self.jax, self.jnp
        cols = self.cols(F, ds) if cols is None else cols
        n = len(cols[0])
        f1 = jax.jit(F.fn)
        ys = []
        for i in range(n):
            try:
                y = self.rec.call({"f": "jit(%s)" % F.name, "args": [lst(c[i]) for c in cols]}, f1, *[jnp.asarray(c[i]) for c in cols])
                ys.append(F.split(y))
            except Raised:
                self.rec.flush()
                return None
        P = 24 if F.disc else 6
        moved = [self.pert(cols, q) for q in range(P)]
        stack = [np.concatenate([cols[k]] + [m[k] for m in moved]) for k in range(len(cols))]
        try:
            v = F.split(self.rec.call({"f": "jit(vmap(%s))" % F.name}, jax.jit(jax.vmap(F.fn)), *[jnp.asarray(c) for c in stack]))
        except Raised:
            self.rec.flush()
            return None
        out = []
        for i in range(n):
            sl = api.slack(F.slack, ds[i]) if F.slack and ds is not None else None
            lane = []
            for o in range(F.nout):
                a = ys[i][o].astype(float)
                if not np.all(np.isfinite(a)):
                    lane = None
                    break
                dev = np.zeros(a.shape)
                for q in range(P + 1):
                    b = v[o][q * n + i].astype(float)
                    if b.shape != a.shape:
                        b = np.full(a.shape, np.nan)
                    if q == 0:
                        continue
                    d = np.abs(self.wrap(F, o, b, a) - a)
                    dev = np.maximum(dev, np.where(np.isfinite(d), d, np.inf))
                tol = 4 * dev + 64 * self.eps * (np.max(np.abs(a)) if a.size else 0)
                if sl:
                    tol = tol + sl[o]
                lane.append((a, tol))
            out.append(lane)
        return out

    def wrap(self, F, o, b, a):
        if o in F.angle:
            return np.where(b - a > PI, b - 2 * PI, np.where(b - a < -PI, b + 2 * PI, b))
        return b

    def compare(self, F, what, lanes, outs, meta=None):
        """outs: per output an array with one leading index per lane; lanes as from base()"""
        for o in range(F.nout):
            tri = []
            for i, ln in enumerate(lanes):
                if ln is None:
                    continue
                a, tol = ln[o]
                b = np.asarray(outs[o][i], float)
                if b.shape != a.shape:
                    self.rec.ev(92, [0, 1], {"f": what, "shape": list(b.shape), "expected": list(a.shape)})
                    return
                b = self.wrap(F, o, b, a)
                for x, y, z in zip(a.ravel(), b.ravel(), np.broadcast_to(tol, a.shape).ravel()):
                    if math.isfinite(z) and z < 1e30:
                        tri += [float(x), float(y), float(z)]
            if tri:
                for s in range(0, len(tri), 180):
                    self.rec.ev(93, tri[s:s + 180], dict(meta or {}, f=what, out=o))

    def shape(self, F, what, y, lead, whole=False):
        exp = [tuple(lead) + c for c in self.core(F)]
        got = [np.shape(q) for q in F.split(y)]
        dts = [np.asarray(q).dtype for q in F.split(y)]
        good = got == exp
        # plain arithmetic on whole numbers stays with Python
        self.rec.ev(92, [int(good), 1, int(all(d in (np.dtype(self.t), np.dtype(bool)) or whole for d in dts)), 1],
                    {"f": what, "shape": [list(s) for s in got], "documented": [list(s) for s in exp]})
        return good

    def call(self, what, f, *a, **k):
        try:
            return self.rec.call(what if isinstance(what, dict) else {"f": what}, f, *a, **k)
        except Raised:
            self.rec.flush()
            return None


# ---------------------------------------------------------------- C17
def C17(rec, cmds, f32, tier, part):
    A = Api(rec, cmds, f32, tier)
    jax, jnp = A.jax, A.jnp
    quick = tier == "quick"
    parts = 4
    J = jnp.asarray
    for F in A.fns:
        if F.fid % parts != part % parts:
            continue
        off = (F.fid * 13 + part * 29) % max(1, len(A.D) - 40)
        # the seventh power of the radius, and its reciprocal, stay within single precision
        pool = [d for d in A.D if not (f32 and "R_eq" in F.args) or 1e-4 < d["r0"] < 1e5]
        ds = (pool[off:] + pool[:off])[:12]
        cols = A.cols(F, ds)
        n = len(ds)
        L = A.base(F, ds, cols)
        if L is None:
            continue
        A.shape(F, "jit(%s)" % F.name, A.call(F.name, jax.jit(F.fn), *[J(c[0]) for c in cols]), ())
        # the same problems without compilation
        for i in range(part % 3, n, 6 if quick else 2):
            y = A.call("%s eagerly" % F.name, F.fn, *[J(c[i]) for c in cols])
            if y is not None and A.shape(F, "%s eagerly" % F.name, y, ()):
                A.compare(F, "%s eagerly" % F.name, L[i:i + 1], [q[None] for q in F.split(y)])
        # vectorised, with and without compilation
        fv = jax.jit(jax.vmap(F.fn))
        both = (("vmap(%s)" % F.name, jax.vmap(F.fn)), ("jit(vmap(%s))" % F.name, fv))
        for what, f in both if not quick or (F.fid // parts + f32) % 2 else both[1:]:
            y = A.call(what, f, *[J(c) for c in cols])
            if y is not None and A.shape(F, what, y, (n,)):
                A.compare(F, what, L, F.split(y))
        # nested batches, and a batch of one
        if (F.fid + f32) % 4 == 0 or not quick:
            y = A.call("vmap(vmap(%s))" % F.name, jax.vmap(jax.vmap(F.fn)), *[J(c[:12].reshape((3, 4) + c.shape[1:])) for c in cols])
            if y is not None and A.shape(F, "vmap(vmap(%s))" % F.name, y, (3, 4)):
                A.compare(F, "vmap(vmap(%s))" % F.name, L, [q.reshape((12,) + q.shape[2:]) for q in F.split(y)])
            y = A.call("vmap(%s) of one" % F.name, jax.vmap(F.fn), *[J(c[:1]) for c in cols])
            if y is not None:
                A.compare(F, "vmap(%s) of one" % F.name, L[:1], F.split(y))
        rec.flush()
        # partial vectorisation: only the first argument varies
        if len(F.args) > 1:
            k = (F.fid * 7) % len(F.args)
            ax = [None] * len(F.args)
            ax[k] = 0
            mixed = [np.repeat(c[1:2], 6, 0) for c in cols]
            dk = ds[:6]
            if "X" in F.args:
                # high powers of the radius: one system of units, or single precision runs out of range
                dk = [d for d in pool if d["_c"]["units"] % 7 == ds[1]["_c"]["units"] % 7][:6]
                dk = (dk * 6)[:6]
            ck = A.cols(F, dk)[k]
            mixed[k] = ck
            Lm = A.base(F, [dict(ds[1], **{F.args[k]: d[F.args[k]]}) for d in dk], mixed)
            if Lm is not None:
                y = A.call("vmap(%s) over argument %d" % (F.name, k), jax.jit(jax.vmap(F.fn, in_axes=tuple(ax))), *[J(ck if q == k else c[1]) for q, c in enumerate(cols)])
                if y is not None and A.shape(F, "vmap(%s) over one argument" % F.name, y, (6,)):
                    A.compare(F, "vmap(%s) over argument %s" % (F.name, F.args[k]), Lm, F.split(y))
        rec.flush()
        lanes(A, F, fv, cols, L, quick)
        direct(A, F, ds, cols, L, quick)
        integers(A, F, quick)
        rec.flush()
    if part % parts or not quick:
        kepler_rows(A, quick, part % parts)
    if part % parts in (1, 2, 3) or not quick:
        solutions(A, part % parts, quick)


def lanes(A, F, fv, cols, L, quick):
    """no lane of a batch sees another lane: same executable, same lane, other neighbours"""
    rec, jnp, n = A.rec, A.jnp, len(cols[0])
    J = jnp.asarray
    y0 = A.call("jit(vmap(%s))" % F.name, fv, *[J(c) for c in cols])
    if y0 is None:
        return
    y0 = F.split(y0)
    for q, kind in enumerate(["other problems", "zeros", "not-a-number", "infinite", "far away"]):
        if q and F.name == "fixed_steps":
            continue
        if quick and q and (F.fid + q) % 2:
            continue
        keep = [i for i in range(n) if (i + q) % 2 == 0]
        C2 = []
        for c in cols:
            d = np.array(c)
            other = np.roll(c, 5, axis=0)
            for i in range(n):
                if i not in keep:
                    d[i] = {0: other[i], 1: 0 * c[i], 2: np.nan * np.ones_like(c[i]), 3: np.inf * np.ones_like(c[i]), 4: c[i] * 1e6}[q]
            C2.append(d)
        y = A.call("jit(vmap(%s)) among %s" % (F.name, kind), fv, *[J(c) for c in C2])
        if y is None:
            continue
        y = F.split(y)
        for o in range(F.nout):
            tri = []
            for i in keep:
                if L[i] is None:
                    continue
                for a, b in zip(np.ravel(y0[o][i]), np.ravel(y[o][i])):
                    if math.isfinite(float(a)):
                        tri += [float(a), float(b), 4 * A.eps * abs(float(a))]
            if tri:
                for s in range(0, len(tri), 180):
                    rec.ev(93, tri[s:s + 180], {"f": "jit(vmap(%s)): lane among %s" % (F.name, kind), "out": o})
    # permuted
    p = np.roll(np.arange(n)[::-1], 3)
    y = A.call("jit(vmap(%s)) permuted" % F.name, fv, *[J(c[p]) for c in cols])
    if y is not None:
        A.compare(F, "jit(vmap(%s)) permuted" % F.name, [L[i] for i in p], F.split(y))


def direct(A, F, ds, cols, L, quick):
    """array arguments, as documented"""
    rec, jax, jnp = A.rec, A.jax, A.jnp
    J = jnp.asarray
    n = len(ds)
    if F.bc in ("b", "v"):
        # bad neighbours in the same arrays
        for q, bad in enumerate((np.nan, 1e12 if A.f32 else 1e30, np.inf, 0.0)):
            if quick and q != (F.fid // 4 + A.f32) % 4 and q:
                continue
            keep = [i for i in range(n) if (i + q) % 3]
            C2 = []
            for c in cols:
                d = np.array(c)
                d[[i for i in range(n) if i not in keep]] = bad
                C2.append(J(d if F.bc == "b" or d.ndim > 1 else d[:, None]))
            what = "%s on arrays with entries %g" % (F.name, bad)
            y = A.call(what, F.fn if q % 2 else jax.jit(F.fn), *C2)
            if y is not None:
                A.compare(F, what, [L[i] for i in keep], [v[keep] for v in F.split(y)])
    if F.bc == "b":
        for q, shp in enumerate([(n,), (3, 4), (2, 3, 2), (12, 1), (1, 12)]):
            if quick and q > 1 and (F.fid + q) % 3:
                continue
            f = jax.jit(F.fn) if q % 2 else F.fn
            what = "%s on %s" % (F.name, shp)
            y = A.call(what, f, *[J(c.reshape(shp)) for c in cols])
            if y is not None and A.shape(F, what, y, shp):
                A.compare(F, what, L, [v.reshape((n,) + v.shape[len(shp):]) for v in F.split(y)])
        if len(cols) > 1:
            # one argument against the others, outer product; and scalars against arrays
            k = F.fid % len(cols)
            # three problems that differ in this argument
            da = []
            for d in ds + A.D:
                if len(da) < 3 and d[F.args[k]] not in [q[F.args[k]] for q in da]:
                    da.append(d)
            da = (da * 3)[:3]
            a, b = np.array([d[F.args[k]] for d in da], A.t), [c[4:8] for c in cols]
            grid = [[np.repeat(a, 4) if q == k else np.tile(b[q], 3)][0] for q in range(len(cols))]
            gd = [dict(ds[4 + i % 4], **{F.args[k]: da[i // 4][F.args[k]]}) for i in range(12)]
            Lg = A.base(F, gd, grid)
            if Lg is not None:
                for q, f in enumerate(((F.fn, jax.jit(F.fn))[F.fid % 2],) if quick else (F.fn, jax.jit(F.fn))):
                    what = "%s outer product over %s" % (F.name, F.args[k])
                    y = A.call(what, f, *[J(a)[:, None] if m == k else J(b[m]) if (m + q) % 2 else J(b[m])[None] for m in range(len(cols))])
                    if y is not None and A.shape(F, what, y, (3, 4)):
                        A.compare(F, what, Lg, [v.reshape((12,) + v.shape[2:]) for v in F.split(y)])
                # arguments of different rank, aligned at the last axis
                g2 = [np.asarray(c).reshape(3, 4) for c in grid]
                for q in (0, 1):
                    what = "%s on arrays of different rank (%s %d-dimensional)" % (F.name, F.args[k], 2 - q)
                    if q == 0:
                        xs = [J(g2[m]) if m == k else J(b[m]) for m in range(len(cols))]
                    else:
                        xs = [J(a) if m == k else J(g2[m].T) for m in range(len(cols))]
                    y = A.call(what, F.fn if (F.fid + q) % 3 else jax.jit(F.fn), *xs)
                    if y is not None and A.shape(F, what, y, (4, 3) if q else (3, 4)):
                        A.compare(F, what, Lg, [(v.swapaxes(0, 1) if q else v).reshape((12,) + v.shape[2:]) for v in F.split(y)])
            m = (F.fid + 1) % len(cols)
            sc = [np.repeat(c[2:3], 6) if q != m else cols[m][:6] for q, c in enumerate(cols)]
            Ls = A.base(F, [dict(ds[2], **{F.args[m]: ds[i][F.args[m]]}) for i in range(6)], sc)
            if Ls is not None:
                what = "%s: array %s, scalars elsewhere" % (F.name, F.args[m])
                y = A.call(what, F.fn, *[J(cols[m][:6]) if q == m else float(c[2]) for q, c in enumerate(cols)])
                if y is not None and A.shape(F, what, y, (6,)):
                    A.compare(F, what, Ls, F.split(y))
    elif F.bc == "v":
        col = lambda c, shp: J(c.reshape(shp + c.shape[1:])) if c.ndim > 1 else J(c.reshape(shp + (1,)))
        for q, shp in enumerate([(n,), (3, 4), (2, 3, 2), (1, 12)]):
            if quick and q > 1 and (F.fid + q) % 2:
                continue
            f = jax.jit(F.fn) if q % 2 else F.fn
            what = "%s on %s" % (F.name, shp + (3,))
            y = A.call(what, f, *[col(c, shp) for c in cols])
            if y is not None and A.shape(F, what, y, shp):
                A.compare(F, what, L, [v.reshape((n,) + v.shape[len(shp):]) for v in F.split(y)])
        if len(cols) > 1:
            # one first vector against many others; outer product of vectors
            sc = [np.repeat(cols[0][3:4], 6, 0)] + [c[:6] for c in cols[1:]]
            Ls = A.base(F, [dict(ds[i], **{F.args[0]: ds[3][F.args[0]]}) for i in range(6)], sc)
            if Ls is not None:
                what = "%s: one %s against six" % (F.name, F.args[0])
                y = A.call(what, F.fn, J(cols[0][3]), *[col(c[:6], (6,)) for c in cols[1:]])
                if y is not None and A.shape(F, what, y, (6,)):
                    A.compare(F, what, Ls, F.split(y))
            gr = [np.repeat(cols[0][:3], 4, 0)] + [np.tile(c[4:8], (3,) + (1,) * (c.ndim - 1)) for c in cols[1:]]
            Lg = A.base(F, [dict(ds[4 + i % 4], **{F.args[0]: ds[i // 4][F.args[0]]}) for i in range(12)], gr)
            if Lg is not None:
                what = "%s outer product" % F.name
                y = A.call(what, jax.jit(F.fn), J(cols[0][:3])[:, None], *[col(c[4:8], (1, 4)) for c in cols[1:]])
                if y is not None and A.shape(F, what, y, (3, 4)):
                    A.compare(F, what, Lg, [v.reshape((12,) + v.shape[2:]) for v in F.split(y)])
                what = "%s on arrays of different rank" % F.name
                y = A.call(what, F.fn, J(np.repeat(cols[0][:3], 4, 0).reshape((3, 4, 3))), *[col(c[4:8], (4,)) for c in cols[1:]])
                if y is not None and A.shape(F, what, y, (3, 4)):
                    A.compare(F, what, Lg, [v.reshape((12,) + v.shape[2:]) for v in F.split(y)])
            if F.mu and n:
                sc = [c[:6] for c in cols[:-1]] + [np.repeat(cols[-1][:1], 6)]
                Ls = A.base(F, [dict(ds[i], mu=ds[0]["mu"]) for i in range(6)], sc)
                y = A.call("%s: vectors and one mu" % F.name, F.fn, *[J(c[:6]) for c in cols[:-1]], float(cols[-1][0]))
                if Ls is not None and y is not None and A.shape(F, "%s: vectors and one mu" % F.name, y, (6,)):
                    A.compare(F, "%s: vectors and one mu" % F.name, Ls, F.split(y))
    elif F.bc == "s":
        # alpha is one number per call, the anomaly (and the rest) may be arrays
        al = cols[1][0]
        keep = [i for i in range(n) if abs(al) * cols[0][i] ** 2 < (20 if A.f32 else 300)]
        keep = (keep * 12)[:12]
        if not keep:
            return
        c2 = [c[keep] for c in cols]
        c2[1] = np.repeat(cols[1][:1], 12)
        Ls = A.base(F, [dict(ds[i], alpha=ds[0]["alpha"]) for i in keep], c2)
        if Ls is None:
            return
        for q, shp in enumerate([(12,), (3, 4), (2, 3, 2), (12, 1)]):
            if quick and q > 1 and (F.fid + q) % 2:
                continue
            f = jax.jit(F.fn) if q % 2 else F.fn
            what = "%s on %s" % (F.name, shp)
            y = A.call(what, f, *[J(al) if k == 1 else J(c.reshape(shp)) for k, c in enumerate(c2)])
            if y is not None and A.shape(F, what, y, shp):
                A.compare(F, what, Ls, [v.reshape((12,) + v.shape[len(shp):]) for v in F.split(y)])


def whole(rng):
    """all quantities as whole numbers, consistent with one another where the functions need it"""
    I = lambda a, b: int(rng.integers(a, b + 1))
    while True:
        mu = [1, 2, 4][I(0, 2)]
        R0, V0 = [I(-3, 3) for _ in range(3)], [I(-2, 2) for _ in range(3)]
        h = [int(x) for x in np.cross(R0, V0)]
        r, v2 = math.sqrt(sum(x * x for x in R0)), sum(x * x for x in V0)
        al, r0, s0 = I(-1, 1), I(1, 4), I(-1, 1)
        # escape speed exactly, and straight lines, are judged elsewhere
        if not any(h) or abs(2 * mu - v2 * r) < 0.3 or 2 * r0 - al * r0 * r0 - s0 * s0 <= 0:
            continue
        rv = sum(a * b for a, b in zip(R0, V0))
        e = [(v2 - mu / r) * a - rv * b for a, b in zip(R0, V0)]
        if math.sqrt(sum(x * x for x in e)) / mu < 0.05 or h[0] == h[1] == 0:
            continue
        dt = I(1, 5) * (1 if 2 * mu > v2 * r else I(0, 1) * 2 - 1)
        o = conc.finish(float(mu), [float(x) for x in R0], [float(x) for x in V0])
        if o["alpha"] < 0:
            if conc.limit_hyp(o, float(dt), 3.0) != dt:
                continue
        R1 = conc.flow(o["mu"], o["r0"], o["v0"], dt)[0]
        vec = lambda: [[1, -2, 3], [I(-3, 3) or 1, I(-3, 3) or 2, I(-3, 3) or -1]][I(0, 3) > 0]
        w = vec()
        return dict(mu=mu, R0=R0, V0=V0, R1=vec(), V1=vec(), dt=dt, dtp=1, alpha=al, chi=I(-2, 2) or 1, s0=s0, s1=I(-1, 1), r0=r0, r1=I(1, 4), v=I(1, 2), p=I(1, 5),
                    e=0, eh=I(2, 3), f=I(-1, 1) or 2, E=I(-6, 6), M=I(-6, 6), H=I(-3, 3), N=I(-4, 4), a=I(1, 5), ah=-I(1, 5), P=I(1, 9), h=I(1, 4), HV=vec(), EV=vec(),
                    NV=[w[0], w[1], 0], incl=I(1, 3), raan=I(0, 6), argp=I(0, 6), U0=I(1, 2), U1=I(-2, 2), U2=I(0, 3), U4=I(0, 2), U5=I(-2, 2), F=I(-2, 2), G=I(-2, 2), Ft=I(-2, 2),
                    Gt=I(-2, 2), C=I(-3, 3), rmin=I(1, 3), X=R0 + V0, J=0, R_eq=1, _o=o, _r1=math.sqrt(sum(x * x for x in R1)))


def integers(A, F, quick):
    """whole numbers mean the same as the floating-point numbers they equal"""
    rec, jax, jnp = A.rec, A.jax, A.jnp
    n = 6 if quick else 24
    ds = [whole(A.rng) for _ in range(n)]
    fl = [{k: v if k == "_o" else [float(x) for x in v] if isinstance(v, list) else float(v) for k, v in d.items()} for d in ds]
    if F.slack == "kepler":
        for d in fl:
            d["r0"], d["r1"], d["alpha"] = d["_o"]["r"], d["_r1"], d["_o"]["alpha"]
    if F.slack == "uni":
        for d in fl:
            d["r1"] = 0.02
    L = A.base(F, fl)
    if L is None:
        return
    f1 = jax.jit(F.fn)
    for i, d in enumerate(ds):
        for q, (what, f) in enumerate((("%s of whole numbers" % F.name, F.fn), ("jit(%s) of whole numbers" % F.name, f1))):
            if L[i] is None or quick and (i + q + F.fid) % 3 == 0:
                continue
            if q:
                xs = [jnp.asarray(d[a]) for a in F.args]
            else:
                xs = [jnp.asarray(d[a]) if isinstance(d[a], list) else d[a] if (i + k) % 3 else float(d[a]) for k, a in enumerate(F.args)]
            y = A.call({"f": what, "args": [lst(np.array(d[a])) for a in F.args]}, f, *xs)
            if y is not None and A.shape(F, what, y, (), whole=True):
                A.compare(F, what, L[i:i + 1], [v[None] for v in F.split(y)], {"args": [d[a] for a in F.args]})
    rec.flush()


def kepler_rows(A, quick, which=0):
    """many times in one call of prop.kepler are the same as one call per time"""
    rec, jax, jnp = A.rec, A.jax, A.jnp
    F = [f for f in A.fns if f.name == "kepler"][0]
    one = jax.jit(F.fn)
    for q in range(which - 1, 6, 3) if quick else range(40):
        d = A.D[(q * 11 + 3) % len(A.D)]
        n = [1, 2, 3, 7, 12, 30][q % 6]
        w = A.rng.uniform(-1, 1, n)
        if d["_o"]["kind"] == 15:
            w = np.abs(w)
        ts = (d["dt"] * w).astype(A.t)
        if d["alpha"] < 0:
            ts = np.array([conc.limit_hyp(d["_o"], float(x), 3.0 if A.f32 else 9.0) for x in ts], A.t)
        if n > 2:
            ts[1], ts[2] = ts[0], 0
        ds = [dict(d, dt=float(x)) for x in ts]
        for e in ds:
            r, v = conc.flow(d["mu"], d["R0"], d["V0"], e["dt"])
            e["r1"] = math.sqrt(sum(x * x for x in r))
        L = A.base(F, ds)
        if L is None:
            continue
        L2 = [None if ln is None else [(a[0], t[0]) for a, t in ln] for ln in L]
        for f, nm in ((F.fn, "kepler"), (one, "jit(kepler)")):
            y = A.call("%s of %d times" % (nm, n), f, jnp.asarray(ts), jnp.array(d["R0"]), jnp.array(d["V0"]), d["mu"])
            if y is None:
                continue
            rec.ev(92, [int(y[0].shape == (n, 3) and y[1].shape == (n, 3)), 1], {"f": "%s of %d times" % (nm, n)})
            if y[0].shape == (n, 3):
                A.compare(F, "%s of %d times" % (nm, n), L2, [np.asarray(v) for v in y])
        rec.flush()


def solutions(A, which, quick):
    """numerical propagation: a batch of different problems, lane by lane, against solo runs"""
    rec, jax, jnp, adx, t = A.rec, A.jax, A.jnp, A.adx, A.t
    g = adx.gravity

    def vf(tt, x, args):
        return jnp.concatenate([x[3:], g.point_mass_grav(tt, x, args)])
    tolp = dict(rtol=1e-5, atol=1e-6) if A.f32 else dict(rtol=1e-8, atol=1e-10)
    pid = adx.diffeq.PIDController(**tolp)

    def dyn(mu, rmin):
        return adx.prop.OrbDynx(terms=adx.diffeq.ODETerm(vf), args={"mu": mu, "rmin": rmin}, event=adx.diffeq.Event(adx.events.radius_islow))

    def f_final(x, t1, mu, rmin):
        s = adx.prop.to_final(dyn(mu, rmin), x, t1, stepsize_controller=pid)
        return s.ts, s.ys, s.stats["num_steps"], s.event_mask

    def f_adapt(x, t1, mu, rmin):
        s = adx.prop.adaptive_steps(dyn(mu, rmin), x, t1, max_steps=256)
        return s.ts, s.ys, s.stats["num_steps"], s.event_mask

    def f_custom(x, t1, mu, rmin):
        s = adx.prop.custom_steps(dyn(mu, rmin), x, t1, ts=t1 * jnp.array([0.1, 0.35, 0.8, 1.0]))
        return s.ts, s.ys, s.stats["num_steps"], s.event_mask

    def f_fixed(x, t1, mu, rmin):
        s = adx.prop.fixed_steps(dyn(mu, rmin), x, t1, t1 / 40.5, max_steps=64)
        return s.ts, s.ys, s.stats["num_steps"], s.event_mask
    todo = {1: [("to_final", f_final), ("fixed_steps", f_fixed)], 2: [("adaptive_steps", f_adapt)], 3: [("custom_steps", f_custom)]}[which if which else 1]
    sc = []
    for c in [d["_c"] for d in A.D]:
        c = dict(c, units=[0, 6, 0, 5][c["units"] % 4], kind=[0, 2, 3, 3, 4, 10, 11][c["kind"] % 7])
        o = conc.orbit(c, A.f32, maxf=2.0)
        dyn_t = math.sqrt(o["r"] ** 3 / o["mu"])
        t1 = float(t(dyn_t * [0.05, 0.5, 2.0, 5.0, 1.0][c["time"] % 5]))
        if o["alpha"] < 0:
            t1 = float(t(min(t1, conc.limit_hyp(o, t1, 2.0))))
        # some lanes stop at an event, some never do
        rmin = float(t(o["rp"] * (1.3 if c["n"] % 3 == 0 and o["rp"] * 1.35 < o["r"] else 0.5)))
        if t1 > 0:
            sc.append((o["r0"] + o["v0"], t1, o["mu"], rmin))
        if len(sc) == (8 if quick else 16):
            break
    cols = [np.array([s[k] for s in sc], t) for k in range(4)]
    for name, f in todo:
        solo = jax.jit(f)
        vb = jax.jit(jax.vmap(f))
        y = A.call("jit(vmap(%s))" % name, vb, *[jnp.asarray(c) for c in cols])
        if y is None:
            continue
        y = [np.asarray(v) for v in y]
        for i in range(0, len(sc)):
            s = A.call("jit(%s)" % name, solo, *[jnp.asarray(c[i]) for c in cols])
            if s is None:
                continue
            s = [np.asarray(v) for v in s]
            meta = {"f": "%s: lane of a batch against a solo run" % name, "x0": sc[i][0], "t1": sc[i][1], "mu": sc[i][2], "rmin": sc[i][3]}
            near = abs(int(s[2]) - int(y[2][i])) <= 1
            rec.ev(92, [int(y[0][i].shape == s[0].shape and y[1][i].shape == s[1].shape), 1, int(bool(y[3][i])), int(bool(s[3])), int(near), 1], dict(meta, steps=[int(s[2]), int(y[2][i])]))
            if int(s[2]) != int(y[2][i]) or y[0][i].shape != s[0].shape:
                continue
            # step sizes are recomputed from error estimates, whose rounding is relative to the tolerance
            rel = 3e-3 if A.f32 else 1e-6
            tri = []
            fin = np.isfinite(s[0])
            rec.ev(92, [int(np.array_equal(fin, np.isfinite(y[0][i]))), 1], dict(meta, rows=1))
            rr = max(np.max(np.abs(s[1][fin][:, :3])) if fin.any() else 1, 1e-30)
            vv = max(np.max(np.abs(s[1][fin][:, 3:])) if fin.any() else 1, 1e-30)
            for k in list(np.flatnonzero(fin))[:: max(1, int(fin.sum()) // 4)]:
                tri += [float(s[0][k]), float(y[0][i][k]), rel * sc[i][1]]
                for m in range(6):
                    tri += [float(s[1][k][m]), float(y[1][i][k][m]), 10 * rel * (rr if m < 3 else vv)]
            rec.ev(93, tri, meta)
        # same executable, other neighbours: identical lane
        p = [np.array(c) for c in cols]
        for c in p:
            c[1::2] = np.roll(c, 3, axis=0)[1::2]
        z = A.call("jit(vmap(%s)) with other neighbours" % name, vb, *[jnp.asarray(c) for c in p])
        if z is not None:
            z = [np.asarray(v) for v in z]
            for i in range(0, len(sc), 2):
                tri = []
                fin = np.isfinite(y[0][i])
                rec.ev(92, [int(np.array_equal(fin, np.isfinite(z[0][i]))), 1, int(y[2][i]), int(z[2][i]), int(y[3][i]), int(z[3][i])], {"f": "%s: lane with other neighbours" % name})
                for k in list(np.flatnonzero(fin))[:: max(1, int(fin.sum()) // 4)]:
                    tri += [float(y[0][i][k]), float(z[0][i][k]), 4 * A.eps * abs(float(y[0][i][k]))]
                    for m in range(6):
                        tri += [float(y[1][i][k][m]), float(z[1][i][k][m]), 4 * A.eps * abs(float(y[1][i][k][m]))]
                rec.ev(93, tri, {"f": "%s: lane with other neighbours" % name})
        rec.flush()


# ---------------------------------------------------------------- C19
def C19(rec, cmds, f32, tier, part):
    A = Api(rec, cmds, f32, tier)
    jax, jnp = A.jax, A.jnp
    quick = tier == "quick"
    J = jnp.asarray
    parts = 4
    for F in A.fns:
        if F.fid % parts != part % parts:
            continue
        off = (F.fid * 17 + part * 31) % max(1, len(A.D) - 40)
        ds = A.D[off:off + (16 if quick else 40)]
        cols = A.cols(F, ds)
        L = A.base(F, ds, cols)
        if L is None:
            continue
        f = jax.jit(jax.vmap(F.fn))
        km = [(1, 0), (0, 1), (-1, 3), (2, -5), (3, 7), (-3, -4), (0, -9), (-2, 0)]
        if f32:
            km = [(1, 0), (0, 1), (-1, 3), (2, -5), (-2, -4), (0, -6)]
        for q in range(3 if quick else len(km)):
            k, m = km[(q * 3 + F.fid) % len(km)] if quick else km[q]
            if F.name in ("j3_acc", "j4_acc", "fixed_steps") and f32:
                k = max(-1, min(1, k))
            D2 = [dict(d, **{a: api.convert(a, d[a], k, m) for a in set(F.args) | {"mu", "r0", "r1", "alpha"}}) for d in ds]
            y = A.call("%s in other units" % F.name, f, *[J(c) for c in A.cols(F, D2)])
            if y is None:
                continue
            y = F.split(y)
            for o in range(F.nout):
                tri = {}
                for i, ln in enumerate(L):
                    if ln is None:
                        continue
                    a, tol = ln[o]
                    # tolerance of the answer in the new units: converted tolerance of the old one
                    sl = 0.0
                    if F.slack:
                        s1, s2 = api.slack(F.slack, ds[i]), api.slack(F.slack, dict(D2[i], _o=ds[i]["_o"]))
                        sl = s2[o]
                    b = np.asarray(y[o][i], float)
                    b = A.wrap(F, o, b, a)
                    for idx, (x, z, w) in enumerate(zip(a.ravel(), b.ravel(), np.broadcast_to(tol, a.shape).ravel())):
                        part_o = o
                        if F.name == "fixed_steps" and o == 1 and idx % 6 >= 3:
                            part_o = 2
                        dim = DIMS(F, part_o)
                        s = 2.0 ** (k * dim[0] + m * dim[1])
                        if math.isfinite(w) and w < 1e30 and abs(x) < 1e30 and abs(x * s) < 1e30 and s < 1e30:
                            tri.setdefault(part_o, []).extend([float(x), float(z), float(w * s + sl)])
                for po, tr in tri.items():
                    for c0 in range(0, len(tr), 180):
                        rec.ev(91, [F.fid, po, k, m] + tr[c0:c0 + 180], {"f": "%s in units 4^%d, 2^%d" % (F.name, k, m), "out": po})
            rec.flush()
        # leaving out the gravitational parameter means 1
        if F.mu:
            for q in range(2 if quick else 6):
                d = dict(ds[(q * 5 + part) % len(ds)], mu=1.0)
                args = [jnp.asarray(np.array(d[a], A.t)) for a in F.args[:-1]]
                y0 = A.call("%s without mu" % F.name, F.fn, *args)
                for one in ((1.0, 1) if q == 0 else (jnp.asarray(1.0, A.t),)):
                    y1 = A.call("%s with mu = 1" % F.name, F.fn, *args, one)
                    if y0 is None or y1 is None:
                        continue
                    tri = []
                    for a, b in zip(F.split(y0), F.split(y1)):
                        if np.shape(a) != np.shape(b):
                            rec.ev(92, [0, 1], {"f": F.name + " default mu: shape"})
                            continue
                        for x, z in zip(np.ravel(a).astype(float), np.ravel(b).astype(float)):
                            if math.isfinite(x) and abs(x) < 1e30:
                                tri += [float(x), float(z), 16 * A.eps * abs(float(x))]
                    if tri:
                        rec.ev(93, tri, {"f": "%s: omitted mu" % F.name, "args": {a: d[a] for a in F.args}})
            rec.flush()
    if part % parts == 0:
        kep_units(A, quick)
    if part % parts == 1:
        defaults(A, quick)


def DIMS(F, o):
    """mirror of spec/c_units.qnt, used only to size tolerances"""
    T = {6: (3, 0), 7: (1, 0), 8: (0, 1), 9: (2, 0), 10: (4, -1), 11: (2, 0), 13: (2, 0), 14: (0, -1), 27: (1, 0), 35: (0, 1), 36: (0, -1),
         38: (2, 1), 40: (0, 1), 41: (0, -1), 52: (2, 0), 59: (1, 0)}
    i = F.fid
    if 15 <= i <= 20:
        return (2, 0)
    if 28 <= i <= 33:
        return (i - 28, 0)
    if 48 <= i <= 51:
        return (2, -2)
    if i == 21:
        return (2, 0) if o == 0 else (0, 0)
    if i in (22, 56):
        return (2, 0) if o == 0 else (2, -1)
    if i == 43:
        return {1: (0, 1), 2: (0, -1)}.get(o, (0, 0))
    if F.name == "fixed_steps":
        return {0: (0, 1), 1: (2, 0), 2: (2, -1)}[o]
    return T.get(i, (0, 0))


def kep_units(A, quick):
    """prop.kepler in arbitrary (not binary) units, judged with the budget of both problems"""
    rec, jax, jnp, t = A.rec, A.jax, A.jnp, A.t
    f = jax.jit(jax.vmap(A.adx.prop.kepler))
    rows = []
    for i, d in enumerate(A.D):
        o = d["_o"]
        u1, u2 = j(d["_c"], 1), j(d["_c"], 3)
        k = 1.0 if A.f32 else 3.0
        s, T = float(t(10 ** (k * (2 * u1 - 1)))), float(t(10 ** (k * (2 * u2 - 1))))
        if i % 2:
            s, T = 4.0 ** round(3 * (2 * u1 - 1)), 2.0 ** round(6 * (2 * u2 - 1))
        q = lambda x: float(t(x))
        r2, v2 = [q(x * s) for x in o["r0"]], [q(x * s / T) for x in o["v0"]]
        rows.append((d, s, T, r2, v2, q(o["mu"] * s**3 / T**2), q(d["dt"] * T), i % 2))
    rows = [r for r in rows if all(math.isfinite(x) and abs(x) < 1e30 for x in r[3] + r[4] + [r[5], r[6]])]
    N = lambda k: jnp.array([r[k] for r in rows], t)
    a = A.call("kepler", f, jnp.array([[r[0]["dt"]] for r in rows], t), jnp.array([r[0]["_o"]["r0"] for r in rows], t),
               jnp.array([r[0]["_o"]["v0"] for r in rows], t), jnp.array([r[0]["_o"]["mu"] for r in rows], t))
    b = A.call("kepler in other units", f, N(6)[:, None], N(3), N(4), N(5))
    if a is None or b is None:
        return
    for i, r in enumerate(rows):
        d, o = r[0], r[0]["_o"]
        if not r[7]:
            continue  # inexact units change the problem itself by rounding: judged on their own below
        rec.ev(6, [r[1], r[2], o["mu"], d["dt"], conc.chi_hint(o["mu"], o["r0"], o["v0"], d["dt"]), o["r0"], o["v0"],
                   lst(a[0][i]), lst(a[1][i]), lst(b[0][i]), lst(b[1][i])], {"f": "kepler in units %g, %g" % (r[1], r[2]), "o": {k: o[k] for k in ("mu", "r0", "v0", "kind")}, "dt": d["dt"]})
        rec.flush()
    for i, r in enumerate(rows):
        if not r[7]:
            rec.ev(1, [r[5], r[6], conc.chi_hint(r[5], r[3], r[4], r[6]), r[3], r[4], lst(b[0][i]), lst(b[1][i])],
                   {"f": "kepler in units %g, %g" % (r[1], r[2]), "r0": r[3], "v0": r[4], "mu": r[5], "dt": r[6]})
            rec.flush()


def defaults(A, quick):
    """default parameters of the force models and of numerical propagation mean mu = 1"""
    rec, jax, jnp, adx, t = A.rec, A.jax, A.jnp, A.adx, A.t
    g = adx.gravity

    def vf(tt, x, args):
        return jnp.concatenate([x[3:], g.point_mass_grav(tt, x, args)])
    for q in range(2 if quick else 8):
        d = A.D[(q * 7) % len(A.D)]
        x = jnp.array(d["X"], t)
        pairs = [("point_mass_grav", lambda: g.point_mass_grav(0.0, x), lambda: g.point_mass_grav(0.0, x, {"mu": 1.0})),
                 ("j2_acc", lambda: g.j2_acc(0.0, x), lambda: g.j2_acc(0.0, x, {"mu": 1.0, "J2": 0.0, "R_eq": 1.0})),
                 ("j3_acc", lambda: g.j3_acc(0.0, x), lambda: g.j3_acc(0.0, x, {"mu": 1.0, "J3": 0.0, "R_eq": 1.0})),
                 ("j4_acc", lambda: g.j4_acc(0.0, x), lambda: g.j4_acc(0.0, x, {"mu": 1.0, "J4": 0.0, "R_eq": 1.0}))]
        if q == 0:
            D0, D1 = adx.prop.OrbDynx(terms=adx.diffeq.ODETerm(vf)), adx.prop.OrbDynx(terms=adx.diffeq.ODETerm(vf), args={"mu": 1.0})
            y = jnp.array([1.0, 0.1, 0.0, 0.0, 1.0, 0.2], t)
            pairs += [("to_final", lambda: adx.prop.to_final(D0, y, 0.7).ys, lambda: adx.prop.to_final(D1, y, 0.7).ys),
                      ("fixed_steps", lambda: adx.prop.fixed_steps(D0, y, 0.7, 0.25, max_steps=3).ys, lambda: adx.prop.fixed_steps(D1, y, 0.7, 0.25, max_steps=3).ys)]
        for nm, a, b in pairs:
            ya, yb = A.call(nm + " with default parameters", a), A.call(nm + " with mu = 1", b)
            if ya is None or yb is None:
                continue
            tri = []
            for u, w in zip(lst(ya), lst(yb)):
                if math.isfinite(u):
                    tri += [u, w, 16 * A.eps * abs(u)]
            rec.ev(93, tri, {"f": nm + " with default parameters"})
        rec.flush()


# ---------------------------------------------------------------- C18
def C18(rec, cmds, f32, tier, part):
    import jax, jax.numpy as jnp
    import astrodynx as adx
    from drv_stm import stm_ev, brief
    from drv_alg import elps_in, hypb_in
    from drv_rel import u_args
    t = np.float32 if f32 else np.float64
    quick = tier == "quick"
    kep = adx.prop.kepler

    def one(dt, x, mu):
        r, v = kep(dt, x[:3], x[3:], mu)
        return jnp.concatenate([r[0], v[0]])
    os_ = []
    for c in cmds:
        o = conc.orbit(c, f32)
        o["dt"] = conc.span(c, o, f32)
        o["cmd"] = c
        if o["kind"] == 15 and c["n"] % 2:
            continue
        os_.append(o)
    if quick:
        os_ = os_[:192]
    DT = jnp.array([o["dt"] for o in os_], t)
    X = jnp.array([o["r0"] + o["v0"] for o in os_], t)
    MU = jnp.array([o["mu"] for o in os_], t)
    res = {}
    for nm, mode in (("jacfwd", jax.jacfwd), ("jacrev", jax.jacrev)):
        try:
            f = jax.jit(jax.vmap(mode(one, argnums=(0, 1, 2))))
            d = rec.call("%s(prop.kepler)" % nm, f, DT, X, MU)
            res[nm] = [np.asarray(q) for q in d]
        except Raised:
            rec.flush()
            continue
        for i, o in enumerate(os_):
            half = (i % 2 == 0) == (nm == "jacfwd") or not quick
            m = {"f": "%s(prop.kepler)" % nm, "o": brief(o)}
            bad = [k for k in range(3) if not np.all(np.isfinite(res[nm][k][i]))]
            if bad:
                rec.fail(m, "non-finite derivative with respect to %s" % ["time", "state", "mu"][bad[0]])
            elif half:
                hint = conc.chi_hint(o["mu"], o["r0"], o["v0"], o["dt"])
                J = res[nm][1][i]
                rec.ev(50, [o["mu"], o["dt"], hint, o["r0"], o["v0"], lst(J), 2.3e-6 / math.sqrt(o["mu"])], dict(m, wrt="state"))
                rec.ev(52, [o["mu"], o["dt"], hint, o["r0"], o["v0"], lst(res[nm][0][i]), lst(res[nm][2][i])], dict(m, wrt="time and mu"))
            rec.flush()
    if len(res) == 2:
        for i, o in enumerate(os_):
            tri = []
            K = o["r"] * (2 / o["r"] + o["v"] ** 2 / o["mu"])
            for k in range(3):
                a, b = res["jacfwd"][k][i].astype(float), res["jacrev"][k][i].astype(float)
                if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
                    continue
                # both modes apply the same rules to the same root: only the order of sums differs
                for blk in ([slice(0, 3), slice(3, 6)]):
                    cols = [slice(0, 3), slice(3, 6)] if k == 1 else [None]
                    for cs in cols:
                        u, w = (a[blk], b[blk]) if cs is None else (a[blk, cs], b[blk, cs])
                        sc = max(np.max(np.abs(u)), 1e-300)
                        rel = 2e-2 if f32 else 1e-8
                        e = o["e"]
                        if abs(e - 1) < 1e-2:
                            rel *= 100
                        # rounding of the terms that the derivative is the difference of
                        top, left = blk.start == 0, cs is not None and cs.start == 0
                        dt = abs(o["dt"])
                        nat = ([o["v"], o["mu"] / o["r"] ** 2] if k == 0 else [dt * o["v"] / o["mu"], dt / o["r"] ** 2 + o["v"] / o["mu"]] if k == 2
                               else [1.0, o["v"] / o["r"] + o["mu"] * dt / o["r"] ** 3] if left else [dt, 1.0])[0 if top else 1]
                        floor = 64 * float(np.finfo(t).eps) * nat
                        for x, y in zip(u.ravel(), w.ravel()):
                            if abs(x) < 1e30:
                                tri += [float(x), float(y), float(rel * sc + floor)]
            if tri and (not f32 or o["e"] < 0.9 or o["e"] > 1.1):
                rec.ev(93, tri, {"f": "forward against reverse mode", "o": brief(o)})
            rec.flush()
    # derivatives through the other documented forms of call: several times, eager, scalar time
    for q in range(4 if quick else 24):
        o = os_[(q * 37 + 5 * part + 1) % len(os_)]
        nm, mode = [("jacfwd", jax.jacfwd), ("jacrev", jax.jacrev)][q % 2]
        try:
            ts = jnp.array([0.0, o["dt"], 0.3 * o["dt"]], t)
            d = rec.call({"f": "%s of several times" % nm, "o": brief(o)}, jax.jit(mode(lambda x: jnp.concatenate(kep(ts, x[:3], x[3:], o["mu"]), 1))), X[os_.index(o)])
            d = np.asarray(d)
            rec.ev(92, [int(d.shape == (3, 6, 6)), 1], "shape of the derivative of several times")
            for k in range(3):
                dt = float(ts[k])
                rec.ev(50, [o["mu"], dt, conc.chi_hint(o["mu"], o["r0"], o["v0"], dt), o["r0"], o["v0"], lst(d[k]), 2.3e-6 / math.sqrt(o["mu"])],
                       {"f": "%s of several times" % nm, "row": k, "o": brief(o)})
        except Raised:
            pass
        rec.flush()
    # second derivatives exist and are finite (smooth functions)
    try:
        h = jax.jit(jax.vmap(jax.jacfwd(jax.jacrev(one, argnums=1), argnums=1)))
        y = np.asarray(rec.call("jacfwd(jacrev(prop.kepler))", h, DT[:32], X[:32], MU[:32]))
        for i in range(len(y)):
            if f32:
                continue
            rec.ev(92, [int(np.all(np.isfinite(y[i]))), 1], {"f": "second derivatives finite", "o": brief(os_[i])})
    except Raised:
        pass
    rec.flush()
    solvers(rec, cmds, f32, tier, part, jax, jnp, adx, t, elps_in, hypb_in, u_args)


def solvers(rec, cmds, f32, tier, part, jax, jnp, adx, t, elps_in, hypb_in, u_args):
    quick = tier == "quick"
    cmds = cmds[:192] if quick else cmds
    modes = (("jacfwd", jax.jacfwd), ("jacrev", jax.jacrev))
    r_ = lambda x: float(t(x))
    El = [tuple(map(r_, elps_in(c, f32))) for c in cmds]
    Hy = [tuple(map(r_, hypb_in(c, f32))) for c in cmds]
    Hy = [h for h in Hy if h[1] > 1]
    for name, fn, S, op in (("solve_kepler_elps", adx.solve_kepler_elps, El, 53), ("solve_kepler_hypb", adx.solve_kepler_hypb, Hy, 54)):
        a, b = jnp.array([s[0] for s in S], t), jnp.array([s[1] for s in S], t)
        try:
            y = np.asarray(rec.call(name, jax.jit(jax.vmap(fn)), a, b))
        except Raised:
            continue
        for q, (nm, mode) in enumerate(modes):
            try:
                d = rec.call("%s(%s)" % (nm, name), jax.jit(jax.vmap(mode(fn, argnums=(0, 1)))), a, b)
            except Raised:
                rec.flush()
                continue
            d = [np.asarray(x) for x in d]
            for i in range(q, len(S), 2 if quick else 1):
                rec.ev(op, [S[i][0], S[i][1], float(y[i]), float(d[0][i]), float(d[1][i])], {"f": "%s(%s)" % (nm, name), "args": S[i]})
                rec.flush()
        # eager, single
        for q in range(2 if quick else 10):
            s = S[(q * 31 + part) % len(S)]
            try:
                g = rec.call({"f": "grad(%s)" % name, "args": s}, jax.grad(fn, argnums=(0, 1)), t(s[0]), t(s[1]))
                yy = rec.call({"f": name, "args": s}, fn, t(s[0]), t(s[1]))
                rec.ev(op, [s[0], s[1], float(yy), float(g[0]), float(g[1])], {"f": "grad(%s)" % name, "args": s})
            except Raised:
                pass
        rec.flush()
    U = []
    for c in cmds:
        o = conc.orbit(c, f32)
        U.append((conc.span(c, o, f32), r_(o["alpha"]), r_(o["r"]), r_(o["s0"]), o["mu"], o["kind"]))
    cols = [jnp.array([u[k] for u in U], t) for k in range(5)]
    fn = adx.solve_kepler_uni
    try:
        y = np.asarray(rec.call("solve_kepler_uni", jax.jit(jax.vmap(fn)), *cols))
        for q, (nm, mode) in enumerate(modes):
            d = [np.asarray(x) for x in rec.call("%s(solve_kepler_uni)" % nm, jax.jit(jax.vmap(mode(fn, argnums=(0, 1, 2, 3, 4)))), *cols)]
            for i in range(q, len(U), 2 if quick else 1):
                if U[i][5] == 15:
                    continue
                rec.ev(56, list(U[i][:5]) + [float(y[i])] + [float(d[k][i]) for k in range(5)], {"f": "%s(solve_kepler_uni)" % nm, "args": U[i]})
                rec.flush()
    except Raised:
        pass
    rec.flush()
    cs = []
    for c in cmds:
        x, a = u_args(c, f32)
        cs.append((float(t(x)), float(t(a))))
    ch, al = jnp.array([x for x, _ in cs], t), jnp.array([a for _, a in cs], t)
    for n in range(6):
        fn = getattr(adx.twobody, "ufunc%d" % n)
        for q, (nm, mode) in enumerate(modes):
            try:
                d = [np.asarray(x) for x in rec.call("%s(ufunc%d)" % (nm, n), jax.jit(jax.vmap(mode(fn, argnums=(0, 1)))), ch, al)]
            except Raised:
                rec.flush()
                continue
            for i in range((q + n) % 4, len(cs), 4 if quick else 1):
                rec.ev(55, [n, cs[i][0], cs[i][1], float(d[0][i]), float(d[1][i])], {"f": "%s(ufunc%d)" % (nm, n), "chi": cs[i][0], "alpha": cs[i][1]})
                rec.flush()
    # the residual and its slope are derivatives of each other
    for name, f, df, S in (("kepler_equ_elps", adx.kepler_equ_elps, adx.dE, [(e[0], e[1]) for e in El]),
                           ("kepler_equ_hypb", adx.kepler_equ_hypb, adx.dH, [(2.5 * math.tanh(h[0]), h[1]) for h in Hy])):
        a, b = jnp.array([s[0] for s in S], t), jnp.array([s[1] for s in S], t)
        try:
            for nm, mode in (("jacfwd", jax.jacfwd), ("jacrev", jax.jacrev)):
                d = np.asarray(rec.call("%s(%s)" % (nm, name), jax.jit(jax.vmap(mode(f))), a, b, 0 * a))
                e = np.asarray(rec.call("slope", jax.jit(jax.vmap(df)), a, b))
                k = 64 * 2.0 ** (-23 if f32 else -52)
                tri = []
                for x, y, s in zip(d.astype(float), e.astype(float), S):
                    tri += [float(x), float(y), k * (2 + abs(y) + 2 * s[1])]
                for z in range(0, len(tri), 180):
                    rec.ev(93, tri[z:z + 180], {"f": "%s(%s) against its slope function" % (nm, name)})
        except Raised:
            pass
        rec.flush()


# ---------------------------------------------------------------- C21
def dig(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else repr(p).encode())
        h.update(b"|")
    return int.from_bytes(h.digest()[:5], "big")


def freeze(x):
    """bytes of everything reachable in a pytree of arguments"""
    if isinstance(x, dict):
        return repr([(k, freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return repr([freeze(v) for v in x])
    if hasattr(x, "dtype"):
        a = np.asarray(x)
        return repr((str(a.dtype), a.shape, a.tobytes().hex()))
    return repr(x)


def C21(rec, cmds, f32, tier, part):
    import jax, jax.numpy as jnp, random, os
    A = Api(rec, cmds, f32, tier)
    adx, t, quick = A.adx, A.t, tier == "quick"
    fns = A.fns
    g, pr, tb = adx.gravity, adx.prop, adx.twobody

    def vf(tt, x, args):
        return jnp.concatenate([x[3:], g.point_mass_grav(tt, x, args) + g.j2_acc(tt, x, args)])
    DEF = [adx.kepler_equ_elps, adx.kepler_equ_uni, adx.generalized_anomaly, adx.mean_anomaly_elps, adx.orb_period, adx.rv2coe, adx.coe2rv, adx.solve_kepler_uni,
           adx.solve_kepler_elps, adx.solve_kepler_hypb, tb.dxdx0, tb.C_func, tb.nmax_by_periapsis, tb.lagrange_G, g.point_mass_grav, g.j2_acc, g.j3_acc, g.j4_acc,
           adx.events.radius_islow, pr.kepler, pr.cowell_method, pr.fixed_steps, pr.adaptive_steps, pr.custom_steps, pr.to_final]

    def world():
        """global numerical settings and default parameters"""
        cfg = {k: v for k, v in sorted(jax.config.values.items()) if isinstance(v, (bool, int, float, str, type(None)))}
        s = np.random.get_state()
        return dig(repr(sorted(cfg.items())), repr(np.geterr()), repr(sorted(np.get_printoptions().items(), key=str)), s[1].tobytes(), s[2],
                   random.getstate(), [freeze(f.__defaults__) if not any("Solver" in type(q).__name__ or "Controller" in type(q).__name__ for q in (f.__defaults__ or ())) else repr(f.__defaults__) for f in DEF],
                   repr(pr.OrbDynx._field_defaults), sorted((k, v) for k, v in os.environ.items() if k.startswith(("JAX", "XLA", "EQX", "NUMPY"))))
    # the population of distinct questions: rows are functions, columns ways of asking
    pick = [F for F in fns if F.fid % 4 == part % 4]
    FORMS = ["eager arrays", "jit", "numpy arrays", "python numbers", "single precision" if not f32 else "eager arrays", "vmap"]
    rows = []
    for q, F in enumerate(pick):
        # the last two questions share their buffers: the arrays are overwritten in place between calls
        rows.append([(F, FORMS[(q + 3 * w + part // 4) % 6] if w < 2 else "shared buffer") for w in range(4)])
    jits = {F.fid: jax.jit(F.fn) for F in pick}
    vms = {F.fid: jax.jit(jax.vmap(F.fn)) for F in pick}
    for w, nm in enumerate(["fixed_steps", "adaptive_steps", "custom_steps", "to_final", "cowell_method"]):
        if (w + part) % 2 == 0 or not quick:
            rows.append([(nm, "solution")] * 4)
    keys = ["mu", "J2", "J3", "J4", "R_eq", "rmin"]
    for w, (nm, f) in enumerate([("point_mass_grav", g.point_mass_grav), ("j2_acc", g.j2_acc), ("j3_acc", g.j3_acc), ("j4_acc", g.j4_acc),
                                 ("radius_islow", adx.events.radius_islow)]):
        rows.append([((nm, f, keys[(part + w + 2 * v) % 6:] + keys[:(part + w + 2 * v) % 6]), "parameter dictionary") for v in range(4)])
    slots = [(rows[q % len(rows)][w][0], A.D[(q * 7 + w * 13 + part) % len(A.D)], rows[q % len(rows)][w][1]) for q in range(len(rows)) for w in range(4)]
    # the first call of every slot happens inside the history
    persist, buffers = {}, {}

    def args_of(s, fresh=False):
        F, d, form = slots[s]
        if s in persist:
            return persist[s]
        if form == "parameter dictionary":
            persist[s] = [np.array(d["X"], t), dict((k, {"mu": 1.5, "J2": 1e-3, "J3": -2e-3, "J4": 3e-3, "R_eq": 0.8, "rmin": 0.4}[k]) for k in F[2])]
            return persist[s]
        if form == "shared buffer":
            b = buffers.setdefault(F.fid, [np.array(d[q], t) for q in F.args])
            for x, q in zip(b, F.args):
                x[...] = np.array(d[q], t)
            # every other call asks the same question with arrays of its own
            return [np.array(x) for x in b] if fresh else b
        if form == "solution":
            x = np.array([1.0 + 0.1 * j(d["_c"], 1), 0.2, 0.1, -0.1, 1.0 + 0.1 * j(d["_c"], 2), 0.3], t)
            a = [x, float(t(0.5 + 0.3 * j(d["_c"], 3))), {"mu": 1.0, "J2": 1e-3, "R_eq": 1.0, "rmin": 0.2}]
        else:
            ty = np.float32 if form == "single precision" else t
            a = [np.array(d[q], ty) for q in F.args]
            if form == "vmap":
                e = A.D[(F.fid * 5 + 1) % len(A.D)]
                a = [np.stack([x, np.array(e[q], ty)]) for x, q in zip(a, F.args)]
            elif form == "python numbers":
                a = [float(x) if x.ndim == 0 else x for x in a]
            elif form == "eager arrays":
                a = [jnp.asarray(x) for x in a]
            elif form == "single precision":
                a = [jnp.asarray(x, np.float32) for x in a]
            if form == "eager arrays":
                return a  # new objects every time, at addresses that are reused
        persist[s] = a
        return a

    def do(s, a):
        F, d, form = slots[s]
        if form == "parameter dictionary":
            return [np.asarray(F[1](0.0, *a))], []
        if form == "solution":
            x, t1, args = a
            D = pr.OrbDynx(terms=adx.diffeq.ODETerm(vf), args=args, event=adx.diffeq.Event(adx.events.radius_islow))
            if F == "fixed_steps":
                sol = pr.fixed_steps(D, x, t1, t1 / 4, max_steps=6)
            elif F == "adaptive_steps":
                sol = pr.adaptive_steps(D, x, t1, max_steps=64)
            elif F == "custom_steps":
                sol = pr.custom_steps(D, x, t1, ts=np.linspace(0, t1, 4).astype(t))
            elif F == "to_final":
                sol = pr.to_final(D, x, t1)
            else:
                sol = pr.cowell_method(D, x, t1, saveat=adx.diffeq.SaveAt(t0=True, t1=True))
            return [np.asarray(sol.ts), np.asarray(sol.ys)], [np.asarray(v) for v in (sol.stats["num_steps"], sol.event_mask)]
        f = F.fn
        if form == "jit":
            f = jits[F.fid]
        elif form == "vmap":
            f = vms[F.fid]
        return F.split(f(*a)), []
    DT = {np.dtype(np.float64): 64, np.dtype(np.float32): 32, np.dtype(bool): 1}

    def fail_call(k):
        """calls that must fail or answer without meaning; whatever they do must not matter later"""
        r2, ok = jnp.array([1.0, 2.0], t), jnp.array([1.0, 0.0, 0.1], t)

        class Boom(Exception):
            pass

        def bad_field(tt, x, args):
            raise Boom()
        x0 = jnp.array([1.0, 0, 0, 0, 1, 0], t)
        if k == 0:
            pr.kepler(1.0, r2, ok)
        elif k == 1:
            adx.angular_momentum(ok, jnp.ones((2, 3, 5), t))
        elif k == 2:
            g.j2_acc(0.0, x0, {"mu": 1.0})
        elif k == 3:
            adx.solve_kepler_elps("x", 0.1)
        elif k == 4:
            pr.to_final(pr.OrbDynx(terms=adx.diffeq.ODETerm(bad_field)), x0, 1.0)
        elif k == 5:
            pr.to_final(pr.OrbDynx(terms=adx.diffeq.ODETerm(vf), args={"mu": 1.0, "J2": 0.0, "R_eq": 1.0}), x0, 50.0, max_steps=3)
        elif k == 6:
            jax.jit(lambda q: float(adx.orb_period(q)))(jnp.asarray(1.0, t))
        elif k == 7:
            adx.coe2rv(jnp.ones(3, t), jnp.ones(4, t), 0.1, 0.2, 0.3, 0.4)
        elif k == 8:
            pr.kepler(jnp.array([np.nan, 1.0], t), ok, ok)
        elif k == 9:
            jax.vmap(tb.dxdx0)(ok, r2, ok, ok)
        elif k == 10:
            adx.solve_kepler_uni(jnp.asarray(np.inf, t), 1.0, 1.0, 0.0, 1.0)
        elif k == 11:
            jax.grad(jax.jit(lambda q: pr.kepler(q, ok, ok)))(1.0)

    def kill_outside(c):
        # unrelated but legitimate activity in between
        k = c % 4
        if k == 0:
            with jax.disable_jit():
                adx.orb_period(jnp.asarray(2.0, t))
        elif k == 1:
            jax.jacfwd(lambda q: adx.twobody.ufunc2(q, 0.5))(jnp.asarray(0.3, t))
        elif k == 2:
            jax.clear_caches()
        else:
            jax.jit(adx.semimajor_axis)(1.0, 1.1)
    n_clear = 0
    for step, c in enumerate(cmds):
        if c["act"] == "fail":
            try:
                fail_call(c["k"])
            except Exception:
                pass
            continue
        if c["act"] == "outside":
            if c["k"] % 4 == 2:
                n_clear += 1
                if n_clear > (1 if quick else 3):
                    continue
            try:
                kill_outside(c["k"])
            except Exception as e:
                rec.fail({"f": "activity in between", "k": c["k"] % 4}, "raised %s" % e)
            continue
        s = (c["fn"] % len(rows)) * 4 + c["way"]
        F, d, form = slots[s]
        name = F if form == "solution" else F[0] if form == "parameter dictionary" else F.name
        meta = {"f": "%s (%s)" % (name, form), "step": step, "slot": s}
        a = args_of(s, c["own"])
        before = dig(freeze(a), world())
        try:
            y, extra = rec.call(meta, do, s, a)
        except Raised:
            rec.flush()
            continue
        after = dig(freeze(a), world())
        ty = 32 if form == "single precision" or f32 else 64
        # plain numbers have no precision of their own
        seen = [DT.get(q.dtype, 0) for q in y] if form != "python numbers" else []
        bad = [q for q in seen if q not in (ty, 1)]
        rec.ev(95, [part * 1000 + s + (500000 if f32 else 0), dig(*[(str(q.dtype), q.shape, q.tobytes()) for q in y + extra]), before, after, bad[0] if bad else ty, ty], meta)
    rec.flush()
