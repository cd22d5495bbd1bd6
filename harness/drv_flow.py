"""Drivers of Kepler propagation (C01, C02, ...)."""
import numpy as np
import conc
from rec import Raised, lst


def make(cmds, f32):
    out = []
    for c in cmds:
        o = conc.orbit(c, f32)
        o["dt"] = conc.span(c, o, f32)
        o["cmd"] = c
        out.append(o)
    return out


def kev(rec, o, dt, r, v, meta):
    rec.ev(1, [o["mu"], dt, conc.chi_hint(o["mu"], o["r0"], o["v0"], dt), o["r0"], o["v0"], r, v], meta)


def C01(rec, cmds, f32, tier, part):
    import jax, jax.numpy as jnp
    import astrodynx as adx
    kep = adx.prop.kepler
    np_t = np.float32 if f32 else np.float64
    os_ = make(cmds, f32)
    # every scenario gets a few times: its own, zero, and scaled ones; as one jit(vmap) batch
    fr = [1.0, -0.37, 0.11]
    TS = []
    for o in os_:
        ts = [o["dt"]]
        for k in fr[1:]:
            t = conc.limit_hyp(o, k * o["dt"], 3.0 if f32 else 9.0)
            if o["kind"] == 15:
                t = abs(t)
            ts.append(conc.f32r(t) if f32 else t)
        TS.append(ts)
    m = [o for o in os_]
    try:
        f = jax.jit(jax.vmap(kep))
        r, v = rec.call("jit(vmap(prop.kepler))", f, jnp.array(TS), jnp.array([o["r0"] for o in m]),
                        jnp.array([o["v0"] for o in m]), jnp.array([o["mu"] for o in m]))
        ok = r.shape == (len(m), len(fr), 3) and v.shape == r.shape
        rec.ev(92, [int(ok), 1, int(r.dtype == np_t), 1], "kepler vmap shapes")
        r, v = np.asarray(r), np.asarray(v)
        for i, o in enumerate(m):
            for k in range(len(fr)):
                if k and (tier == "quick" and (i + k) % 3):
                    continue
                kev(rec, o, TS[i][k], lst(r[i, k]), lst(v[i, k]),
                    {"f": "jit(vmap(kepler))", "ts": TS[i][k], "o": {x: o[x] for x in ("mu", "r0", "v0", "kind")}})
            rec.flush()
    except Raised:
        pass
    # eager and jitted calls with varied time lists (length, order, duplicates, zeros, forms)
    n_eager = 10 if tier == "quick" else 120
    rng = np.random.default_rng(7 + part)
    stride = max(1, len(os_) // n_eager) | 1
    for turn, i in enumerate(range(0, len(os_), stride)):
        o, base = os_[i], TS[i]
        c = o["cmd"]
        # lengths around powers of two, in every call mode over the parts of a run
        L = [2, 100, 33, 5, 65, 12, 257, 31, 130, 3, 1023, 1][(turn + 5 * part + 2 * int(f32)) % 12]
        ts = [base[0] * w for w in rng.uniform(0 if o["kind"] == 15 else -1, 1, L)]
        ts = [conc.limit_hyp(o, t, 3.0 if f32 else 9.0) for t in ts]
        if L > 2:
            ts[1] = ts[0]
            ts[2] = 0.0
        ts = [conc.f32r(t) if f32 else t for t in ts]
        mode = [1, 2, 4, 5, 1, 2, 0, 3][(turn * 3 + part) % 8]
        r0, v0, mu = jnp.array(o["r0"]), jnp.array(o["v0"]), o["mu"]
        try:
            if mode == 0:
                ts = ts[:1]
                what, res = "kepler(python float)", lambda: kep(ts[0], r0, v0, mu)
            elif mode == 1:
                what, res = "kepler(array)", lambda: kep(jnp.array(ts), r0, v0, mu)
            elif mode == 2:
                what, res = "jit(kepler)(array)", lambda: jax.jit(kep)(jnp.array(ts), r0, v0, mu)
            elif mode == 3:
                ts = ts[:1]
                what, res = "kepler(0-d array)", lambda: kep(jnp.asarray(ts[0]), r0, v0, jnp.asarray(mu))
            elif mode == 4:
                what, res = "kepler(numpy)", lambda: kep(np.array(ts, np_t), np.array(o["r0"], np_t), np.array(o["v0"], np_t), mu)
            else:
                what, res = "kepler(keywords)", lambda: kep(ts=jnp.array(ts), r0_vec=r0, v0_vec=v0, mu=mu) 
            try:
                r, v = rec.call({"f": what, "ts": ts[:5], "L": len(ts), "o": {x: o[x] for x in ("mu", "r0", "v0")}}, res)
            except Raised:
                rec.flush()
                continue
            rec.ev(92, [int(r.ndim == 2 and r.shape[0]), len(ts), int(r.shape[-1]), 3, int(v.shape == r.shape), 1,
                        int(r.dtype == np_t and v.dtype == np_t), 1], {"f": what, "shape": list(r.shape)})
            r, v = np.asarray(r), np.asarray(v)
            if r.shape == (len(ts), 3):
                for q in sorted(set([0, 1, 2, len(ts) - 1, len(ts) // 2] + ([3 * len(ts) // 4, len(ts) - 2] if len(ts) > 12 else [])) & set(range(len(ts)))):
                    kev(rec, o, ts[q], lst(r[q]), lst(v[q]), {"f": what, "row": q, "ts": ts[q], "L": len(ts), "o": {x: o[x] for x in ("mu", "r0", "v0", "kind")}})
        finally:
            rec.flush()
    # default gravitational parameter
    try:
        o = conc.finish(1.0, [1.0, 0.0, 0.25], [0.0, 1.0, 0.5])
        r, v = rec.call("kepler(default mu)", kep, jnp.array([1.5]), jnp.array(o["r0"]), jnp.array(o["v0"]))
        kev(rec, o, 1.5, lst(r), lst(v), "kepler(default mu)")
    except Raised:
        pass


def C02(rec, cmds, f32, tier, part):
    """missions: histories of legs flown by the implementation on its own answers"""
    import jax, jax.numpy as jnp
    import astrodynx as adx
    kep = adx.prop.kepler
    np_t = np.float32 if f32 else np.float64
    fj = jax.jit(kep)
    fv = jax.jit(jax.vmap(kep, in_axes=(0, 0, 0, None)))
    o = None
    for c in cmds:
        if c["act"] == 0:
            rec.flush()
            o = conc.orbit(c, f32)
            T = 2 * np.pi * np.sqrt(o["r"] ** 3 / o["mu"])
            if o["alpha"] > 0 and o["e"] < 0.9995:
                T = 2 * np.pi / np.sqrt(o["mu"] * o["alpha"] ** 3)
            q = [1e-3, 0.02, 0.1, 1e-5, 0.3, 0.5, 1.0, 0.25, 0.45, 1e-7, 0.9, 1.3][c["time"]] * T
            if o["alpha"] <= 0 or o["e"] >= 0.9995:
                hm = 2.0 if f32 else 6.0
                q = min(q, conc.limit_hyp(o, 9 * q, hm) / 9, -conc.limit_hyp(o, -9 * q, hm) / 9)
                if o["e"] > 0.9995 and o["e"] < 1.001:
                    q = min(q, 0.05 * T)
            q = float(np_t(q))
            x = (jnp.array(o["r0"]), jnp.array(o["v0"]))
            total = 0.0
            fresh = True
            trail = []
            continue
        if o is None or x is None:
            continue
        if fresh:
            rec.ev(2, [o["mu"], o["r0"], o["v0"]], {"o": {k: o[k] for k in ("mu", "r0", "v0", "kind")}, "q": q})
            fresh = False
        dt = float(np_t(c["ticks"] * q))
        try:
            if c["act"] == 2:
                ts = [dt] + [float(np_t(dt * w / c["n"])) for w in range(1, c["n"])]
                r, v = rec.call({"f": "kepler look", "ts": ts, "trail": trail}, fj, jnp.array(ts), x[0], x[1], o["mu"])
                ks = range(len(ts))
            else:
                ts = [dt]
                trail.append(dt)
                if c["mode"] == 0:
                    r, v = rec.call({"f": "jit(kepler)", "trail": trail}, fj, jnp.array([dt]), x[0], x[1], o["mu"])
                elif c["mode"] == 1:
                    r, v = rec.call({"f": "jit(kepler) scalar", "trail": trail}, fj, dt, x[0], x[1], o["mu"])
                elif c["mode"] == 2:
                    r, v = rec.call({"f": "jit(kepler) last of 3", "trail": trail}, fj, jnp.array([0.3 * dt, -dt if o["alpha"] > 0 else 0.0, dt]), x[0], x[1], o["mu"])
                    r, v = r[2:], v[2:]
                else:
                    r, v = rec.call({"f": "jit(vmap(kepler))", "trail": trail}, fv, jnp.array([[dt], [0.2 * dt]]), jnp.stack([x[0], x[0]]), jnp.stack([x[1], x[1]]), o["mu"])
                    r, v = r[0], v[0]
                ks = [0]
        except Raised:
            x = None
            continue
        for k in ks:
            commit = int(c["act"] != 2)
            ok = rec.ev(3, [ts[k], conc.chi_hint(o["mu"], o["r0"], o["v0"], total + ts[k]) - conc.chi_hint(o["mu"], o["r0"], o["v0"], total), commit, lst(r[k]), lst(v[k]),
                            conc.chi_hint(o["mu"], o["r0"], o["v0"], total + ts[k])],
                        {"act": c["act"], "ticks": c["ticks"], "o": {z: o[z] for z in ("mu", "r0", "v0", "kind")}, "trail": list(trail)})
            if commit:
                total += ts[k]
                x = (r[0], v[0]) if ok else None
    rec.flush()
