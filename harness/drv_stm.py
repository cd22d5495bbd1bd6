"""Driver of the state transition matrix (C09)."""
import math
import numpy as np
import conc
from conc import j, PI
from rec import Raised, lst


def scen(cmds, f32):
    out = []
    for c in cmds:
        o = conc.orbit(c, f32)
        dt = conc.span(c, o, f32)
        r, v = conc.flow(o["mu"], o["r0"], o["v0"], dt)
        if f32:
            r, v = [conc.f32r(x) for x in r], [conc.f32r(x) for x in v]
        if not all(math.isfinite(x) and abs(x) < 1e30 for x in r + v):
            continue
        o.update(dt=dt, r1=r, v1=v, cmd=c)
        out.append(o)
    return out


def brief(o):
    return {k: o[k] for k in ("mu", "r0", "v0", "dt", "kind") if k in o}


def stm_ev(rec, o, J, what, dt=None, mu=None):
    dt = o["dt"] if dt is None else dt
    mu = o["mu"] if mu is None else mu
    J = np.asarray(J)
    if J.shape != (6, 6):
        rec.ev(92, [int(J.size), 36], {"f": what + " shape", "shape": list(J.shape)})
        return
    rec.ev(50, [mu, dt, conc.chi_hint(mu, o["r0"], o["v0"], dt), o["r0"], o["v0"], lst(J), 0], {"f": what, "o": brief(o)})


def C09(rec, cmds, f32, tier, part):
    import jax, jax.numpy as jnp
    import astrodynx as adx
    tb = adx.twobody
    np_t = np.float32 if f32 else np.float64
    quick = tier == "quick"
    os_ = scen(cmds, f32)
    A = lambda k: jnp.array([o[k] for o in os_], np_t)
    # 1. all scenarios as one batch
    try:
        f = jax.jit(jax.vmap(tb.dxdx0))
        J = rec.call("jit(vmap(dxdx0))", f, A("r1"), A("v1"), A("r0"), A("v0"), A("dt"), A("mu"))
        rec.ev(92, [int(J.shape == (len(os_), 6, 6)), 1, int(J.dtype == np_t), 1], "dxdx0 vmap shape/dtype")
        for o, M in zip(os_, np.asarray(J)):
            stm_ev(rec, o, M, "jit(vmap(dxdx0))")
        rec.flush()
    except Raised:
        pass
    # 2. the blocks by themselves, put together by hand
    def blocks(o_r, o_v, r0, v0, dt, mu):
        r0m, rm = jnp.linalg.norm(r0), jnp.linalg.norm(o_r)
        al = 2 / r0m - jnp.dot(v0, v0) / mu
        q = jnp.sqrt(mu)
        s0 = jnp.dot(r0, v0) / q
        chi = al * q * dt + jnp.dot(o_r, o_v) / q - s0
        C = tb.C_func(chi, tb.ufunc2(chi, al), tb.ufunc4(chi, al), tb.ufunc5(chi, al), dt, mu)
        U1, U2 = tb.ufunc1(chi, al), tb.ufunc2(chi, al)
        F, G = 1 - U2 / r0m, (r0m * U1 + s0 * U2) / q
        Ft, Gt = -q / (rm * r0m) * U1, 1 - U2 / rm
        a = tb.prpr0(o_r, o_v, r0, v0, F, C, mu)
        b = tb.prpv0(o_r, o_v, r0, v0, F, G, C, mu)
        c = tb.pvpr0(o_r, o_v, r0, v0, Ft, C, mu)
        d = tb.pvpv0(o_r, o_v, r0, v0, F, Gt, C, mu)
        return a, b, c, d
    sub = os_[1::4] if quick else os_
    B = lambda k: jnp.array([o[k] for o in sub], np_t)
    try:
        a, b, c, d = rec.call("blocks prpr0/prpv0/pvpr0/pvpv0", jax.jit(jax.vmap(blocks)), B("r1"), B("v1"), B("r0"), B("v0"), B("dt"), B("mu"))
        for m in (a, b, c, d):
            rec.ev(92, [int(m.shape == (len(sub), 3, 3)), 1, int(m.dtype == np_t), 1], "block shape/dtype")
        J = np.block([[np.asarray(a), np.asarray(b)], [np.asarray(c), np.asarray(d)]])
        for o, M in zip(sub, J):
            stm_ev(rec, o, M, "prpr0, prpv0, pvpr0, pvpv0")
        rec.flush()
    except Raised:
        pass
    # 3. eager forms, omitted arguments
    unit = [o for o in os_ if o["mu"] == 1.0]
    n = 8 if quick else 40
    jx = jnp.array
    for k in range(n):
        o = os_[(k * 29 + part) % len(os_)]
        try:
            if k % 4 == 0:
                M = rec.call({"f": "dxdx0", "o": brief(o)}, tb.dxdx0, jx(o["r1"]), jx(o["v1"]), jx(o["r0"]), jx(o["v0"]), o["dt"], o["mu"])
                stm_ev(rec, o, M, "dxdx0(jax arrays)")
            elif k % 4 == 1:
                N = lambda q: np.array(o[q], np_t)
                M = rec.call({"f": "dxdx0", "o": brief(o)}, tb.dxdx0, N("r1"), N("v1"), N("r0"), N("v0"), np_t(o["dt"]), np_t(o["mu"]))
                stm_ev(rec, o, M, "dxdx0(numpy)")
            elif k % 4 == 2 and unit:
                o = unit[(k * 31) % len(unit)]
                M = rec.call({"f": "dxdx0 default mu", "o": brief(o)}, tb.dxdx0, jx(o["r1"]), jx(o["v1"]), jx(o["r0"]), jx(o["v0"]), deltat=jnp.asarray(o["dt"], np_t))
                stm_ev(rec, o, M, "dxdx0(default mu)")
                # blocks with the default mu
                al = 2 / o["r"] - o["v"] ** 2
                chi = conc.chi_hint(1.0, o["r0"], o["v0"], o["dt"])
                c0, c1, c2, c3 = conc.stumpff(al * chi * chi)
                U1, U2 = chi * c1, chi * chi * c2
                rm = math.sqrt(sum(x * x for x in o["r1"]))
                s0 = o["s0"]
                F, G = 1 - U2 / o["r"], o["r"] * U1 + s0 * U2
                Ft, Gt = -U1 / (rm * o["r"]), 1 - U2 / rm
                ch, AL = jnp.asarray(chi, np_t), jnp.asarray(al, np_t)
                C = tb.C_func(ch, tb.ufunc2(ch, AL), tb.ufunc4(ch, AL), tb.ufunc5(ch, AL), jnp.asarray(o["dt"], np_t))
                v = [jx(o[q], np_t) for q in ("r1", "v1", "r0", "v0")]
                w = lambda x: jnp.asarray(x, np_t)
                a = tb.prpr0(*v, w(F), C)
                b = tb.prpv0(*v, w(F), w(G), C)
                c = tb.pvpr0(*v, w(Ft), C)
                d = tb.pvpv0(*v, w(F), w(Gt), C)
                stm_ev(rec, o, np.block([[np.asarray(a), np.asarray(b)], [np.asarray(c), np.asarray(d)]]), "blocks, default mu")
            elif unit:
                # deltat omitted: the documented default 3.14
                o = dict(unit[(k * 31) % len(unit)])
                if o["kind"] in (13, 14, 15) or o["alpha"] < 0:
                    continue
                o["dt"] = float(np_t(3.14))
                r, v = conc.flow(1.0, o["r0"], o["v0"], 3.14)
                M = rec.call({"f": "dxdx0 default deltat", "o": brief(o)}, tb.dxdx0, jx(r, np_t), jx(v, np_t), jx(o["r0"]), jx(o["v0"]))
                stm_ev(rec, o, M, "dxdx0(default deltat)", dt=3.14)
        except Raised:
            pass
        finally:
            rec.flush()
    # 4. C function on its own
    from drv_rel import Scal
    S = Scal(rec, f32, tier)
    cases = []
    for c in cmds[::4]:
        cases.append(((2 * j(c, 1) - 1) * 10, 20 * j(c, 2), (2 * j(c, 3) - 1) * 30, (2 * j(c, 4) - 1) * 90,
                      (2 * j(c, 5) - 1) * 40, conc.logu(1e-3, 1e6, j(c, 6))))
    S.run("C_func", tb.C_func, 22, cases, defaults=(3.14, 1.0))
    # 5. chains: legs of one history, the product of the matrices is the matrix of the whole
    ch = [o for o in os_ if o["dt"] != 0 and o["kind"] != 15]
    ch = ch[part % 3::3] if quick else ch
    R = {k: [] for k in ("r0", "v0", "r1", "v1", "r2", "v2", "t1", "t2", "mu")}
    for o in ch:
        w = [0.5, -0.7, 1.0, -1.0][o["cmd"]["n"] % 4]  # second leg, possibly flying back
        t1 = float(np_t(o["dt"] * (0.2 + 0.6 * j(o["cmd"], 6))))
        t2 = float(np_t(w * t1))
        if o["alpha"] < 0:
            t2 = -abs(t2) * np.sign(t1) if abs(t2) <= abs(t1) else -t1
            t2 = float(t2)
        a, b = conc.flow(o["mu"], o["r0"], o["v0"], t1), conc.flow(o["mu"], o["r0"], o["v0"], t1 + t2)
        for k, x in zip(("r0", "v0", "r1", "v1", "r2", "v2", "t1", "t2", "mu"), (o["r0"], o["v0"], a[0], a[1], b[0], b[1], t1, t2, o["mu"])):
            R[k].append(x)
    X = {k: jnp.array(v, np_t) for k, v in R.items()}
    try:
        j10 = rec.call("dxdx0 leg 1", f, X["r1"], X["v1"], X["r0"], X["v0"], X["t1"], X["mu"])
        j21 = rec.call("dxdx0 leg 2", f, X["r2"], X["v2"], X["r1"], X["v1"], X["t2"], X["mu"])
        j20 = rec.call("dxdx0 both legs", f, X["r2"], X["v2"], X["r0"], X["v0"], X["t1"] + X["t2"], X["mu"])
        for k, o in enumerate(ch):
            # each factor was judged against the flow on its own; here only the law is at stake
            e = o["e"]
            rel = (2e-2 if f32 else 1e-7) if e < 0.9 or e > 1.1 else (None if f32 else 1e-5)
            if rel is None or abs(o["dt"]) > 12 * math.sqrt(o["r"] ** 3 / o["mu"]) and f32:
                continue
            big = [max(np.linalg.norm(X[q + z][k]) for z in "012") for q in "rv"]
            rec.ev(51, [lst(j20[k]), lst(j21[k]), lst(j10[k]), rel, min(np.linalg.norm(X[q][k]) for q in ("r0", "r1", "r2")), max(np.linalg.norm(X[q][k]) for q in ("v0", "v1", "v2")), big[0] ** 2 * big[1] / o["mu"]], {"f": "chain of dxdx0", "t": [R["t1"][k], R["t2"][k]], "o": brief(o)})
        rec.flush()
    except Raised:
        pass
    # 6. zero time
    try:
        M = rec.call("dxdx0 at zero time", f, A("r0"), A("v0"), A("r0"), A("v0"), 0 * A("dt"), A("mu"))
        for o, m in list(zip(os_, np.asarray(M)))[::5 if quick else 1]:
            stm_ev(rec, o, m, "dxdx0 at zero time", dt=0.0)
    except Raised:
        pass
    rec.flush()
