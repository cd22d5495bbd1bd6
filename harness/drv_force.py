"""Driver of numerical propagation of user-supplied dynamics (C23)."""
import math
from typing import Any, NamedTuple
import numpy as np
from conc import j
from rec import Raised, lst
from drv_cowell import Env, orb, peri_rate, brief, method, METHODS, rows

FR = [0.0, 0.2, 0.35, 0.6, 0.8, 1.0]
FIX = [0.0, 0.2, 0.4, 0.6, 0.8, 1.0]


class Craft(NamedTuple):
    mu: Any
    thrust: Any
    other: Any


def force(E, o, c, i):
    """[mu, a(3), b(3), drag, spring, w(3)] in the units of the orbit; which terms act is drawn"""
    u = lambda k: 2 * j(c, 1 + (k + i) % 6) - 1
    rate, g = math.sqrt(o["mu"] / o["r"] ** 3), o["mu"] / o["r"] ** 2
    # the terms that act, in turn; the time-dependent thrust most of the time
    bits = [0b00111, 0b00010, 0b01110, 0b10010, 0b00001, 0b11111, 0b01000, 0b10111][(c["op"] + i) % 8]
    f = [0.0 if (c["n"] + i) % 5 == 0 else o["mu"]]
    f += [0.3 * g * u(k) if bits & 1 else 0.0 for k in (0, 1, 2)]
    f += [0.3 * g * rate * u(k) if bits & 2 else 0.0 for k in (3, 4, 5)]
    f += [0.3 * rate * abs(u(1)) if bits & 4 else 0.0, (0.3 * rate) ** 2 * abs(u(2)) if bits & 8 else 0.0]
    f += [0.4 * rate * u(k) if bits & 16 else 0.0 for k in (2, 4, 0)]
    return [E.q(v) for v in f]


def C23(rec, cmds, f32, tier, part):
    E = Env(rec, f32, tier)
    jax, jnp, p, dq, dx = E.jax, E.jnp, E.adx.prop, E.adx.diffeq, E.dx
    import optimistix
    quick = tier == "quick"
    os_ = [o for o in (orb(E, c, emax=0.8) for c in cmds) if o is not None and o["rp"] > 0.05 * o["r"]]
    A = lambda v: jnp.array(v, E.t)

    def acc(t, x, mu, a, b, drag, spring, w):
        r, v = x[:3], x[3:]
        d = jnp.linalg.vector_norm(r)
        return -mu * r / d**3 + a + b * t - drag * v - spring * r - 2 * jnp.cross(w, v) - jnp.cross(w, jnp.cross(w, r))

    def plain(t, x, q):
        return jnp.concatenate([x[3:], acc(t, x, q[0], q[1:4], q[4:7], q[7], q[8], q[9:12])])
    # the same force model, its parameters handed over in the shapes a user may choose
    styles = [
        ("array", lambda f: f, plain),
        ("nested", lambda f: {"grav": {"mu": f[0]}, "thrust": (f[1:4], f[4:7]), "rest": [f[7], f[8], {"spin": f[9:12]}]},
         lambda t, x, q: jnp.concatenate([x[3:], acc(t, x, q["grav"]["mu"], q["thrust"][0], q["thrust"][1], q["rest"][0], q["rest"][1], q["rest"][2]["spin"])])),
        ("named tuple", lambda f: Craft(f[0], f[1:7], f[7:]),
         lambda t, x, q: jnp.concatenate([x[3:], acc(t, x, q.mu, q.thrust[:3], q.thrust[3:], q.other[0], q.other[1], q.other[2:])])),
        ("closure", None, None),
        ("two terms", lambda f: f, "multi"),
    ]

    def dyn(style, f, event=None):
        nm, pack, vf = styles[style]
        kw = {} if event is None else {"event": event}
        if nm == "closure":
            return p.OrbDynx(terms=dq.ODETerm(lambda t, x, q: plain(t, x, f)), args=None, **kw)
        if vf == "multi":
            # gravity and the rest as two terms
            keep = jnp.array([1.0] + [0.0] * 11, E.t)
            kin = lambda t, x, q: plain(t, x, q * keep)
            rest = lambda t, x, q: jnp.concatenate([jnp.zeros(3, E.t), plain(t, x, q * (1 - keep))[3:]])
            return p.OrbDynx(terms=dx.MultiTerm(dq.ODETerm(kin), dq.ODETerm(rest)), args=f, **kw)
        return p.OrbDynx(terms=dq.ODETerm(vf), args=pack(f), **kw)

    # 1. prescribed grids: the recurrence on the field at the right times
    step = lambda t1: dx.StepTo(ts=t1 * A(FR))
    modes = [("fixed_steps", FIX, [0, 1, 2, 5], lambda d, x0, t1, kw: p.fixed_steps(d, x0, t1, t1 / 5, max_steps=8, **kw)),
             ("adaptive_steps", FR, [0, 1, 3, 5], lambda d, x0, t1, kw: p.adaptive_steps(d, x0, t1, max_steps=8, stepsize_controller=step(t1), **kw)),
             ("custom_steps", FR, [1, 4, 5], lambda d, x0, t1, kw: p.custom_steps(d, x0, t1, t1 * A([FR[1], FR[4], FR[5]]), stepsize_controller=step(t1), **kw)),
             ("to_final", FR, [5], lambda d, x0, t1, kw: p.to_final(d, x0, t1, stepsize_controller=step(t1), **kw)),
             ("cowell_method", FR, [0, 5], lambda d, x0, t1, kw: p.cowell_method(d, x0, t1, dq.SaveAt(t0=True, t1=True), max_steps=9, stepsize_controller=step(t1), **kw))]
    combos = [(z, m) for m in [5, 0, 3, 4, 2, 1] for z in range(len(modes))]
    for q, (z, m) in enumerate(combos):
        if quick and (q + part + 2 * int(f32)) % 2:
            continue
        nm, fr, pick, fn = modes[z]
        style = (q // 2 + part + z) % 5
        kw = {} if m == 5 else {"solver": method(E, m)}
        g = jax.jit(lambda x0, t1, f: fn(dyn(style, f), x0, t1, kw))
        for k in range(4 if quick else 12):
            o = dict(os_[(k * 11 + q * 17 + part * 5) % len(os_)])
            f = force(E, o, o["cmd"], k + q)
            o["t1"] = E.q(min(o["t1"], 0.9 / peri_rate(o)))
            meta = {"f": nm, "method": METHODS[m], "args": styles[style][0], "force": f, "o": brief(o)}
            try:
                s = rec.call(meta, g, A(o["x0"]), A(o["t1"]), A(f))
            except Raised:
                rec.flush()
                continue
            ts, ys = rows(s)
            rec.ev(92, [int(len(ts) >= len(pick)), 1], meta)
            for row, y in enumerate(ys[:len(fr)]):
                if not np.isfinite(ts[row]):
                    break
                # the times of the rows are those of the grid, up to rounding
                to = row if z < 2 else pick[row]
                rec.ev(90, [float(ts[row]), fr[to] * o["t1"], o["t1"], 8 * E.eps], dict(meta, row=row))
                if to in pick and to > 0:
                    rec.ev(66, [m] + f + [o["x0"], lst(y), to] + [v * o["t1"] for v in fr[:to + 1]], dict(meta, row=row))
            rec.flush()
    # 2. the controller chooses the steps
    free = [("to_final", lambda d, x0, t1: p.to_final(d, x0, t1), 0),
            ("custom_steps", lambda d, x0, t1: p.custom_steps(d, x0, t1, t1 * A([0.1, 0.55, 1.0])), 0),
            ("adaptive_steps", lambda d, x0, t1: p.adaptive_steps(d, x0, t1, max_steps=600), 0),
            ("fixed_steps", lambda d, x0, t1: p.fixed_steps(d, x0, t1, t1 / 127.5, max_steps=140), 1),
            ("cowell_method", lambda d, x0, t1: p.cowell_method(d, x0, t1, dq.SaveAt(ts=t1 * A([0.3, 1.0]), t1=True)), 0)]
    for q, (nm, fn, kind) in enumerate(free):
        style = (q + 2 * part + int(f32)) % 5
        g = jax.jit(lambda x0, t1, f: fn(dyn(style, f), x0, t1))
        for k in range(5 if quick else 20):
            o = dict(os_[(k * 13 + q * 19 + part * 7) % len(os_)])
            f = force(E, o, o["cmd"], k + q)
            # without the attraction of a centre, or against a strong thrust, the motion stays tame for a short while
            o["t1"] = E.q(min(o["t1"], 2.0 / peri_rate(o)))
            meta = {"f": nm, "controller": "default", "args": styles[style][0], "force": f, "o": brief(o)}
            try:
                s = rec.call(meta, g, A(o["x0"]), A(o["t1"]), A(f))
            except Raised:
                rec.flush()
                continue
            ts, ys = rows(s)
            fin = [i for i in range(len(ts)) if np.isfinite(ts[i])]
            steps = int(s.stats["num_accepted_steps"])
            tol = (1e-7 if kind else 1e-8) * (1 + 1 / min(o["r"], o["v"]))
            for i in sorted({fin[len(fin) // 2], fin[-1]}):
                rec.ev(68, f + [float(ts[i]), o["x0"], lst(ys[i]), tol, steps, 64], dict(meta, row=int(i), t=float(ts[i])))
            rec.flush()
    # 3. events at a prescribed time
    root = optimistix.Newton(rtol=1e-5 if f32 else 1e-9, atol=1e-6 if f32 else 1e-11)
    conds = [("sign change", lambda t, y, args, **k: t - args["at"], None),
             ("located", lambda t, y, args, **k: args["at"] - t, root),
             ("boolean", lambda t, y, args, **k: t >= args["at"], None),
             ("located, scaled", lambda t, y, args, **k: 3.0 * (t / args["at"] - 1), root)]
    pm = E.fields["pm"]
    emodes = [("fixed_steps", lambda d, x0, t1, at: p.fixed_steps(d, x0, t1, t1 / 23.5, max_steps=30)),
              ("adaptive_steps", lambda d, x0, t1, at: p.adaptive_steps(d, x0, t1, max_steps=400)),
              ("to_final", lambda d, x0, t1, at: p.to_final(d, x0, t1)),
              ("cowell_method", lambda d, x0, t1, at: p.cowell_method(d, x0, t1, dq.SaveAt(t0=True, steps=True), max_steps=300))]
    for z, (nm, fn) in enumerate(emodes):
        for c, (cn, cond, rf) in enumerate(conds):
            if quick and (z + c + part) % 2:
                continue
            # three ways to hand over the event: alone, as one of two, with a direction it passes in
            how = (z + c + part // 2) % 3
            if how == 0:
                ev = dq.Event(cond, rf)
            elif how == 1:
                ev = dq.Event([cond, lambda t, y, args, **k: jnp.linalg.vector_norm(y[:3]) + 1.0], rf) if cn != "boolean" else dq.Event([cond, lambda t, y, args, **k: t < -1.0])
            else:
                up = cn != "located"
                ev = dq.Event(cond, rf, direction=up) if cn != "boolean" else dq.Event(cond)
            g = jax.jit(lambda x0, t1, at, mu: fn(p.OrbDynx(terms=dq.ODETerm(pm), args={"mu": mu, "at": at}, event=ev), x0, t1, at))
            for k in range(3 if quick else 10):
                o = dict(os_[(k * 13 + c * 19 + z * 5 + part * 7) % len(os_)])
                o["t1"] = E.q(min(o["t1"], 3.0 / peri_rate(o)))
                at = E.q(o["t1"] * [0.31, 0.77, 1.4, 0.05, 0.93, 3.0][(k + c + z + part) % 6])
                meta = {"f": nm, "event": cn, "how": how, "at": at, "o": brief(o)}
                try:
                    s = rec.call(meta, g, A(o["x0"]), A(o["t1"]), A(at), A(o["mu"]))
                except Raised:
                    rec.flush()
                    continue
                mask = np.asarray(jax.tree_util.tree_leaves(s.event_mask)).ravel()
                fired = bool(mask[0])
                if len(mask) > 1:
                    rec.ev(92, [int(mask[1]), 0], dict(meta, why="the second event cannot happen"))
                rec.ev(92, [int(bool(s.result == dx.RESULTS.event_occurred)), int(fired)], meta)
                ts, ys = rows(s)
                fin = [i for i in range(len(ts)) if np.isfinite(ts[i])]
                tl = float(ts[fin[-1]])
                # a single saved row: the step in which the event lies is not known
                tp = float(ts[fin[-2]]) if len(fin) > 1 else min(at, tl)
                tol = o["t1"] * (1e-4 if f32 else 1e-7)
                rec.ev(69, [at, o["t1"], int(rf is not None), int(fired), tl, tp, tol], meta)
                # every row lies on the orbit at its time
                import conc
                for i in sorted({fin[-1], fin[len(fin) // 2]}):
                    t = float(ts[i])
                    steps = int(s.stats["num_accepted_steps"])
                    # (rows found inside a step are interpolated)
                    acc_ = 1e-5 if rf is not None or nm == "fixed_steps" else 1e-8
                    rec.ev(61, [o["mu"], t, conc.chi_hint(o["mu"], o["r0"], o["v0"], t), o["x0"], lst(ys[i]), acc_ * (1 + 1 / min(o["r"], o["v"])), steps], dict(meta, row=int(i)))
            rec.flush()
    rec.flush()
