"""Drivers of numerical propagation (C11, C12, C13, C14)."""
import math
import numpy as np
import conc
from conc import j, logu, PI
from rec import Raised, lst

FIXED, ADAPTIVE, CUSTOM, FINAL, ENDS, STEPS = range(6)


class Env:
    def __init__(self, rec, f32, tier):
        import jax, jax.numpy as jnp, diffrax
        import astrodynx as adx
        self.rec, self.f32, self.tier = rec, f32, tier
        self.jax, self.jnp, self.adx, self.dx = jax, jnp, adx, diffrax
        self.t = np.float32 if f32 else np.float64
        self.eps = 2.0 ** (-23 if f32 else -52)
        g, J = adx.gravity, jnp

        def field(*fs):
            def vf(t, x, args):
                return J.concatenate([x[3:], sum(f(t, x, args) for f in fs)])
            return vf
        self.fields = {"pm": field(g.point_mass_grav), "j2": field(g.point_mass_grav, g.j2_acc),
                       "j3": field(g.point_mass_grav, g.j3_acc), "j4": field(g.point_mass_grav, g.j4_acc),
                       "all": field(g.point_mass_grav, g.j2_acc, g.j3_acc, g.j4_acc)}
        self.cache = {}

    def dyn(self, field, args=None, event=None):
        kw = {}
        if args is not None:
            kw["args"] = args
        if event is not None:
            kw["event"] = event
        return self.adx.prop.OrbDynx(terms=self.adx.diffeq.ODETerm(self.fields[field]), **kw)

    def rms(self, *a):
        return self.adx.diffeq.Event(self.adx.events.radius_islow)

    def q(self, v):
        return float(self.t(v))


def orb(E, c, kinds=None, units=(0, 1, 6, 0, 6, 1, 0), emax=0.93):
    c = dict(c)
    c["units"] = units[c["units"] % len(units)]
    k = c["kind"]
    if k in (5, 6, 7):
        k = [1, 3, 4][k - 5]
    if k in (15, 9, 14, 13):
        k = {15: 2, 9: 10, 14: 3, 13: 8}[k]
    c["kind"] = k
    o = conc.orbit(c, E.f32, maxf=2.0)
    if o["e"] > emax and o["alpha"] > 0 and o["e"] < 0.9995:
        return None
    bounded = o["alpha"] > 0 and o["e"] < 0.9995
    T = 2 * PI / math.sqrt(o["mu"] * o["alpha"] ** 3) if bounded else 2 * PI * math.sqrt(max(o["r"], o["rp"]) ** 3 / o["mu"])
    u = j(c, 6)
    t1 = [0.03 + 0.2 * u, 0.2 + 0.8 * u, 0.5, 1.0, 1 + u, 0.1 + 0.3 * u][c["time"] % 6] * T
    if not bounded:
        t1 = min(t1, 0.6 * T)
        t1 = conc.limit_hyp(o, t1, 2.5)
        if t1 <= 0:
            return None
    o.update(t1=E.q(t1), T=T, bounded=bounded, cmd=c, x0=o["r0"] + o["v0"])
    return o


def brief(o):
    return {k: o[k] for k in ("mu", "r0", "v0", "t1", "kind") if k in o}


def rows(sol):
    return np.asarray(sol.ts), np.asarray(sol.ys)


def judge_rows(rec, E, sol, o, tol, meta, field="pm", par=None, picks=4, n_oracle=0, fired=False):
    """every picked row is the exact state at its time"""
    ts, ys = rows(sol)
    if ts.ndim != 1 or ys.shape != (len(ts), 6):
        return
    fin = [i for i in range(len(ts)) if np.isfinite(ts[i])]
    if not fin:
        return
    idx = sorted({fin[0], fin[len(fin) // 3], fin[2 * len(fin) // 3], fin[-1]})
    if picks < 4:
        idx = idx[-picks:]
    steps = int(sol.stats["num_accepted_steps"])
    for i in idx:
        t, y = float(ts[i]), lst(ys[i])
        m = dict(meta, row=int(i), t=t, o=brief(o))
        if field == "pm":
            try:
                hint = conc.chi_hint(o["mu"], o["r0"], o["v0"], t)
            except OverflowError:
                continue
            rec.ev(61, [o["mu"], t, hint, o["x0"], y, tol, steps], m)
        else:
            rec.ev(62, [o["mu"]] + par + [t, o["x0"], y, tol, steps, n_oracle if i == idx[-1] else 0], m)


def sol_ev(rec, E, sol, mode, t1, meta, dt=0.0, hmax=0.0, cap=None, event=False, rmin=0.0, req=None, fate=None, o=None):
    """one recorded solution against the save protocol"""
    ts, ys = rows(sol)
    n = len(ts) if ts.ndim == 1 else -1
    ok = ts.ndim == 1 and ys.shape == (n, 6)
    fired = bool(np.asarray(sol.event_mask)) if sol.event_mask is not None else False
    said = bool(sol.result == E.dx.RESULTS.event_occurred)
    rec.ev(92, [int(ok), 1, n, cap, int(ts.dtype == E.t), 1, int(ys.dtype == E.t), 1, int(fired), int(said),
                int(said or bool(sol.result == E.dx.RESULTS.successful)), 1], dict(meta, shape=[list(ts.shape), list(ys.shape)], result=str(sol.result)))
    if not ok or n != cap:
        return
    rec.ev(70, [mode, t1, dt, hmax, cap, int(event)], meta)
    if fate is not None and o is not None:
        kind, tc, th, slack = fate
        hint = conc.chi_hint(o["mu"], o["r0"], o["v0"], tc) if kind == 2 else 0.0
        rec.ev(74, [o["mu"], o["x0"], rmin, kind, tc, hint, th, slack], dict(meta, fate=fate))
    i = 0
    while i < n:
        if np.isfinite(ts[i]):
            rec.ev(71, [float(ts[i]), float(req[i]) if req is not None else 0.0, rmin, lst(ys[i])], dict(meta, row=i, t=float(ts[i])))
            i += 1
        elif mode == CUSTOM:
            rec.ev(72, [float(req[i])], dict(meta, row=i, pad=1))
            rec.ev(92, [int(np.all(np.isinf(ys[i]))), 1, int(ts[i] == np.inf), 1], dict(meta, row=i, unused=1))
            i += 1
        else:
            k = i
            while k < n and not np.isfinite(ts[k]):
                k += 1
            rec.ev(75, [k - i], dict(meta, row=i, pads=k - i))
            rec.ev(92, [int(np.all(np.isinf(ys[i:k]))), 1, int(np.all(ts[i:k] == np.inf)), 1], dict(meta, row=i, unused=1))
            i = k
    st = sol.stats
    rec.ev(73, [int(said), int(st["num_steps"]), int(st["num_accepted_steps"]), int(st["num_rejected_steps"])], dict(meta, close=1))
    rec.flush()


def zonal_par(o, c, which):
    R = o["r"] if o["rp"] > 0.8 * o["r"] else max(o["rp"], 0.3 * o["r"])
    s = 1 if c["c"] % 2 else -1
    J = [s * logu(1e-4, 3e-2, j(c, 1)), -s * logu(1e-4, 2e-2, j(c, 2)), s * logu(1e-4, 2e-2, j(c, 3))]
    keep = {"pm": (0, 0, 0), "j2": (1, 0, 0), "j3": (0, 1, 0), "j4": (0, 0, 1), "all": (1, 1, 1)}[which]
    return [a * b for a, b in zip(J, keep)] + [R]


# ---------------------------------------------------------------- C11
def C11(rec, cmds, f32, tier, part):
    E = Env(rec, f32, tier)
    jax, jnp, p, dq = E.jax, E.jnp, E.adx.prop, E.adx.diffeq
    quick = tier == "quick"
    os_ = [o for o in (orb(E, c) for c in cmds) if o is not None]
    A = lambda v: jnp.array(v, E.t)
    base_tol = 1e-8
    MS = 700

    def runner(key, fn):
        f = E.cache.setdefault(key, jax.jit(fn))
        return f
    grid = jnp.array([0.0, 0.13, 0.4, 0.41, 0.77, 1.0], E.t)

    def solve(name, field, x0, t1, args):
        d = E.dyn(field, args)
        if name == "fixed":
            return p.fixed_steps(d, x0, t1, t1 / 256, max_steps=300)
        if name == "adaptive":
            return p.adaptive_steps(d, x0, t1, max_steps=MS)
        if name == "custom":
            return p.custom_steps(d, x0, t1, t1 * grid)
        if name == "final":
            return p.to_final(d, x0, t1)
        if name == "general":
            return p.cowell_method(d, x0, t1, dq.SaveAt(t0=True, t1=True))
        if name == "tight":
            return p.to_final(d, x0, t1, stepsize_controller=dq.PIDController(rtol=1e-12, atol=1e-12))
        if name == "tight custom":
            return p.custom_steps(d, x0, t1, t1 * grid[1:4], solver=E.dx.Dopri8(), stepsize_controller=dq.PIDController(rtol=1e-11, atol=1e-11))
        if name == "tight adaptive":
            return p.adaptive_steps(d, x0, t1, max_steps=MS, solver=E.dx.Dopri8(), stepsize_controller=dq.PIDController(rtol=1e-11, atol=1e-11))
        if name == "general custom":
            return p.cowell_method(d, x0, t1, dq.SaveAt(ts=t1 * grid[1:]), dt0=t1 / 400, solver=E.dx.Dopri5())
    names = ["fixed", "adaptive", "custom", "final", "general", "general custom"] + ([] if f32 else ["tight", "tight custom", "tight adaptive"])
    per = 12 if quick else 60
    for q, name in enumerate(names):
        for field in ["pm", ["j2", "j3", "j4", "all"][(q + part) % 4]] if quick else ["pm", "j2", "j3", "j4", "all"]:
            f = runner((name, field), lambda x0, t1, args, name=name, field=field: solve(name, field, x0, t1, args))
            for k in range(per if field == "pm" else max(4, per // 3)):
                o = dict(os_[(k * 7 + q * 13 + part) % len(os_)])
                c = o["cmd"]
                par = zonal_par(o, c, field)
                par = [E.q(v) for v in par]
                if field != "pm" and name != "fixed":
                    o["t1"] = E.q(min(o["t1"], 0.5 * o["T"]))
                args = {"mu": o["mu"], "J2": par[0], "J3": par[1], "J4": par[2], "R_eq": par[3]}
                if name == "fixed":
                    # keep 256 steps per span accurate
                    w = math.sqrt(o["mu"] * (1 + o["e"]) / o["rp"] ** 3)
                    o["t1"] = E.q(min(o["t1"], 256 * 0.05 / w))
                try:
                    sol = rec.call({"f": name, "field": field, "o": brief(o)}, f, A(o["x0"]), A(o["t1"]), {k2: A(v) for k2, v in args.items()})
                except Raised:
                    continue
                tol = 1e-12 if name == "tight" else 1e-11 if "tight" in name else base_tol
                tol += tol / min(o["v"], o["r"])
                if name == "fixed":
                    w = math.sqrt(o["mu"] * (1 + o["e"]) / o["rp"] ** 3)
                    tol = 1e-3 * (w * o["t1"] / 256) ** 6
                judge_rows(rec, E, sol, o, tol, {"f": name, "field": field, "par": par}, field, par, n_oracle=0 if (k % (4 if quick else 2)) else 256)
                rec.flush()
    # eager calls with every default
    for k in range(2 if quick else 10):
        o = os_[(k * 41 + 3 + part) % len(os_)]
        if o["mu"] != 1.0:
            continue
        try:
            sol = rec.call({"f": "adaptive eager", "o": brief(o)}, p.adaptive_steps, E.dyn("pm"), A(o["x0"]), o["t1"])
            judge_rows(rec, E, sol, o, base_tol * (1 + 1 / min(o["v"], o["r"])), {"f": "adaptive eager defaults"}, picks=2)
            sol = rec.call({"f": "final eager", "o": brief(o)}, p.to_final, E.dyn("pm"), A(o["x0"]), o["t1"])
            judge_rows(rec, E, sol, o, base_tol * (1 + 1 / min(o["v"], o["r"])), {"f": "final eager defaults"}, picks=1)
        except Raised:
            pass
        rec.flush()

# ---------------------------------------------------------------- shared by C12 - C14
METHODS = ["Euler", "Midpoint", "Heun", "Bosh3", "Dopri5", "Tsit5"]


def method(E, m):
    return [E.dx.Euler, E.dx.Midpoint, E.dx.Heun, E.dx.Bosh3, E.dx.Dopri5, E.dx.Tsit5][m]()


def peri_rate(o):
    """fastest angular rate on the orbit"""
    return math.sqrt(o["mu"] * (1 + o["e"]) / max(o["rp"], 1e-6 * o["r"]) ** 3)


def recur(rec, E, sol, m, env, meta, take=6, start=0):
    """consecutive finite rows are one step of the method apart"""
    ts, ys = rows(sol)
    if ts.ndim != 1 or ys.shape != (len(ts), 6):
        return
    fin = [i for i in range(len(ts)) if np.isfinite(ts[i])]
    pick = list(range(len(fin) - 1))
    if len(pick) > take:
        pick = sorted({0, 1, len(pick) - 1, len(pick) - 2} | {(k * len(pick)) // take for k in range(take)})
    for i in pick[start:]:
        a, b = fin[i], fin[i + 1]
        rec.ev(65, [m] + env + [lst(ys[a]), lst(ys[b]), 1, float(ts[a]), float(ts[b])], dict(meta, row=b, method=METHODS[m]))


def control(rec, E, sol, m, env, rtol, atol, t1, meta, take=6, hmax=None):
    """every accepted step passed the error test, and the next one follows the step-size law"""
    ts, ys = rows(sol)
    if ts.ndim != 1 or ys.shape != (len(ts), 6):
        return
    fin = [i for i in range(len(ts)) if np.isfinite(ts[i])]
    rej = int(sol.stats["num_rejected_steps"])
    pick = list(range(len(fin) - 1))
    if len(pick) > take:
        pick = sorted({0, 1, len(pick) - 1} | {(k * len(pick)) // take for k in range(take)})
    for i in pick:
        h = float(ts[fin[i + 1]]) - float(ts[fin[i]])
        last = i + 2 >= len(fin)
        hn = 0.0 if last else float(ts[fin[i + 2]]) - float(ts[fin[i + 1]])
        clipped = last or float(ts[fin[i + 2]]) >= t1 or (hmax is not None and hn > 0.999 * hmax)
        kind = 2 if last else 1 if rej == 0 and not clipped else 0
        rec.ev(67, [m] + env + [rtol, atol, h, lst(ys[fin[i]]), lst(ys[fin[i + 1]]), hn, kind], dict(meta, row=i, rejected=rej))


def no_answer(rec, what, fn, *a):
    """a call that must be reported as a failure: raises, or says so in the solution"""
    try:
        import jax
        sol = jax.block_until_ready(fn(*a))
    except Exception as e:
        rec.ev(92, [1, 1], dict(what, raised=type(e).__name__))
        return
    rec.ev(92, [0, 1], dict(what, why="returned a solution although the step limit is too small", result=str(sol.result)))


def args_of(E, o, par):
    return {"mu": o["mu"], "J2": par[0], "J3": par[1], "J4": par[2], "R_eq": par[3]}


# ---------------------------------------------------------------- C12
def C12(rec, cmds, f32, tier, part):
    E = Env(rec, f32, tier)
    jax, jnp, p, dq = E.jax, E.jnp, E.adx.prop, E.adx.diffeq
    quick = tier == "quick"
    os_ = [o for o in (orb(E, c) for c in cmds) if o is not None]
    A = lambda v: jnp.array(v, E.t)
    S = lambda d: {k: A(v) for k, v in d.items()}
    atol = 1e-5 if f32 else 1e-8
    pid = dq.PIDController(rtol=atol, atol=atol)
    per = 5 if quick else 30

    def pick(k, q):
        o = dict(os_[(k * 11 + q * 17 + part * 3) % len(os_)])
        if (k + q) % 5 == 3:
            # a very short arc (the integrator's own clock resolves 1e-10, or 1e-6 in binary32)
            o["t1"] = E.q(logu(1e-3, 1e-2, j(o["cmd"], 5)) if f32 else logu(3e-8, 1e-5, j(o["cmd"], 5)))
        return o

    def judge(sol, o, tol, meta, picks=4):
        judge_rows(rec, E, sol, o, tol * (1 + 1 / min(o["v"], o["r"])), meta, picks=picks)

    # fixed steps: divisors, non-divisors, one single step, long runs of many steps
    for q, ms in enumerate([24, 33, 150, 4096] if quick else [24, 33, 150, 400, 4096]):
        f = jax.jit(lambda x0, t1, dt, a, ms=ms: p.fixed_steps(E.dyn("pm", a), x0, t1, dt, max_steps=ms))
        for k in range(per):
            o = pick(k, q)
            u = j(o["cmd"], 3)
            n = [1, 2, 7, 20, 23][k % 5] if ms < 100 else int(20 + 120 * u)
            frac = [0.0, 0.31, 0.97, 0.02, -0.4][(k + q) % 5] if n > 1 else [0.0, -0.5][k % 2]
            w = peri_rate(o)
            o["t1"] = E.q(min(o["t1"], n * 0.08 / w))
            dt = E.q(o["t1"] / (n + frac))
            if float(o["t1"]) / float(dt) > ms - 0.01 and ms < 4096:
                continue
            meta = {"f": "fixed_steps", "max_steps": ms, "dt": dt, "o": brief(o)}
            try:
                sol = rec.call(meta, f, A(o["x0"]), A(o["t1"]), A(dt), S({"mu": o["mu"]}))
            except Raised:
                continue
            sol_ev(rec, E, sol, FIXED, o["t1"], meta, dt=dt, cap=ms + 1, o=o)
            judge(sol, o, 1e-3 * (w * dt) ** 5, meta)
            rec.flush()
    # adaptive steps
    hfrac = [None, 0.02, 0.3]
    for q, hm in enumerate([0, 1]):
        def fn(x0, t1, hmax, a, hm=hm):
            c = dq.PIDController(rtol=atol, atol=atol, dtmax=hmax) if hm else pid
            return p.adaptive_steps(E.dyn("pm", a), x0, t1, max_steps=600, stepsize_controller=c)
        f = jax.jit(fn)
        for k in range(per):
            o = pick(k, 5 + q)
            hmax = E.q(o["t1"] * (0.011 + 0.2 * j(o["cmd"], 2)))
            meta = {"f": "adaptive_steps", "hmax": hmax if hm else None, "o": brief(o)}
            try:
                sol = rec.call(meta, f, A(o["x0"]), A(o["t1"]), A(hmax), S({"mu": o["mu"]}))
            except Raised:
                continue
            sol_ev(rec, E, sol, ADAPTIVE, o["t1"], meta, hmax=hmax if hm else 0.0, cap=601, o=o)
            judge(sol, o, atol, meta)
            rec.flush()
    # requested times
    grids = [[0.5], [1.0], [0.0], [0.0, 1.0], [0.0, 0.2, 0.2001, 0.6, 1.0], [0.01, 0.02, 0.03, 0.5, 0.51, 0.9, 0.99, 0.999],
             [i / 40 for i in range(41)]]
    for q, g in enumerate(grids):
        for via in (["custom_steps", "cowell_method"] if not quick or q in (3, 5) else ["custom_steps", "cowell_method"][q % 2:q % 2 + 1]):
            if via == "custom_steps":
                f = jax.jit(lambda x0, t1, ts, a: p.custom_steps(E.dyn("pm", a), x0, t1, ts, stepsize_controller=pid))
            else:
                f = jax.jit(lambda x0, t1, ts, a: p.cowell_method(E.dyn("pm", a), x0, t1, dq.SaveAt(ts=ts), stepsize_controller=pid))
            for k in range(2 if quick else 10):
                o = pick(k, 7 + q)
                ts = [E.q(o["t1"] * v) for v in g]
                meta = {"f": via, "grid": g if len(g) < 10 else len(g), "o": brief(o)}
                try:
                    sol = rec.call(meta, f, A(o["x0"]), A(o["t1"]), A(ts), S({"mu": o["mu"]}))
                except Raised:
                    continue
                sol_ev(rec, E, sol, CUSTOM, o["t1"], meta, cap=len(g), req=ts, o=o)
                judge(sol, o, atol, meta)
                rec.flush()
    # requested times with the ends asked for on top, long grids, grids given as numpy or list
    gg = [0.3, 0.7]
    forms = [("t0+ts+t1", dq.SaveAt, dict(t0=True, t1=True), [0.0] + gg + [1.0]), ("t0+ts", dq.SaveAt, dict(t0=True), [0.0] + gg),
             ("ts+t1", dq.SaveAt, dict(t1=True), gg + [1.0])]
    for q, (nm, _, kw, full) in enumerate(forms[:1] if quick else forms):
        f = jax.jit(lambda x0, t1, ts, a, kw=kw: p.cowell_method(E.dyn("pm", a), x0, t1, dq.SaveAt(ts=ts, **kw), stepsize_controller=pid))
        for k in range(2):
            o = pick(k, 15 + q)
            ts = [E.q(o["t1"] * v) for v in gg]
            meta = {"f": "cowell_method", "saveat": nm, "o": brief(o)}
            try:
                sol = rec.call(meta, f, A(o["x0"]), A(o["t1"]), A(ts), S({"mu": o["mu"]}))
            except Raised:
                continue
            sol_ev(rec, E, sol, CUSTOM, o["t1"], meta, cap=len(full), req=[E.q(o["t1"] * v) for v in full], o=o)
            judge(sol, o, atol, meta)
            rec.flush()
    # the end only, both ends, every step; long spans (many revolutions, more steps than a small limit)
    def gen(sa, ms=4096):
        return lambda x0, t1, a: p.cowell_method(E.dyn("pm", a), x0, t1, sa, max_steps=ms, stepsize_controller=pid)
    cases = [("to_final", FINAL, 1, lambda x0, t1, a: p.to_final(E.dyn("pm", a), x0, t1, stepsize_controller=pid)),
             ("general t1", FINAL, 1, gen(dq.SaveAt(t1=True))),
             ("general t0 t1", ENDS, 2, gen(dq.SaveAt(t0=True, t1=True), 900)),
             ("general t0 steps", ADAPTIVE, 501, gen(dq.SaveAt(t0=True, steps=True), 500)),
             ("general steps", STEPS, 500, gen(dq.SaveAt(steps=True), 500)),
             ("general steps default limit", STEPS, 4096, lambda x0, t1, a: p.cowell_method(E.dyn("pm", a), x0, t1, dq.SaveAt(steps=True), stepsize_controller=pid)),
             ("adaptive default limit", ADAPTIVE, 4097, lambda x0, t1, a: p.adaptive_steps(E.dyn("pm", a), x0, t1, stepsize_controller=pid)),
             ("fixed default limit", FIXED, 4097, lambda x0, t1, a: p.fixed_steps(E.dyn("pm", a), x0, t1, t1 / 100))]
    for q, (nm, mode, cap, fn) in enumerate(cases):
        f = jax.jit(fn)
        for k in range(2 if quick else 8):
            o = pick(k, 23 + q)
            w = peri_rate(o)
            if nm.startswith("fixed"):
                o["t1"] = E.q(min(o["t1"], 100 * 0.06 / w))
            elif k % 2 == 0 and o["bounded"] and mode in (FINAL, ENDS):
                o["t1"] = E.q(3.3 * o["T"]) if o["e"] < 0.7 else o["t1"]
            meta = {"f": nm, "o": brief(o)}
            try:
                sol = rec.call(meta, f, A(o["x0"]), A(o["t1"]), S({"mu": o["mu"]}))
            except Raised:
                continue
            # the end of the step as the integrator sees it: t1 / 100 in the precision of the call
            dt = float(E.t(o["t1"]) / E.t(100)) if nm.startswith("fixed") else 0.0
            sol_ev(rec, E, sol, mode, o["t1"], meta, dt=dt, cap=cap, o=o)
            judge(sol, o, atol if not dt else 1e-3 * (w * dt) ** 5, meta, picks=3)
            rec.flush()
    # dense output of the general interface: states at the end and in between
    f = jax.jit(lambda x0, t1, s, a: (lambda sol: (sol.evaluate(t1 * s), sol.ys[-1]))(
        p.cowell_method(E.dyn("pm", a), x0, t1, dq.SaveAt(dense=True, t1=True), max_steps=600, stepsize_controller=pid)))
    for k in range(2 if quick else 10):
        o = pick(k, 41)
        for s in (1.0, 0.37):
            meta = {"f": "dense", "s": s, "o": brief(o)}
            try:
                ev, yl = rec.call(meta, f, A(o["x0"]), A(o["t1"]), A(s), S({"mu": o["mu"]}))
            except Raised:
                continue
            t = float(E.t(o["t1"]) * E.t(s))
            rec.ev(61, [o["mu"], t, conc.chi_hint(o["mu"], o["r0"], o["v0"], t), o["x0"], lst(ev), max(atol, 1e-7) * (1 + 1 / min(o["v"], o["r"])), 200], meta)
        rec.flush()
    # eager calls, ints and python floats for the times
    for k in range(1 if quick else 4):
        o = pick(k, 43)
        d = E.dyn("pm", {"mu": o["mu"]})
        for nm, mode, cap, fn, kw in [("fixed eager", FIXED, 13, lambda: p.fixed_steps(d, A(o["x0"]), o["t1"], o["t1"] / 9.5, max_steps=12), {"dt": o["t1"] / 9.5}),
                                     ("custom eager", CUSTOM, 2, lambda: p.custom_steps(d, A(o["x0"]), o["t1"], A([o["t1"] / 3, o["t1"]])), {"req": lst(A([o["t1"] / 3, o["t1"]]))})]:
            meta = {"f": nm, "o": brief(o)}
            try:
                sol = rec.call(meta, fn)
            except Raised:
                continue
            kw = {k2: ([E.q(x) for x in v] if isinstance(v, list) else E.q(v)) for k2, v in kw.items()}
            sol_ev(rec, E, sol, mode, o["t1"], meta, cap=cap, o=o, **kw)


# ---------------------------------------------------------------- C13
def crossing(o, rmin):
    """first descent through rmin on the unperturbed orbit and how long it stays below"""
    e, p, mu = o["e"], o["p"], o["mu"]
    c = (p / rmin - 1) / e
    if not -1 < c < 1:
        return None
    fx = math.acos(c)
    al = o["alpha"]

    def tof(f):  # from periapsis
        if al > 0:
            a = 1 / al
            Ea = 2 * math.atan2(math.sqrt(1 - e) * math.sin(f / 2), math.sqrt(1 + e) * math.cos(f / 2))
            return (Ea - e * math.sin(Ea)) * math.sqrt(a**3 / mu)
        a = -1 / al
        H = 2 * math.atanh(math.sqrt((e - 1) / (e + 1)) * math.tan(f / 2))
        return (e * math.sinh(H) - H) * math.sqrt(a**3 / mu)
    rv = sum(a * b for a, b in zip(o["r0"], o["v0"]))
    c0 = max(-1.0, min(1.0, (p / o["r"] - 1) / e))
    f0 = math.acos(c0) * (1 if rv >= 0 else -1)
    t0 = tof(f0)
    tx = -tof(fx)
    if tx < t0:
        if al <= 0:
            return None
        tx += 2 * PI / math.sqrt(mu * al**3)
    return tx - t0, 2 * tof(fx)


def C13(rec, cmds, f32, tier, part):
    E = Env(rec, f32, tier)
    jax, jnp, p, dq = E.jax, E.jnp, E.adx.prop, E.adx.diffeq
    quick = tier == "quick"
    A = lambda v: jnp.array(v, E.t)
    S = lambda d: {k: A(v) for k, v in d.items()}
    atol = 1e-5 if f32 else 1e-10
    event = E.rms()
    os_ = []
    for c in cmds:
        o = orb(E, c, units=(0, 1, 6, 0, 6, 1, 0))
        if o is None or o["e"] < 0.02 or abs(o["alpha"]) * o["r"] < 1e-3:
            continue
        os_.append(o)
    MS = 500
    grid = [0.0, 0.1, 0.25, 0.4, 0.55, 0.7, 0.85, 1.0]
    G = A(grid)

    def ctl(hmax):
        return dq.PIDController(rtol=atol, atol=atol, dtmax=hmax)
    D = lambda a, f="pm": E.dyn(f, a, event)
    const = dq.ConstantStepSize()
    cases = [("fixed_steps", FIXED, MS + 1, lambda x0, t1, h, a: p.fixed_steps(D(a), x0, t1, h, max_steps=MS)),
             ("adaptive_steps", ADAPTIVE, MS + 1, lambda x0, t1, h, a: p.adaptive_steps(D(a), x0, t1, max_steps=MS, stepsize_controller=ctl(h))),
             ("custom_steps", CUSTOM, len(grid), lambda x0, t1, h, a: p.custom_steps(D(a), x0, t1, t1 * G, stepsize_controller=ctl(h))),
             ("to_final", FINAL, 1, lambda x0, t1, h, a: p.to_final(D(a), x0, t1, stepsize_controller=ctl(h))),
             ("general ends", ENDS, 2, lambda x0, t1, h, a: p.cowell_method(D(a), x0, t1, dq.SaveAt(t0=True, t1=True), stepsize_controller=ctl(h))),
             ("general steps", STEPS, MS, lambda x0, t1, h, a: p.cowell_method(D(a), x0, t1, dq.SaveAt(steps=True), max_steps=MS, stepsize_controller=ctl(h))),
             ("general const", ADAPTIVE, MS + 1, lambda x0, t1, h, a: p.cowell_method(D(a), x0, t1, dq.SaveAt(t0=True, steps=True), dt0=h, max_steps=MS, stepsize_controller=const))]
    FX = ("fixed_steps", "general const")
    per = 10 if quick else 48
    for q, (nm, mode, cap, fn) in enumerate(cases):
        f = jax.jit(fn)
        g = None
        for k in range(per):
            o = dict(os_[(k * 13 + q * 29 + part * 7) % len(os_)])
            c = o["cmd"]
            u = j(c, 3)
            lo, hi = o["rp"], o["r"]
            want = ["sure", "sure", "never", "graze above", "graze below", "open"][(k + q) % 6]
            if want in ("sure", "open") and hi < lo * 1.15:
                want = "never"
            rmin = {"sure": lo + (0.15 + 0.7 * u) * (hi - lo), "open": lo + (0.15 + 0.7 * u) * (hi - lo), "never": lo * (0.2 + 0.7 * u),
                    "graze above": lo * (0.99 if f32 else 0.999), "graze below": lo * 1.03}[want]
            rmin = E.q(rmin)
            if rmin >= o["r"] * 0.999:
                continue
            # the span: a little more than what it takes to get there
            cr = crossing(o, rmin) if rmin > lo else None
            fate = None
            tol_t = (2e-3 if f32 else 1e-6)
            if cr is not None and want != "open":
                tx, below = cr
                t1 = E.q((tx + below) * (1.2 + 0.3 * j(c, 2)))
                h = E.q(min(0.6 * below * (0.3 + 0.7 * j(c, 4)), t1 / 7.3))
                if t1 / h > MS * 0.8:
                    continue
                if nm in FX:
                    w = peri_rate(o)
                    h = E.q(min(h, 0.1 / w))
                    if t1 / h > MS * 0.9:
                        continue
                fate = (2, tx, tx + h, (tx + h) * tol_t)
                if h * 3 < (tx + h) * tol_t:
                    continue
            else:
                if cr is None and rmin > lo:
                    continue
                t1 = E.q(min(o["t1"], 1.6 * o["T"]))
                w = peri_rate(o)
                h = E.q(max(t1 / (0.9 * MS), 0.1 / w if nm in FX else t1 / 30))
                if nm in FX and h * w > 0.2:
                    t1 = E.q(0.9 * MS * 0.1 / w)
                    h = E.q(0.1 / w)
                fate = (1, 0.0, 0.0, 0.0) if rmin < lo else None
            if want == "open":
                fate = None
            o["t1"] = t1
            meta = {"f": nm, "want": want, "rmin": rmin, "h": h, "o": brief(o)}
            a = {"mu": o["mu"], "rmin": rmin}
            try:
                sol = rec.call(meta, f, A(o["x0"]), A(t1), A(h), S(a))
            except Raised:
                continue
            req = lst(A(t1) * G) if mode == CUSTOM else None
            sol_ev(rec, E, sol, mode, t1, meta, dt=h if mode == FIXED else 0.0, hmax=0.0 if mode == FIXED else h, cap=cap, event=True, rmin=rmin,
                   req=req, fate=fate, o=o)
            tol = atol if nm not in FX else 1e-3 * (peri_rate(o) * h) ** 5 + atol
            judge_rows(rec, E, sol, o, tol * (1 + 1 / min(o["v"], o["r"])), meta, picks=3)
            # an event that does not fire changes nothing
            if fate is not None and fate[0] == 1:
                if g is None:
                    D0 = D
                    D = lambda a, f="pm": E.dyn(f, a)
                    g = jax.jit(lambda *aa, fn=fn: fn(*aa))
                    try:
                        g.lower(A(o["x0"]), A(t1), A(h), S(a))
                        g = g.lower(A(o["x0"]), A(t1), A(h), S(a)).compile()
                    finally:
                        D = D0
                try:
                    s2 = rec.call(dict(meta, unarmed=1), g, A(o["x0"]), A(t1), A(h), S(a))
                except Raised:
                    continue
                ts, ys = rows(sol)
                t2, y2 = rows(s2)
                fin = np.isfinite(ts)
                rec.ev(92, [int(fin.sum()), int(np.isfinite(t2).sum()), int(sol.stats["num_steps"]), int(s2.stats["num_steps"])], dict(meta, unarmed=1))
                if ts.shape == t2.shape and bool(np.all(fin == np.isfinite(t2))):
                    i = int(np.nonzero(fin)[0][-1])
                    for a_, b_, sc in [(ts[i], t2[i], t1)] + [(ys[i][m], y2[i][m], o["r"] if m < 3 else o["v"]) for m in range(6)]:
                        rec.ev(90, [float(a_), float(b_), sc, 1e-3 if f32 else 1e-9], dict(meta, unarmed=1, row=i))
            rec.flush()
    # zonal field, event armed, fate open; batches of bodies, each stopping on its own
    f = jax.jit(lambda x0, t1, h, a: p.adaptive_steps(D(a, "all"), x0, t1, max_steps=MS, stepsize_controller=ctl(h)))
    fb = jax.jit(jax.vmap(lambda x0, t1, h, a: p.adaptive_steps(D(a), x0, t1, max_steps=200, stepsize_controller=ctl(h))))
    for k in range(6 if quick else 30):
        o = dict(os_[(k * 5 + 3 + part) % len(os_)])
        u = j(o["cmd"], 3)
        rmin = E.q(min(o["rp"] * (0.7 + 0.8 * u), 0.97 * o["r"]))
        par = [E.q(v) for v in zonal_par(o, o["cmd"], "all")]
        t1 = E.q(min(o["t1"], 0.8 * o["T"]))
        a = dict(args_of(E, o, par), rmin=rmin)
        meta = {"f": "adaptive zonal", "rmin": rmin, "par": par, "o": brief(o)}
        try:
            sol = rec.call(meta, f, A(o["x0"]), A(t1), A(t1 / 20), S(a))
        except Raised:
            continue
        o["t1"] = t1
        sol_ev(rec, E, sol, ADAPTIVE, t1, meta, hmax=E.q(E.t(t1) / E.t(20)), cap=MS + 1, event=True, rmin=rmin, o=o)
        judge_rows(rec, E, sol, o, (atol + 1e-9) * (1 + 1 / min(o["v"], o["r"])), meta, "all", par, picks=2)
        rec.flush()
    nb = 5
    for k in range(2 if quick else 8):
        b = [dict(os_[(k * 31 + i * 7 + part) % len(os_)]) for i in range(nb)]
        rm, t1s, fates = [], [], []
        for i, o in enumerate(b):
            hi = o["r"]
            below_ok = hi > 1.2 * o["rp"]
            r = E.q(o["rp"] + 0.5 * (hi - o["rp"])) if i % 2 == 0 and below_ok else E.q(0.6 * o["rp"])
            cr = crossing(o, r) if r > o["rp"] else None
            if cr:
                t1 = E.q((cr[0] + cr[1]) * 1.4)
                h = E.q(min(0.4 * cr[1], t1 / 8))
                if t1 / h > 150:
                    r, cr = E.q(0.6 * o["rp"]), None
            if not cr:
                r = E.q(0.6 * o["rp"])
                t1 = E.q(min(o["t1"], 0.7 * o["T"]))
                h = E.q(t1 / 9)
            rm.append(r)
            t1s.append((t1, h))
            fates.append((2, cr[0], cr[0] + h, (cr[0] + h) * (2e-3 if f32 else 1e-6)) if cr else (1, 0.0, 0.0, 0.0))
            o["t1"] = t1
        meta = {"f": "vmap adaptive_steps", "rmin": rm, "o": [brief(o) for o in b]}
        try:
            sol = rec.call(meta, fb, A([o["x0"] for o in b]), A([t for t, _ in t1s]), A([h for _, h in t1s]), S({"mu": [o["mu"] for o in b], "rmin": rm}))
        except Raised:
            continue
        for i, o in enumerate(b):
            lane = E.jax.tree_util.tree_map(lambda v: v[i], sol)
            sol_ev(rec, E, lane, ADAPTIVE, t1s[i][0], {"f": "vmap lane", "lane": i, "o": brief(o), "rmin": rm[i]}, hmax=t1s[i][1], cap=201, event=True, rmin=rm[i], fate=fates[i], o=o)
            judge_rows(rec, E, lane, o, atol * (1 + 1 / min(o["v"], o["r"])), {"f": "vmap lane", "lane": i}, picks=2)
            rec.flush()
    located(rec, E, os_, quick, part)
    # the event function itself
    ev = E.adx.events.radius_islow
    jev = jax.jit(lambda t, x, r: ev(t, x, {"rmin": r}))
    vev = jax.jit(jax.vmap(lambda t, x, r: ev(t, x, {"rmin": r}), in_axes=(None, 0, None)))
    for k in range(60 if quick else 300):
        o = os_[(k * 3 + part) % len(os_)]
        sc = [1.0, 1e-6, 1e6][k % 3]
        x = [E.q(v * sc) for v in o["x0"]]
        if k % 7 == 0:
            x[k % 3] = 0.0
        r = E.q([0.0, o["r"] * sc, 0.3 * o["r"] * sc, 2.1 * o["r"] * sc][k % 4])
        n = [6, 3, 7, 6][k % 4]
        xx = (x + [0.5])[:n]
        meta = {"f": "radius_islow", "x": xx, "rmin": r}
        try:
            m = k % 6
            if m == 0:
                y = rec.call(meta, ev, 0.3, A(xx), {"rmin": r})
            elif m == 1:
                y = rec.call(meta, jev, A(k * 1.5), A(xx), A(r))
            elif m == 2:
                y = rec.call(meta, vev, A(0.0), A([xx, xx]), A(r))[1]
            elif m == 3:
                r = 0.0
                y = rec.call(meta, ev, 0.0, A(xx))
            elif m == 4:
                y = rec.call(meta, ev, 0.0, A(xx), {"rmin": A(r), "mu": 3.0}, y1=1, terms=None)
            else:
                y = rec.call(meta, ev, 0.0, np.array(xx, E.t), args={"rmin": r})
        except Raised:
            continue
        rec.ev(92, [int(np.ndim(y)), 0, int(np.asarray(y).dtype == E.t), 1], dict(meta, shape=1))
        rec.ev(64, [r, xx[:3], lst(y)], meta)
        if k % 20 == 0:
            rec.flush()


def located(rec, E, os_, quick, part):
    """the event with a root finder: the solution ends on the threshold itself"""
    import optimistix
    jax, jnp, p, dq, dx, f32 = E.jax, E.jnp, E.adx.prop, E.adx.diffeq, E.dx, E.f32
    A = lambda v: jnp.array(v, E.t)
    S = lambda d: {k: A(v) for k, v in d.items()}
    atol = 1e-5 if f32 else 1e-10
    tolr = 1e-3 if f32 else 1e-5
    find = optimistix.Newton(rtol=1e-4 if f32 else 1e-9, atol=1e-5 if f32 else 1e-10)
    evs = [dq.Event(E.adx.events.radius_islow, find), dq.Event(E.adx.events.radius_islow, find, direction=False),
           dq.Event([lambda t, y, args, **kw: y[0] - 1e30, E.adx.events.radius_islow], find)]
    ctl = lambda h: dq.PIDController(rtol=atol, atol=atol, dtmax=h)
    modes = [("to_final", lambda d, x0, t1, h: p.to_final(d, x0, t1, stepsize_controller=ctl(h))),
             ("adaptive_steps", lambda d, x0, t1, h: p.adaptive_steps(d, x0, t1, max_steps=400, stepsize_controller=ctl(h))),
             ("fixed_steps", lambda d, x0, t1, h: p.fixed_steps(d, x0, t1, h, max_steps=400)),
             ("cowell_method", lambda d, x0, t1, h: p.cowell_method(d, x0, t1, dq.SaveAt(t0=True, t1=True), stepsize_controller=ctl(h)))]
    for q, (nm, fn) in enumerate(modes):
        # in single precision, in other units, the root finder's own tolerances are out of scale
        ev = evs[(q + part) % 3]
        f = jax.jit(lambda x0, t1, h, a: fn(E.dyn("pm", a, ev), x0, t1, h))
        n = 0
        for k in range(40):
            if n >= (6 if quick else 24):
                break
            o = dict(os_[(k * 7 + q * 23 + part * 5) % len(os_)])
            lo, hi = o["rp"], o["r"]
            if hi < 1.2 * lo or max(o["r"], o["v"], 1 / o["r"], 1 / o["v"]) > (50 if f32 else 1e5):
                continue
            u = j(o["cmd"], 3)
            inside = (k + q) % 4 != 3
            rmin = E.q(lo + (0.2 + 0.6 * u) * (hi - lo)) if inside else E.q(0.7 * lo)
            cr = crossing(o, rmin) if inside else None
            if inside and cr is None:
                continue
            w = peri_rate(o)
            t1 = E.q((cr[0] + cr[1]) * 1.3) if cr else E.q(min(o["t1"], 0.9 * o["T"]))
            h = E.q(min(0.08 / w, 0.3 * cr[1] if cr else t1, t1 / 5))
            if t1 / h > 380:
                continue
            n += 1
            a = {"mu": o["mu"], "rmin": rmin}
            meta = {"f": nm + ", event located", "way": (q + part) % 3, "rmin": rmin, "h": h, "t1": t1, "o": brief(o)}
            try:
                sol = rec.call(meta, f, A(o["x0"]), A(t1), A(h), S(a))
            except Raised:
                rec.flush()
                continue
            mask = [bool(v) for v in jax.tree_util.tree_leaves(sol.event_mask)]
            said = bool(sol.result == dx.RESULTS.event_occurred)
            rec.ev(92, [int(mask[-1]), int(cr is not None), int(said), int(cr is not None), int(any(mask[:-1])), 0], dict(meta, fired=mask, result=str(sol.result)))
            ts, ys = rows(sol)
            fin = [i for i in range(len(ts)) if np.isfinite(ts[i])]
            t, y = float(ts[fin[-1]]), lst(ys[fin[-1]])
            hint = conc.chi_hint(o["mu"], o["r0"], o["v0"], t)
            if cr is not None:
                rec.ev(89, [o["mu"], o["x0"], rmin, t, hint, tolr], meta)
            else:
                rec.ev(90, [t, t1, t1, 4 * E.eps], meta)
            rec.ev(61, [o["mu"], t, hint, o["x0"], y, tolr * (1 + 1 / min(o["v"], o["r"])), 4], meta)
            rec.flush()


# ---------------------------------------------------------------- C14
def C14(rec, cmds, f32, tier, part):
    E = Env(rec, f32, tier)
    jax, jnp, p, dq, dx = E.jax, E.jnp, E.adx.prop, E.adx.diffeq, E.dx
    quick = tier == "quick"
    os_ = [o for o in (orb(E, c, emax=0.8) for c in cmds) if o is not None and o["rp"] > 0.05 * o["r"]]
    A = lambda v: jnp.array(v, E.t)
    S = lambda d: {k: A(v) for k, v in d.items()}
    pick = lambda k, q: dict(os_[(k * 11 + q * 17 + part * 3) % len(os_)])
    fld = ["pm", "j2", "j3", "j4", "all"]
    # coarse grid on which the methods visibly differ
    fr = [0.0, 0.2, 0.35, 0.6, 0.8, 1.0]

    def env_of(o, par):
        return [o["mu"]] + par

    def setup(k, q, span=0.9):
        o = pick(k, q)
        f = fld[(k + q) % 5]
        par = [E.q(v) for v in zonal_par(o, o["cmd"], f)]
        w = peri_rate(o)
        o["t1"] = E.q(min(o["t1"], span / w))
        return o, f, par, S(args_of(E, o, par))

    def chain(y0, y, m, env, ts, meta):
        rec.ev(65, [m] + env + [y0, y, len(ts) - 1] + ts, dict(meta, method=METHODS[m]))
    per = 2 if quick else 8
    # 1. chosen method, in every mode, on a prescribed grid (solver=None: the documented default, Tsit5)
    ctl = lambda ts: dx.StepTo(ts=ts)
    ms_ = list(range(6)) + [None]
    for q, mth in enumerate(ms_):
        kw = {} if mth is None else {"solver": method(E, mth)}
        m = 5 if mth is None else mth
        modes = [("fixed_steps", lambda d, x0, t1, ts: p.fixed_steps(d, x0, t1, t1 / 5, max_steps=8, **kw)),
                 ("adaptive_steps", lambda d, x0, t1, ts: p.adaptive_steps(d, x0, t1, max_steps=8, stepsize_controller=ctl(ts), **kw)),
                 ("custom_steps", lambda d, x0, t1, ts: p.custom_steps(d, x0, t1, ts[1:], stepsize_controller=ctl(ts), **kw)),
                 ("to_final", lambda d, x0, t1, ts: p.to_final(d, x0, t1, stepsize_controller=ctl(ts), **kw)),
                 ("cowell_method", lambda d, x0, t1, ts: p.cowell_method(d, x0, t1, dq.SaveAt(t0=True, t1=True), stepsize_controller=ctl(ts), **kw)),
                 ("cowell_method const", lambda d, x0, t1, ts: p.cowell_method(d, x0, t1, dq.SaveAt(t0=True, steps=True), dt0=t1 / 5, max_steps=7, stepsize_controller=dq.ConstantStepSize(), **kw))]
        for z, (nm, fn) in enumerate(modes):
            field = fld[(q + z) % 5]
            # the compilations dominate: the parts of a run share the combinations
            if quick and (q + z + part + int(f32)) % 2:
                continue
            f = jax.jit(lambda x0, t1, ts, a, fn=fn, field=field: fn(E.dyn(field, a), x0, t1, ts))
            for k in range(per):
                o = pick(k, q * 6 + z)
                par = [E.q(v) for v in zonal_par(o, o["cmd"], field)]
                o["t1"] = E.q(min(o["t1"], 0.9 / peri_rate(o)))
                # the grid must end exactly at t1
                ts = A([E.q(o["t1"] * v) for v in fr])
                meta = {"f": nm, "field": field, "par": par, "default_solver": mth is None, "o": brief(o)}
                try:
                    sol = rec.call(meta, f, A(o["x0"]), A(o["t1"]), ts, S(args_of(E, o, par)))
                except Raised:
                    continue
                env, T = env_of(o, par), lst(ts)
                tt, yy = rows(sol)
                if nm in ("fixed_steps", "cowell_method const"):
                    recur(rec, E, sol, m, env, meta)
                elif nm == "adaptive_steps":
                    fin = [i for i in range(len(tt)) if np.isfinite(tt[i])]
                    rec.ev(92, [len(fin), len(T)] + [v for i in range(min(len(fin), len(T))) for v in (float(tt[i]), T[i])], meta)
                    recur(rec, E, sol, m, env, meta)
                elif nm == "custom_steps":
                    rec.ev(92, [len(tt), len(T) - 1], meta)
                    for i in (0, 2, 4):
                        if i < len(tt):
                            chain(o["x0"], lst(yy[i]), m, env, T[:i + 2], dict(meta, row=i))
                else:
                    chain(o["x0"], lst(yy[-1]), m, env, T, meta)
                rec.flush()
    # 2. the controller: error test and step-size law; defaults are rtol = atol = 1e-8
    if not f32:
        confs = [("adaptive default", 1e-8, 1e-8, 5, lambda d, x0, t1: p.adaptive_steps(d, x0, t1, max_steps=600)),
                 ("general default", 1e-8, 1e-8, 5, lambda d, x0, t1: p.cowell_method(d, x0, t1, dq.SaveAt(t0=True, steps=True), max_steps=600)),
                 ("adaptive 1e-5 1e-7", 1e-5, 1e-7, 5, lambda d, x0, t1: p.adaptive_steps(d, x0, t1, max_steps=600, stepsize_controller=dq.PIDController(rtol=1e-5, atol=1e-7))),
                 ("adaptive 1e-10 Dopri5", 1e-10, 1e-9, 4, lambda d, x0, t1: p.adaptive_steps(d, x0, t1, max_steps=600, solver=dx.Dopri5(), stepsize_controller=dq.PIDController(rtol=1e-10, atol=1e-9))),
                 ("general 1e-6 Bosh3 dt0", 1e-6, 1e-6, 3, lambda d, x0, t1: p.cowell_method(d, x0, t1, dq.SaveAt(t0=True, steps=True), dt0=t1 / 100, max_steps=900, solver=dx.Bosh3(), stepsize_controller=dq.PIDController(rtol=1e-6, atol=1e-6)))]
        for q, (nm, rt, at, m, fn) in enumerate(confs):
            field = fld[(q + part) % 5]
            f = jax.jit(lambda x0, t1, a, fn=fn, field=field: fn(E.dyn(field, a), x0, t1))
            for k in range(3 if quick else 12):
                o = pick(k, 60 + q)
                par = [E.q(v) for v in zonal_par(o, o["cmd"], field)]
                meta = {"f": nm, "field": field, "par": par, "o": brief(o)}
                try:
                    sol = rec.call(meta, f, A(o["x0"]), A(o["t1"]), S(args_of(E, o, par)))
                except Raised:
                    continue
                env = env_of(o, par)
                recur(rec, E, sol, m, env, meta, take=4)
                control(rec, E, sol, m, env, rt, at, o["t1"], meta)
                if "dt0" in nm:
                    tt = rows(sol)[0]
                    d0 = o["t1"] / 100
                    # the given first step is tried first, and kept whenever it passes
                    rec.ev(92, [int(float(tt[1]) <= d0 * (1 + 1e-9)), 1], dict(meta, dt0=d0, t=float(tt[1])))
                    if int(sol.stats["num_rejected_steps"]) == 0:
                        rec.ev(90, [float(tt[1]), d0, d0, 1e-9], dict(meta, dt0=d0))
                rec.flush()
    # modes that hide their steps: the default controller spends exactly the steps that the visible one spends
    mk = lambda fn: jax.jit(lambda x0, t1, a, fn=fn: fn(E.dyn("j2", a), x0, t1))
    tol = 1e-5 if f32 else 1e-8
    ref = mk(lambda d, x0, t1: p.adaptive_steps(d, x0, t1, max_steps=900, stepsize_controller=dq.PIDController(rtol=1e-8, atol=1e-8)))
    hid = [("to_final", mk(lambda d, x0, t1: p.to_final(d, x0, t1))), ("custom_steps", mk(lambda d, x0, t1: p.custom_steps(d, x0, t1, jnp.array([0.0, t1])))),
           ("cowell_method", mk(lambda d, x0, t1: p.cowell_method(d, x0, t1, dq.SaveAt(t1=True)))), ("adaptive_steps", mk(lambda d, x0, t1: p.adaptive_steps(d, x0, t1, max_steps=900)))]
    # a controller of the user's own: looser and tighter ones
    loose = dq.PIDController(rtol=1e-4, atol=1e-4)
    refl = mk(lambda d, x0, t1: p.adaptive_steps(d, x0, t1, max_steps=900, stepsize_controller=loose))
    hidl = [("to_final loose", mk(lambda d, x0, t1: p.to_final(d, x0, t1, stepsize_controller=loose))),
            ("custom_steps loose", mk(lambda d, x0, t1: p.custom_steps(d, x0, t1, jnp.array([0.0, t1]), stepsize_controller=loose))),
            ("cowell_method loose", mk(lambda d, x0, t1: p.cowell_method(d, x0, t1, dq.SaveAt(t1=True), stepsize_controller=loose)))]
    if not f32:  # in single precision a tolerance of 1e-8 is noise: the number of steps is not determined
        for k in range(2 if quick else 10):
            o, _, par, a = setup(k, 80, 20.0)
            par = [E.q(v) for v in zonal_par(o, o["cmd"], "j2")]
            a = S(args_of(E, o, par))
            n0 = {}
            for rf, hs, tag in ((ref, hid, "default"), (refl, hidl, "loose")):
                try:
                    s0 = rec.call({"f": "reference " + tag, "o": brief(o)}, rf, A(o["x0"]), A(o["t1"]), a)
                except Raised:
                    continue
                n0[tag] = int(s0.stats["num_steps"])
                y0 = [r for r, t in zip(rows(s0)[1], rows(s0)[0]) if np.isfinite(t)][-1]
                for nm, f in hs:
                    meta = {"f": nm, "o": brief(o), "par": par}
                    try:
                        s = rec.call(meta, f, A(o["x0"]), A(o["t1"]), a)
                    except Raised:
                        continue
                    n = int(s.stats["num_steps"])
                    # rounding may tip a single borderline decision of the controller
                    rec.ev(92, [int(abs(n - n0[tag]) <= 1 + n0[tag] // 100), 1], dict(meta, steps=n, reference=n0[tag]))
                    y = [r for r, t in zip(rows(s)[1], rows(s)[0]) if np.isfinite(t)][-1]
                    for i in range(6):
                        rec.ev(90, [float(y[i]), float(y0[i]), o["r"] if i < 3 else o["v"], 1e-6 if tag == "default" else 1e-2], dict(meta, i=i))
                rec.flush()
            if len(n0) == 2 and n0["default"] > 12:
                rec.ev(92, [int(n0["loose"] < n0["default"]), 1], {"f": "loose controller takes fewer steps", "n": n0})
    # 3. step limits: too small is a failure, exactly enough and plenty agree
    lim = [("fixed_steps", lambda d, x0, t1, ms: p.fixed_steps(d, x0, t1, t1 / 6.5, max_steps=ms)),
           ("adaptive_steps", lambda d, x0, t1, ms: p.adaptive_steps(d, x0, t1, max_steps=ms)),
           ("cowell_method", lambda d, x0, t1, ms: p.cowell_method(d, x0, t1, dq.SaveAt(t1=True), max_steps=ms)),
           ("cowell_method fixed", lambda d, x0, t1, ms: p.cowell_method(d, x0, t1, dq.SaveAt(ts=jnp.array([t1 / 2, t1])), dt0=t1 / 6.5, max_steps=ms, stepsize_controller=dq.ConstantStepSize()))]
    for q, (nm, fn) in enumerate(lim):
        for k in range(1 if quick else 3):
            o = pick(k, 90 + q)
            o["t1"] = E.q(min(o["t1"], 1.5 / peri_rate(o)))
            a = S({"mu": o["mu"]})
            run = lambda ms: jax.jit(lambda x0, t1, a: fn(E.dyn("pm", a), x0, t1, ms))
            meta = {"f": nm, "o": brief(o)}
            try:
                s0 = rec.call(dict(meta, limit=300), run(300), A(o["x0"]), A(o["t1"]), a)
            except Raised:
                continue
            n = int(s0.stats["num_steps"])
            if "fixed" in nm:
                rec.ev(92, [n, 7], dict(meta, steps=n))
            for ms in (n - 1, max(1, n // 3)):
                if 0 < ms < n:
                    no_answer(rec, dict(meta, limit=ms, needed=n), run(ms), A(o["x0"]), A(o["t1"]), a)
            try:
                s1 = rec.call(dict(meta, limit=n), run(n), A(o["x0"]), A(o["t1"]), a)
            except Raised:
                continue
            last = lambda s: [r for r, t in zip(rows(s)[1], rows(s)[0]) if np.isfinite(t)][-1]
            rec.ev(92, [int(s1.stats["num_steps"]), n], dict(meta, limit=n))
            y0, y1 = last(s0), last(s1)
            for i in range(6):
                rec.ev(90, [float(y1[i]), float(y0[i]), o["r"] if i < 3 else o["v"], 1e-4 if f32 else 1e-10], dict(meta, limit=n, i=i))
            rec.flush()
    # 4. documented limits: 4096 by default and in to_final, none in custom_steps
    x0, a = A([1.0, 0, 0, 0, 1.0, 0]), S({"mu": 1.0})
    big = 5000
    tE = 0.25
    tsb = jnp.linspace(0.0, tE, big + 1).astype(E.t).at[-1].set(tE)
    ok = dx.StepTo(ts=jnp.linspace(0.0, tE, 4001).astype(E.t).at[-1].set(tE))
    deep = [("to_final", lambda c: p.to_final(E.dyn("pm", a), x0, tE, solver=dx.Euler(), stepsize_controller=c)),
            ("adaptive_steps", lambda c: p.adaptive_steps(E.dyn("pm", a), x0, tE, solver=dx.Euler(), stepsize_controller=c)),
            ("cowell_method", lambda c: p.cowell_method(E.dyn("pm", a), x0, tE, dq.SaveAt(t1=True), solver=dx.Euler(), stepsize_controller=c))]
    for nm, fn in deep:
        no_answer(rec, {"f": nm, "steps_needed": big, "limit": "documented 4096"}, jax.jit(lambda fn=fn: fn(dx.StepTo(ts=tsb))))
        try:
            s = rec.call({"f": nm, "steps_needed": 4000}, jax.jit(lambda fn=fn: fn(ok)))
            rec.ev(92, [int(s.stats["num_steps"]), 4000], {"f": nm, "limit": 4096})
        except Raised:
            pass
    no_answer(rec, {"f": "fixed_steps", "steps_needed": big}, jax.jit(lambda: p.fixed_steps(E.dyn("pm", a), x0, tE, tE / big, solver=dx.Euler())))
    try:
        s = rec.call({"f": "custom_steps", "steps_needed": big}, jax.jit(lambda: p.custom_steps(E.dyn("pm", a), x0, tE, jnp.array([tE / 2, tE], E.t), solver=dx.Euler(), stepsize_controller=dx.StepTo(ts=tsb))))
        rec.ev(92, [int(s.stats["num_steps"]), big], {"f": "custom_steps", "unlimited": 1})
    except Raised:
        pass
    rec.flush()
    # 5. parameters: the default is mu = 1, whatever is given is what is used, also by the event
    d0 = E.adx.prop.OrbDynx(terms=dq.ODETerm(E.fields["pm"]))
    rec.ev(92, [int(sorted(d0.args) == ["mu"]), 1, float(d0.args["mu"]), 1.0, int(d0.event is None), 1], {"f": "OrbDynx defaults"})
    for k in range(1 if quick else 4):
        o = pick(k, 97)
        o["t1"] = E.q(0.5)
        xs = [1.0, 0.0, 0.1, 0.05, E.q(1.0 + 0.1 * j(o["cmd"], 1)), 0.2]
        xs = [E.q(v) for v in xs]
        for nm, fn in [("fixed_steps", lambda d: p.fixed_steps(d, A(xs), 0.5, 0.1, max_steps=8)), ("to_final", lambda d: p.to_final(d, A(xs), 0.5, stepsize_controller=dx.StepTo(ts=A([0.0, 0.3, 0.5])))),
                       ("adaptive_steps", lambda d: p.adaptive_steps(d, A(xs), 0.5, max_steps=8, stepsize_controller=dx.StepTo(ts=A([0.0, 0.3, 0.5])))),
                       ("custom_steps", lambda d: p.custom_steps(d, A(xs), 0.5, A([0.3, 0.5]), stepsize_controller=dx.StepTo(ts=A([0.0, 0.3, 0.5])))),
                       ("cowell_method", lambda d: p.cowell_method(d, A(xs), 0.5, dq.SaveAt(t0=True, t1=True), stepsize_controller=dx.StepTo(ts=A([0.0, 0.3, 0.5]))))]:
            for dd, mu in ((d0, 1.0), (E.dyn("pm", {"mu": 2.5}), 2.5)):
                meta = {"f": nm, "mu": mu, "default_args": dd is d0}
                try:
                    s = rec.call(meta, lambda: fn(dd))
                except Raised:
                    continue
                if nm == "fixed_steps":
                    recur(rec, E, s, 5, [mu, 0.0, 0.0, 0.0, 1.0], meta)
                else:
                    chain(xs, lst(rows(s)[1][np.isfinite(rows(s)[0])][-1]), 5, [mu, 0.0, 0.0, 0.0, 1.0], lst(A([0.0, 0.3, 0.5])), meta)
            rec.flush()
    # 6. whatever controller and method the user brings: every mode is the integrator's own run of the same problem
    if not f32:
        own_run(rec, E, os_, quick, part)
    rec.flush()


def own_run(rec, E, os_, quick, part):
    """cowell_method and its four modes refine the integrator: same steps, same times, same states, for any
    controller option, method and way of saving; the reference is the integrator called directly"""
    jax, jnp, p, dq, dx = E.jax, E.jnp, E.adx.prop, E.adx.diffeq, E.dx
    A = lambda v: jnp.array(v, E.t)
    S = lambda d: {k: A(v) for k, v in d.items()}
    big = lambda y: jnp.max(jnp.abs(y))
    ctls = [("dtmax", lambda h: dx.PIDController(rtol=1e-3, atol=1e-5, dtmax=h / 12)),
            ("pi coefficients", lambda h: dx.PIDController(rtol=1e-6, atol=1e-6, pcoeff=0.3, icoeff=0.4)),
            ("factormax and safety", lambda h: dx.PIDController(rtol=1e-7, atol=1e-7, factormax=1.3, safety=0.7)),
            ("dtmin", lambda h: dx.PIDController(rtol=1e-9, atol=1e-9, dtmin=h / 25)),
            ("norm", lambda h: dx.PIDController(rtol=1e-6, atol=1e-7, norm=big)),
            ("atol per component", lambda h: dx.PIDController(rtol=1e-12, atol=1e-4)),
            ("clipped", lambda h: dx.ClipStepSizeController(dx.PIDController(rtol=1e-5, atol=1e-5), step_ts=h * jnp.array([0.21, 0.4, 0.77]))),
            ("rtol only", lambda h: dx.PIDController(rtol=1e-5, atol=0.0)),
            ("d coefficient", lambda h: dx.PIDController(rtol=1e-6, atol=1e-6, pcoeff=0.1, icoeff=0.3, dcoeff=0.1, factormin=0.5)),
            ("error order", lambda h: dx.PIDController(rtol=1e-6, atol=1e-6, error_order=4))]
    svs = [None, dx.Dopri8(), dx.Heun(), dx.Bosh3(), dx.Ralston(), dx.Kvaerno3(), dx.Dopri5(), None]
    grid = jnp.array([0.1, 0.35, 0.8, 1.0])
    aft = lambda t, y, a: jnp.concatenate([y[:3] / a["mu"], t[None]])
    modes = [("adaptive_steps", lambda d, x0, t1, kw: p.adaptive_steps(d, x0, t1, max_steps=300, **kw), lambda t1: dx.SaveAt(t0=True, steps=True), 300),
             ("custom_steps", lambda d, x0, t1, kw: p.custom_steps(d, x0, t1, t1 * grid, **kw), lambda t1: dx.SaveAt(ts=t1 * grid), 4096),
             ("to_final", lambda d, x0, t1, kw: p.to_final(d, x0, t1, **kw), lambda t1: dx.SaveAt(t1=True), 4096),
             ("cowell_method", lambda d, x0, t1, kw: p.cowell_method(d, x0, t1, dx.SaveAt(ts=t1 * grid, t1=True), **kw), lambda t1: dx.SaveAt(ts=t1 * grid, t1=True), 4096),
             ("cowell_method every second step", lambda d, x0, t1, kw: p.cowell_method(d, x0, t1, dx.SaveAt(t0=True, steps=2), max_steps=300, **kw), lambda t1: dx.SaveAt(t0=True, steps=2), 300),
             ("cowell_method function of the state", lambda d, x0, t1, kw: p.cowell_method(d, x0, t1, dx.SaveAt(t0=True, t1=True, fn=aft), **kw), lambda t1: dx.SaveAt(t0=True, t1=True, fn=aft), 4096)]
    fld = ["pm", "j2", "all", "j4", "j3"]
    combos = [(c, m) for m in range(len(modes)) for c in range(len(ctls))]
    # a diagonal walk: each part of a run takes its share of the controllers in every mode
    take = [(c, m) for c, m in combos if not quick or (c + 3 * m + 5 * part) % 10 in (0, 7)]
    for q, (c, m) in enumerate(take):
        (cn, ctl), (mn, fn, sa, ms) = ctls[c], modes[m]
        sv = svs[(c + 2 * m + part) % len(svs)]
        if cn == "error order":
            sv = dx.Heun()
        field = fld[(q + part) % 5]
        kw = {} if sv is None else {"solver": sv}
        f = jax.jit(lambda x0, t1, a: fn(E.dyn(field, a), x0, t1, dict(kw, stepsize_controller=ctl(t1))))
        g = jax.jit(lambda x0, t1, a: dx.diffeqsolve(dx.ODETerm(E.fields[field]), kw.get("solver", dx.Tsit5()), t0=0.0, t1=t1, dt0=None, y0=x0, args=a,
                                                     saveat=sa(t1), stepsize_controller=ctl(t1), max_steps=ms))
        for k in range(2 if quick else 5):
            o = dict(os_[(k * 11 + q * 17 + part * 3) % len(os_)])
            par = [E.q(v) for v in zonal_par(o, o["cmd"], field)]
            o["t1"] = E.q(min(o["t1"], 3.0 / peri_rate(o)))
            a = S(args_of(E, o, par))
            meta = {"f": mn, "controller": cn, "solver": type(sv).__name__, "field": field, "par": par, "o": brief(o)}
            try:
                want = jax.block_until_ready(g(A(o["x0"]), A(o["t1"]), a))
            except Exception:
                continue  # the integrator itself has no answer here
            try:
                s = rec.call(meta, f, A(o["x0"]), A(o["t1"]), a)
            except Raised:
                rec.flush()
                continue
            n0 = int(want.stats["num_steps"])
            rec.ev(92, [int(abs(int(s.stats["num_steps"]) - n0) <= n0 // 100), 1, int(np.shape(s.ts) == np.shape(want.ts) and np.shape(s.ys) == np.shape(want.ys)), 1],
                   dict(meta, steps=int(s.stats["num_steps"]), direct=n0, shapes=[list(np.shape(s.ys)), list(np.shape(want.ys))]))
            if np.shape(s.ys) == np.shape(want.ys) and np.shape(s.ts) == np.shape(want.ts):
                (tt, yy), (tw, yw) = rows(s), rows(want)
                fin = [i for i in range(len(tw)) if np.isfinite(tw[i])]
                rec.ev(92, [int(np.sum(np.isfinite(tt))), len(fin)], meta)
                sc = float(np.max(np.abs(yw[fin])))
                for i in sorted({fin[0], fin[len(fin) // 2], fin[-1]}):
                    rec.ev(90, [float(tt[i]), float(tw[i]), o["t1"], 1e-6], dict(meta, row=int(i)))
                    for z in range(yw.shape[1]):
                        rec.ev(90, [float(yy[i][z]), float(yw[i][z]), sc, 1e-6], dict(meta, row=int(i), z=z))
            rec.flush()
