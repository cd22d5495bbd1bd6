"""Drivers of the closed-form relations and the scalar solvers (C03, C04, C07, C08, C16, C20)."""
import math
import numpy as np
import conc
from conc import j, logu, PI
from rec import Raised, lst


def R(f32):
    return (lambda x: float(np.float32(x))) if f32 else float


# ---------------------------------------------------------------- C03: Kepler solvers
def elps_in(c, f32):
    k = c["kind"]
    e = [0.0, logu(1e-6, 1e-3, j(c, 4)), 0.1 * j(c, 4), 0.1 + 0.5 * j(c, 4), 0.6 + 0.3 * j(c, 4), 0.9 + 0.09 * j(c, 4),
         0.99 + 0.009 * j(c, 4), 1 - logu(1e-5 if f32 else 1e-9, 1e-3, j(c, 4))][k % 8]
    s = c["sector"]
    if s == 0:
        M = [0.0, PI, -PI, 2 * PI, PI / 2, -PI / 2, 4 * PI, 1.0, 3.0, -2.0][c["c"]]
    elif s == 1:
        M = logu(1e-6, 1e-1, j(c, 5)) * (1 if c["c"] < 5 else -1)
    elif s == 2:
        M = 2 * PI * (c["c"] - 5) + logu(1e-4, 0.3, j(c, 5))
    elif s in (3, 4):
        M = (2 * j(c, 5) - 1) * 100
    elif s == 5:
        M = PI * (1 + 1e-3 * (2 * j(c, 5) - 1))
    else:
        M = (2 * j(c, 5) - 1) * 2 * PI
    return M, e


def hypb_in(c, f32):
    k = c["kind"] % 6
    e = [1 + logu(1e-3 if f32 else 1e-8, 1e-2, j(c, 4)), 1 + logu(1e-3, 0.1, j(c, 4)), 1.1 + 0.9 * j(c, 4), 2 + 8 * j(c, 4),
         10 + 90 * j(c, 4), 1.5][k]
    s = c["sector"]
    Hm = 3.0 if f32 else 10.0
    H = Hm * (2 * j(c, 5) - 1)
    if s == 0:
        N = [0.0, 1.0, -1.0, 1e-3, -1e-3, 10.0, -10.0, 0.1, -0.1, 2.0][c["c"]]
    elif s == 1:
        N = logu(1e-8, 1e-2, j(c, 5)) * (1 if c["c"] < 5 else -1)
    else:
        N = e * math.sinh(H) - H
    return N, e


def tol_in(c, f32):
    return ([1e-6, 1e-3, 1e-5, 0.0, 1e-6, 1e-2] if f32 else [1e-6, 1e-3, 1e-9, 1e-12, 0.0, 1e-6])[c["n"] % 6]


def C03(rec, cmds, f32, tier, part):
    import jax, jax.numpy as jnp
    import astrodynx as adx
    r_ = R(f32)
    np_t = np.float32 if f32 else np.float64
    elps, hypb, uni = adx.solve_kepler_elps, adx.solve_kepler_hypb, adx.solve_kepler_uni
    A = lambda x: jnp.array(x, dtype=np_t)

    def sub(n):
        return cmds[:n]
    E_in = [tuple(map(r_, elps_in(c, f32) + (tol_in(c, f32),))) for c in cmds]
    H_in = [tuple(map(r_, hypb_in(c, f32) + (tol_in(c, f32),))) for c in cmds]
    U_in = []
    for c in cmds:
        o = conc.orbit(c, f32)
        dt = conc.span(c, o, f32)
        x = [dt, o["alpha"], o["r"], o["s0"]]
        tol = tol_in(c, f32)
        if c["sector"] % 3 == 0:
            # the same orbit in larger or smaller units, with the tolerance that belongs to them
            s = 10.0 ** ((2 if f32 else 4) * (1 - 2 * conc.j(c, 5))) / o["r"]
            x = [dt * s**1.5, o["alpha"] / s, o["r"] * s, o["s0"] * math.sqrt(s)]
            tol = tol * x[2] ** 1.5
        U_in.append(tuple(map(r_, x)) + (o["mu"], r_(tol)))
    # one batch over everything, tolerances mixed within the batch
    for nm, fn, ins, op in (("solve_kepler_elps", elps, E_in, 40), ("solve_kepler_hypb", hypb, H_in, 41), ("solve_kepler_uni", uni, U_in, 42)):
        cols = [A([x[k] for x in ins]) for k in range(len(ins[0]))]
        try:
            y = rec.call("jit(vmap(%s)) over %d mixed cases" % (nm, len(ins)), jax.jit(jax.vmap(fn)), *cols)
            rec.ev(92, [int(y.shape == (len(ins),)), 1, int(y.dtype == np_t), 1], nm)
            y = np.asarray(y)
            for i, x in enumerate(ins):
                rec.ev(op, list(x) + [y[i]], {"f": "vmap(%s)" % nm, "args": x})
                rec.flush()
        except Raised:
            pass
        rec.flush()
        # un-batched: jitted scalar calls with default tolerance; must agree with the lane of the batch
        ndef = 3 if nm.endswith("uni") else 2
        nargs = len(ins[0]) - 1
        f1 = jax.jit(lambda *a: fn(*a))
        step = max(1, len(ins) // (30 if tier == "quick" else 200))
        for i in range(0, len(ins), step):
            x = ins[i]
            try:
                y1 = rec.call({"f": "jit(%s)" % nm, "args": x[:-1]}, f1, *x[:-1])
                rec.ev(op, list(x[:-1]) + [1e-6, float(y1)], {"f": "jit(%s), default tol" % nm, "args": x[:-1]})
            except Raised:
                pass
            rec.flush()
        # eager, every form of argument, tolerance by keyword
        for q, i in enumerate(range(1, len(ins), max(1, len(ins) // (8 if tier == "quick" else 40)))):
            x = ins[i]
            t = [0.0, 1e-6, 1e-4][q % 3] if f32 else [0.0, 1e-12, 1e-4][q % 3]
            form = [lambda v: v, lambda v: np.asarray(v, np_t)[()], lambda v: jnp.asarray(v, np_t)][q % 3]
            try:
                y1 = rec.call({"f": "%s(tol=%g)" % (nm, t), "args": x[:-1]}, fn, *[form(v) for v in x[:-1]], tol=t)
                rec.ev(92, [int(np.shape(y1) == ()), 1, int(y1.dtype == np_t), 1], nm + " eager scalar")
                rec.ev(op, list(x[:-1]) + [r_(t), float(y1)], {"f": "%s(tol=%g) eager" % (nm, t), "args": x[:-1]})
            except Raised:
                pass
            rec.flush()
        # the iteration cap bounds the work: few iterations still return a number
        for cap in (0, 1, 3, 200):
            try:
                x = ins[(cap + 5) % len(ins)]
                y1 = rec.call({"f": "%s(max_iter=%d)" % (nm, cap), "args": x[:-1]}, fn, *x[:-1], max_iter=cap)
                if cap == 200:
                    rec.ev(op, list(x[:-1]) + [1e-6, float(y1)], {"f": "%s(max_iter=200)" % nm, "args": x[:-1]})
                else:
                    rec.ev(92, [int(np.isfinite(float(y1))), 1], {"f": "%s(max_iter=%d)" % (nm, cap), "args": x[:-1]})
            except Raised:
                pass
            rec.flush()
        # the same solves through growing caps: a root that is found is not lost again
        if (op == 42) != (part % 2 == 0) and tier == "quick":
            continue
        W = [x for x in ins if x[-1] > 0 or op != 40][part % 3::7][:40]
        cols = [A([x[k] for x in W]) for k in range(len(W[0]))]
        caps = [0, 1, 2, 3, 4, 6, 9, None]
        ys = []
        try:
            for cap in caps:
                g = fn if cap is None else (lambda *a, cap=cap: fn(*a, max_iter=cap))
                ys.append(np.asarray(rec.call("jit(vmap(%s, max_iter=%s))" % (nm, cap), jax.jit(jax.vmap(g)), *cols)))
        except Raised:
            rec.flush()
            continue
        rec.flush()
        for i, x in enumerate(W):
            meta = {"f": "%s with growing max_iter" % nm, "args": x}
            rec.ev(45, [op] + list(x), meta)
            for cap, y in zip(caps, ys):
                rec.ev(46, [y[i]], dict(meta, max_iter=cap))
            rec.ev(47, [], meta)
            rec.flush()
