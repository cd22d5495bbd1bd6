"""Concretisation: turns a regime chosen by spec/gen*.qnt into floating-point inputs.
Independent of the code under test (plain Python floats only)."""
import math
import numpy as np

PI = math.pi
KIND_NAMES = ["circular", "e<1e-3", "low e", "mid e", "e 0.6-0.9", "e 0.9-0.99", "e 0.99-0.999",
              "near-parabolic ellipse", "parabola (rounded)", "near-parabolic hyperbola", "hyperbola 1.001-1.1",
              "hyperbola 1.1-2", "hyperbola 2-10", "parabola (alpha exactly 0)", "textbook", "radial"]
UNIT = [  # (mu, radius scale)
    (1.0, 1.0), (398600.4418, 7000.0), (2.9591220828e-4, 1.0), (3.986004418e14, 7.0e6),
    (1.32712440018e11, 1.5e8), (1.0, 30.0), (2.5, 1.3)]


def j(c, k):
    return (c["j%d" % k] + 0.5) / 1e6


def logu(a, b, u):
    return math.exp(math.log(a) + u * (math.log(b) - math.log(a)))


def f32r(x):
    return float(np.float32(x))


def rot(i, raan, argp):
    ci, si, co, so, cw, sw = math.cos(i), math.sin(i), math.cos(raan), math.sin(raan), math.cos(argp), math.sin(argp)
    P = (co * cw - so * sw * ci, so * cw + co * sw * ci, sw * si)
    Q = (-co * sw - so * cw * ci, -so * sw + co * cw * ci, cw * si)
    return P, Q


def geometry(c):
    g = c["geo"]
    i = 0.2 + 1.2 * j(c, 1)
    raan = 2 * PI * j(c, 2)
    argp = 2 * PI * j(c, 3)
    if g == 1:
        i = PI - i
    elif g == 2:
        i = logu(1e-2, 0.2, j(c, 1))
    elif g == 3:
        i = 0.0
    elif g == 4:
        i = PI / 2
    elif g == 5:
        i = PI
    elif g in (6, 7):
        # node and periapsis on the axes, or a hair to either side of them
        q = 0.0 if g == 6 else PI
        raan, argp = q, q
        if c["c"] >= 4:
            raan += [-1, 1][c["n"] % 2] * logu(1e-14, 1e-3, j(c, 2))
        if c["c"] % 4 >= 2:
            argp += [-1, 1][c["n"] // 2 % 2] * logu(1e-14, 1e-3, j(c, 3))
    elif g == 8:
        i = PI / 2
        raan = 0.0 if c["c"] < 5 else PI / 2
    return i, raan, argp


def ecc(c, f32=False):
    k, u = c["kind"], j(c, 4)
    lo = 1e-3 if f32 else 1e-7
    return [0.0, logu(1e-6 if f32 else 1e-9, 1e-3, u), 0.001 + 0.099 * u, 0.1 + 0.5 * u, 0.6 + 0.3 * u, 0.9 + 0.09 * u,
            0.99 + 0.009 * u, 1 - logu(lo, max(lo * 3, 1e-4), u), 1.0, 1 + logu(lo, max(lo * 3, 1e-4), u),
            1 + logu(1e-3, 0.1, u), 1.1 + 0.9 * u, 2 + 8 * u, 1.0, 0.0, 1.0][k]


TEXTBOOK = [  # exact zeros and small rationals, mu = 1
    ((1, 0, 0), (0, 1, 0)), ((1, 0, 0), (0, 0, 1)), ((0, 1, 0), (-1, 0, 0)), ((0, 0, 2), (0.5, 0, 0.5)),
    ((1, 0, 0), (0, 1.1, 0)), ((2, 0, 0), (0, 0.5, 0.5)), ((1, 1, 0), (0, 0.5, 0.5)), ((1, 0, 0), (0, 1.5, 0)),
    ((1, 0, 0), (0.5, 1.5, 0)), ((0.5, 0.5, 0.5), (-0.5, 1, 0.25))]


def orbit(c, f32=False, maxf=None):
    """-> dict(mu, r0, v0, e, n (mean motion-like rate), rp) with the floats of the call's dtype."""
    mu, R = UNIT[c["units"]]
    R = R * (1 + 0.5 * j(c, 6))
    k = c["kind"]
    e = ecc(c, f32)
    if k == 14:
        (r0, v0) = TEXTBOOK[c["j5"] % len(TEXTBOOK)]
        mu = 1.0
        r0, v0 = [float(x) for x in r0], [float(x) for x in v0]
    elif k == 13:
        # alpha = 2/r0 - v0^2/mu is exactly 0 in binary arithmetic
        mu = 1.0 if c["c"] < 5 else 4.0
        q = math.sqrt(mu)
        ax = c["j5"] % 3
        d = [(1, 0), (0, 1), (0, -1)][c["j4"] % 3]
        r0 = [0.0, 0.0, 0.0]
        v0 = [0.0, 0.0, 0.0]
        r0[ax] = 2.0
        v0[(ax + 1) % 3] = q * (1.0 if d[0] else 0.0)
        if not d[0]:
            # v = 0.6, 0.8 is not exact; use speed 1 along the other transverse axis
            v0[(ax + 2) % 3] = q * d[1]
    else:
        i, raan, argp = geometry(c)
        P, Q = rot(i, raan, argp)
        if k == 15:
            r = R
            vesc = math.sqrt(2 * mu / r)
            s = 0.5 + 1.0 * j(c, 4)
            r0 = [r * x for x in P]
            v0 = [vesc * s * x for x in P]
        else:
            s = c["sector"]
            if e < 0.9995:
                fmax = PI
            elif e <= 1.0 + 1e-3:
                fmax = 2.6
            else:
                fmax = 0.8 * math.acos(-1 / e)
            if maxf:
                fmax = min(fmax, maxf)
            if s == 0:
                f = 0.0
            elif s == 1:
                f = PI if fmax == PI else -0.5 * fmax
            else:
                f = -fmax + 2 * fmax * ((s - 2) + j(c, 5)) / 8
            p = R * (1 + e)
            r = p / (1 + e * math.cos(f))
            q = math.sqrt(mu / p)
            r0 = [r * (math.cos(f) * P[m] + math.sin(f) * Q[m]) for m in range(3)]
            v0 = [q * (-math.sin(f) * P[m] + (e + math.cos(f)) * Q[m]) for m in range(3)]
    if f32:
        mu = f32r(mu)
        r0, v0 = [f32r(x) for x in r0], [f32r(x) for x in v0]
    return finish(mu, r0, v0, dict(kind=k))


def finish(mu, r0, v0, d=None):
    d = dict(d or {})
    r = math.sqrt(sum(x * x for x in r0))
    v2 = sum(x * x for x in v0)
    alpha = 2 / r - v2 / mu
    d.update(mu=mu, r0=list(r0), v0=list(v0), r=r, v=math.sqrt(v2), alpha=alpha,
             s0=sum(a * b for a, b in zip(r0, v0)) / math.sqrt(mu))
    h = [r0[1] * v0[2] - r0[2] * v0[1], r0[2] * v0[0] - r0[0] * v0[2], r0[0] * v0[1] - r0[1] * v0[0]]
    p = sum(x * x for x in h) / mu
    e2 = max(0.0, 1 - p * alpha)
    d.update(p=p, e=math.sqrt(e2), rp=p / (1 + math.sqrt(e2)))
    return d


def span(c, o, f32=False):
    """time of flight for the time class of the command"""
    t, u = c["time"], j(c, 5) if c["kind"] not in (13, 14) else j(c, 6)
    mu, al = o["mu"], o["alpha"]
    rp = max(o["rp"], 0.05 * o["r"])
    dyn = math.sqrt(max(o["r"], rp) ** 3 / mu)
    ell = al > 0 and o["e"] < 0.9995
    T = 2 * PI / math.sqrt(mu * al**3) if ell else 2 * PI * dyn
    if t == 0:
        dt = 0.0
    elif t in (1, 2):
        dt = (logu(1e-4, 0.1, u) if t == 1 else logu(1e-9, 1e-2, u)) * dyn
    elif t in (3, 4):
        dt = (0.02 + 0.98 * u) * T
    elif t in (5, 6):
        dt = (1 + 2 * u) * T
    elif t in (7, 8):
        dt = (3 + (4 if f32 else 17) * u) * T
    elif t == 9:
        dt = 0.5 * T
    elif t == 10:
        dt = T
    else:
        dt = logu(0.1, 5, u) * dyn * (1 if c["c"] % 2 else -1)
    if t in (2, 4, 6, 8):
        dt = -dt
    if c["kind"] == 15:
        # radial, outward: forwards while it climbs; it must not fall through the centre
        dt = min(abs(dt), 0.5 * dyn)
    if not ell and c["kind"] != 15:
        dt = limit_hyp(o, dt, 3.0 if f32 else 9.0)
    return f32r(dt) if f32 else dt


def limit_hyp(o, dt, hmax):
    """keep |H| (or the parabolic analogue) within the documented domain"""
    al = o["alpha"]
    if al < 0:
        a = -1 / al
        e = max(o["e"], 1 + 1e-9)
        s = o["s0"] / (e * math.sqrt(a))
        H0 = math.asinh(s)
        n = math.sqrt(o["mu"] / a**3)
        N0 = e * math.sinh(H0) - H0
        hi = (e * math.sinh(hmax) - hmax - N0) / n
        lo = (-(e * math.sinh(hmax) - hmax) - N0) / n
        return min(max(dt, lo * 0.95), hi * 0.95)
    return dt


# ------------------------------------------------------------------ untrusted hints
def stumpff(z):
    k = 0
    while abs(z) > 0.1:
        z /= 4
        k += 1
    c2 = c3 = 1.0
    for m in range(10, 0, -1):
        c2 = 1 - z * c2 / ((2 * m + 1) * (2 * m + 2))
        c3 = 1 - z * c3 / ((2 * m + 2) * (2 * m + 3))
    c2 /= 2
    c3 /= 6
    c0, c1 = 1 - z * c2, 1 - z * c3
    for _ in range(k):
        c3 = (c2 + c0 * c3) / 4
        c2 = c1 * c1 / 2
        c1 = c0 * c1
        c0 = 2 * c0 * c0 - 1
    return c0, c1, c2, c3


def chi_hint(mu, r0, v0, dt):
    r = math.sqrt(sum(x * x for x in r0))
    al = 2 / r - sum(x * x for x in v0) / mu
    s0 = sum(a * b for a, b in zip(r0, v0)) / math.sqrt(mu)
    tau = math.sqrt(mu) * dt
    if tau == 0:
        return 0.0

    def F(x):
        c0, c1, c2, c3 = stumpff(al * x * x)
        return r * x * c1 + s0 * x * x * c2 + x**3 * c3 - tau

    sg = 1.0 if tau > 0 else -1.0
    a, b = 0.0, sg * max(abs(tau) / r * 0.5, 1e-12)
    try:
        while F(b) * sg < 0:
            a, b = b, b * 1.7
    except OverflowError:
        pass
    for _ in range(200):
        m = 0.5 * (a + b)
        if m == a or m == b:
            break
        try:
            v = F(m)
        except OverflowError:
            v = sg * 1e300
        if v * sg < 0:
            a = m
        else:
            b = m
    return 0.5 * (a + b)


def flow(mu, r0, v0, dt):
    """end state in double precision (an input for the code under test, never an oracle)"""
    chi = chi_hint(mu, r0, v0, dt)
    r = math.sqrt(sum(x * x for x in r0))
    al = 2 / r - sum(x * x for x in v0) / mu
    q = math.sqrt(mu)
    s0 = sum(a * b for a, b in zip(r0, v0)) / q
    c0, c1, c2, c3 = stumpff(al * chi * chi)
    u1, u2 = chi * c1, chi * chi * c2
    rr = r * c0 + s0 * u1 + u2
    f, g = 1 - u2 / r, (r * u1 + s0 * u2) / q
    ft, gt = -q * u1 / (rr * r), 1 - u2 / rr
    return ([f * a + g * b for a, b in zip(r0, v0)], [ft * a + gt * b for a, b in zip(r0, v0)])
