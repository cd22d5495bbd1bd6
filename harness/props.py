"""Registry: per property, which behaviours are generated and which driver runs them."""

BOTH = ["f64", "f32"]


def J(steps, qruns=1, truns=6, tsteps=None, dtypes=BOTH, gen="gen", fn=None, salt=0):
    def f(tier):
        d = dict(gen=gen, steps=steps if tier == "quick" else (tsteps or steps), runs=qruns if tier == "quick" else truns,
                 dtypes=dtypes, salt=salt)
        if fn:
            d["fn"] = fn
        return d
    return f


def jobs(*js):
    return lambda tier: [j(tier) for j in js]


# the abstract models and what is checked on them before anything is recorded
M_COWELL = dict(module="cowell_protocol", inv="inv", steps=16, samples=(2500, 30000), verify=(None, 8), witnesses=["wClosed", "wShort"])
M_COWELL_DEEP = dict(M_COWELL, verify=(4, 9))
M_LOOP = dict(module="solver_loop", inv="inv", steps=8, samples=(2500, 30000), verify=(None, 7), witnesses=["wReawake", "wTol", "wCap"])
M_MISSION = dict(module="gen_mission", inv="inv", steps=40, samples=(500, 5000), verify=(None, 8))
M_CALLS = dict(module="gen_calls", inv="inv", steps=120, samples=(20, 200))
MODELS = {"C12": [M_COWELL_DEEP], "C13": [M_COWELL], "C14": [M_COWELL], "C03": [M_LOOP], "C17": [M_LOOP], "C02": [M_MISSION], "C21": [M_CALLS]}

PROPS = {
    "C01": dict(driver="flow", jobs=jobs(J(384, 2, 8))),
    "C02": dict(driver="flow", jobs=jobs(J(400, 2, 8, gen="gen_mission"))),
    "C03": dict(driver="alg", jobs=jobs(J(400, 2, 8))),
    "C04": dict(driver="rel", jobs=jobs(J(384, 1, 8))),
    "C05": dict(driver="elem", jobs=jobs(J(480, 1, 8))),
    "C06": dict(driver="elem", jobs=jobs(J(384, 1, 8))),
    "C15": dict(driver="elem", jobs=jobs(J(480, 1, 8))),
    "C09": dict(driver="stm", jobs=jobs(J(192, 1, 8, 384))),
    "C10": dict(driver="grav", jobs=jobs(J(384, 1, 8))),
    "C11": dict(driver="cowell", jobs=jobs(J(192, 1, 6))),
    "C12": dict(driver="cowell", jobs=jobs(J(192, 2, 6))),
    "C13": dict(driver="cowell", jobs=jobs(J(384, 2, 6))),
    "C14": dict(driver="cowell", jobs=jobs(J(192, 2, 6))),
    "C07": dict(driver="rel", jobs=jobs(J(480, 1, 8))),
    "C08": dict(driver="rel", jobs=jobs(J(384, 1, 8))),
    "C16": dict(driver="rel", jobs=jobs(J(320, 1, 8))),
    "C17": dict(driver="misc", jobs=jobs(J(96, 4, 8))),
    "C18": dict(driver="misc", jobs=jobs(J(384, 1, 6))),
    "C19": dict(driver="misc", jobs=jobs(J(96, 4, 8))),
    "C21": dict(driver="misc", jobs=jobs(J(300, 4, 8, 500, gen="gen_calls"))),
    "C20": dict(driver="rel", jobs=jobs(J(384, 1, 8))),
    "C22": dict(driver="sens", jobs=jobs(J(192, 2, 6))),
    "C23": dict(driver="force", jobs=jobs(J(192, 2, 6))),
}
for _p, _m in MODELS.items():
    PROPS[_p]["models"] = _m

CLAUSES = {
    1: "prop.kepler vs the exact flow", (1, 1): "position", (1, 2): "velocity", (1, 3): "angular momentum kept",
    (1, 4): "energy kept", (1, 5): "eccentricity vector kept",
    2: "mission start", 3: "leg of a mission", (3, 1): "position after the history", (3, 2): "velocity after the history",
    (3, 3): "group law of the model (position)", (3, 4): "group law of the model (velocity)",
    (3, 5): "angular momentum since the start", (3, 6): "energy since the start",
    40: "solve_kepler_elps", (40, 1): "residual of Kepler's equation within tol", (40, 2): "|E - M| <= e",
    41: "solve_kepler_hypb", (41, 1): "residual of the hyperbolic equation within tol",
    42: "solve_kepler_uni", (42, 1): "residual of the universal equation within tol",
    45: "solve watched through its caps", 46: "one more iteration keeps the root", 47: "root found within the documented iterations",
    10: "rv2coe: the elements describe the state", 11: "coe2rv: exact state of the elements", 12: "elements along a coast",
    13: "elements after a polar turn", 14: "coe2rv(rv2coe(x)) = x", 15: "inclination", 16: "right ascension",
    17: "argument of periapsis", 18: "true anomaly", (85, 1): "is_short_way", (85, 2): "pass_perigee", 85: "path predicate",
    89: "event located by a root finder", (89, 1): "the radius is the threshold", (89, 2): "descending", (89, 3): "the first time",
    86: "rp_islower_rmin", 87: "nmax_by_periapsis",
    19: "rv2coe of any orbit: size, shape, plane", 20: "scalar relation", 21: "angular momentum", 22: "eccentricity vector", 23: "sigma function",
    24: "relations between integrals", (24, 1): "p = a (1 - e^2)", (24, 2): "n P = 2 pi", (24, 3): "rp + ra = 2 a",
    (24, 4): "Kepler's third law", (24, 5): "e perpendicular to h", (24, 6): "rp <= r <= ra",
    30: "universal function", 31: "identities of the universal functions", 32: "Lagrange coefficients", (32, 5): "F Gt - Ft G = 1",
    43: "kepler_equ_uni", 44: "generalized anomaly from two states",
    50: "state transition matrix", (50, 1): "dr/dr0", (50, 2): "dr/dv0", (50, 3): "dv/dr0", (50, 4): "dv/dv0", (50, 5): "symplectic",
    51: "chain rule of transition matrices", 52: "derivatives in time and mu",
    60: "acceleration vs gradient of the potential", (60, 1): "point mass", (60, 2): "J2", (60, 3): "J3", (60, 4): "J4",
    61: "Cowell row vs exact flow", (61, 1): "position", (61, 2): "velocity", 62: "Cowell row vs exact zonal motion",
    (62, 1): "energy incl. zonals", (62, 2): "polar angular momentum", (62, 3): "position", (62, 4): "velocity",
    65: "recurrence of the chosen Runge-Kutta method", (65, 1): "position after the steps", (65, 2): "velocity after the steps",
    66: "recurrence on a user's field", (66, 1): "position after the steps", (66, 2): "velocity after the steps",
    68: "motion under a user's field", (68, 1): "position", (68, 2): "velocity",
    69: "event at a prescribed time", (69, 1): "fired exactly when the time lies in the span", (69, 2): "end of the solution",
    67: "step-size control", (67, 1): "error test of an accepted step", (67, 2): "next step too long", (67, 3): "step-size law",
    70: "Cowell solution", 71: "saved row", (71, 1): "row after the end", (71, 2): "time of the row", (71, 3): "step longer than allowed", (71, 4): "row after the event",
    72: "unused row", 73: "end of the solution", (73, 1): "solution complete", (73, 2): "reported outcome", (73, 3): "step counters",
    74: "fate of the event", 75: "unused rows", 95: "purity", (95, 1): "same call, same answer", (95, 2): "inputs untouched", (95, 3): "precision",
    63: "recurrence of the chosen one-step method", 64: "radius_islow",
    57: "derivative of the integrator's recurrence", (57, 1): "position", (57, 2): "velocity",
    58: "derivative of the propagated motion", (58, 1): "position", (58, 2): "velocity",
    59: "derivative of an acceleration",
    80: "rotation matrix", 81: "composition of rotations", 56: "derivatives of solve_kepler_uni", 91: "same problem in other units", 93: "same problem asked in two ways", 90: "same quantity along two ways",
    92: "documented shape/dtype/discrete fact", 99: "call raised, hung or answered with a non-finite number",
}
