"""Binding between the Quint specification (/verif/spec) and recorded calls of the real code.

 * generate(): behaviours of a generator module (quint run --mbt) -> list of nondet picks
 * Event: one recorded call, packed as one integer literal of the specification
 * validate(): replays recorded events through spec/trace.qnt and returns its verdict
"""
import json, math, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
sys.set_int_max_str_digits(0)
ONE = 10**40
BASE = 10**82
HALF = 5 * 10**81


class Machinery(Exception):
    """The checking machinery itself failed (never a verdict about the code)."""


def fx(v):
    """Exact value of a float (or int) as a fixed-point integer of the specification."""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        r = v * ONE
    else:
        v = float(v)
        if not math.isfinite(v):
            raise ValueError("non-finite")
        n, d = v.as_integer_ratio()
        r = (2 * n * ONE + d) // (2 * d)
    if abs(r) >= HALF - 1:
        raise ValueError("out of range")
    return r


def pack(op, f32, fields):
    digits = [fx(op), fx(1 if f32 else 0)] + [fx(v) for v in fields]
    n = len(digits)
    acc = 0
    for d in reversed(digits):
        acc = acc * BASE + (d + HALF)
    return acc * BASE + n


# ---------------------------------------------------------------- quint
def _env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    return e


def quint(args, cwd, timeout):
    p = subprocess.run(["quint"] + args, cwd=cwd, env=_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def _val(v):
    if isinstance(v, dict):
        if "#bigint" in v:
            return int(v["#bigint"])
        if "#map" in v:
            return {_val(a): _val(b) for a, b in v["#map"]}
        if "#tup" in v:
            return tuple(_val(x) for x in v["#tup"])
        if "#set" in v:
            return [_val(x) for x in v["#set"]]
        return {k: _val(x) for k, x in v.items() if k != "#meta"}
    if isinstance(v, list):
        return [_val(x) for x in v]
    return v


def generate(module, seed, steps, runs=1, main=None, consts=None, timeout=300):
    """Behaviours of a generator specification: list of behaviours, each a list of states."""
    out = []
    work = tempfile.mkdtemp(prefix="vgen")
    try:
        def one(k):
            itf = os.path.join(work, "t%d.itf.json" % k)
            rc, txt = quint(["run", os.path.join(SPEC, module + ".qnt"), "--main=" + (main or module),
                             "--max-samples=1", "--max-steps=%d" % steps, "--seed=%d" % (seed * 1000 + k + 1),
                             "--out-itf=" + itf, "--verbosity=0"], SPEC, timeout)
            if not os.path.exists(itf):
                raise Machinery("generator %s failed: %s" % (module, txt[-2000:]))
            with open(itf) as fh:
                t = json.load(fh)
            return [_val(s) for s in t["states"]]
        with ThreadPoolExecutor(8) as ex:
            out = list(ex.map(one, range(runs)))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


def _run_chunk(arg):
    events, k, timeout = arg
    work = tempfile.mkdtemp(prefix="vval")
    try:
        packed = [pack(*e) for e in events]
        names = []
        src = ["module data {"]
        for c in range(0, len(packed), 25):
            nm = "c%d" % (c // 25)
            names.append(nm)
            src.append("  pure val %s: List[int] = [%s]" % (nm, ", ".join(map(str, packed[c:c + 25]))))
        src.append("  pure val EVENTS: List[int] = [%s].foldl([], (a, b) => a.concat(b))" % ", ".join(names))
        src.append("}")
        for fn in os.listdir(SPEC):
            if fn.endswith(".qnt"):
                shutil.copy(os.path.join(SPEC, fn), work)
        with open(os.path.join(work, "data.qnt"), "w") as fh:
            fh.write("\n".join(src) + "\n")
        itf = os.path.join(work, "o.itf.json")
        rc, txt = quint(["run", "trace.qnt", "--main=trace", "--max-samples=1", "--max-steps=%d" % len(events),
                         "--out-itf=" + itf, "--verbosity=0", "--seed=1"], work, timeout)
        if not os.path.exists(itf):
            raise Machinery("validator failed (rc %d): %s" % (rc, txt[-3000:]))
        with open(itf) as fh:
            t = json.load(fh)
        states = t["states"]
        last = {k.rsplit("::", 1)[-1]: v for k, v in _val(states[-1]).items()}
        if last["l"] != len(events):
            raise Machinery("validator stopped at %d of %d" % (last["l"], len(events)))
        return k, len(states), last
    finally:
        shutil.rmtree(work, ignore_errors=True)


def validate(groups, workers=8, timeout=800):
    """groups: list of lists of events (op, f32, fields); a group is one trace and is never
    split. Returns dict(bad=[(group, index in group, op, clause, err, tol)], worst, count,
    states, transitions, traces)."""
    total = sum(len(g) for g in groups)
    chunk = max(60, min(900, -(-total // workers)))
    chunks, cur, idx = [], [], []
    for g, evs in enumerate(groups):
        for i, e in enumerate(evs):
            cur.append(e)
            idx.append((g, i))
        if len(cur) >= chunk:
            chunks.append((cur, idx))
            cur, idx = [], []
    if cur:
        chunks.append((cur, idx))
    res = dict(bad=[], worst={}, count=0, states=0, transitions=0, traces=len(groups))
    with ThreadPoolExecutor(workers) as ex:
        for k, ns, last in ex.map(_run_chunk, [(c[0], k, timeout) for k, c in enumerate(chunks)]):
            ix = chunks[k][1]
            res["states"] += ns
            res["transitions"] += ns - 1
            res["count"] += last["count"]
            for (i, op, cl, err, tol) in last["bad"]:
                g, j = ix[i]
                res["bad"].append((g, j, op, cl, err / ONE, tol / ONE))
            for key, (q, i) in last["worst"].items():
                op, cl = key
                r = res["worst"].get((op, cl))
                if r is None or r[0] < q:
                    res["worst"][(op, cl)] = (q, ix[i])
    return res


# ---------------------------------------------------------------- the specification's own properties
def check_model(mdl, tier, seed, timeout=700):
    """mdl: dict(module, inv, steps, samples=(quick, thorough), verify=(depth or None, depth or None),
    witnesses=[...]). The simulator explores random behaviours; Apalache, where a depth is given, all
    behaviours up to that depth; a witness is an invariant that must NOT hold (reachability)."""
    q = 0 if tier == "quick" else 1
    nm = mdl["module"]
    out = dict(name=nm, ok=True, states=0, transitions=0, how=[])
    work = tempfile.mkdtemp(prefix="vmdl")
    try:
        for fn in os.listdir(SPEC):
            if fn.endswith(".qnt"):
                shutil.copy(os.path.join(SPEC, fn), work)
        n = mdl["samples"][q]
        rc, txt = quint(["run", nm + ".qnt", "--main=" + nm, "--invariant=" + mdl["inv"], "--max-samples=%d" % n,
                         "--max-steps=%d" % mdl["steps"], "--seed=%d" % seed, "--verbosity=1"], work, timeout)
        if "[violation]" in txt:
            out.update(ok=False, detail=txt[-1500:])
            return out
        if rc != 0:
            raise Machinery("model %s failed (rc %d): %s" % (nm, rc, txt[-1500:]))
        out["how"].append("simulator: %d behaviours of up to %d steps, invariant %s" % (n, mdl["steps"], mdl["inv"]))
        out["states"] += n
        out["transitions"] += n * mdl["steps"] // 2
        for w in mdl.get("witnesses", []):
            rc, txt = quint(["run", nm + ".qnt", "--main=" + nm, "--invariant=" + w, "--max-samples=50000",
                             "--max-steps=%d" % mdl["steps"], "--seed=%d" % seed, "--verbosity=1"], work, timeout)
            if "[violation]" not in txt:
                out.update(ok=False, detail="witness %s not reached: %s" % (w, txt[-500:]))
                return out
        if mdl.get("witnesses"):
            out["how"].append("reachable: " + ", ".join(mdl["witnesses"]))
        d = mdl.get("verify", (None, None))[q]
        if d:
            rc, txt = quint(["verify", nm + ".qnt", "--main=" + nm, "--invariant=" + mdl["inv"], "--max-steps=%d" % d, "--verbosity=1"], work, timeout)
            if "[violation]" in txt:
                out.update(ok=False, detail=txt[-1500:])
                return out
            if rc == 0:
                out["how"].append("Apalache: all behaviours up to depth %d, invariant %s" % (d, mdl["inv"]))
                out["states"] += d
            else:
                # no verdict (a port in use, memory): the simulator's exploration stands
                out["how"].append("Apalache gave no verdict: %s" % txt[-200:].replace("\n", " "))
    except subprocess.TimeoutExpired:
        out["how"].append("time limit reached")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out
