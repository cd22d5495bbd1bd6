"""Recording side: runs calls of the real library and writes them down as events."""
import json, math, os, sys, time, types, traceback

sys.dont_write_bytecode = True


def setup(f32):
    repo = os.environ.get("VP_REPO", "/repo")
    os.environ["JAX_PLATFORMS"] = "cpu"
    os.environ["JAX_ENABLE_X64"] = "0" if f32 else "1"
    src = os.path.join(repo, "src")
    sys.path.insert(0, src)
    if not os.path.exists(os.path.join(src, "astrodynx", "_version.py")):
        m = types.ModuleType("astrodynx._version")
        m.version = m.__version__ = "0.0.0"
        m.version_tuple = m.__version_tuple__ = (0, 0, 0)
        sys.modules["astrodynx._version"] = m
    import warnings
    warnings.filterwarnings("ignore")
    import astrodynx
    got = os.path.realpath(astrodynx.__file__)
    if not got.startswith(os.path.realpath(src)):
        raise RuntimeError("wrong astrodynx: " + got)
    return astrodynx


class Raised(Exception):
    pass


class Rec:
    def __init__(self, out, f32):
        self.out = open(out, "w")
        self.status = out + ".status"
        self.f32 = bool(f32)
        self.cur = []
        self.n = 0

    # -- traces
    def flush(self):
        if self.cur:
            self.out.write(json.dumps(self.cur) + "\n")
            self.out.flush()
            self.cur = []

    def ev(self, op, fields, meta=None, f32=None):
        vals = []
        for v in fields:
            if isinstance(v, (list, tuple)):
                vals.extend(v)
            else:
                vals.append(v)
        clean = []
        for v in vals:
            if isinstance(v, bool):
                v = int(v)
            if not isinstance(v, int):
                v = float(v)
                if not math.isfinite(v) or abs(v) > 1e40:
                    self.fail(meta, "non-finite value in the answer: op %d %r" % (op, vals))
                    return False
            clean.append(v)
        self.cur.append([op, int(self.f32 if f32 is None else f32), clean, meta])
        self.n += 1
        return True

    def fail(self, meta, why):
        self.cur.append([99, int(self.f32), [], {"why": why[:600], "meta": meta}])
        self.n += 1

    # -- calls
    def call(self, what, fn, *a, **k):
        with open(self.status, "w") as fh:
            fh.write(json.dumps({"call": what, "t": time.time()}))
        try:
            r = fn(*a, **k)
            import jax
            r = jax.block_until_ready(r)
        except Exception as e:
            self.fail(what, "raised %s: %s" % (type(e).__name__, str(e)[:300]))
            self.last_exc = e
            raise Raised()
        with open(self.status, "w") as fh:
            fh.write(json.dumps({"call": None, "t": time.time()}))
        return r

    def done(self):
        self.flush()
        self.out.write(json.dumps("END") + "\n")
        self.out.close()


def lst(x):
    """flat python floats (exact) of an array"""
    import numpy as np
    a = np.asarray(x)
    if a.dtype == bool:
        return [int(v) for v in a.ravel()]
    return [float(v) for v in a.ravel()]
