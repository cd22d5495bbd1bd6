"""Driver process: drive.py PROPERTY f32|f64 scenarios.json out.jsonl"""
import json, os, sys, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rec as R


def main():
    prop, dt, scen, out = sys.argv[1:5]
    f32 = dt == "f32"
    R.setup(f32)
    with open(scen) as fh:
        job = json.load(fh)
    rec = R.Rec(out, f32)
    mod = importlib.import_module("drv_" + job["driver"])
    try:
        getattr(mod, prop)(rec, job["cmds"], f32, job["tier"], job.get("part", 0))
    except MemoryError:
        raise
    except Exception:
        # the library answered with something the documented interface does not allow
        # (another shape, type or number of results) and the driver could not read it
        traceback.print_exc()
        rec.fail({"f": "reading an answer"}, traceback.format_exc()[-600:])
    rec.done()


main()
