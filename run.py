#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough [--replay FILE]

generate behaviours from the specification -> drive the real code -> validate the recorded
calls against the specification -> verdict, evidence, replay file."""
import json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "harness"))
import core
from props import PROPS, CLAUSES

PY = os.environ.get("VP_PY", "/opt/venv/bin/python")


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def drive(prop, jobs, work, limit, tier):
    """Runs the driver processes. -> groups: list of (part, [event...]); event = [op, f32, fields, meta]"""
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", TF_CPP_MIN_LOG_LEVEL="3", PYTHONHASHSEED="0")
    env.pop("PYTHONPATH", None)
    todo = list(enumerate(jobs))
    procs, groups, dead = [], [], []
    fin = {}
    slots = 8
    t0 = time.time()
    while todo or procs:
        while todo and len(procs) < slots:
            k, jb = todo.pop(0)
            scen, out = os.path.join(work, "s%d.json" % k), os.path.join(work, "o%d.jsonl" % k)
            with open(scen, "w") as fh:
                json.dump(jb, fh)
            err = open(os.path.join(work, "e%d.txt" % k), "wb")
            p = subprocess.Popen([PY, os.path.join(HERE, "harness", "drive.py"), jb["fn"], jb["dtype"], scen, out],
                                 stdout=err, stderr=err, env=env, start_new_session=True, cwd=work)
            procs.append((k, p, time.time(), out))
        time.sleep(0.1)
        for ent in list(procs):
            k, p, st, out = ent
            rc = p.poll()
            hung = None
            if rc is None:
                try:
                    with open(out + ".status") as fh:
                        s = json.load(fh)
                    if s["call"] is not None and time.time() - s["t"] > limit["call"]:
                        hung = s["call"]
                except (OSError, ValueError):
                    pass
                if hung is None and time.time() - st < limit["total"]:
                    continue
                kill(p)
                p.wait()
            procs.remove(ent)
            fin[k] = (rc, hung)
    for k in range(len(jobs)):
        rc, hung = fin[k]
        out = os.path.join(work, "o%d.jsonl" % k)
        end = False
        if os.path.exists(out):
            with open(out) as fh:
                for line in fh:
                    try:
                        g = json.loads(line)
                    except ValueError:
                        continue
                    if g == "END":
                        end = True
                    else:
                        groups.append((k, g))
        if hung is not None:
            groups.append((k, [[99, int(jobs[k]["dtype"] == "f32"), [], {"why": "the call did not return within %d s" % limit["call"], "meta": hung}]]))
        elif not end:
            with open(os.path.join(work, "e%d.txt" % k), errors="replace") as fh:
                txt = fh.read()[-3000:]
            raise core.Machinery("driver %s part %d ended early (rc %s):\n%s" % (prop, k, rc, txt))
    return groups


def known(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                if line.startswith("finding: property=%s " % prop):
                    out.append(line.strip().split(" ", 2))
    return out


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    P = PROPS[prop]
    work = tempfile.mkdtemp(prefix="vrun")
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage={}, wall_s=0)
    try:
        # 1. the design itself: invariants of the abstract models
        pool = ThreadPoolExecutor(4)
        pending = [pool.submit(core.check_model, m, tier, seed) for m in P.get("models", [])]
        # 2. behaviours
        if len(sys.argv) > 4 and sys.argv[3] == "--replay":
            with open(sys.argv[4]) as fh:
                jobs = json.load(fh)["jobs"]
            gstates = 0
        else:
            jobs, gstates = [], 0
            for J in P["jobs"](tier):
                gen = J.get("gen", "gen")
                behs = core.generate(gen, seed + J.get("salt", 0), J["steps"], J.get("runs", 1))
                for part, states in enumerate(behs):
                    gstates += len(states)
                    cmds = [s["cmd"] for s in states[1:]]
                    for dt in J["dtypes"]:
                        jobs.append(dict(fn=J.get("fn", prop), driver=P["driver"], cmds=cmds, tier=tier, part=part, dtype=dt))
        # 3. real code
        t1 = time.time()
        groups = drive(prop, jobs, work, P.get("limit", {"call": 150, "total": 800}), tier)
        t2 = time.time()
        # 4. conformance
        res = core.validate([[tuple(e[:3]) for e in g] for _, g in groups])
        t3 = time.time()
        models = [f.result() for f in pending]
        for mr in models:
            if not mr["ok"]:
                raise core.Machinery("the specification violates its own property: %s" % mr)
        kf = known(prop)
        viol, seen_kf, undecided = [], {}, 0
        for (g, i, op, cl, err, tol) in res["bad"]:
            e = groups[g][1][i]
            txt = json.dumps(e[3])
            if cl == 9:  # the oracle did not converge from its hint: undecided, no verdict
                undecided += 1
                continue
            hit = [k for k in kf if k[2].split(" :: ")[0] in txt]
            if hit:
                seen_kf[hit[0][2]] = True
                continue
            viol.append(dict(part=groups[g][0], op=op, clause=cl, what=CLAUSES.get((op, cl), CLAUSES.get(op, "?")),
                             err=err, tol=tol, f32=e[1], call=e[3], event=e[2] if len(e[2]) < 60 else e[2][:60]))
        if undecided * 50 > res["transitions"]:
            raise core.Machinery("%d events undecided" % undecided)
        for k in seen_kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        ops = {}
        nontriv = set()
        for _, g in groups:
            for e in g:
                ops[e[0]] = ops.get(e[0], 0) + 1
                nontriv.add((e[0], e[1], tuple(e[2][:12])))
        samples = []
        for _, g in groups[:: max(1, len(groups) // 3)][:3]:
            samples.append(dict(call=g[0][3], op=g[0][0], fields=g[0][2][:30]))
        ev["coverage"] = dict(
            states=res["states"] + sum(m.get("states", 0) for m in models) + gstates,
            transitions=res["transitions"] + sum(m.get("transitions", 0) for m in models),
            traces_validated_against_impl=len(groups), events=sum(len(g) for _, g in groups),
            distinct_events=len(nontriv), undecided=undecided, obligations_checked=res["count"],
            generator_states=gstates, driver_processes=len(jobs), models=models,
            operations={CLAUSES.get(o, str(o)): n for o, n in sorted(ops.items())},
            worst_error_over_tolerance={"%s%s/%d" % (CLAUSES.get(o % 1000, o % 1000), " (binary32)" if o >= 1000 else "", c): q / 1e6
                                        for (o, c), (q, _) in sorted(res["worst"].items())},
            seconds=dict(generate=round(t1 - t0, 1), drive=round(t2 - t1, 1), validate=round(t3 - t2, 1)),
            samples=samples)
        ev["wall_s"] = round(time.time() - t0, 2)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        code = 0
        if viol:
            rp = os.path.join(HERE, "evidence", "replay-%s.json" % prop)
            parts = sorted(set(v["part"] for v in viol))
            with open(rp, "w") as fh:
                json.dump(dict(property=prop, tier=tier, seed=seed, violations=viol, jobs=[jobs[p] for p in parts]), fh, indent=1)
            for v in viol[:5]:
                print("  op %d clause %s (%s): err %.3g > tol %.3g %s :: %s" % (v["op"], v["clause"], v["what"], v["err"], v["tol"], "f32" if v["f32"] else "f64", json.dumps(v["call"])[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            ev["coverage"]["violations"] = len(viol)
            code = 1
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        if "-v" in sys.argv:
            for (o, c), (q, ix) in sorted([w for w in res["worst"].items() if w[1][0]], key=lambda t: -t[1][0])[:int(os.environ.get("TOP", "12"))]:
                e = groups[ix[0]][1][ix[1]]
                print("   %8.4f op %d/%d %s  %s" % (q / 1e6, o, c, CLAUSES.get((o % 1000, c), CLAUSES.get(o % 1000, "")), json.dumps(e[3])[:300]))
        print("%s %s: %d events in %d traces, %d obligations, %d violations, %d undecided, %.1f s (gen %.1f drive %.1f validate %.1f)" % (
            prop, tier, sum(len(g) for _, g in groups), len(groups), res["count"], len(viol), undecided, time.time() - t0, t1 - t0, t2 - t1, t3 - t2))
        return code
    except core.Machinery as e:
        print("MACHINERY ERROR %s: %s" % (prop, e))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


sys.exit(main())
