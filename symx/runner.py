"""Command line: run the harnesses of a property, write evidence, verdict."""

import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.json")


def load(pid, tier):
    mod = importlib.import_module(f"props.{pid}")
    return mod, mod.harnesses(tier)


def _work(pid, tier, name, seed, conn):
    try:
        os.setsid()
    except OSError:
        pass
    try:
        from . import engine

        mod, hs = load(pid, tier)
        h = [x for x in hs if x.name == name][0]
        engine.LIVE = lambda v: conn.send(("violation", v))
        r = engine.explore(h, seed=seed)
        conn.send(("ok", r.asdict()))
    except BaseException as e:  # noqa
        conn.send(("error", f"{type(e).__name__}: {e}\n{traceback.format_exc()}"))
    finally:
        conn.close()


def run_all(pid, tier, hs, seed, jobs, deadline):
    known = known_for(pid)
    todo = list(hs)
    running = []
    out = []
    early = {}
    ctx = mp.get_context("fork")
    while todo or running:
        while todo and len(running) < jobs:
            h = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_work, args=(pid, tier, h.name, seed, b))
            p.start()
            b.close()
            running.append((h, p, a, time.time()))
        time.sleep(0.02)
        for item in list(running):
            h, p, a, t0 = item
            res = None
            if a.poll():
                try:
                    res = a.recv()
                except EOFError:
                    res = ("error", "worker died")
                if res[0] == "violation":
                    early.setdefault(h.name, []).append(res[1])
                    if not any(matches(e, res[1]) for e in known):
                        # the verdict stands: do not spend long on the rest
                        deadline = min(deadline, time.time() + 45)
                    continue
            elif not p.is_alive():
                res = ("error", f"worker exit code {p.exitcode}")
            elif time.time() - t0 > h.time_limit * 1.5 + 90 or \
                    time.time() > deadline:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    p.kill()
                res = ("error", "time limit")
            if res is not None:
                running.remove(item)
                p.join(5)
                if p.is_alive():
                    p.kill()
                out.append((h, res))
    return out, early


def known_for(pid):
    try:
        with open(KNOWN) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in d.get("findings", []) if e["property"] == pid]


def matches(entry, v):
    m = entry["match"]
    if m.get("harness") and m["harness"] != v["harness"]:
        return False
    if m.get("label") and not v["label"].startswith(m["label"]):
        return False
    if m.get("detail") and m["detail"] not in v["detail"]:
        return False
    for k, x in m.get("choices", {}).items():
        if v["choices"].get(k) != x:
            return False
    return True


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = "thorough" if "--thorough" in argv else "quick"
    only = None
    if "--only" in argv:
        only = argv[argv.index("--only") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    import calkulate  # noqa

    mod, hs = load(pid, tier)
    if only:
        hs = [h for h in hs if h.name == only]
    limit = 600 if tier == "quick" else 3300
    results, early = run_all(pid, tier, hs, seed, os.cpu_count() or 4,
                             t0 + limit)
    results.sort(key=lambda r: r[0].name)
    viol, inc, agg, samples = [], [], {}, []
    functions = set()
    per = []
    tot = dict(paths=0, decisions=0, obligations=0, unsat=0, const=0, traces=0,
               queries=0, time=0.0, sat=0, unknown=0)
    mism = []
    for h, (st, r) in results:
        if st != "ok":
            inc.append(f"{h.name}: {r}")
            per.append({"harness": h.name, "error": r})
            viol.extend(early.get(h.name, []))
            continue
        viol.extend(r["violations"])
        inc.extend(r["inconclusive"])
        mism.extend(r["trace_mismatch"])
        functions |= set(r["functions"])
        samples.extend(r["samples"][:2])
        for k in ("paths", "decisions", "obligations", "unsat", "const", "traces"):
            tot[k] += r[k]
        for k in ("queries", "time", "sat", "unknown"):
            tot[k] += r["stats"].get(k, 0)
        per.append({
            "harness": h.name, "bounds": h.bounds, "paths": r["paths"],
            "obligations": r["obligations"], "discharged_unsat": r["unsat"],
            "discharged_constant": r["const"], "queries": r["stats"]["queries"],
            "solver_s": round(r["stats"]["time"], 3),
            "traces_validated": r["traces"], "unwitnessed": r["unwitnessed"],
            "wall_s": round(r["wall"], 2),
        })
        if r["paths"] == 0 or r["obligations"] == 0:
            inc.append(f"{h.name}: vacuous (no path reached an assertion)")
    known = known_for(pid)
    real, listed = [], {}
    for v in viol:
        e = next((e for e in known if matches(e, v)), None)
        if e is not None:
            listed[e["id"]] = e
        else:
            real.append(v)
    for e in listed.values():
        print(f"KNOWN-FINDING: property={pid} {e['what']}")
    rp = None
    if real:
        rp = os.path.join(EVID, f"replay_{pid}.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "tier": tier, "violations": real}, f,
                      indent=1)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "states": tot["paths"], "transitions": tot["decisions"],
            "traces_validated_against_impl": tot["traces"],
            "samples": samples[:6],
            "obligations": tot["obligations"],
            "discharged_unsat": tot["unsat"],
            "discharged_constant": tot["const"],
            "queries": tot["queries"], "solver_s": round(tot["time"], 3),
            "queries_unknown": tot["unknown"],
            "functions_encoded": sorted(functions),
            "bounds": {h.name: h.bounds for h in hs},
            "harnesses": per,
            "inconclusive": inc,
            "encoding_mismatches": mism,
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "known_findings": sorted(listed),
            "violations": real,
        },
    }
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        f"{pid} {tier}: {len(hs)} harnesses, {tot['paths']} paths, "
        f"{tot['obligations']} obligations ({tot['unsat']} unsat, "
        f"{tot['const']} constant), {tot['queries']} queries, "
        f"{tot['time']:.1f} s solver, {tot['traces']} traces replayed, "
        f"{time.time() - t0:.1f} s"
    )
    for i in inc[:12]:
        print("INCONCLUSIVE:", str(i)[:600])
    for i in mism[:8]:
        print("ENCODING-MISMATCH:", i[:300])
    if real:
        for v in real[:5]:
            print(f"  {v['harness']}: {v['label']}: {v['detail'][:300]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


def replay(path):
    from . import engine
    from fractions import Fraction

    with open(path) as f:
        d = json.load(f)
    mod, hs = load(d["property"], d["tier"])
    bad = 0
    for v in d["violations"]:
        h = [x for x in hs if x.name == v["harness"]][0]
        env = {k: Fraction(x[0]) for k, x in v["env"].items()}
        c, err = engine.run_concrete(h, env, v["choices"])
        print(v["harness"], {k: x[1] for k, x in v["env"].items()}, v["choices"])
        for lab, det in c.failures[:6]:
            print("  FAILS", lab, det)
            bad = 1
    return bad
