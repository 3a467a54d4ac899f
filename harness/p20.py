"""P20: an interrupted postprocessing run resumes without loss, repetition or
corruption."""
import random
import vlib
from vlib import Check, tlc_emit, pmap, pick, main
import pp

W = None


def one(job):
    rng = random.Random(f"{vlib.SEED}:p20:{job['i']}")
    runs = [dict(r) for r in job["runs"]]
    return pp.history(W, rng, job["ci"], job["req"], runs, job["fmt"], job["cols"],
                      dict(ci=job["ci"], fmt=job["fmt"], runs=[{k: v for k, v in r.items() if k != "sched"} for r in runs]))


def crash(rng, n, P, E):
    k = rng.choice(["io", "io", "io", "line", "line", "op", "gen", "fsize", "fsize", "fsize", "soft", "audit"])
    if k == "line":
        return {"line": rng.randint(1, 150 + 90 * n + 150 * P)}
    if k == "io":
        return {"line": rng.randint(1, 300 + 90 * n + (900 * (n // E) if E else 0) + 900), "io": 1}
    if k == "op":
        return {"op": rng.randint(1, max(2, n + (5 * n if P > 1 else 0)))}
    if k == "gen":
        return {"gen": rng.randint(1, max(1, n))}
    if k == "audit":
        return {"audit": rng.randint(1, 14)}
    r = rng.random()
    x = {"fsize": rng.randint(0, 2500) if r < 0.35 else rng.randint(2500, 7000) if r < 0.8 else rng.choice([3, 4, 8, 500, 1000])}
    if k == "soft":
        x["soft"] = True
    return x


def check(c: Check):
    global W
    vlib.import_gwecc()
    import bilby, mpi4py, pyarrow  # noqa: before the processes are forked
    W = pp.World()
    base = pick("Procs = {1, 3} Batches = {1} Intervals = {0, 2} Lens = {3}", "Procs = {1, 2, 3} Batches = {1, 2} Intervals = {0, 1, 2} Lens = {2, 3}")
    c.tlc(vlib.tlc("Scheduler", defs=f"CONSTANTS {base} Crashes = 2 Emit = FALSE Rendezvous = FALSE Aborts = TRUE", workers=8, timeout=3000))
    c.tlc(vlib.tlc("Scheduler", defs="CONSTANTS Procs = {1, 2, 3} Batches = {1, 2} Intervals = {0, 1, 2} Lens = {2} Crashes = 1 Emit = FALSE Rendezvous = TRUE Aborts = TRUE", workers=8))
    vlib.log('design checked')
    jobs = []
    rng = random.Random(vlib.SEED)
    r, cases = tlc_emit("Scheduler", defs="CONSTANTS Procs = {1, 2, 3} Batches = {1, 2, 3} Intervals = {1, 2, 3} Lens = {2, 4, 6} Crashes = 3 Emit = TRUE Rendezvous = FALSE Aborts = TRUE",
                        expect_ok=False, timeout=1500, extra=("-simulate", f"num={pick(260, 6000)}", "-seed", str(vlib.SEED), "-depth", "110"))
    if "Finished in" not in r.out or "Error:" in r.out:
        raise vlib.MachineryError("simulation failed: " + r.out[-2000:])
    for x in rng.sample(cases, min(len(cases), pick(90, 2500))):
        m = rng.sample(range(pp.NS), pp.NS)
        jobs.append(dict(req=[k if k == pp.BAD else m[k] for k in x["req"]], runs=pp.split(x["sched"]), model=True))
    for i in range(pick(190, 5000)):
        n = rng.choice([1, 2, 4, 6, 9, pp.NS])
        req = rng.sample(range(pp.NS), n) if rng.random() < 0.5 else list(range(n))
        runs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            P = rng.choice([1, 1, 2, 3, 4])
            E = rng.choice([0, 1, 1, 2, 3, 5])
            runs.append(dict(P=P, B=rng.choice([1, 2, 3, 100]), E=E, crash=crash(rng, n, P, E)))
        if rng.random() < 0.3:
            # a complete run, then one that dies: the results must survive
            runs.insert(-1 if len(runs) > 1 else 0, dict(P=1, B=1, E=rng.choice([0, 1, 4]), crash=None))
            runs[-1]["crash"] = rng.choice([{"fsize": rng.randint(0, 2000)}, {"line": rng.randint(1, 260)}, {"audit": rng.randint(1, 4)}, {"line": rng.randint(1, 1200), "io": 1}])
        P = rng.choice([1, 1, 2, 3])
        runs.append(dict(P=P, B=rng.choice([1, 2, 100]), E=rng.choice([0, 1, 3])))
        jobs.append(dict(req=req, runs=runs))
    if vlib.THOROUGH:
        # every executed line, and every length of a cut file, of one small job
        for k in range(1, 1200):
            for P, E in ((1, 1), (3, 2)):
                jobs.append(dict(req=[4, 1, 7], runs=[dict(P=P, B=1, E=E, crash={"line": k}), dict(P=1, B=1, E=E)]))
        for k in range(1, 3600, 3):
            jobs.append(dict(req=[4, 1, 7], runs=[dict(P=1, B=1, E=2, crash={"line": k, "io": 1}), dict(P=1, B=1, E=1)]))
        for k in list(range(0, 1200, 7)) + list(range(2800, 4400, 5)):
            jobs.append(dict(req=[4, 1, 7], runs=[dict(P=1, B=1, E=1, crash={"fsize": k}), dict(P=1, B=1, E=1)]))
    for i, j in enumerate(jobs):
        j.update(i=i, ci=rng.randrange(len(pp.COMBOS)), fmt=rng.choice(["csv", "json", "parquet"]), cols=rng.random() < 0.5)
        for r in j["runs"]:
            r["sync"] = rng.random() < 0.3
    recs = [pp.dead(r) if "died" in r else r for r in pmap(one, jobs)]
    dist = [x for r in recs for x in r["runs"] if x["disturbed"]]
    c.note(histories=len(recs), crash_histories_from_specification=sum(j.get("model", False) for j in jobs),
           runs_killed=sum(x["end"] == "killed" for x in dist), runs_failing_to_write=sum(x["end"] == "failed" for x in dist),
           killed_with_checkpoint=sum(x["end"] == "killed" and bool(x["after"]) for x in dist),
           resumed_from_checkpoint=sum(bool(x["before"]) for r in recs for x in r["runs"]),
           crash_kinds={k: sum(k in x["crash"] for x in dist if x["end"] != "end") for k in ("line", "op", "gen", "io", "fsize", "soft", "audit", "end_of_schedule")})
    for r in recs[:3]:
        c.sample(r)
    vlib.judge(c, "JPostproc", recs, controls=controls(recs),
               key=lambda i, cl: f"{'+'.join(sorted(cl))}:{jobs[i]['req']}:{jobs[i]['runs']}"[:300],
               what=lambda i, cl: f"{sorted(cl)}: {recs[i]}")
    c.assumptions += ["a job is killed as a whole (mpirun ends all processes); kill points: any executed line of the postprocess package and of the Python code writing tables, any message, any evaluation, any byte count of a written file, any opening or renaming of a file in the output folder",
                      "reruns may use other numbers of processes, batch sizes and checkpoint intervals, and the same selection"]


def controls(recs):
    def mod(f, pred=lambda x: True, top=None):
        def g():
            for r in recs:
                if r["runs"][-1]["end"] != "end":
                    continue
                for i, x in enumerate(r["runs"]):
                    if pred(x):
                        r = dict(r, runs=[dict(y) for y in r["runs"]])
                        r["runs"][i].update(f(x))
                        r.update(top(r) if top else {})
                        return r
            raise StopIteration
        return g
    res = lambda x: bool(x["before"]) and x["evals"]
    return [(mod(lambda x: dict(evals=x["evals"] + [x["before"][0]]), res), "evaluated-again"),
            (mod(lambda x: dict(after=[y for y in x["after"] if y != x["before"][0]]), lambda x: bool(x["before"])), "checkpoint-lost-rows"),
            (mod(lambda x: dict(after=x["after"] + [99]), lambda x: x["disturbed"]), "checkpoint-invented-rows"),
            (mod(lambda x: dict(ckok=False)), "checkpoint-damaged"), (mod(lambda x: dict(outok=False)), "results-damaged"),
            (mod(lambda x: dict(after=x["before"]), lambda x: x["disturbed"] and x["P"] == 1 and x["E"] == 1 and len(set(x["evals"])) > 1), "checkpoint-stale"),
            (mod(lambda x: dict(end="hang"), lambda x: x["disturbed"]), "never-stops"),
            (mod(lambda x: dict(after=x["after"][:-1], before=[]), lambda x: not x["disturbed"] and x["E"] > 0 and len(x["after"]) > 1), "checkpoint-incomplete")]


if __name__ == "__main__":
    main(check, "P20")
