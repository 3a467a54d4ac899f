"""P19: parallel postprocessing evaluates each selected sample exactly once."""
import random
import vlib
from vlib import Check, tlc_emit, pmap, pick, main
import pp

W = None


def one(job):
    rng = random.Random(f"{vlib.SEED}:p19:{job['i']}")
    return pp.history(W, rng, job["ci"], job["req"], [dict(P=job["P"], B=job["B"], E=job["E"], sched=job["sched"], sync=job["sync"])],
                      job["fmt"], job["cols"], {k: job[k] for k in ("P", "B", "E", "sync", "ci", "fmt", "sched")})


def fill(j, i, rng):
    j.update(i=i, ci=rng.randrange(len(pp.COMBOS)), fmt=rng.choice(["csv", "json", "parquet"]), cols=rng.random() < 0.5, sync=rng.random() < 0.4)
    return j


def check(c: Check):
    global W
    vlib.import_gwecc()
    import bilby, mpi4py, pyarrow  # noqa: before the processes are forked
    W = pp.World()
    base = "Procs = {1, 2, 3} Batches = {1, 2} Intervals = {0, 1, 2} Lens = {0, 2, 3} Crashes = 0 Emit = FALSE"
    for s in ("FALSE", "TRUE"):
        c.tlc(vlib.tlc("Scheduler", defs=f"CONSTANTS {base} Rendezvous = {s} Aborts = TRUE", workers=8))
    mutant = vlib.tlc("Scheduler", defs="CONSTANTS Procs = {2} Batches = {1} Intervals = {0} Lens = {2} Crashes = 0 Emit = FALSE Rendezvous = FALSE Aborts = FALSE", expect_ok=False)
    if mutant.ok:
        raise vlib.MachineryError("the model must not terminate when a failing master does not stop the others")
    big = pick("Procs = {1, 4} Batches = {2, 3} Intervals = {0, 2} Lens = {4}", "Procs = {1, 2, 3, 4} Batches = {1, 2, 3} Intervals = {0, 1, 2, 3} Lens = {0, 2, 4, 5}")
    c.tlc(vlib.tlc("Scheduler", defs=f"CONSTANTS {big} Crashes = 0 Emit = FALSE Rendezvous = FALSE Aborts = TRUE", workers=8, timeout=3000))
    jobs = []
    rng = random.Random(vlib.SEED)
    nsim = pick(260, 3000)
    for s in ("FALSE", "TRUE"):
        r, cases = tlc_emit("Scheduler", cfg="Scheduler", defs="CONSTANTS Procs = {2, 3, 4} Batches = {1, 2, 3} Intervals = {0, 1, 2, 3} "
                            f"Lens = {{0, 2, 3, 5, 7}} Crashes = 0 Emit = TRUE Rendezvous = {s} Aborts = TRUE", expect_ok=False, timeout=1500,
                            extra=("-simulate", f"num={nsim // 2}", "-seed", str(vlib.SEED), "-depth", "90"))
        if "Finished in" not in r.out or "Error:" in r.out:
            raise vlib.MachineryError("simulation failed: " + r.out[-2000:])
        for x in cases:
            m = rng.sample(range(pp.NS), pp.NS)
            x["run"] = pp.split(x["sched"])[0]
            jobs.append(dict(x["run"], req=[k if k == pp.BAD else m[k] for k in x["req"]]))
    for i in range(pick(130, 3000)):
        n = rng.choice([0, 1, 2, 5, 8, pp.NS, pp.NS])
        req = rng.sample(range(pp.NS), n) if rng.random() < 0.6 else list(range(n))
        if n and rng.random() < 0.3:
            req += rng.choices(req, k=2)
        if n and rng.random() < 0.2:
            st = rng.choice([2, 3, -1, -2])
            req = list(range(0, pp.NS, st)) if st > 0 else list(range(pp.NS - 1, 0, st))
        if i % 12 == 0:
            req = rng.choice([list(range(pp.NS)) + [pp.BAD], [pp.BAD], req + [pp.BAD], [pp.BAD] + req])
        jobs.append(dict(P=rng.choice([1, 1, 2, 3, 5, 8]), B=rng.choice([1, 2, 3, 5, 100]), E=rng.choice([0, 0, 1, 3, 50]), req=req, sched=[]))
    jobs = [fill(j, i, rng) for i, j in enumerate(jobs)]
    recs = pmap(one, jobs)
    recs = [pp.dead(r) if "died" in r else r for r in recs]
    c.note(jobs=len(recs), schedules_from_specification=sum(bool(j["sched"]) for j in jobs), multi_process=sum(j["P"] > 1 for j in jobs),
           failing_samples=sum(W.expected[j["ci"]][s]["status"] == "fail" for j in jobs for s in set(j["req"]) - {pp.BAD}),
           unknown_samples=sum(pp.BAD in j["req"] for j in jobs),
           evaluations=sum(len(r["runs"][0]["evals"]) for r in recs))
    for r in recs[:3]:
        c.sample(r)
    vlib.judge(c, "JPostproc", recs, controls=controls(recs),
               key=lambda i, cl: f"{'+'.join(sorted(cl))}:{jobs[i]['P']}:{jobs[i]['B']}:{jobs[i]['E']}:{jobs[i]['req']}:{jobs[i]['sched']}"[:200],
               what=lambda i, cl: f"{sorted(cl)}: {recs[i]}")
    c.assumptions += ["processes are threads with their own copy of the CLI module; messages are pickled; every send, receive and evaluation is a scheduling point",
                      "a sample requested more than once is processed and reported once"]


def controls(recs):
    def big(r):
        return r["runs"][-1]["end"] == "end" and len(r["rows"]) > 2 and len(r["runs"][-1]["evals"]) > 2

    def mod(f, top=None, pred=big):
        def g():
            r = next(r for r in recs if pred(r))
            r = dict(r, runs=[dict(x) for x in r["runs"]])
            x = r["runs"][-1]
            x.update(f(x) if f else {})
            r.update(top(r) if top else {})
            return r
        return g
    return [(mod(lambda x: dict(evals=x["evals"] + [x["evals"][0]])), "evaluated-twice"),
            (mod(lambda x: dict(evals=x["evals"][1:], after=x["before"], E=0)), "not-evaluated"),
            (mod(lambda x: dict(evals=x["evals"] + [99])), "evaluated-unselected"),
            (mod(lambda x: dict(end="deadlock")), "never-stops"), (mod(None, lambda r: dict(req=r["req"] + [pp.BAD])), "accepts-unknown-sample"), (mod(lambda x: dict(end="failed")), "run-failed"),
            (mod(lambda x: dict(paramsok=False)), "wrong-parameters"),
            (mod(None, lambda r: dict(rows=[r["rows"][1], r["rows"][0]] + r["rows"][2:])), "rows"),
            (mod(None, lambda r: dict(rows=r["rows"][:-1])), "rows"),
            (mod(None, lambda r: dict(rowok=[False] + r["rowok"][1:])), "row-values")]


if __name__ == "__main__":
    main(check, "P19")
