"""P21: in-process postprocessing: order, isolation, summaries, selections."""
import copy
import logging
import os
import random
import sys
import time
import types
import numpy as np
import vlib
from vlib import Check, tlc_emit, pmap, guarded, pick, main
import pp

W = None


class Gen:
    """the waveform generator; the delay makes samples finish in a chosen
    order whatever the samples are"""

    def __init__(self, w, delay):
        self.w, self.delay = w, delay

    def __call__(self, params, extra):
        time.sleep(self.delay.get(int(round(params["x"] * 1000)), 0.0))
        if params["k"] == 0:
            params["w"] = int(params["w"])      # the generator owns its dict
        d = self.w.make(params, extra)
        params.clear()
        return d


class Plain:
    """picklable part of the world"""

    def __init__(self, w):
        self.waves, self.params = w.waves, w.params
    make = pp.World.make


def subject(w, kind, index, gen, extra, cols):
    import pandas as pd
    import gw_eccentricity.postprocess as P
    if kind == "bilby":
        return P.PostProcessForBilby(w.post, gen, parameter_columns=cols, data_dict_generator_extra_kwargs=extra)

    class Own(P.PostProcess):
        def get_posterior(self, parameter_columns=None):
            d = pd.DataFrame(w.params, index=index)
            return d if parameter_columns is None else d[parameter_columns]
    return Own("nofile", gen, parameter_columns=cols, data_dict_generator_extra_kwargs=extra)


def direct_bounds(w, p, c):
    from gw_eccentricity import measure_eccentricity

    def go():
        d = w.make(dict(p), c["extra"])
        if not isinstance(d, dict):
            return None
        return measure_eccentricity(dataDict=d, tref_in=d["t"], method=c["method"], **c["kw"])["gwecc_object"].get_fref_bounds()
    r = guarded(go)
    if r["ok"] and r["value"] is not None:
        return dict(status="success", e=float(r["value"][0]), l=float(r["value"][1]))
    return dict(status="fail", msg=r["msg"] if not r["ok"] else None)


def one(job):
    import joblib
    rng = random.Random(f"{vlib.SEED}:p21:{job['i']}")
    w = Plain(W)
    w.post = W.post
    w.expected = W.expected
    ci, c = job["ci"], copy.deepcopy(pp.COMBOS[job["ci"]])
    if rng.random() < 0.3:
        c["kw"] = None if not c["kw"] else c["kw"]
    index = list(range(pp.NS))
    kind = rng.choice(["bilby", "own"])
    if kind == "own":
        index = rng.sample(range(100), pp.NS)
    req = job["req"]
    if job["all"]:
        req = list(range(pp.NS))
    delay = {}
    for k, i in enumerate(job["order"]):
        delay[int(round(w.params[req[i - 1]]["x"] * 1000))] = 0.004 * k
    cols = rng.choice([None, ["w", "k", "x"]])
    s = subject(w, kind, index, Gen(w, delay), copy.deepcopy(c["extra"]) if c["extra"] or rng.random() < 0.5 else None, cols)
    samples = None if job["all"] else [index[i] for i in req]
    if samples is not None and rng.random() < 0.3:
        samples = np.array(samples, dtype=int)
    bounds = job["bounds"]

    def go():
        # the other arguments are reused by every sample
        a = dict(samples=samples, method=c["method"], gw_eccentricity_kwargs=c["kw"], n_jobs=job["J"])
        with joblib.parallel_config(backend=job["backend"]):
            if bounds:
                return s.get_fref_bounds(**a)
            return s.postprocess(**{c["ref"][0]: c["ref"][1]}, **a)
    logging.disable(logging.WARNING)
    r = guarded(go, timeout=120)
    if job["backend"] == "loky":
        from joblib.externals.loky import get_reusable_executor
        get_reusable_executor().shutdown(wait=True, kill_workers=True)
    exp = [W.bounds[ci][i] if bounds else w.expected[ci][i] for i in req]
    tag = dict(job, kind=kind, index=index if kind == "own" else "range", msg=str(r["msg"])[:300])
    base = dict(kind="bounds" if bounds else "run", req=[index[i] for i in req], expect=[e["status"] == "success" for e in exp], id=tag,
                common=dict(some=False, lo=0, hi=0))
    empty = dict(base, res=[], sum=dict(total=-1, count=-1, v=[], v2=[]), df=[])
    if not r["ok"]:
        return empty
    res = r["value"].results
    f1, f2 = ("fref_min", "fref_max") if bounds else ("egw", "lgw")
    vals = [e.get("e") for e in exp] + [e.get("l") for e in exp] + [getattr(x, f) for x in res for f in (f1, f2)]
    rank = vlib.dense_ranks([v for v in vals if v is not None])
    out = []
    for i, x in enumerate(res):
        e = exp[i] if i < len(exp) else dict(status="?")
        ok = x.status == "success"
        if e["status"] == "success":
            own = ok and getattr(x, f1) == e["e"] and getattr(x, f2) == e["l"] and x.error_message is None
        else:
            own = x.status == "fail" and getattr(x, f1) is None and getattr(x, f2) is None and isinstance(x.error_message, str) and \
                (("dict" in x.error_message) if e["msg"] is None else x.error_message == e["msg"])
        v = [-1 if getattr(x, f) is None else rank(getattr(x, f)) for f in (f1, f2)]
        out.append(dict(s=int(x.sample_index), ok=ok, v=v[0], v2=v[1], lo=v[0], hi=v[1], own=bool(own)))
    base["res"] = out
    z = guarded(lambda: (r["value"].get_summary(), r["value"].to_dataframe(), len(r["value"].success_only())))
    if not z["ok"]:
        return empty
    sm, df, ns = z["value"]
    tot = sm["total_samples"]
    cnt = sm["success_percentage"] * tot / 100
    code = lambda v: rank(v) if any(v == y for y in vals if y is not None) else -5
    base["sum"] = dict(total=tot, count=int(round(cnt)) if abs(cnt - round(cnt)) < 1e-6 and ns == round(cnt) else -1,
                       v=[code(v) for v in sm[f1]], v2=[code(v) for v in sm[f2]])
    base["df"] = [[int(a), b == "success"] for a, b in zip(df["sample_index"], df["status"])]
    if bounds:
        g = guarded(lambda: r["value"].get_minmax_fref())
        if g["ok"] and g["value"] is not None:
            lo, hi = g["value"]
            base["common"] = dict(some=True, lo=code(lo), hi=code(hi))
        return base
    # the object's own summary of its last run
    z = guarded(lambda: (s.postprocess_summary(), s.get_gw_eccentricity_posterior()))
    if not z["ok"] or z["value"][0]["egw"] != sm["egw"] or z["value"][1] != dict(egw=sm["egw"], lgw=sm["lgw"]):
        base["sum"]["v"] = base["sum"]["v"] + [-7]
    return base


def texts(rng, n):
    """selection texts with their documented meaning"""
    from gw_eccentricity.postprocess.postprocess_cli import parse_samples
    out = []
    fixed = [("all", dict(kind="all", n=[])), ("none", dict(kind="all", n=[])), ("ALL", dict(kind="all", n=[])), ("None", dict(kind="all", n=[])),
             (" all ", dict(kind="all", n=[])), (None, dict(kind="all", n=[])), ("1:2:3:4", dict(kind="error", n=[])), ("abc", dict(kind="error", n=[])),
             ("1,b", dict(kind="error", n=[])), ("a:b", dict(kind="error", n=[])), ("1.5", dict(kind="error", n=[]))]
    for i in range(n):
        k = rng.choice(["one", "list", "range", "range", "range"])
        sp = lambda: rng.choice(["", "", " "])
        if k == "one":
            v = rng.choice([0, 1, 7, 100, 12345])
            fixed.append((f"{sp()}{v}{sp()}", dict(kind="one", n=[v])))
        elif k == "list":
            v = [rng.randrange(50) for _ in range(rng.randint(2, 6))]
            fixed.append((",".join(f"{sp()}{y}{sp()}" for y in v), dict(kind="list", n=v)))
        else:
            a, b, st = rng.randrange(12), rng.randrange(12), rng.choice([1, 1, 2, 3, 5, -1, -2])
            t = rng.choice(["", str(a)]) if a == 0 else str(a)
            fixed.append((f"{t}:{b}" if st == 1 and rng.random() < 0.7 else f"{t}:{b}:{st}", dict(kind="range", n=[a, b, st])))
    for t, x in fixed:
        r = guarded(lambda: parse_samples(t))
        if not r["ok"]:
            got = dict(kind="error", n=[])
        elif r["value"] is None:
            got = dict(kind="all", n=[])
        elif isinstance(r["value"], list) and all(type(v) is int for v in r["value"]):
            got = dict(kind="list", n=r["value"])
        else:
            got = dict(kind="other", n=[])
        out.append(dict(kind="text", x=x, got=got, id=dict(text=t, got=str(r.get("value"))[:100])))
    return out


def injections(rng, n):
    """the values of an injection, through the bilby file or an own class"""
    import tempfile
    import pandas as pd
    import gw_eccentricity.postprocess as P
    w = Plain(W)
    w.post = W.post
    out = []
    for i in range(n):
        ci = rng.randrange(len(pp.COMBOS))
        c = copy.deepcopy(pp.COMBOS[ci])
        j = rng.randrange(pp.NS)
        p = {k: W.params[j][k] for k in ("w", "k", "x")}
        seen = []

        def gen(params, extra):
            seen.append((dict(params), dict(extra)))
            return w.make(params, extra)
        kind = rng.choice(["bilby", "bilby", "own", "fill", "nofile", "missing", "refs"])
        path = os.path.join(tempfile.mkdtemp(dir=vlib.scratch("p21")), "inj.dat")
        rows = [p] + [dict(w=0.0, k=0.0, x=9.0)] * rng.choice([0, 0, 2])
        q = dict(p)
        if kind != "fill":
            for r in rows:
                r["minimum_frequency"] = 20.0
            q["minimum_frequency"] = 20.0
        else:
            q["minimum_frequency"] = 17.5
        pd.DataFrame(rows).to_csv(path, sep=" ", index=False)
        if kind == "own":
            class Own(P.PostProcess):
                def get_posterior(self, parameter_columns=None):
                    return pd.DataFrame(w.params)

                def get_injection_params(self):
                    return pd.read_csv(self.injection_file, sep=" ").to_dict(orient="records")[0]
            make = lambda: Own("nofile", gen, data_dict_generator_extra_kwargs=c["extra"], injection_file=path)
        elif kind == "fill":
            class Filled(P.PostProcessForBilby):
                def get_posterior(self, parameter_columns=None):
                    return super().get_posterior(parameter_columns).assign(minimum_frequency=17.5)
            make = lambda: Filled(W.post, gen, data_dict_generator_extra_kwargs=c["extra"], injection_file=path)
        else:
            f = None if kind == "nofile" else path + "x" if kind == "missing" else path
            make = lambda: P.PostProcessForBilby(W.post, gen, data_dict_generator_extra_kwargs=c["extra"], injection_file=f)
        refs = {c["ref"][0]: c["ref"][1]}
        if kind == "refs":
            refs = rng.choice([{}, dict(tref=-800.0, fref=0.0092)])
        r = guarded(lambda: make().get_injection_egw_and_lgw(method=c["method"], gw_eccentricity_kwargs=c["kw"] or rng.choice([None, {}]), **refs), timeout=60)
        e = W.expected[ci][j]
        good = e["status"] == "success" and kind not in ("nofile", "missing", "refs")
        if r["ok"]:
            own = good and float(r["value"][0]) == e["e"] and float(r["value"][1]) == e["l"] and seen == [(q, c["extra"])]
        else:
            own = not good and (kind in ("nofile", "missing", "refs") or (("dict" in r["msg"]) if e["msg"] is None else r["msg"] == e["msg"]))
        out.append(dict(kind="one", ok=bool(r["ok"]), own=bool(own), expect=good, id=dict(kind=kind, ci=ci, j=j, msg=str(r["msg"])[:200], seen=str(seen)[:200])))
    return out


def histograms(rng, n):
    import pandas as pd
    import matplotlib.pyplot as plt
    import gw_eccentricity.postprocess as P
    out = []
    for i in range(n):
        N = rng.choice([1, 2, 5, 30])
        own = {k: [round(rng.uniform(0, 6), 1) for _ in range(N)] for k in ("eccentricity", "mean_per_ano")}

        class Own(P.PostProcess):
            def get_posterior(self, parameter_columns=None):
                return pd.DataFrame(own)
        s = Own("nofile", lambda p, e: None)
        M = rng.choice([0, 1, 4, 25, 60])
        ok = [rng.random() < 0.7 for _ in range(M)]
        val = [(round(rng.uniform(0, 1), 2), round(rng.uniform(0, 6), 1)) for _ in range(M)]
        s.posterior = pd.DataFrame({"x": range(M), **{k: (v * M)[:M] for k, v in own.items()}}) if M else s.posterior
        s.postprocess_result = P.core.PostProcessResults([result(j, ok[j], *val[j]) for j in range(M)])
        for name, v in (("plot_egw_posterior", [x[0] for x, o in zip(val, ok) if o]), ("plot_lgw_posterior", [x[1] for x, o in zip(val, ok) if o]),
                        ("plot_eccentricity_posterior", list(s.posterior["eccentricity"])), ("plot_mean_per_ano_posterior", list(s.posterior["mean_per_ano"]))):
            f = getattr(s, name, None)
            if f is None:
                continue
            edges = sorted({round(rng.uniform(-0.1, 6.5 if name != "plot_egw_posterior" else 1.1), 1) for _ in range(rng.randint(3, 6))})
            if len(edges) < 2:
                continue
            given = rng.random() < 0.5

            def go():
                fig, ax = plt.subplots() if given else (None, None)
                z = f(fig=fig, ax=ax, bins=edges)
                ax = ax if given else z[1]
                return [int(round(b.get_height())) for b in ax.patches]
            r = guarded(go, timeout=60)
            plt.close("all")
            rank = vlib.dense_ranks(list(v) + edges)
            out.append(dict(kind="hist", vals=[rank(y) for y in v], edges=[rank(y) for y in edges], counts=r["value"] if r["ok"] else [-1],
                            id=dict(name=name, given=given, v=v[:6], edges=edges, msg=str(r["msg"])[:200])))
    return out


def result(i, ok, e, l):
    from gw_eccentricity.postprocess import core
    return core.PostProcessResult(sample_index=i, status="success" if ok else "fail", egw=e if ok else None, lgw=l if ok else None,
                                  error_message=None if ok else "m")


def cli_refusals(rng):
    """command lines that must be refused by every process"""
    good = ["--posterior-path", W.post, "--output-format", "csv", "--samples=0:4", "--method", "Amplitude", "--data-dict-generator", W.gen + ":make"]

    def sub(a, k, v):
        i = next(j for j, x in enumerate(a) if x.split("=")[0] == k)
        n = 1 if "=" in a[i] else 2
        return a[:i] + ([] if v is None else [k, v]) + a[i + n:]
    T = ["--tref=-800.0"]
    cases = [good, good + T + ["--fref", "0.009"], sub(good, "--data-dict-generator", None) + T, sub(good, "--posterior-path", None) + T]
    cases += [good + T + ["--batch-size", b] for b in ("0", "-1", "x")]
    cases += [sub(good, "--data-dict-generator", g) + T for g in ("nocolon", W.gen + "x:make", W.gen + ":nosuch", "no_such_module_vp:make", W.gen + ":__name__", W.dir + ":make")]
    cases += [good + T + ["--" + k, v] for k in ("gw-eccentricity-kwargs", "data-dict-generator-extra-kwargs") for v in ("[1]", "{", "3", '"a"', "{'a': 1}")]
    cases += [sub(good, "--samples", v) + T for v in ("a", "1:2:3:4", "1,b", "1.5")]
    cases += [sub(good, "--output-format", "xls") + T, good + T + ["--posterior-type", "pickle"], sub(good, "--posterior-path", W.post + "x") + T,
              good + T + ["--parameter-columns", "w,nosuch"], good + ["--tref", "x"], good + T + ["--save-every", "x"], good + T + ["--nosuchoption", "1"]]
    out = []
    for i, a in enumerate(cases):
        for n in (1, 3):
            out.append((a, n, i))
    return out


def cli_one(x):
    import shutil
    import tempfile
    import mpijob
    a, n, i = x
    d = tempfile.mkdtemp(prefix="cli", dir=vlib.scratch("p21"))
    o = os.path.join(d, "o")
    r = mpijob.run(dict(P=n, sched=[], seed=1.0, sync=False, argv=a + ["--output-dir", o], cwd=d, out=o, make=W.make))
    files = [f for _, _, fs in os.walk(d) for f in fs]
    shutil.rmtree(d, ignore_errors=True)
    stops = r["end"] in ("end", "failed", "abort") and "ok" not in r["exits"].values()
    return dict(kind="refuse", got="error" if stops and not r["evals"] and not files else "values",
                id=dict(argv=a[8:] if i else "no reference", n=n, end=r["end"], exits=str(r["exits"])[:300], files=files))


def refusals(rng):
    out = []
    w = Plain(W)
    w.post = W.post
    for a in (dict(), dict(tref=-800.0, fref=0.009)):
        for samples in (None, [1, 2], []):
            calls = []
            s = subject(w, "bilby", None, lambda p, e: calls.append(1), None, None)
            r = guarded(lambda: s.postprocess(samples=samples, n_jobs=1, **a))
            out.append(dict(kind="refuse", got="error" if not r["ok"] and not calls else "values", id=dict(a=a, samples=samples)))
    s = subject(w, "bilby", None, lambda p, e: None, None, None)
    for f in (s.postprocess_summary, s.get_gw_eccentricity_posterior):
        out.append(dict(kind="refuse", got="error" if not guarded(f)["ok"] else "values", id="no results yet"))
    r = guarded(lambda: subject(w, "bilby", None, 5, None, None))
    out.append(dict(kind="refuse", got="error" if not r["ok"] else "values", id="generator not callable"))
    r = guarded(lambda: subject(w, "bilby", None, len, None, ["w", "nosuch"]))
    out.append(dict(kind="refuse", got="error" if not r["ok"] else "values", id="unknown column"))
    return out


def check(c: Check):
    global W
    vlib.import_gwecc()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import gw_eccentricity.postprocess  # noqa
    import gw_eccentricity.postprocess.postprocess_cli  # noqa
    W = pp.World()
    W.bounds = [[direct_bounds(W, p, k) for p in W.params] for k in pp.COMBOS]
    c.tlc(vlib.tlc("Results", defs=f"CONSTANTS Jobs = {{1, 2, 3}} Lens = {{0, 1, 2, {pick(3, 4)}}} Samples = {{1, 2, 3}} Emit = FALSE", workers=8, timeout=2000))
    r, cases = tlc_emit("Results", defs="CONSTANTS Jobs = {1, 2, 4} Lens = {1, 2, 4} Samples = {1, 2, 3} Emit = TRUE", workers=8)
    c.tlc(r)
    rng = random.Random(vlib.SEED)
    jobs = []
    for i in range(pick(300, 5000)):
        x = rng.choice(cases)
        good = [j for j in range(pp.NS) if W.params[j]["k"] == 0]
        bad = [j for j in range(pp.NS) if W.params[j]["k"] != 0]
        m = {s: None for s in (1, 2, 3)}
        g, b = rng.sample(good, 3), rng.sample(bad, 3)
        for s in m:
            m[s] = b.pop() if s in x["bad"] else g.pop()
        j = dict(i=i, J=x["J"], req=[m[s] for s in x["req"]], order=x["order"], all=False, ci=rng.randrange(len(pp.COMBOS)), bounds=rng.random() < 0.35,
                 backend="threading")
        z = rng.random()
        if z < 0.08:
            j.update(all=True, req=list(range(pp.NS)), order=rng.sample(range(1, pp.NS + 1), pp.NS))
        elif z < 0.12:
            j.update(req=[], order=[])
        elif z < 0.16:
            j.update(req=b + bad[:2], order=[])
        jobs.append(j)
    # separate worker processes
    for i in range(pick(3, 24)):
        jobs.append(dict(i=10 ** 6 + i, J=2, req=rng.sample(range(pp.NS), 6), order=[3, 1, 2, 6, 5, 4], all=False, ci=i % len(pp.COMBOS), bounds=i % 3 == 2, backend="loky"))
    recs = pmap(one, jobs)
    recs = [dict(kind="run", req=[1], res=[], expect=[True], sum=dict(total=-1, count=-1, v=[], v2=[]), df=[], id=str(r)) if "died" in r else r for r in recs]
    recs += texts(rng, pick(150, 3000)) + refusals(rng) + pmap(cli_one, cli_refusals(rng))
    recs += injections(rng, pick(25, 400)) + histograms(rng, pick(16, 200))
    c.note(runs=len(jobs), texts=sum(r["kind"] == "text" for r in recs), results=sum(len(r.get("res", [])) for r in recs),
           failures=sum(not x["ok"] for r in recs for x in r.get("res", [])), refusals=sum(r["kind"] == "refuse" for r in recs))
    for k in ("run", "bounds", "text"):
        c.sample(next((r for r in recs if r["kind"] == k), None))

    def mod(pred, **kw):
        def f():
            z = copy.deepcopy(next(z for z in recs if pred(z)))
            z.update({k: (v(z) if callable(v) else v) for k, v in kw.items()})
            return z
        return f
    full = lambda z: z["kind"] == "run" and len(set(z["req"])) > 1 and any(y["ok"] for y in z["res"])
    bnd = lambda z: z["kind"] == "bounds" and z["common"]["some"]
    controls = [(mod(full, req=lambda z: z["req"][1:] + z["req"][:1] if z["req"][0] != z["req"][1] else z["req"][::-1] + [1]), "order"), (mod(full, res=lambda z: z["res"][:-1]), "count"),
                (mod(full, expect=lambda z: [not z["expect"][0]] + z["expect"][1:]), "status"),
                (mod(full, res=lambda z: [dict(z["res"][0], own=False)] + z["res"][1:]), "value"),
                (mod(full, sum=lambda z: dict(z["sum"], count=z["sum"]["count"] + 1)), "summary-count"),
                (mod(full, sum=lambda z: dict(z["sum"], v=z["sum"]["v"][:-1])), "summary-values"),
                (mod(full, df=lambda z: z["df"][:-1]), "table"),
                (mod(bnd, common=lambda z: dict(z["common"], lo=z["common"]["lo"] + 1)), "common"),
                (mod(lambda z: z["kind"] == "text" and z["x"]["kind"] == "list", got=lambda z: dict(kind="list", n=z["got"]["n"][1:])), "text"),
                (mod(lambda z: z["kind"] == "text" and z["x"]["kind"] == "error", got=dict(kind="all", n=[])), "text-accepted"),
                (mod(lambda z: z["kind"] == "one" and z["ok"], own=False), "value"), (mod(lambda z: z["kind"] == "one", ok=lambda z: not z["ok"]), "status"),
                (mod(lambda z: z["kind"] == "hist" and sum(z["counts"]) > 0, counts=lambda z: [y + 1 for y in z["counts"]]), "histogram"),
                (mod(lambda z: z["kind"] == "refuse", got="values"), "not-refused")]
    vlib.judge(c, "JResults", recs, controls=controls,
               key=lambda i, cl: f"{recs[i]['kind']}:{'+'.join(sorted(cl))}:{recs[i]['id']}"[:200],
               what=lambda i, cl: f"{sorted(cl)}: {recs[i]}")
    c.assumptions += ["completion orders are realised by delays in the waveform generator", "joblib's threading backend in most runs, its process backend in a few"]


if __name__ == "__main__":
    main(check, "P21")
