"""Inputs, runs and records of postprocessing jobs (P19, P20)."""
import json
import math
import os
import random
import shutil
import tempfile
import numpy as np
import vlib
from vlib import guarded
import synth
import mpijob

NS = 12
COMBOS = [dict(ref=("tref", -800.0), method="Amplitude", kw={}, extra={}),
          dict(ref=("fref", 0.0092), method="Amplitude", kw={}, extra={"shift": 7.0}),
          dict(ref=("tref", -700.0), method="Frequency", kw={"num_orbits_to_exclude_before_merger": 1}, extra={}),
          dict(ref=("tref", -900.0), method="ResidualAmplitude", kw={"extra_kwargs": {"omega_gw_extrema_interpolation_method": "spline"}}, extra={"shift": 3.0})]
MSG = {1: "cannot make sample", 5: 'bad, "quoted" value;\nsecond line é'}


def waves():
    out = []
    for i in range(4):
        d = synth.pn(e0=[0.1, 0.2, 0.3, 0.15][i], orbits=[9, 10, 8.5, 9.5][i], dt=2.0, ano0=0.4 + i, adv=0.08, zeroecc=True)
        out.append(d)
    return out


class World:
    def __init__(self):
        self.dir = vlib.scratch("pp")
        self.waves = waves()
        rng = random.Random(vlib.SEED)
        kinds = [0, 0, 0, 0, 1, 0, 2, 0, 3, 0, 4, 5]
        rng.shuffle(kinds)
        self.params = [dict(w=float(rng.randrange(4)), k=float(kinds[i]), x=round(1.5 + 0.25 * i, 3), extra_col=float(rng.random())) for i in range(NS)]
        # make both successes and failures frequent whatever the selection
        self.gen = os.path.join(self.dir, "gen.py")
        pkg = os.path.join(self.dir, "vp_gen_pkg")
        os.makedirs(pkg, exist_ok=True)
        open(os.path.join(pkg, "__init__.py"), "w").close()
        for p in (self.gen, os.path.join(pkg, "inner.py")):
            with open(p, "w") as f:
                f.write("import sys\n\ndef make(params, extra):\n    return sys.modules['_vp_hook'].call(params, extra)\n")
        import pandas as pd
        self.post = os.path.join(self.dir, "post_result.json")
        self.write(pd.DataFrame(self.params))
        self.expected = [[self.direct(p, c) for p in self.params] for c in COMBOS]

    def write(self, df):
        def go(fd):
            os.dup2(os.open("/dev/null", os.O_WRONLY), 2)
            import bilby
            r = bilby.core.result.Result(label="post", outdir=self.dir, posterior=df, search_parameter_keys=["w", "x"],
                                           priors=bilby.core.prior.PriorDict({k: bilby.core.prior.Uniform(-1, 100) for k in ("w", "x")}))
            r.save_to_file(filename=self.post, overwrite=True, extension="json")
            os.write(fd, b"ok")
            os._exit(0)
        buf, st = mpijob.fork(go)
        if buf != b"ok":
            raise vlib.MachineryError("cannot write posterior: " + buf.decode())

    def make(self, params, extra):
        k = int(params["k"])
        if k in MSG:
            raise ValueError(MSG[k] + f" {params['x']}")
        if k == 2:
            return [1, 2]
        d = synth.copy_dict(self.waves[int(params["w"])])
        s = extra.get("shift", 0.0)
        d["t"] = d["t"] + s
        if k == 3:
            del d["t"]
        if k == 4:
            d = {a: ({m: y[-200:] for m, y in b.items()} if isinstance(b, dict) else b[-200:]) for a, b in d.items()}
        return d

    def direct(self, p, c):
        from gw_eccentricity import measure_eccentricity

        def go():
            d = self.make(p, c["extra"])
            if not isinstance(d, dict):
                return None
            return measure_eccentricity(dataDict=d, method=c["method"], **{c["ref"][0] + "_in": c["ref"][1]}, **c["kw"])
        r = guarded(go)
        if r["ok"] and r["value"] is None:
            return dict(status="fail", msg=None)
        if r["ok"]:
            return dict(status="success", e=float(r["value"]["eccentricity"]), l=float(r["value"]["mean_anomaly"]))
        return dict(status="fail", msg=r["msg"])


def spec_text(req, rng):
    n = len(req)
    forms = []
    if list(req) == list(range(NS)):
        forms += ["all", "none", "ALL", f"0:{NS}", f":{NS}"]
    if n == 0:
        return rng.choice(["3:3", "5:2", "4:4:2"])
    if n == 1:
        forms += [f"{req[0]}", f"{req[0]},", f"{req[0]}:{req[0] + 1}"]
    else:
        forms += [",".join(map(str, req)), " , ".join(map(str, req))]
        st = req[1] - req[0]
        if st and all(b - a == st for a, b in zip(req, req[1:])):
            end = req[-1] + (1 if st > 0 else -1)
            if end >= 0 or st > 0:
                forms += [f"{req[0]}:{end}:{st}"] * 2 if st != 1 else [f"{req[0]}:{end}", f"{req[0]}:{end}:1"]
    return rng.choice(forms)


BAD = 99           # Unknown of Postproc: a sample the posterior does not have


def gen_text(w, rng):
    """a file, anywhere, or a module that can be imported (the jobs' path has
    the directory of vp_gen_pkg)"""
    x = rng.random()
    if x < 0.2:
        return "vp_gen_pkg.inner:make"
    if x < 0.3:
        return os.path.join(os.path.dirname(w.gen), ".", os.path.basename(w.gen)) + ":make"
    return w.gen + ":make"


def argv(w, c, req, B, E, fmt, out, rng, cols):
    if BAD in req:
        bad = rng.choice([NS, NS, NS + 1, BAD])
        req = [bad if k == BAD else k for k in req]
    a = ["--posterior-path", w.post, "--output-dir", out, "--output-format", fmt,
         f"--samples={spec_text(req, rng)}", "--method", c["method"], "--batch-size", str(B),
         "--data-dict-generator", gen_text(w, rng), f"--{c['ref'][0]}={c['ref'][1]}"]
    if E:
        a += ["--save-every", str(E)]
    elif rng.random() < 0.5:
        a += ["--save-every", "none"]
    if c["extra"]:
        a += ["--data-dict-generator-extra-kwargs", json.dumps(c["extra"])]
    if c["kw"]:
        a += ["--gw-eccentricity-kwargs", json.dumps(c["kw"])]
    if cols:
        a += ["--parameter-columns", "w, k,x"]
    return a


def rows_ok(w, ci, rows, cols, final):
    """(sample ids, per row: own parameters, status and values)"""
    ids, ok = [], []
    for r in rows:
        s = r.get("sample_index")
        if s is None or not float(s).is_integer() or not 0 <= int(s) < NS:
            ids.append(-1)
            ok.append(False)
            continue
        s = int(s)
        e, p = w.expected[ci][s], w.params[s]
        good = r.get("status") == e["status"]
        if final:
            good = good and all(isinstance(r.get(k), (int, float)) and math.isclose(r[k], p[k], rel_tol=1e-8) for k in (("w", "k", "x") if cols else p))
        if e["status"] == "success":
            good = good and r.get("error_message") in (None, "") and all(
                isinstance(r.get(k), (int, float)) and math.isclose(r[k], v, rel_tol=1e-9, abs_tol=2e-10) for k, v in (("egw", e["e"]), ("lgw", e["l"])))
        else:
            m = r.get("error_message")
            good = good and r.get("egw") is None and r.get("lgw") is None and isinstance(m, str) and \
                (("dict" in m) if e["msg"] is None else m.replace("\r\n", "\n") == e["msg"])
        ids.append(s)
        ok.append(bool(good))
    return ids, ok


def history(w, rng, ci, req, runs, fmt, cols, tag):
    """runs: list of dict(P, B, E, sched, sync, crash); record for JPostproc"""
    out = tempfile.mkdtemp(prefix="run_", dir=vlib.scratch("pp", "runs"))
    c = COMBOS[ci]
    out2 = os.path.join(out, "o") if rng.random() < 0.5 else out
    recs = []
    had = False
    prev = []
    final = None
    xid = {int(round(p["x"] * 1000)): i for i, p in enumerate(w.params)}
    try:
        for i, x in enumerate(runs):
            r = mpijob.run(dict(P=x["P"], sched=x.get("sched", []), seed=rng.random(), sync=x.get("sync", False), crash=x.get("crash"),
                                argv=argv(w, c, req, x["B"], x["E"], fmt, out2, rng, cols), cwd=out, out=out2, make=w.make, path=[w.dir]))
            f = mpijob.inspect(out2, fmt)
            ids, ok = rows_ok(w, ci, f["ckpt"]["rows"], cols, False)
            ckok = f["ckpt"]["state"] != "partial" and all(ok) and len(set(ids)) == len(ids)
            oids, ook = rows_ok(w, ci, f["out"]["rows"], cols, True)
            outok = f["out"]["state"] == "none" and not had or \
                f["out"]["state"] == "complete" and oids == list(dict.fromkeys(req)) and all(ook)
            had = had or f["out"]["state"] != "none"
            last = i == len(runs) - 1
            want = sorted(("w", "k", "x") if cols else ("w", "k", "x", "extra_col"))
            recs.append(dict(P=x["P"], B=x["B"], E=x["E"], disturbed=not last, end=r["end"], evals=[xid.get(v, -1) for v in r["evals"]],
                             before=prev, after=sorted(set(ids)), ckok=bool(ckok), outok=bool(outok or last),
                             paramsok=bool(all(p == want for p in r["params"])),
                             crash=str(x.get("crash")), exits=str({k: v for k, v in r["exits"].items() if v != "ok"})[:600],
                             counts=r["counts"]))
            prev = sorted(set(ids))
            final = (oids, ook)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return dict(req=list(req), runs=recs, rows=final[0], rowok=final[1], fmt=fmt, id=tag)


def split(sched):
    """runs of an emitted schedule: (P, B, E, entries, killed at the end)"""
    out = []
    for e in sched:
        if e >= 1000:
            e -= 1000
            out.append(dict(P=e // 100, B=e // 10 % 10, E=e % 10, sched=[], crash=None))
        elif e == 100:
            out[-1]["crash"] = {"end_of_schedule": True}
        else:
            out[-1]["sched"].append(e)
    return out


def dead(job):
    return dict(req=[], runs=[dict(P=1, B=1, E=0, disturbed=False, end="hang", evals=[], before=[], after=[], ckok=True, outok=True, paramsok=True)],
                rows=[], rowok=[], id=str(job))
