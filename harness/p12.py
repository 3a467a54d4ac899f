"""P12: verbosity and diagnostic options never change results."""
import os
import random
import re
import numpy as np
import vlib
from vlib import Check, pmap, guarded, pick, main
import session
import synth

SUFFIX = "\nFor more verbose output use `debug_level=1`."
NOTICE = re.compile(r"zero", re.I)
LEVELS = {"m1": -1, "0": 0, "1": 1, "2": 2}


def state(g):
    """what can be queried from the returned object"""
    out = []
    if hasattr(g, "omega_gw_apocenters_interp"):
        out += [num(f) for f in (g.compute_eccentricity(np.linspace(g.tmin, g.tmax, 30)), g.compute_mean_anomaly(np.linspace(g.tmin, g.tmax, 30)),
                                 g.get_fref_bounds(), g.derivative_of_eccentricity(np.linspace(g.tmin, g.tmax, 7)), g.get_omega_gw_average())]
    v = vars(g)
    for k in sorted(v):
        if "debug" in k or "verbose" in k:
            continue
        x = num(v[k])
        if x is not None:
            out.append((k, x))
    return out


def num(x):
    if isinstance(x, (int, float, np.number, bool)):
        return np.array(x, dtype=float)
    if isinstance(x, np.ndarray) and x.dtype != object:
        return x
    if isinstance(x, (list, tuple)) and len(x) and all(isinstance(z, (int, float, np.number, np.ndarray)) for z in x):
        return [num(z) for z in x]
    if isinstance(x, dict):
        y = {k: num(z) for k, z in x.items() if not (isinstance(k, str) and ("debug" in k or "verbose" in k))}
        return [(repr(k), z) for k, z in y.items() if z is not None]
    return None


class Case:
    """a scenario: run(level, plots) -> result dict"""

    def __init__(self, label, run, plots=False):
        self.label, self.run, self.plots = label, run, plots


def generic(P, i):
    q = P.reqs[i]
    ref = P.R[q["ref"]]
    kw = dict(tref_in=ref) if q["ref"].startswith("t") else dict(fref_in=ref)
    o = {k: v for k, v in (P.O[q["o"]] or {}).items() if k != "debug_plots"}

    def run(level, plots):
        e = dict(o)
        if plots:
            e["debug_plots"] = True
        return P.gw.measure_eccentricity(method=q["m"], dataDict=P.W[q["w"]], num_orbits_to_exclude_before_merger=q["ex"],
                                         precessing=q["prec"], frame=q["frame"], debug_level=level, extra_kwargs=e, **kw)
    return Case(("request", q["m"], q["w"], q["ref"], q["o"]), run)


def gridded(seed):
    """random extrema and frequencies on a grid: every message about extrema,
    fits, averages and eccentricity"""
    rng = random.Random(f"{vlib.SEED}:grid:{seed}")
    T = 80
    n = rng.choice([2, 2, 3, 4, 6, 9, 14])
    nb = int(T * (n + rng.uniform(0.3, 1.2)))
    k = np.arange(nb)
    ph = 4 * np.pi * k / T
    c = rng.uniform(0.05, 0.6)
    om = (4 * np.pi / T) * (1 + c * np.cos(2 * np.pi * (k - 20) / T)) * (1 + rng.choice([-1e-4, 1e-5, 1e-4, 4e-4]) * k)
    p = [20 + T * j for j in range(n)]
    a = [60 + T * j for j in range(n)]
    a = [z for z in a if z < nb]
    for _ in range(rng.choice([0, 0, 1, 2])):
        w = rng.choice(["drop", "double", "extra", "swap", "wiggle", "quarter", "dip"])
        x = rng.choice([p, a])
        if w == "drop" and len(x) > 3:
            x.pop(rng.randrange(len(x)))
        elif w == "double" and len(x):
            z = rng.choice(x) + rng.choice([4, 12, 30, 50])
            if z < nb and z not in x:
                x.append(z)
                x.sort()
        elif w == "extra":
            z = nb - rng.randrange(1, 8)
            if z not in x:
                x.append(z)
                x.sort()
        elif w == "swap":
            p, a = a, p
        elif w == "wiggle":
            om = om * (1 + 0.05 * np.sin(0.9 * k + rng.random()))
        elif w == "quarter":
            ph = ph * rng.choice([0.3, 0.6, 1.8, 2.2])
        elif w == "dip":
            om[nb // 2:] *= rng.choice([0.6, 0.8])
    d = synth.grid_wave(nb, phase=ph, omega=om)
    if rng.random() < 0.15:
        d["unknown"] = 3
    ek = {"omega_gw_extrema_interpolation_method": rng.choice(["spline", "rational_fit"])}
    if ek["omega_gw_extrema_interpolation_method"] == "rational_fit" and rng.random() < 0.4:
        ek["special_interp_kwargs_for_omega_gw_extrema"] = {"degrees": rng.choice([(1, 1), (2, 2), (3, 2), (4, 4)])}
    ek["omega_gw_averaging_method"] = rng.choice(["orbit_averaged_omega_gw", "mean_of_extrema_interpolants"])
    if rng.random() < 0.3:
        ek["treat_mid_points_between_pericenters_as_apocenters"] = True
    if rng.random() < 0.2:
        ek["return_zero_if_small_ecc_failure"] = True
        if rng.random() < 0.5:
            p, a = p[:1], a[:1]
    if rng.random() < 0.2:
        ek["use_only_these_many_orbits"] = rng.choice([3, 5, 40])
        nn = int(2.7 * T)
        p, a = [z for z in p if z < nn], [z for z in a if z < nn]
    ref = rng.choice(["t", "ts", "f", "tbad"])
    if ref == "f":
        kw = dict(fref_in=np.linspace(0.7, 1.4, 9) * 2 / T)
    elif ref == "tbad":
        z = [float(x) for x in d["t"][::11]]
        rng.shuffle(z)
        kw = dict(tref_in=np.array(z))
    else:
        kw = dict(tref_in=d["t"] if ref == "t" else float(d["t"][nb // 2]))

    def run(level, plots):
        e = dict(ek)
        if plots:
            e["debug_plots"] = True
        return synth.controlled_measure(d, (p, a), debug_level=level, extra_kwargs=e, **kw)
    return Case(("grid", seed), run, plots=rng.random() < 0.5)


def real(P, seed):
    """real methods on small, short or asymmetric data"""
    rng = random.Random(f"{vlib.SEED}:real:{seed}")
    gw = P.gw
    m = rng.choice(list(synth.methods()))
    if rng.random() < 0.4:
        eps = rng.choice([0.0, 0.02, 0.12, 0.3])
        cop, ine = synth.precessing_pair(e0=rng.choice([1e-6, 0.05, 0.3]), orbits=rng.uniform(7, 12), zeroecc=m.startswith("Res"), eps=eps,
                                         mult=rng.choice([0, 1.7, 14]))
        fr = rng.choice(["coprecessing", "coprecessing", "inertial"])
        d = cop if fr == "coprecessing" else ine
        if fr == "coprecessing" and rng.random() < 0.5:
            d = synth.to_ampphase(d)
        pk = dict(precessing=True, frame=fr)
        ek = {"filter_kwargs": {"padding_length": 300, "do_not_filter": rng.random() < 0.5}}
        if rng.random() < 0.3:
            ek["filter_kwargs"]["filter_threshold"] = rng.choice([0.01, 0.5])
    else:
        d = synth.pn(e0=rng.choice([1e-8, 1e-5, 1e-3, 0.02, 0.2, 0.5]), orbits=rng.uniform(5, 14), ano0=rng.uniform(0, 6), zeroecc=True)
        pk, ek = {}, {}
    if rng.random() < 0.5:
        ek["omega_gw_extrema_interpolation_method"] = "spline"
    if rng.random() < 0.3:
        ek["use_only_these_many_orbits"] = rng.choice([4, 8, 40])
    if rng.random() < 0.3:
        ek["return_zero_if_small_ecc_failure"] = True
    if rng.random() < 0.2:
        d = {**d, "someKey": 1}
    if rng.random() < 0.5:
        kw = dict(tref_in=d["t"][::5])
    else:
        kw = dict(fref_in=np.linspace(0.005, 0.012, 15))

    def run(level, plots):
        e = {k: (dict(v) if isinstance(v, dict) else v) for k, v in ek.items()}
        if plots:
            e["debug_plots"] = True
            if pk:
                e["filter_kwargs"]["debug_plots"] = True
        return gw.measure_eccentricity(method=m, dataDict=d, debug_level=level, extra_kwargs=e, **pk, **kw)
    return Case(("real", seed, m, str(pk.get("frame"))), run, plots=rng.random() < 0.5)


def observe(case, level, plots=False):
    """run and queries; the values measured count even if a query fails"""
    got = {}

    def go():
        r = case.run(level, plots)
        got.update({k: np.array(r[k], dtype=float) for k in ("eccentricity", "mean_anomaly", "tref_out", "fref_out") if k in r})
        got["measured"] = True
        for i, x in enumerate(state(r["gwecc_object"])):
            got[x[0] if isinstance(x, tuple) else f"query{i}"] = x
    o = guarded(go, timeout=120)
    msgs = [m.replace(SUFFIX, "") for c, m in o["warns"] if c == "UserWarning"]
    o["value"] = {k: vlib.digest(x) for k, x in got.items()}
    o["end"] = "ok" if o["ok"] else ("query:" if got else "") + f"{o['etype']}:{o['msg']}"
    return o, msgs


def template(m):
    return re.sub(r"[-+]?\d[\d.e+-]*", "#", m)[:60]


def check(c: Check):
    r = vlib.tlc("Verbosity", defs="CONSTANTS MaxLen = %d Emit = FALSE" % pick(5, 7), workers=8)
    c.tlc(r)
    P = session.Player()
    jobs = [("request", i) for i in range(len(P.reqs)) if P.reqs[i]["o"] != "plots"]
    jobs += [("grid", i) for i in range(pick(110, 4000))]
    jobs += [("real", i) for i in range(pick(36, 1800))]
    random.Random(3).shuffle(jobs)

    def one(job):
        import matplotlib.pyplot as plt
        os.chdir(vlib.scratch("cwd", str(os.getpid())))
        kind, i = job
        case = generic(P, i) if kind == "request" else gridded(i) if kind == "grid" else real(P, i)
        rng = random.Random(f"{vlib.SEED}:obs:{job}")
        runs, temps = {}, []
        order = list(LEVELS)
        rng.shuffle(order)
        for l in order:
            o, msgs = observe(case, LEVELS[l])
            notes = [m for m in msgs if is_notice(m)]
            runs[l] = dict(msgs=sorted({m for m in msgs if m not in notes}), notes=sorted(set(notes)), printed=bool(o["printed"].strip()),
                           end=o["end"], val=o.get("value") or {})
            if l == "1":
                temps = sorted({template(m) for m in msgs})
        if rng.random() < pick(0.25, 0.6):
            b = rng.choice([3, -2, 10, "1", 0.5, "verbose"])
            o, msgs = observe(case, b)
            runs["bad"] = dict(msgs=msgs, notes=[], printed=False, end="ok" if o["ok"] else f"{o['etype']}", val={})
        if (case.plots and rng.random() < pick(0.6 if "coprecessing" in case.label else 0.22, 0.6)) or kind == "request" and rng.random() < 0.15:
            o, msgs = observe(case, rng.choice([-1, 0, 1]), plots=True)
            runs["plots"] = dict(msgs=[], notes=[], printed=False, end=o["end"][:70], val=o.get("value") or {})
            if not o["ok"] and runs["1"]["end"] != "ok":
                runs["plots"]["end"] = runs["1"]["end"]      # an error either way; the text may name the saved plot
            plt.close("all")
        # caches that only some runs filled are not comparable
        done = [v["val"] for l, v in runs.items() if l not in ("2", "bad") or v["end"] == "ok"]
        common = set.intersection(*[set(v) for v in done]) if done else set()
        diff = {k for k in common if len({v[k] for v in done}) > 1}
        for v in runs.values():
            v["val"] = vlib.digest(sorted((k, x) for k, x in v["val"].items() if k in common)) if v["val"] else "none"
        return dict(label=[str(z) for z in case.label], runs=runs, temps=temps, diff=sorted(diff))
    recs = []
    for j, x in zip(jobs, pmap(one, jobs)):
        if "died" in x:
            c.violation(f"died:{j}", "process died", j)
        else:
            recs.append(x)

    def edit(x, l, **kw):
        return {**x, "runs": {**x["runs"], l: {**x["runs"][l], **kw}}}
    R = lambda x: x["runs"]
    loud = lambda: next(x for x in recs if R(x)["1"]["msgs"] and R(x)["1"]["end"] == "ok")
    still = lambda: next(x for x in recs if not R(x)["1"]["msgs"] and R(x)["1"]["end"] == "ok")
    plot = lambda: next(x for x in recs if "plots" in R(x) and R(x)["plots"]["end"] == "ok")
    badl = lambda: next(x for x in recs if "bad" in R(x) and R(x)["1"]["msgs"])
    controls = [(lambda: edit(loud(), "m1", msgs=["x"]), "quiet"), (lambda: edit(loud(), "m1", printed=True), "quiet"),
                (lambda: edit(loud(), "0", msgs=["q"]), "subset"), (lambda: edit(loud(), "0", val="q"), "same"),
                (lambda: edit(loud(), "2", end="ok"), "raise"), (lambda: edit(still(), "2", end="E"), "no-false-error"),
                (lambda: edit(still(), "2", val="q"), "level2-value"), (lambda: edit(badl(), "bad", end="ok"), "bad-level"),
                (lambda: edit(plot(), "plots", val="q"), "plots")]
    vlib.judge(c, "JVerbosity", recs, controls=controls,
               key=lambda i, cl: "%s:%s" % (":".join(recs[i]["label"]), ",".join(sorted(cl))),
               what=lambda i, cl: f"{recs[i]['label']} violates {sorted(cl)} (differing: {recs[i]['diff']}): " + str({l: (v['msgs'], v['notes'], v['printed'], v['end'][:80], v['val'][:6]) for l, v in recs[i]['runs'].items()})[:1000])
    temps = sorted({t for x in recs for t in x["temps"]})
    for x in recs[:3]:
        c.sample(dict(label=x["label"], **{l: (len(v["msgs"]), v["end"][:40]) for l, v in x["runs"].items()}))
    c.note(scenarios=len(recs), message_templates=temps, with_plots=len([1 for x in recs if "plots" in x["runs"]]),
           bad_levels=len([1 for x in recs if "bad" in x["runs"]]), loud=len([1 for x in recs if x["runs"]["1"]["msgs"]]),
           only_at_1=len([1 for x in recs if set(x["runs"]["1"]["msgs"]) - set(x["runs"]["0"]["msgs"])]))
    c.assumptions += ["warnings of other libraries (numpy, matplotlib) are not the library's"]


def is_notice(m):
    return "return_zero_if_small_ecc_failure" in m or "Returning eccentricity" in m or "zero eccentricity" in m


main(check, "P12")
