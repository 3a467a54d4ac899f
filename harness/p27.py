"""P27: figures show the measured quantities."""
import random
import numpy as np
from scipy.interpolate import InterpolatedUnivariateSpline as Spline
import vlib
from vlib import Check, tlc_emit, pmap, guarded, pick, main
import synth

DRAW = {"ecc": "plot_eccentricity", "decc": "plot_decc_dt", "ano": "plot_mean_anomaly", "omega": "plot_omega_gw", "avg": "plot_omega_gw_average",
        "amp": "plot_amp_gw", "ratio": "plot_phase_diff_ratio_between_extrema", "res_amp": "plot_residual_amp_gw",
        "res_omega": "plot_residual_omega_gw", "data": "plot_data_used_for_finding_extrema"}


def same(a, b):
    a, b = np.atleast_1d(np.asarray(a, float)), np.atleast_1d(np.asarray(b, float))
    if a.shape != b.shape:
        return False
    s = np.max(np.abs(b)) if b.size else 0
    return bool(np.all(np.abs(a - b) <= 1e-8 * s + 1e-14))


def references(f, tref, method):
    """quantities of a waveform, from a measurement with every sample as reference time"""
    r, o = f["measured"], f["object"]
    T, t, ph = np.asarray(r["tref_out"]), np.asarray(o.t), np.asarray(o.phase_gw)
    e, ano = np.asarray(r["eccentricity"]), np.asarray(r["mean_anomaly"])
    loc = {"peri": np.asarray(o.pericenters_location), "apo": np.asarray(o.apocenters_location)}
    R = {"ecc": (T, e), "ano": (T, ano), "decc": (T, Spline(T, e).derivative()(T)), "omega": (t, o.omega_gw), "amp": (t, o.amp_gw)}
    R["data"] = {"Amplitude": R["amp"], "Frequency": R["omega"]}.get(method, (t, o.data_for_finding_extrema))
    if hasattr(o, "res_amp_gw"):
        R["res_amp"], R["res_omega"] = (t, o.res_amp_gw), (t, o.res_omega_gw)
    if method == "ResidualAmplitude":
        R["data"] = R["res_amp"]
    if method == "ResidualFrequency":
        R["data"] = R["res_omega"]
    for k in ("omega", "amp", "data", "res_amp", "res_omega"):
        if k in R:
            for s in loc:
                R[f"{k}@{s}"] = (t[loc[s]], np.asarray(R[k][1])[loc[s]])
    for s, g in (("peri", o.omega_gw_pericenters_interp), ("apo", o.omega_gw_apocenters_interp)):
        R[f"env@{s}"] = (T, g(T))
        p, z = ph[loc[s]], t[loc[s]]
        R[f"avg@{s}"] = ((z[1:] + z[:-1]) / 2, np.diff(p) / np.diff(z))
        R[f"ratio@{s}"] = (z[2:], np.diff(p)[1:] / np.diff(p)[:-1])
    R["avg"] = o.get_omega_gw_average()
    R["zero"], R["end"] = ("h", 0.0), ("v", float(t[-1]))
    if tref is not None:
        R["tref"] = ("v", float(tref))
        R["ecc@tref"] = ([tref], [e[int(np.argmin(np.abs(T - tref)))]])
        R["ano@tref"] = ([tref], [ano[int(np.argmin(np.abs(T - tref)))]])
    return R


def lines(ax, R):
    out = []
    for ln in ax.lines:
        x, y = np.asarray(ln.get_xdata(orig=True), float).ravel(), np.asarray(ln.get_ydata(orig=True), float).ravel()
        across = ln.get_transform() == ax.get_yaxis_transform(which="grid")
        up = ln.get_transform() == ax.get_xaxis_transform(which="grid")
        names = []
        for k, (a, b) in R.items():
            if isinstance(a, str):
                ok = (a == "h" and across and np.all(y == b)) or (a == "v" and up and same(x, 0 * x + b))
            else:
                ok = not across and not up and same(x, a) and same(y, b)
            if ok:
                names.append(k)
        t = str(ln.get_label()).lower()
        out.append({"q": names, "label": "peri" if "pericenter" in t else "apo" if "apocenter" in t else ""})
    return out


def hidden(ax, R, ls):
    lo, hi = ax.get_ylim()
    left, right = ax.get_xlim()
    pad = 1e-9 * max(abs(lo), abs(hi))
    for ln, z in zip(ax.lines, ls):
        if any(k in ("omega", "amp", "res_amp", "res_omega", "data", "ecc", "decc", "ano", "avg") for k in z["q"]):
            x, y = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
            if np.any(y < lo - pad) or np.any(y > hi + pad) or np.min(x) < left - 1e-9 * abs(left) or np.max(x) > right + 1e-9 * abs(right):
                return True
    return False


def one(job):
    x, i = job
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import gw_eccentricity as gw
    rng = random.Random(f"{vlib.SEED}:{i}:{x}")
    m = x["method"]
    prec = rng.random() < 0.12 and "Fits" not in m
    e0, orb, dt = rng.uniform(0.08, 0.3), rng.uniform(11, 15), rng.choice([1.0, 1.5])
    if prec:
        d = synth.precessing_pair(e0=e0, orbits=orb, dt=dt, zeroecc=x["zero"], ano0=rng.uniform(0, 6))
        d = d[0] if isinstance(d, tuple) else d
    else:
        d = synth.pn(e0=e0, orbits=orb, dt=dt, zeroecc=x["zero"], ano0=rng.uniform(0, 6))
    form = rng.choice(["amp", "hlm", "omega"])
    if not prec and form == "hlm":
        d = synth.to_hlm(d)
    elif not prec and form == "omega":
        from gw_eccentricity.utils import time_deriv_4thOrder
        for s in ("", "_zeroecc"):
            if "phaselm" + s in d:
                d["omegalm" + s] = {k: time_deriv_4thOrder(y, dt) for k, y in d["phaselm" + s].items()}
    avg = rng.choice(["orbit_averaged_omega_gw", "mean_of_extrema_interpolants"])
    how = rng.choice(["spline", "spline", "rational_fit"])
    ek = {"omega_gw_averaging_method": avg, "omega_gw_extrema_interpolation_method": how}
    if rng.random() < 0.15:
        ek["treat_mid_points_between_pericenters_as_apocenters"] = True
    pk = dict(precessing=True, frame="inertial") if prec else {}
    cid = dict(i=i, m=m, zero=x["zero"], form="precessing" if prec else form, avg=avg, how=how, ops=x["ops"])

    # now and then the finder misses extrema of one kind
    odd = rng.choice(["pericenters", "apocenters"]) if "Fits" not in m and rng.random() < 0.55 and "treat_mid_points_between_pericenters_as_apocenters" not in ek else ""
    gone = sorted(rng.sample(range(2, 8), rng.randint(1, 4)))
    cid["missed"] = [odd, gone] if odd else []
    C = synth.methods()[m]

    class Odd(C):
        def find_extrema(self, extrema_type="pericenters"):
            e = super().find_extrema(extrema_type)
            return np.delete(e, gone) if extrema_type == odd else e

    def measure(ref, level):
        if odd:
            g = Odd(synth.copy_dict(d), debug_level=level, extra_kwargs=dict(ek), **ref, **pk)
            return dict(measured=g.measure_ecc(), object=g)
        r = gw.measure_eccentricity(method=m, dataDict=synth.copy_dict(d), debug_level=level, extra_kwargs=dict(ek), **ref, **pk)
        return dict(measured=r, object=r["gwecc_object"])
    f = guarded(lambda: measure(dict(tref_in=np.array(d["t"])), -1), timeout=90)
    if not f["ok"]:
        return []
    T = np.asarray(f["value"]["measured"]["tref_out"])
    tref = None
    ref = dict(tref_in=np.array(d["t"]))
    if x["one"]:
        tref = float(T[rng.randrange(5, len(T) - 5)])
        ref = dict(tref_in=rng.choice([tref, [tref]]))
    elif rng.random() < 0.4:
        ref = dict(tref_in=T[sorted(rng.sample(range(len(T)), 4))])
    g = guarded(lambda: measure(ref, x["level"]), timeout=90)
    if not g["ok"]:
        return []
    o = g["value"]["object"]
    R = guarded(lambda: references(f["value"], tref, m))
    if not R["ok"]:
        return []
    R = R["value"]
    recs = []
    for op in x["ops"]:
        if op == "fref_bounds":
            guarded(lambda: o.get_fref_bounds())
            continue
        if op == "derivative":
            guarded(lambda: o.derivative_of_eccentricity(T[3:7]))
            continue
        kw = dict(add_help_text=rng.random() < 0.5)
        if rng.random() < 0.5:
            kw["use_fancy_settings"] = False
        base = dict(one=x["one"], vline=True, orbit=False, noomega=False, id=dict(cid, op=op))
        if op == "all":
            two = x["two"]
            z = guarded(lambda: o.make_diagnostic_plots(twocol=two, **kw), timeout=90)
            if z["ok"]:
                fig, axs = z["value"]
                seen = [a for a in fig.axes]
                rec = dict(base, kind="all", method=m, zero=x["zero"], two=two, columns=len({round(a.get_position().x0, 2) for a in seen}),
                           axes=[dict(lines=lines(a, R)) for a in seen])
                for a, r in zip(seen, rec["axes"]):
                    r["hidden"] = hidden(a, R, r["lines"])
        else:
            if op == "avg":
                if rng.random() < 0.5:
                    kw["plot_orbit_averaged_omega_gw_between_extrema"] = True
                    base["orbit"] = avg == "orbit_averaged_omega_gw"
                if rng.random() < 0.3:
                    kw["plot_omega_gw"] = False
                    base["noomega"] = True
            if op in ("ecc", "ano", "data") and rng.random() < 0.3:
                kw["add_vline_at_tref"] = base["vline"] = rng.random() < 0.3
            own = rng.random() < 0.5
            if own:
                fig0, ax0 = plt.subplots()
                kw.update(fig=fig0, ax=ax0)
            z = guarded(lambda: getattr(o, DRAW[op])(**kw), timeout=60)
            if z["ok"]:
                v = z["value"]
                if own:
                    ret, ax = v is ax0, ax0
                else:
                    ret = isinstance(v, tuple) and len(v) == 2 and v[1] in getattr(v[0], "axes", [])
                    ax = v[1] if ret else plt.gcf().axes[0]
                ls = lines(ax, R)
                rec = dict(base, kind="panel", panel=op, lines=ls, hidden=hidden(ax, R, ls), ret=bool(ret))
        if not z["ok"]:
            rec = dict(kind="fails", id=dict(cid, op=op, msg=z["msg"], tb=z.get("tb", "")[-200:]))
        recs.append(rec)
        plt.close("all")
    return recs


def check(c: Check):
    vlib.import_gwecc()
    r, cases = tlc_emit("Figures", defs="CONSTANTS MaxOps = 2 Emit = TRUE", workers=8)
    c.tlc(r)
    c.tlc(vlib.tlc("Figures", defs=f"CONSTANTS MaxOps = {pick(3, 4)} Emit = FALSE", workers=8))
    rng = random.Random(vlib.SEED)
    jobs, seen = [], set()
    groups = {}
    for x in cases:
        groups.setdefault((x["method"], x["zero"], tuple(x["ops"])), []).append(x)
    keys = sorted(groups)
    rng.shuffle(keys)
    # every method with and without quasicircular data builds the diagnostic figure; every panel and every pair appears
    for k in keys:
        if "all" in k[2] and (k[0], k[1]) not in seen:
            seen.add((k[0], k[1]))
            jobs += [(rng.choice(groups[k]), j) for j in range(pick(2, 10))]
    pairs = set()
    for k in keys:
        if k[2] not in pairs and len(jobs) < pick(260, 3000):
            pairs.add(k[2])
            jobs.append((rng.choice(groups[k]), 100))
    jobs += [(rng.choice(groups[k]), 200 + j) for j, k in enumerate(keys[:pick(40, 2000)])]
    recs = [z for y in pmap(one, jobs) for z in y]
    c.note(requests=len(jobs), figures=sum(z["kind"] != "fails" for z in recs), diagnostic=sum(z["kind"] == "all" for z in recs),
           curves=sum(len(a["lines"]) for z in recs for a in (z.get("axes") or [z] if z["kind"] != "fails" else [])))
    P = {}
    for z in recs:
        P.setdefault(z.get("panel", z["kind"]), z)
    c.sample(P.get("omega", recs[0]))
    if "all" in P:
        c.sample({k: v for k, v in P["all"].items() if k != "axes"})

    def mod(pred, **kw):
        def f():
            z = dict(next(z for z in recs if pred(z)))
            z.update({k: (v(z) if callable(v) else v) for k, v in kw.items()})
            return z
        return f
    isp = lambda p: (lambda z: z.get("panel") == p)
    swap = lambda z: [dict(y, label="apo" if y["label"] == "peri" else y["label"]) for y in z["lines"]]
    controls = [(mod(isp(p), lines=lambda z: z["lines"][:-1]), "missing-curve") for p in DRAW if p in P]
    controls += [(mod(isp("omega"), lines=lambda z: z["lines"][:-1] + [dict(z["lines"][0], **{"q": []})]), "wrong-curve"),
                 (mod(isp("ecc"), lines=lambda z: z["lines"] + [z["lines"][0]]), "repeated-curve"), (mod(isp("data"), lines=swap), "label"),
                 (mod(isp("amp"), hidden=True), "hidden"), (mod(isp("amp"), ret=False), "returned"),
                 (mod(isp("ecc"), one=lambda z: not (z["one"] and z["vline"]), vline=True), "wrong-curve" if P["ecc"]["one"] and P["ecc"]["vline"] else "missing-curve"),
                 (lambda: dict(kind="fails", id={}), "fails")]
    isall = lambda z: z["kind"] == "all"
    controls += [(mod(isall, axes=lambda z: z["axes"][1:]), "missing-panel"), (mod(isall, axes=lambda z: z["axes"] + [z["axes"][0]]), "repeated-panel"),
                 (mod(isall, columns=lambda z: 3 - z["columns"]), "columns"),
                 (mod(lambda z: isall(z) and z["zero"], zero=False, method="Amplitude"), "wrong-panel")]
    vlib.judge(c, "JFigures", recs, controls=controls,
               key=lambda i, cl: f"{recs[i].get('panel', recs[i]['kind'])}:{'+'.join(sorted(cl))}:{recs[i]['id']}"[:200],
               what=lambda i, cl: f"{sorted(cl)}: {recs[i]}"[:900])
    c.assumptions += ["figures are read from the line objects of matplotlib", "objects whose eccentricity was set to zero are not drawn"]


if __name__ == "__main__":
    main(check, "P27")
