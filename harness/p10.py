"""P10: invalid arguments are rejected before any result is produced."""
import random
import numpy as np
import vlib
from vlib import Check, tlc_emit, tlc, pmap, guarded, pick, main
import synth

AVGS = ["orbit_averaged_omega_gw", "mean_of_extrema_interpolants", "omega_gw_zeroecc"]
WRONG = ["", " ", "nope", None, 3, ("Amplitude",), "orbit_averaged", "Spline"]


def valid_options(rng, fits, prec, fd, interp, meth):
    """documented options with benign values"""
    o = {}
    sp = lambda: {k: v for k, v in {"k": rng.choice([3, 3, 4, 5]), "ext": rng.choice([0, 2]), "check_finite": rng.random() < 0.5,
                                    "w": None, "bbox": [None, None]}.items() if rng.random() < 0.5}
    if rng.random() < 0.6:
        o["general_interp_kwargs"] = sp()
    if rng.random() < 0.6:
        o["special_interp_kwargs_for_omega_gw_extrema"] = sp() if interp == "spline" else {
            k: v for k, v in {"degrees": rng.choice([None, (1, 1), (2, 2), [3, 2], (2, 1)]), "max_iterations": rng.choice([10, 20, 30]),
                              "verbose": False, "tol": 1e-7}.items() if rng.random() < 0.5}
    if rng.random() < 0.6:
        o["extrema_finding_kwargs"] = {k: v for k, v in {"height": None, "threshold": None, "distance": rng.choice([None, 20]),
                                                         "prominence": None, "width": 20, "wlen": None, "rel_height": 0.5,
                                                         "plateau_size": None}.items() if rng.random() < 0.5}
    if rng.random() < 0.5 or fits:
        d = {"nPN": -3 / 8, "fit_bounds_max_amp_factor": 10, "fit_bounds_max_nPN_factor": 10, "prominence_factor": 0.03,
             "distance_factor": 0.75, "num_orbits": 3, "num_orbits_for_global_fit": 10, "return_diagnostic_data": rng.random() < 0.3}
        o["kwargs_for_fits_methods"] = {k: v for k, v in d.items() if rng.random() < 0.5}
    if rng.random() < 0.5 or prec:
        d = {"filter_threshold": rng.choice([0.2, 0.5]), "alpha": 2, "segment_size": 15,
             "data_type_for_filter_requirement_check": rng.choice([None, "amp", "omega"]),
             "data_type_for_fspin_estimate": rng.choice([None, "amp", "omega"]), "debug_level": rng.choice([-1, 0]),
             "debug_plots": False, "do_not_filter": rng.random() < 0.5, "padding_length": 300, "taper_width": 0.2,
             "f_spin_lo_frac": 0.75, "f_spin_hi_frac": 1.25, "fecc_lo_frac": 0.25, "fecc_hi_frac": 0.5}
        o["filter_kwargs"] = {k: v for k, v in d.items() if rng.random() < 0.5}
    for k, v in (("debug_plots", False), ("treat_mid_points_between_pericenters_as_apocenters", rng.random() < 0.3),
                 ("refine_extrema", rng.random() < 0.5),
                 ("return_zero_if_small_ecc_failure", rng.random() < 0.5),
                 ("use_only_these_many_orbits", rng.choice([None, 8, 9.5, 200]))):
        if rng.random() < 0.3:
            o[k] = v
    if rng.random() < 0.5 or interp != "rational_fit":
        o["omega_gw_extrema_interpolation_method"] = interp
    a = rng.choice(AVGS)
    if rng.random() < 0.6:
        o["omega_gw_averaging_method"] = a
    return o


def typo(rng, names):
    """a key that is not one of names, often nearly one"""
    while True:
        n = rng.choice(list(names))
        k = rng.choice([n.upper(), n + "s", n[:-1], "no_such_key", n + " ", 5, None, n.replace("_", "-") + "x", ("a", "b"), "kwargs"])
        if k not in names:
            return k


def check(c: Check):
    gw = vlib.import_gwecc()
    r = tlc("Request", defs=f"CONSTANTS Emit = FALSE MaxBad = {pick(1, 2)}", workers=8)
    c.tlc(r)
    r, cases = tlc_emit("Request", "RequestEmit", defs=f"CONSTANTS Emit = TRUE MaxBad = {pick(2, 3)}", workers=4)
    rng = random.Random(vlib.SEED)
    ms = list(synth.methods())
    SPL = {"w", "bbox", "k", "ext", "check_finite"}
    RAT = {"degrees", "max_iterations", "verbose", "tol"}
    KEYS = {"general": ("general_interp_kwargs", SPL),
            "extrema": ("extrema_finding_kwargs", {"height", "threshold", "distance", "prominence", "width", "wlen", "rel_height", "plateau_size"}),
            "fits": ("kwargs_for_fits_methods", {"nPN", "fit_bounds_max_amp_factor", "fit_bounds_max_nPN_factor", "prominence_factor",
                                                 "distance_factor", "num_orbits", "num_orbits_for_global_fit", "return_diagnostic_data"}),
            "filter": ("filter_kwargs", {"filter_threshold", "alpha", "segment_size", "data_type_for_filter_requirement_check",
                                         "data_type_for_fspin_estimate", "debug_level", "debug_plots", "do_not_filter", "padding_length",
                                         "taper_width", "f_spin_lo_frac", "f_spin_hi_frac", "fecc_lo_frac", "fecc_hi_frac"})}
    TOP = {"general_interp_kwargs", "special_interp_kwargs_for_omega_gw_extrema", "extrema_finding_kwargs", "debug_plots",
           "omega_gw_averaging_method", "treat_mid_points_between_pericenters_as_apocenters", "refine_extrema",
           "kwargs_for_fits_methods", "return_zero_if_small_ecc_failure", "omega_gw_extrema_interpolation_method",
           "use_only_these_many_orbits", "filter_kwargs"}
    base = {}
    for i in range(3):
        d = synth.pn(e0=[0.3, 0.25, 0.35][i], orbits=[12, 13.4, 12.6][i], ano0=[0.3, 3.3, 1.0][i], zeroecc=True)
        d["t"] = d["t"] + [0, 77.0, -900.0][i]
        p = synth.copy_dict(d)
        for s in ["", "_zeroecc"]:
            P, A = d["phaselm" + s][(2, 2)], d["amplm" + s][(2, 2)]
            f = 0.01 * np.sin(0.7 * P)
            p["amplm" + s] = {(2, 2): A * (1 + f), (2, -2): A * (1 - f)}
            p["phaselm" + s] = {(2, 2): P, (2, -2): -P}
        base[i] = (d, p, synth.to_hlm(d), synth.to_hlm(p))
    jobs = []
    for x in cases:
        for _ in range(pick(2, 4) if x["decide"] != "accept" else pick(60, 600)):
            jobs.append((x, rng.randrange(10 ** 9)))

    def one(job):
        x, seed = job
        rng = random.Random(seed)
        bad = set(x["bad"])
        fits, prec, fd = x["fits"], x["prec"], x["fd"]
        i = rng.randrange(3)
        d = dict(base[i][(1 if prec else 0) + (2 if rng.random() < 0.3 else 0)])
        meth = rng.choice([m for m in ms if ("Fits" in m) == fits])
        interp = rng.choice(["spline", "rational_fit"])
        o = valid_options(rng, fits, prec, fd, interp, meth)
        if o.get("use_only_these_many_orbits") and meth.startswith("Res") and False:
            o.pop("use_only_these_many_orbits")
        frame = "coprecessing" if prec else rng.choice(["inertial", "coprecessing"])
        t0 = d["t"][0]
        t = d["t"]
        mid = float(t[int(len(t) * 0.45)])
        style = rng.choice(["scalar", "array", "list", "one"])
        val = {"t": mid, "f": 0.0074}
        arr = {"t": np.linspace(mid - 60, mid + 90, 5), "f": np.linspace(0.0068, 0.0078, 5)}
        q = "f" if fd else "t"
        ref = {"scalar": val[q], "array": arr[q], "list": [float(z) for z in arr[q]], "one": [val[q]]}[style]
        # defects
        kw = {"fref_in" if fd else "tref_in": ref}
        if "refcount" in bad:
            if rng.random() < 0.5:
                kw = rng.choice([{}, {"tref_in": None, "fref_in": None}])
            else:
                other = "t" if fd else "f"
                kw["tref_in" if fd else "fref_in"] = rng.choice([val[other], arr[other], 0, 0.0, [0.0]])
        if "times" in bad:
            n = len(t)
            how = rng.choice(["step", "gap", "stretch", "jitter", "two"])
            k = rng.randrange(20, int(n * 0.6))
            t = np.array(t, dtype=float)
            if how == "step":
                t[k:] += rng.choice([0.5, 0.02, 1e-3]) * 1.0
            elif how == "gap":
                # a missing sample
                sel = np.delete(np.arange(n), k)
                t = t[sel]
                for key in list(d):
                    if key in ("hlm", "amplm", "phaselm"):
                        d[key] = {m: v[sel] for m, v in d[key].items()}
            elif how == "stretch":
                t = t[0] + (t - t[0]) * (1 + 0.05 * (t - t[0]) / (t[-1] - t[0]))
            elif how == "two":
                t[k] += 0.01
            else:
                t = t + 0.05 * np.sin(np.arange(n))
            d["t"] = t
        if "frame" in bad:
            frame = rng.choice(["Inertial", "precessing", "", None, "corotating", "inertial ", 0])
        if "method" in bad:
            meth = rng.choice([meth.lower(), meth + "s", "", None, "Phase", "amplitude", meth[:-1]])
        if "interp" in bad:
            o["omega_gw_extrema_interpolation_method"] = rng.choice(["Spline", "", None, "rational", "cubic", "rational_fit "])
        if "average" in bad:
            o["omega_gw_averaging_method"] = rng.choice(["mean", "", None, "orbit_averaged_omega22", "orbit_average", "Omega_gw_zeroecc"])
        if "top" in bad:
            o[typo(rng, TOP)] = rng.choice([None, 1, {}])
        for k in ("general", "extrema", "fits", "filter"):
            if k in bad:
                name, keys = KEYS[k]
                o[name] = {**o.get(name, {}), typo(rng, keys): rng.choice([None, 1, 3])}
        if "special" in bad:
            keys = SPL if interp == "spline" else RAT
            other = [k for k in (SPL | RAT) - keys]
            o["special_interp_kwargs_for_omega_gw_extrema"] = {
                **o.get("special_interp_kwargs_for_omega_gw_extrema", {}), rng.choice(other + [typo(rng, keys)]): None}
        items = list(o.items())
        rng.shuffle(items)
        o = dict(items)
        res = guarded(lambda: gw.measure_eccentricity(
            method=meth, dataDict=d, precessing=prec, frame=frame, debug_level=-1,
            extra_kwargs=o if o or rng.random() < 0.5 else None, **kw), timeout=60)
        vals = True
        if res["ok"]:
            v = res["value"]
            n = len(np.atleast_1d(ref)) if np.ndim(ref) < 2 else -1
            vals = all(np.size(v[k]) == n and np.all(np.isfinite(v[k])) for k in ("eccentricity", "mean_anomaly"))
        return dict(bad=sorted(bad), fd=fd, fits=fits, prec=prec, method=str(meth), opts=repr(o)[:600], frame=str(frame), style=style, data=i,
                    outcome="ok" if res["ok"] else ("none" if res["etype"] == "TIMEOUT" else "error"), values=bool(vals),
                    msg=f"{res['etype']}: {res['msg']}"[:200])
    recs = []
    for j, x in zip(jobs, pmap(one, jobs)):
        if "died" in x:
            c.violation(f"died:{j}", "process died", j)
        else:
            recs.append(x)
    ok = [x for x in recs if x["outcome"] == "ok"]
    bad = [x for x in recs if x["outcome"] != "ok"]
    controls = []
    if ok and bad:
        controls = [({**ok[0], "bad": ["frame"]}, "must-be-rejected"), ({**bad[0], "bad": []}, "must-be-accepted"),
                    ({**ok[0], "outcome": "none"}, "no-answer"), ({**ok[0], "fd": True, "bad": ["average"]}, "must-be-rejected"),
                    ({**ok[0], "values": False}, "values-missing")]
    vlib.judge(c, "JRequest", recs, controls=controls,
               key=lambda i, cl: "%s:fd%d:%s:%d:%s" % ("+".join(recs[i]["bad"]), recs[i]["fd"], recs[i]["method"], i, ",".join(sorted(cl))),
               what=lambda i, cl: f"{recs[i]} violates {sorted(cl)}")
    for x in ok[:2] + bad[:2]:
        c.sample(x)
    c.note(requests=len(recs), accepted=len(ok), defect_sets=len({tuple(x["bad"]) for x in recs}))
    c.assumptions += ["a choice or option the request does not use (averaging in the time domain, Fits options for other methods, filter options for nonprecessing systems) may go unchecked",
                      "time arrays are uniform or not within the analysed part, by at least a tenth of a percent of a step"]


main(check, "P10")
