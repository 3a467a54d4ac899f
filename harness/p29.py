"""P29: options mean what is documented, and those left out have their documented defaults."""
import random
import numpy as np
from scipy.interpolate import InterpolatedUnivariateSpline as Spline
import vlib
from vlib import Check, tlc_emit, pmap, guarded, pick, main
import synth

NONE, UNIT = -999999, 12
# documented defaults and another value, per level
SPLINE = {"w": (None, None), "bbox": ([None, None], None), "k": (3, 4), "ext": (2, 0), "check_finite": (False, True)}
RATIONAL = {"degrees": (None, (2, 2)), "max_iterations": (20, 30), "verbose": (False, None), "tol": (1e-7, 1e-6)}
FITS = {"nPN": (None, -0.3), "fit_bounds_max_amp_factor": (10, 12), "fit_bounds_max_nPN_factor": (10, 12), "prominence_factor": (None, 0.02),
        "distance_factor": (None, 0.6), "num_orbits": (3, 4), "num_orbits_for_global_fit": (10, 8), "return_diagnostic_data": (False, True)}
OWN = {"AmplitudeFits": {"nPN": -1 / 4, "prominence_factor": 0.025, "distance_factor": 0.5},
       "FrequencyFits": {"nPN": -3 / 8, "prominence_factor": 0.03, "distance_factor": 0.75}}
TABLE = {
    "call": {"method": ("Amplitude", "Frequency"), "num_orbits_to_exclude_before_merger": (2, 1), "precessing": (False, None), "frame": ("inertial", "coprecessing"), "debug_level": (0, -1)},
    "top": {"omega_gw_averaging_method": ("orbit_averaged_omega_gw", "mean_of_extrema_interpolants"), "omega_gw_extrema_interpolation_method": ("rational_fit", "spline"),
            "treat_mid_points_between_pericenters_as_apocenters": (False, True), "refine_extrema": (False, None), "return_zero_if_small_ecc_failure": (False, True),
            "use_only_these_many_orbits": (None, 8), "debug_plots": (False, None)},
    "find": {"height": (None, None), "threshold": (None, None), "distance": (None, 3), "prominence": (None, None), "wlen": (None, None), "rel_height": (0.5, 0.6), "plateau_size": (None, None)},
    "general": SPLINE, "special": {}, "fits": FITS,
    "filter": {"filter_threshold": (0.2, 0.1), "alpha": (2, 3), "segment_size": (15, 12), "data_type_for_filter_requirement_check": (None, "amp"),
               "data_type_for_fspin_estimate": (None, "omega"), "debug_plots": (False, None), "do_not_filter": (False, True), "padding_length": (20000, 15000),
               "taper_width": (0.2, 0.15), "f_spin_lo_frac": (0.75, 0.8), "f_spin_hi_frac": (1.25, 1.2), "fecc_lo_frac": (0.25, 0.3), "fecc_hi_frac": (0.5, 0.45)},
}
PLACE = {"find": "extrema_finding_kwargs", "general": "general_interp_kwargs", "special": "special_interp_kwargs_for_omega_gw_extrema",
         "fits": "kwargs_for_fits_methods", "filter": "filter_kwargs"}


def rng_of(*a):
    return random.Random(f"{vlib.SEED}:{a}")


def find(i):
    """the extrema of integer data under random options"""
    rng = rng_of("find", i)
    n = rng.randint(46, 64)
    distinct = rng.random() < 0.5
    top = 99 if distinct else rng.choice([3, 9])
    y = rng.sample(range(1, 100), n) if distinct else [rng.randint(1, top) for _ in range(n)]
    m = n - rng.randint(4, 8)
    peak = [1, 500, 1000, 500, 2]
    ph = np.cumsum([rng.choice([1, 1, 3]) for _ in range(n)])
    t = 0.5 * np.arange(n)
    method = rng.choice(["Amplitude", "Frequency"])
    if method == "Amplitude":
        y[m - 2:m + 3] = peak
        amp, om = y, None
    else:
        amp = [5] * n
        amp[m - 2:m + 3] = peak
        om = y
    d = {"t": t, "amplm": {(2, 2): np.array(amp, dtype=float)}, "phaselm": {(2, 2): ph * 4 * np.pi / UNIT}}
    if om is not None:
        d["omegalm"] = {(2, 2): np.array(om, dtype=float)}
    apo = rng.random() < 0.5
    given = dict.fromkeys(("size", "low", "high", "threshold", "distance", "prominence", "width", "rel"), 0)
    kw = {}

    def ask(name, key, values, prob, scale=None):
        if rng.random() < prob:
            if rng.random() < 0.15 and key != "rel":
                kw[name], given[key] = None, NONE
            else:
                v = rng.choice(values)
                kw[name], given[key] = (v if scale is None else v * scale), 1 + v
    ask("plateau_size", "size", [1, 2, 3], 0.15)
    if rng.random() < 0.35:
        a, b = sorted(rng.sample(range(2, top + 2), 2))
        a, b = (-b, -a) if apo else (a, b)
        how = rng.choice(["low", "both", "high", "none"])
        if how == "none":
            kw["height"], given["low"], given["high"] = None, NONE, NONE
        else:
            kw["height"] = a if how == "low" else (a, b) if how == "both" else (None, b)
            given["low"] = 1 + a if how != "high" else NONE
            given["high"] = 1 + b if how != "low" else NONE
    ask("threshold", "threshold", [1, 2, 3] if not distinct else [5, 15, 30], 0.2)
    if distinct:
        ask("distance", "distance", [1, 2, 3, 5, 8], 0.4)
    ask("prominence", "prominence", [1, 2, 4] if not distinct else [5, 20, 50], 0.3)
    ask("width", "width", [1, 2, 3, 4, 6], 0.5)
    ask("rel_height", "rel", [1, 2, 3, 4], 0.35, 0.25)
    ek = {"extrema_finding_kwargs": kw} if kw or rng.random() < 0.5 else (None if rng.random() < 0.5 else {})
    cut = rng.choice([None, None, 0, 1])
    o = guarded(lambda: synth.methods()[method](d, tref_in=t, num_orbits_to_exclude_before_merger=cut, extra_kwargs=ek, debug_level=-1))
    v = guarded(lambda: o["value"].find_extrema("apocenters" if apo else "pericenters")) if o["ok"] else o
    ident = dict(i=i, method=method, kw=str(kw), cut=cut, msg=str(v["msg"])[:150])
    if not v["ok"]:
        return dict(kind="fails", id=ident)
    return dict(kind="find", y=[int(z) for z in y[:len(o["value"].t)]], apo=apo, given=given, ph=[int(z) for z in ph], merger=m + 1, unit=UNIT,
                got=[int(z) + 1 for z in v["value"]], id=ident)


def waveform(rng, precessing, tiny=False):
    if precessing:
        d = synth.precessing_pair(e0=rng.uniform(0.08, 0.3), orbits=rng.uniform(10, 13), ano0=rng.uniform(0, 6), zeroecc=rng.random() < 0.5)
        return d[0] if isinstance(d, tuple) else d
    e0 = 0.0 if tiny and rng.random() < 0.12 else rng.uniform(0.08, 0.3)
    d = synth.pn(e0=e0, orbits=rng.uniform(11, 16), dt=rng.choice([1.0, 1.5]), zeroecc=True, ano0=rng.uniform(0, 6))
    return synth.to_hlm(d) if rng.random() < 0.4 else d


def pair(job):
    case, i = job
    rng = rng_of("pair", i)
    import gw_eccentricity as gw
    prec = rng.random() < 0.12
    method = rng.choice(["Amplitude", "Frequency", "ResidualAmplitude", "ResidualFrequency", "AmplitudeFits", "FrequencyFits"]) if not prec else "Amplitude"
    d = waveform(rng, prec, True)
    table = {l: dict(v) for l, v in TABLE.items()}
    if prec:
        table["call"]["precessing"] = (None, True)
    if method in OWN:
        table["fits"] = {k: (OWN[method].get(k, v[0]), v[1]) for k, v in FITS.items()}
    levels = ["call", "top", "find", "general", "special"] + (["fits"] if method.endswith("Fits") else []) + (["filter"] if prec else [])
    focus = rng.choice(levels)
    u = {l: dict.fromkeys(table[l], 0) for l in levels if l != "special"}
    w = {l: dict.fromkeys(table[l], 0) for l in levels if l != "special"}

    def choose(l, k, a, b):
        if table[l][k][1] is None:
            a, b = min(a, 1), min(b, 1)
        u[l][k], w[l][k] = a, b
    # the top level first: it decides what the special level means
    flips = list(case["user"].values())

    def level(l):
        keys = list(table[l])
        if l == focus:
            for k in keys:
                if rng.random() < 0.5:
                    choose(l, k, rng.randint(0, 1), rng.randint(0, 1))
            for k, a in zip(rng.sample(keys, min(3, len(keys))), flips):
                choose(l, k, a, {0: 1, 1: 0, 2: 2}[a])
        else:
            for k in rng.sample(keys, rng.randint(0, 2)):
                a = rng.choice([0, 1, 1, 2])
                choose(l, k, a, a)
    level("top")
    spline = u["top"]["omega_gw_extrema_interpolation_method"] == 2
    table["special"] = SPLINE if spline else RATIONAL
    u["special"], w["special"] = dict.fromkeys(table["special"], 0), dict.fromkeys(table["special"], 0)
    for l in levels:
        if l not in ("top", "call"):
            level(l)
    level("call")
    if prec:
        u["call"]["precessing"] = w["call"]["precessing"] = 2
        for z in (u, w):            # only modes of the inertial frame are at hand
            z["call"]["frame"] = min(z["call"]["frame"], 1)
    if method != "Amplitude" or u["call"]["method"] == 2:
        name = method if method != "Amplitude" else "Frequency"
        table["call"]["method"] = ("Amplitude", name)
        u["call"]["method"] = w["call"]["method"] = 2
    T = np.asarray(d["t"])
    byfreq = rng.random() < 0.35
    ref = dict(fref_in=np.linspace(0.004, 0.02, 60)) if byfreq else dict(tref_in=T[len(T) // 3:2 * len(T) // 3:37])
    if rng.random() < 0.2 and not byfreq:
        ref = dict(tref_in=float(T[len(T) // 2]))

    def request(z):
        kw = {k: table["call"][k][a - 1] for k, a in z["call"].items() if a}
        ek = {k: table["top"][k][a - 1] for k, a in z["top"].items() if a}
        for l in z:
            if l in PLACE:
                v = {k: table[l][k][a - 1] for k, a in z[l].items() if a}
                if v or rng.random() < 0.4:
                    it = list(v.items())
                    rng.shuffle(it)
                    ek[PLACE[l]] = dict(it)
        it = list(ek.items())
        rng.shuffle(it)
        ek = dict(it)
        if ek or rng.random() < 0.5:
            kw["extra_kwargs"] = ek or rng.choice([None, {}])
        return kw
    A, B = request(u), request(w)
    out = []
    for kw in (A, B):
        o = guarded(lambda: gw.measure_eccentricity(dataDict=synth.copy_dict(d), **ref, **{k: (dict(v) if isinstance(v, dict) else v) for k, v in kw.items()}), timeout=90)
        out.append(o)
    ident = dict(i=i, method=method, prec=prec, byfreq=byfreq, focus=focus, A=str(A)[:400], B=str(B)[:400])
    if any(o["etype"] == "TIMEOUT" for o in out):
        return []
    a, b = out
    if a["ok"] and b["ok"]:
        keys = ["fref_out" if byfreq else "tref_out", "eccentricity", "mean_anomaly"]
        x, y = ([np.atleast_1d(o["value"][k]) for k in keys] for o in out)
        near = lambda p, q: p.shape == q.shape and bool(np.allclose(p, q, rtol=1e-8, atol=1e-10))
        ano = lambda p, q: p.shape == q.shape and bool(np.allclose(np.exp(1j * p), np.exp(1j * q), atol=1e-8))
        same = near(x[0], y[0]) and near(x[1], y[1]) and ano(x[2], y[2])
        ident["e"] = [str(z[1][:3]) for z in (x, y)]
    else:
        same = a["ok"] == b["ok"]
        ident["msgs"] = [str(o["msg"])[:150] for o in out]
    return [dict(kind="pair", a=u, b=w, same=bool(same), ok=bool(a["ok"]), id=ident)]


def effect(i):
    """orders of the splines and apocenters midway between pericenters"""
    rng = rng_of("effect", i)
    d = waveform(rng, False)
    method = rng.choice(["Amplitude", "Frequency", "ResidualAmplitude"])
    T = np.asarray(d["t"])
    mid = rng.random() < 0.4
    k1, k2 = (rng.choice([0, 0, 1, 2, 3, 4, 5]) for _ in range(2))
    ek = {"omega_gw_extrema_interpolation_method": "spline"}
    if k1:
        ek[PLACE["special"]] = {"k": k1}
    if k2:
        ek[PLACE["general"]] = {"k": k2}
    if mid:
        ek["treat_mid_points_between_pericenters_as_apocenters"] = True
    run = lambda: synth.methods()[method](synth.copy_dict(d), tref_in=T, debug_level=-1, extra_kwargs={k: (dict(v) if isinstance(v, dict) else v) for k, v in ek.items()})
    o = guarded(lambda: (lambda g: (g.measure_ecc(), g))(run()), timeout=60)
    if not o["ok"]:
        return []
    g = o["value"][1]
    S = np.asarray(o["value"][0]["tref_out"])
    ident = dict(i=i, method=method, ek=str(ek))
    recs = []
    P, A = np.asarray(g.pericenters_location), np.asarray(g.apocenters_location)
    om, ph, t = np.asarray(g.omega_gw), np.asarray(g.phase_gw), np.asarray(g.t)

    def orders(x, y, at, val):
        return [j for j in range(1, 6) if len(x) > j and np.allclose(Spline(x, y, k=j)(at), val, rtol=1e-9, atol=0)]
    for loc, f in ((P, g.omega_gw_pericenters_interp), (A, g.omega_gw_apocenters_interp)):
        if len(loc) > 5:
            recs.append(dict(kind="order", k=k1, orders=orders(t[loc], om[loc], S, f(S)), id=dict(ident, of="envelope")))
    x = np.concatenate([(t[z][1:] + t[z][:-1]) / 2 for z in (P, A)])
    y = np.concatenate([np.diff(ph[z]) / np.diff(t[z]) for z in (P, A)])
    s = np.argsort(x)
    avg = guarded(lambda: g.get_omega_gw_average("orbit_averaged_omega_gw"))
    if avg["ok"] and len(x) > 5 and np.all(np.diff(x[s]) > 0):
        recs.append(dict(kind="order", k=k2, orders=orders(x[s], y[s], *avg["value"]), id=dict(ident, of="average")))
    if mid:
        raw = guarded(lambda: run().find_extrema("pericenters"))
        if raw["ok"]:
            recs.append(dict(kind="midway", peri=[int(z) for z in raw["value"]], apo=[int(z) for z in A], id=ident))
    return recs


def one(job):
    kind, z, i = job
    if kind == "find":
        return [find(i * 20 + j) for j in range(20)]
    if kind == "pair":
        return pair((z, i))
    return effect(i)


def check(c: Check):
    vlib.import_gwecc()
    r, cases = tlc_emit("Options", defs='CONSTANTS Keys = {"a","b","c"} Defaults = 1 N = 5 Vals = {1,2,3,4} Emit = TRUE', workers=4)
    c.tlc(r)
    c.tlc(vlib.tlc("Options", defs='CONSTANTS Keys = {"a","b","c","d"} Defaults = 1 N = %s Emit = FALSE' % pick("7 Vals = {1,2,3}", "8 Vals = {1,2,3,5}"), workers=8, timeout=800))
    jobs = [("pair", cases[a % len(cases)], a) for a in range(pick(240, 2500))]
    jobs += [("effect", None, a) for a in range(pick(60, 600))]
    jobs += [("find", None, a) for a in range(pick(40, 400))]
    recs = [z for x in pmap(one, jobs) for z in (x or [])]
    c.note(**{"recorded_" + k: sum(z["kind"] == k for z in recs) for k in ("find", "pair", "order", "midway")}, pairs_answered=sum(z.get("ok", False) for z in recs),
           extrema=sum(len(z["got"]) for z in recs if z["kind"] == "find"))
    c.sample(recs[0])

    def mod(pred, **kw):
        def f():
            z = dict(next(z for z in recs if pred(z)))
            for k, v in kw.items():
                z[k] = v(z) if callable(v) else v
            return z
        return f
    fi = lambda z: z["kind"] == "find" and len(z["got"]) > 2
    low = lambda z: next(j for j in range(2, len(z["y"])) if j not in z["got"] and z["y"][j - 1] == (max if z["apo"] else min)(z["y"]))
    controls = [(mod(fi, got=lambda z: z["got"][::-1]), "order-of-extrema"),
                (mod(lambda z: fi(z) and all(z["given"][k] == 0 for k in z["given"] if k != "width") and z["given"]["width"] == NONE, got=lambda z: z["got"][1:]), "extremum-missing"),
                (mod(fi, got=lambda z: sorted(z["got"] + [low(z)])), "extremum-not-asked-for"),
                (mod(lambda z: z["kind"] == "pair" and z["same"], same=False), "default"),
                (mod(lambda z: z["kind"] == "order" and z["k"] == 0, k=5), "spline-order"),
                (mod(lambda z: z["kind"] == "midway", apo=lambda z: [v + 1 for v in z["apo"]]), "midway"),
                (lambda: dict(kind="fails", id={}), "fails")]
    vlib.judge(c, "JOptions", recs, controls=controls, key=lambda i, cl: f"{recs[i]['kind']}:{'+'.join(sorted(cl))}:{recs[i]['id']}"[:150],
               what=lambda i, cl: f"{sorted(cl)}: {str(recs[i])[:1200]}")
    c.assumptions += ["a default that changes nothing on the waveforms measured is not noticed", "at exactly the asked width either answer is accepted"]


if __name__ == "__main__":
    main(check, "P29")
