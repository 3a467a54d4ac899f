"""P04: reference frequencies are selected exactly and mapped to the right times."""
import random
import numpy as np
import vlib
from vlib import Check, judge, tlc_emit, pmap, guarded, pick, main, fx
import synth
from synth import copy_dict

C8 = 10 ** 8
TWO_PI = 2 * np.pi


def exact_system(av, im, dt, t0, shape, zshift=0.0):
    """a controlled system whose selected average is W0 + S t"""
    T, n = 200, 9
    N = T * (n + 2)
    k = np.arange(N)
    t = t0 + dt * k
    p = [T * (i + 1) for i in range(n)]
    off = {"PA": 90, "AP": -110, "mid": 100}[shape]
    a = [x + off for x in p]
    if shape == "PA":
        a = a[:-1]
    w0, c = 2.2 * TWO_PI / (T * dt), 1.1e-3 * TWO_PI / (T * dt) ** 2 * 20
    tr = t - t0
    ph = w0 * tr + 0.5 * c * tr * tr              # average advance = w0 + c * mid
    A, B = 1.35 * w0, 1.2 * c
    C, D = 0.8 * w0, 0.9 * c
    om = np.empty(N)
    s = 0.5 * (1 + np.cos(2 * np.pi * (k - p[0]) / T))
    om[:] = (C + D * tr) + s * ((A - C) + (B - D) * tr)
    for i in p:
        om[i] = A + B * tr[i]
    for i in a:
        om[i] = C + D * tr[i]
    d = synth.grid_wave(N, dt=dt, t0=t0, phase=ph, omega=om)
    if av == "orbit_averaged_omega_gw":
        W0, S = w0, c
    elif av == "mean_of_extrema_interpolants":
        W0, S = 0.5 * (A + C), 0.5 * (B + D)
    else:
        W0, S = 0.95 * w0, 1.3 * c
        # quasicircular data on another time axis, longer at both ends
        i0 = np.argmax(d["amplm"][(2, 2)])
        n2 = len(d["t"]) + 40
        tz = d["t"][0] - 20 * dt + dt * np.arange(n2) + zshift
        az = np.interp(np.arange(n2), np.arange(len(d["t"])) + 20, d["amplm"][(2, 2)])
        d["t_zeroecc"] = tz
        d["amplm_zeroecc"] = {(2, 2): az}
        d["omegalm_zeroecc"] = {(2, 2): W0 + S * (tz - zshift - t0)}
        d["phaselm_zeroecc"] = {(2, 2): (W0 * (tz - zshift) + 0.5 * S * (tz - zshift - t0) ** 2)}
    ek = {"omega_gw_averaging_method": av, "omega_gw_extrema_interpolation_method": im}
    if shape == "mid":
        ek["treat_mid_points_between_pericenters_as_apocenters"] = True

    def run(**kw):
        e = dict(ek)
        e.update(kw.pop("extra", {}))
        return synth.controlled_measure(d, (p, a), extra_kwargs=e, **kw)
    return dict(run=run, kind="exact", t=t, t0=t0, dt=dt, p=p, W0=W0, S=S, A=A, B=B, C=C, D=D,
                spline=im == "spline")


def pn_system(av, im, m, gw, d, extra=None):
    ek = {"omega_gw_averaging_method": av, "omega_gw_extrema_interpolation_method": im}
    ek.update(extra or {})

    def run(**kw):
        return gw.measure_eccentricity(method=m, dataDict=d, extra_kwargs=dict(ek), **kw)
    return dict(run=run, kind="bracket", t=d["t"])


AV = ["orbit_averaged_omega_gw", "mean_of_extrema_interpolants", "omega_gw_zeroecc"]


def systems():
    gw = vlib.import_gwecc()
    out = {}
    for av in AV:
        for im in ["spline", "rational_fit"]:
            for shape in ["PA", "AP", "mid"]:
                for dt, t0, zs in [(1.0, 0.0, 0.0), (0.125, 777.25, -3000.0)]:
                    out[f"ctl-{av}-{im}-{shape}-{dt}"] = exact_system(av, im, dt, t0, shape, zs)
    for e0 in pick([0.15], [0.12, 0.3]):
        d = synth.pn(e0=e0, orbits=14)
        for av in AV:
            for im in ["spline", "rational_fit"]:
                for m in synth.methods():
                    if im == "spline" and "Fits" in m:
                        continue
                    out[f"pn{e0}-{av}-{im}-{m}"] = pn_system(av, im, m, gw, d)
    return out


def sc(z):
    return [int(round(float(x) * C8)) if np.isfinite(x) and abs(x) < 20 else 2 * 10 ** 9 for x in z]


def check(c: Check):
    S = systems()
    r, cases = tlc_emit("MCRefSelect", defs="CONSTANTS MaxLen = 3  Positions = {1,2,3,4,5,6,7,8,9,10}"
                        "  Lo = 3  Hi = 8  Emit = TRUE", workers=4)
    c.tlc(r)
    rng = random.Random(vlib.SEED)

    def setup(name):
        s = S[name]
        o = guarded(lambda: s["run"](tref_in=s["t"]))
        if not o["ok"]:
            return dict(err=o["etype"] + ": " + o["msg"])
        g = o["value"]["gwecc_object"]
        b = guarded(lambda: g.get_fref_bounds())
        if not b["ok"]:
            return dict(err="get_fref_bounds " + b["msg"])
        o2 = guarded(lambda: s["run"](tref_in=s["t"]))["value"]["gwecc_object"]
        ta, wa = o2.get_omega_gw_average()
        ra = guarded(lambda: s["run"](tref_in=ta))
        R = ra["value"] if ra["ok"] else None
        curve = None
        if R is not None and len(R["eccentricity"]) == len(ta):
            curve = (np.array(ta), np.array(wa), np.array(R["eccentricity"]), np.array(R["mean_anomaly"]))
        return dict(lo=float(b["value"][0]), hi=float(b["value"][1]), curve=curve)
    names = list(S)
    info = dict(zip(names, pmap(setup, names)))
    for n in names:
        if "err" in info[n] or "died" in info[n]:
            c.violation(f"setup:{n}", f"clean waveform: {info[n]}", None)
    names = [n for n in names if "lo" in info[n]]
    jobs = []
    for n in names:
        lo, hi = info[n]["lo"], info[n]["hi"]
        pos = [0.5 * lo, np.nextafter(lo, 0), lo, np.nextafter(lo, 9), lo + 0.31 * (hi - lo),
               lo + 0.77 * (hi - lo), np.nextafter(hi, 0), hi, np.nextafter(hi, 9e9), 2 * hi]
        singles = [x for x in cases if len(x["req"]) == 1]
        multi = [x for x in cases if len(x["req"]) > 1]
        slow = "Fits" in n
        for x in singles:
            v = [pos[k - 1] for k in x["req"]]
            for k in (["pyscalar"] if slow else ["pyscalar", rng.choice(["npscalar", "0d", "list", "array"])]):
                jobs.append((n, v, k))
        for x in rng.sample(multi, pick(3 if slow else 10, 40 if slow else 200)):
            jobs.append((n, [pos[k - 1] for k in x["req"]], rng.choice(["list", "array", "tuple"])))
        for m in pick([25], [5, 25, 200, 1000]):
            v = [rng.uniform(lo - 0.1 * (hi - lo), hi + 0.1 * (hi - lo)) for _ in range(m)] + [rng.choice(pos)]
            v += rng.sample(v, m // 4)
            rng.shuffle(v)
            jobs.append((n, v, "array"))
            jobs.append((n, sorted(set(v)), "array"))
            jobs.append((n, sorted(set(v))[::-1], "list"))

    def conv(v, k):
        return {"pyscalar": lambda: float(v[0]), "npscalar": lambda: np.float64(v[0]),
                "0d": lambda: np.array(float(v[0])), "list": lambda: [float(x) for x in v],
                "tuple": lambda: tuple(float(x) for x in v), "array": lambda: np.array(v, dtype=float)}[k]()

    def one(job):
        n, v, k = job
        s, inf = S[n], info[n]
        lo, hi = inf["lo"], inf["hi"]
        req = conv(v, k)
        o = guarded(lambda: s["run"](fref_in=req))
        rec = dict(cfg=n, cont=k, kind=s["kind"], outcome="ok" if o["ok"] else "error", msg=(o["msg"] or "")[:200],
                   reqndim=int(np.ndim(req)), out=[], ecc=[], ano=[], ecc1=[], ano1=[], ndims=[], finite=True,
                   q=[], lo2=0, hi2=0)
        outv, lo2, hi2 = [], lo, hi
        vals = np.atleast_1d(np.array(req, dtype=float))
        if o["ok"]:
            R = o["value"]
            outv = [float(x) for x in np.atleast_1d(R["fref_out"])]
            e = np.atleast_1d(np.asarray(R["eccentricity"], dtype=float))
            m = np.atleast_1d(np.asarray(R["mean_anomaly"], dtype=float))
            rec["ndims"] = [int(np.ndim(R[z])) for z in ("fref_out", "eccentricity", "mean_anomaly")]
            rec["finite"] = bool(np.all(np.isfinite(e)) and np.all(np.isfinite(m)))
            rec["ecc"], rec["ano"] = sc(e), sc(m)
            b2 = R["gwecc_object"].get_fref_bounds()
            lo2, hi2 = float(b2[0]), float(b2[1])
            idx = range(len(outv)) if len(outv) <= 3 else \
                sorted(random.Random(len(outv)).sample(range(len(outv)), min(len(outv), 5)))
            e1, m1 = list(rec["ecc"]), list(rec["ano"])
            for i in idx:
                if i >= min(len(e1), len(m1)):
                    continue
                z = guarded(lambda: s["run"](fref_in=outv[i]))
                if z["ok"]:
                    e1[i] = sc([float(np.atleast_1d(z["value"]["eccentricity"])[0])])[0]
                    m1[i] = sc([float(np.atleast_1d(z["value"]["mean_anomaly"])[0])])[0]
                else:
                    e1[i] = m1[i] = 2 * 10 ** 9
            rec["ecc1"], rec["ano1"] = e1, m1
            idx = sorted(set(list(idx)[:6]))
            for i in idx:
                if i >= min(len(e), len(m)) or not rec["finite"]:
                    continue
                W = TWO_PI * outv[i]
                if s["kind"] == "exact":
                    rel = (W - s["W0"]) / s["S"] / s["dt"]
                    j = min(max(int(np.searchsorted(s["p"], rel, side="right")) - 1, 0), len(s["p"]) - 2)
                    pp = s["p"]
                    rec["q"].append(dict(m=fx(m[i], 16), e=fx(e[i], 16), W=fx(W, 16),
                                         a=fx(pp[j] * s["dt"], 16), b=fx(pp[j + 1] * s["dt"], 16)))
                elif inf["curve"] is not None:
                    ta, wa, ec, ma = inf["curve"]
                    j = min(max(int(np.searchsorted(wa, W, side="right")) - 1, 0), len(wa) - 2)
                    x = sc([e[i], ec[j], ec[j + 1], m[i], ma[j], ma[j + 1]])
                    rec["q"].append(dict(e=x[0], eL=x[1], eR=x[2], m=x[3], mL=x[4], mR=x[5]))
        if s["kind"] == "exact":
            rec.update(TwoPi=fx(TWO_PI, 16), S=fx(s["S"], 16), W0=fx(s["W0"], 16), A=fx(s["A"], 16),
                       B=fx(s["B"], 16), C=fx(s["C"], 16), D=fx(s["D"], 16), tolm=fx(2e-6, 16),
                       tole=fx(1e-7 if s["spline"] else 1e-4, 16))
        rk = vlib.dense_ranks(list(vals) + outv + [lo, hi, lo2, hi2])
        rec.update(req=[rk(x) for x in vals], out=[rk(x) for x in outv], lo=rk(lo), hi=rk(hi),
                   lo2=rk(lo2), hi2=rk(hi2))
        return rec
    recs = pmap(one, jobs)
    good = []
    for j, x in zip(jobs, recs):
        if "died" in x:
            c.violation(f"died:{j[0]}", "process died", j)
        else:
            good.append(x)
    controls = []
    for kind in ["exact", "bracket"]:
        ok = [x for x in good if x["outcome"] == "ok" and x["kind"] == kind and len(x["q"]) >= 2
              and len(set(x["out"])) > 2 and x["cfg"].find("spline") > 0]
        if ok:
            b = ok[0]
            controls += [({**b, "out": b["out"][::-1]}, "selection"),
                         ({**b, "hi2": b["hi2"] - 1}, "bounds-stable"),
                         ({**b, "q": [{**b["q"][0], "m": b["q"][1]["m"]}]}, "maps-to-time(ano)")]
            if kind == "exact":
                controls.append(({**b, "q": [{**b["q"][0], "e": fx(0.5, 16)}]}, "maps-to-time(ecc)"))
    vlib.judge(c, "JRefFreq", good, controls=controls,
               key=lambda i, cl: f"{good[i]['cfg']}:{good[i]['cont']}:{len(good[i]['req'])}:{','.join(sorted(cl))}",
               what=lambda i, cl: f"{good[i]['cfg']} fref request ({good[i]['cont']}, {len(good[i]['req'])} points) violates {sorted(cl)} {good[i]['msg']}")
    for x in good[:1] + good[-1:]:
        c.sample({k: (v[:6] if isinstance(v, list) else v) for k, v in x.items() if k not in "TwoPi S W0 A B C D tolm tole".split()})
    c.note(requests=len(good), systems=len(names), generated_requests=len(cases))
    c.assumptions += ["frequencies compared exactly; mapping exact to 2e-6 rad for averages linear in time, "
                      "to a quarter sample otherwise"]


main(check, "P04")
