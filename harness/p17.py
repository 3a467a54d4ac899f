"""P17: the average frequency is the documented one."""
import random
import numpy as np
from scipy.interpolate import InterpolatedUnivariateSpline
import vlib
from vlib import Check, tlc_emit, pmap, guarded, pick, main, fx
import synth

TWO_PI = 2 * np.pi
ORB, MEAN, ZERO = "orbit_averaged_omega_gw", "mean_of_extrema_interpolants", "omega_gw_zeroecc"
SHORT = {ORB: "orbit", MEAN: "mean", ZERO: "zero"}


def wave(ext, phs, dt, t0, up, ua, sp, sa, first_peri):
    """phase linear between extrema (values phs at samples ext); frequency
    envelopes linear in the sample number"""
    N = ext[-1] + 200
    ph = np.interp(np.arange(N), ext, phs)
    s0 = (phs[1] - phs[0]) / (ext[1] - ext[0])
    s1 = (phs[-1] - phs[-2]) / (ext[-1] - ext[-2])
    lo = np.arange(ext[0])
    ph[:ext[0]] = phs[0] - s0 * (ext[0] - lo)
    hi = np.arange(ext[-1] + 1, N)
    ph[ext[-1] + 1:] = phs[-1] + s1 * (hi - ext[-1])
    k = np.arange(N)
    om = np.where(k % 2 == 0, 0.12, 0.11) / dt
    kinds = [(i % 2 == 0) == first_peri for i in range(len(ext))]
    for e, isp in zip(ext, kinds):
        om[e] = ((up + sp * e) if isp else (ua + sa * e)) / dt
    peri = [e for e, z in zip(ext, kinds) if z]
    apo = [e for e, z in zip(ext, kinds) if not z]
    return synth.grid_wave(N, dt=dt, t0=t0, phase=ph, omega=om), peri, apo


def knots(g, t, ph):
    tp, ta = np.array(g.t_pericenters), np.array(g.t_apocenters)
    out = []
    for z in (tp, ta):
        idx = [int(np.argmin(abs(t - v))) for v in z]
        for i, j in zip(idx, idx[1:]):
            out.append((0.5 * (t[i] + t[j]), i, j))
    return sorted(out), tp, ta


def check(c: Check):
    gw = vlib.import_gwecc()
    r, cases = tlc_emit("Average", workers=4,
                        defs=f"CONSTANTS Gaps = {{0, 1}} Steps = {{0, 1, 2}} MaxExt = {pick(6, 7)} Emit = TRUE G0 = 40 S0 = 54 GU = 2 SU = 1")
    c.tlc(r)
    rng = random.Random(vlib.SEED)
    good_cases = [x for x in cases if x["ok"]]
    bad_cases = [x for x in cases if not x["ok"]]
    c.note(patterns=len(cases), increasing_patterns=len(good_cases))
    sel = rng.sample(good_cases, min(len(good_cases), pick(350, 6000))) + rng.sample(bad_cases, min(len(bad_cases), pick(350, 6000)))
    jobs = [("gen", x, i) for i, x in enumerate(sel)]
    jobs += [("rand", None, i) for i in range(pick(250, 4000))]
    jobs += [("mean", None, i) for i in range(pick(200, 2500))]
    jobs += [("method", m, i) for m in synth.methods() for i in range(pick(16, 80))]

    def one(job):
        kind, x, i = job
        rng = random.Random(f"{vlib.SEED}:{kind}:{x if isinstance(x, str) else ''}:{i}")
        dt = rng.choice([1.0, 0.5, 0.25, 2.0])
        t0 = rng.choice([0.0, -2048.0, 4096.5])
        freq = rng.random() < 0.5
        ek = {"omega_gw_extrema_interpolation_method": "spline"}
        exact = kind == "gen"
        avg = ORB
        first = rng.random() < 0.5
        if kind == "method":
            avg = rng.choice([ORB, MEAN, ZERO])
            d = synth.pn(e0=rng.uniform(0.12, 0.4), orbits=rng.uniform(10, 20), dt=rng.choice([1.0, 0.5]), ano0=rng.uniform(0, 6))
            s = rng.choice([0.0, 333.25])
            d["t"] = d["t"] + s
            d["t_zeroecc"] = d["t_zeroecc"] + rng.choice([0.0, -55.5])
            if rng.random() < 0.5:
                ek = {}
            run = lambda **kw: gw.measure_eccentricity(method=x, dataDict=d, **kw)
        else:
            if kind == "gen":
                gaps = [40 + 2 * z for z in x["g"]]
                steps = [(54 + z) / 8.0 for z in x["s"]]
            elif kind == "rand":
                n = rng.randint(5, 16)
                gaps = [rng.randint(60, 90) for _ in range(n)]
                w = 2 * np.pi * 1.1 / 60 * (1 + rng.uniform(0.0, 0.05))
                steps = []
                for k_, g_ in enumerate(gaps):
                    steps.append(w * g_ * (1 + rng.uniform(0.0, 0.1) * rng.choice([0, 1]) + 0.01 * k_))
                steps = [max(z, 2 * np.pi * 1.001) for z in steps]
            else:
                avg = MEAN
                n = rng.randint(6, 14)
                gaps = [rng.randint(40, 60) for _ in range(n)]
                steps = [2 * np.pi * (1.02 + 0.02 * k_) for k_ in range(n)]
            ext = [int(z) for z in np.cumsum([rng.randint(60, 120)] + gaps)]
            phs = list(np.cumsum([40.0] + steps))
            sp = rng.choice([1e-5, 4e-5, -2e-5]) if kind == "mean" else 2e-5
            sa = rng.choice([1e-5, 3e-5, -4e-5, -0.7e-5]) if kind == "mean" else 1e-5
            d, peri, apo = wave(ext, phs, dt, t0, 0.2, 0.12 if sa > 0 else 0.15, sp, sa, first)
            run = lambda **kw: synth.controlled_measure(d, (peri, apo), **kw)
        ek["omega_gw_averaging_method"] = avg
        t = d["t"]
        ph = d["phaselm"][(2, 2)]
        rec = dict(kind=kind, who=x if isinstance(x, str) else "", setup="ok", outcome="ok", msg="", method=SHORT[avg], exact=exact,
                   oracle="rises", k=[], dev=0, devtol=50, blo=0, bhi=0, alo=0, ahi=0, times=True, freq=freq, inc=True,
                   tol=fx(1e-10 / dt, 16))
        o = guarded(lambda: run(tref_in=t, extra_kwargs=dict(ek)))
        if not o["ok"]:
            rec.update(setup="error", msg=o["msg"][:200])
            return rec
        g = o["value"]["gwecc_object"]
        kn, tp, ta = knots(g, t, ph)
        mids = np.array([z[0] for z in kn])
        lo, hi = max(tp[0], ta[0]), min(tp[-1], ta[-1])
        if avg == ORB:
            lo, hi = max(lo, mids[0]), min(hi, mids[-1])
        an = t[:len(g.t)]
        ts = an[(an >= lo) & (an <= hi)]
        if avg == ORB:
            av = np.array([(ph[j] - ph[i]) / (t[j] - t[i]) for _, i, j in kn])
            if len(kn) < 4:
                return None
            orc = InterpolatedUnivariateSpline(mids, av, k=3)(ts) if np.all(np.diff(mids) > 0) else None
            kd = np.diff(av)
        elif avg == MEAN:
            if kind == "mean":
                o0 = (0.2 + sp * ((ts - t[0]) / dt) + (0.12 if sa > 0 else 0.15) + sa * ((ts - t[0]) / dt)) / 2 / dt
                orc = o0
            else:
                orc = 0.5 * (g.omega_gw_pericenters_interp(ts) + g.omega_gw_apocenters_interp(ts))
                # with splines, from the samples themselves
                if ek.get("omega_gw_extrema_interpolation_method") == "spline":
                    W = np.array(g.omega_gw)
                    orc = 0.5 * sum(InterpolatedUnivariateSpline(z, W[[int(np.argmin(abs(an - v))) for v in z]], k=3)(ts) for z in (tp, ta))
            kd = np.array([1.0])
        else:
            tz, pz = d["t_zeroecc"], d["phaselm_zeroecc"][(2, 2)]
            from gw_eccentricity.utils import peak_time_via_quadratic_fit, time_deriv_4thOrder
            tm = peak_time_via_quadratic_fit(t, d["amplm"][(2, 2)])[0]
            tmz = peak_time_via_quadratic_fit(tz, d["amplm_zeroecc"][(2, 2)])[0]
            wz = time_deriv_4thOrder(pz, tz[1] - tz[0])
            orc = InterpolatedUnivariateSpline(tz - tmz + tm, wz, k=3)(ts)
            kd = np.array([1.0])
        if orc is not None and len(orc) > 1:
            m = min(np.diff(orc).min() * 50, kd.min())
            sc = 1e-9 * abs(orc).max()
            rec["oracle"] = "rises" if m > sc else ("falls" if m < -sc else "unclear")
        if avg == ORB:
            # the accuracy of equality is exact only when all midpoints differ
            rec["exact"] = bool(exact and np.all(np.diff(mids) > 0))
            if kd.min() <= 0 and not exact and rec["oracle"] == "rises":
                rec["oracle"] = "unclear"
        if not freq and avg != ORB:
            # only a request in the frequency domain needs an increasing average
            rec["oracle"] = "rises"
        elif not freq and rec["oracle"] == "falls" and kd.min() > 0:
            rec["oracle"] = "rises"     # increasing data, wiggling curve: no request to refuse
        elif not freq and rec["oracle"] == "unclear" and kd.min() > 1e-9 * abs(av).max():
            rec["oracle"] = "rises"
        if rec["exact"] and rec["oracle"] == "unclear" and kd.min() == 0:
            rec["oracle"] = "falls"
        if freq:
            f0 = float(orc[len(orc) // 2]) / TWO_PI if orc is not None else 0.01
            q = guarded(lambda: run(fref_in=f0, extra_kwargs=dict(ek)))
            if q["ok"]:
                g2 = q["value"]["gwecc_object"]
                a_t, a_v = np.array(g2.t_for_omega_gw_average), np.array(g2.omega_gw_average)
                b = g2.get_fref_bounds()
            res = q
        else:
            def go():
                A = g.get_omega_gw_average(avg)
                return A, g.get_fref_bounds(avg)
            q = guarded(go)
            if q["ok"]:
                (a_t, a_v), b = q["value"]
        if not q["ok"]:
            rec.update(outcome="error", msg=q["msg"][:160])
            if freq and "outside the allowed range" in q["msg"] or "fref_out is empty" in q["msg"]:
                # the frequency asked for is outside: only when the curve wiggles
                if rec["oracle"] == "rises":
                    rec["msg"] = "middle of the range refused " + rec["msg"]
            return rec
        a_t, a_v = np.array(a_t), np.array(a_v)
        rec["times"] = bool(len(a_t) == len(a_v) and np.array_equal(a_t, ts))
        rec["inc"] = bool(np.all(np.diff(a_v) > 0))
        if rec["times"] and orc is not None:
            rec["dev"] = int(min(np.max(abs(a_v - orc)) / abs(orc).max() * 1e10, 2e9))
            if avg == ZERO:
                rec["devtol"] = 2000
        f = a_v / TWO_PI
        rec["alo"], rec["ahi"] = [int(round(z * dt * 1e9)) for z in (f.min(), f.max())]
        rec["blo"], rec["bhi"] = [int(round(z * dt * 1e9)) for z in b]
        ix = {float(z): n_ for n_, z in enumerate(a_t)}
        for mt, i_, j_ in kn:
            has = float(mt) in ix and avg == ORB
            rec["k"].append(dict(a=fx(t[i_], 16), b=fx(t[j_], 16), fa=fx(ph[i_], 16), fb=fx(ph[j_], 16), has=has,
                                 v=fx(a_v[ix[float(mt)]] if has else 0.0, 16)))
        return rec
    recs = pmap(one, jobs)
    good = []
    for j, x in zip(jobs, recs):
        if x is None:
            continue
        if "died" in x:
            c.violation(f"died:{j}", f"process died {x}", j)
        else:
            good.append(x)
    ok = [x for x in good if x["outcome"] == "ok" and x["method"] == "orbit" and any(q["has"] for q in x["k"])]
    controls = []
    if ok:
        b = ok[0]
        kk = [dict(q) for q in b["k"]]
        for q in kk:
            q["v"] = fx(0.5, 16)
        controls = [({**b, "k": kk}, "value"), ({**b, "bhi": b["bhi"] + 3}, "range"), ({**b, "dev": 10 ** 6}, "curve"),
                    ({**b, "k": b["k"][::-1][:2][::-1] + b["k"][:1], "exact": True, "oracle": "falls"}, "nonincreasing-must-be-an-error")]
    if vlib.os.environ.get("VERIF_LOG"):
        from collections import Counter
        print(Counter((x["kind"], x["method"], x["freq"], x["outcome"], x["oracle"], x["msg"][:60]) for x in good))
    vlib.judge(c, "JAverage", good, controls=controls,
               key=lambda i, cl: f"{good[i]['kind']}:{good[i]['who']}:{good[i]['method']}:{i}:{','.join(sorted(cl))}",
               what=lambda i, cl: f"{ {k: v for k, v in good[i].items() if k not in ('k', 'tol')} } violates {sorted(cl)}")
    for x in good[:3]:
        c.sample({k: (v[:2] if isinstance(v, list) else v) for k, v in x.items()})
    c.note(measurements=len(good), refused=len([x for x in good if x["outcome"] != "ok"]),
           by_average={m: len([x for x in good if x["method"] == m]) for m in ("orbit", "mean", "zero")})
    c.assumptions += ["equality of two averages is decided exactly for dyadic phases and times, with a margin elsewhere"]


main(check, "P17")
