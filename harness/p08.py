"""P08: data of the excluded last orbits never influences the result."""
import random
import numpy as np
import vlib
from vlib import Check, tlc, pmap, guarded, pick, main
import synth

MR = 10 ** 6


def modify(d, cut, im, rng, how):
    """change samples >= cut without moving the merger (its position, and the
    phase up to it, stay)"""
    e = synth.copy_dict(d)
    t = d["t"]
    k = np.arange(len(t))
    modes = list(d["amplm"])
    for md in modes:
        A = np.array(e["amplm"][md])
        if how in ("amp", "all"):
            sel = (k >= cut) & (abs(k - im) > 4)
            A[sel] = A[sel] * (0.3 + 0.5 * np.abs(np.sin(k[sel] / rng.uniform(3, 40))))
        e["amplm"][md] = A
        if how in ("omega", "all") and "omegalm" in e:
            w = np.array(e["omegalm"][md])
            w[cut:] = w[cut:] * (1 + rng.uniform(-0.5, 0.5) * np.sin(k[cut:] / 7.0)) + 0.0
            w[im] = abs(w[im]) * (1 if md[1] > 0 else -1)
            e["omegalm"][md] = w
        if how in ("ringdown", "all"):
            P = np.array(e["phaselm"][md])
            s = 1 if md[1] > 0 else -1
            P[im + 3:] = P[im + 2] + s * np.cumsum(0.05 + 0.3 * np.random.RandomState(rng.randrange(10 ** 6)).rand(len(P) - im - 3))
            e["phaselm"][md] = P
    if how == "shorter":
        cutend = im + 6
        e["t"] = e["t"][:cutend]
        for key in ("amplm", "phaselm", "omegalm"):
            if key in e:
                e[key] = {m: v[:cutend] for m, v in e[key].items()}
    return e


def check(c: Check):
    gw = vlib.import_gwecc()
    r = tlc("Truncate", workers=8, defs="CONSTANTS Len0 = %d Incs = {1, 2, 3} Vals = {0, 1} OrbitPh = 3 NS = {0, 1, 2, 98, 99}"
            % pick(6, 8))
    c.tlc(r)
    jobs = [("ctl", i) for i in range(pick(150, 2500))]
    jobs += [("method", i) for i in range(pick(130, 1500))]
    jobs += [("reject", i) for i in range(pick(40, 300))]

    def one(job):
        kind, i = job
        rng = random.Random(f"{vlib.SEED}:{kind}:{i}")
        N = rng.choice([0, 0, 0.5, 1, 1, 1.5, 2, 2, 2, 2.25, 3, 5, None, np.int64(1), np.float64(2.5)])
        prec = kind != "reject" and rng.random() < 0.2
        meth = rng.choice(list(synth.methods()))
        if kind == "ctl":
            prec = rng.random() < 0.25
        if prec:
            meth = rng.choice(["Amplitude", "Frequency", "AmplitudeFits"])
        if N is None and kind == "method":
            meth = rng.choice(["Amplitude", "Frequency"])
        e0 = rng.uniform(0.2, 0.4)
        d = synth.pn(e0=e0, orbits=rng.uniform(10, 16), ano0=rng.uniform(0, 6), dt=rng.choice([1.0, 0.5]),
                     zeroecc=meth.startswith("Residual"))
        t = d["t"]
        # merger at a known sample
        im = int(np.argmax(d["amplm"][(2, 2)]))
        tp = t[im]
        ph = d["phaselm"][(2, 2)]
        if rng.random() < 0.6:
            d["omegalm"] = {(2, 2): np.gradient(ph, t[1] - t[0])}
            if meth.startswith("Residual"):
                d["omegalm_zeroecc"] = {(2, 2): np.gradient(d["phaselm_zeroecc"][(2, 2)], d["t_zeroecc"][1] - d["t_zeroecc"][0])}
        if prec:
            d["amplm"][(2, -2)] = d["amplm"][(2, 2)].copy()
            d["phaselm"][(2, -2)] = -d["phaselm"][(2, 2)]
            if "omegalm" in d:
                d["omegalm"][(2, -2)] = -d["omegalm"][(2, 2)]
        if rng.random() < 0.5:
            d["t"] = t = t + rng.choice([-123.5, 4000.0])
        from gw_eccentricity.utils import peak_time_via_quadratic_fit, amplitude_using_all_modes
        tm = peak_time_via_quadratic_fit(t, amplitude_using_all_modes(d["amplm"], "amplm"))[0]
        im = int(np.argmin(abs(t - tm)))
        rec = dict(kind=kind, meth=meth, N=str(N), cls="ok", outcome="error", msg="", prefix=True, used=0,
                   total=len(t), last=0, next=[], target=0, variants=[], ctl=kind == "ctl", lastused=True)
        kw = dict(num_orbits_to_exclude_before_merger=N)
        if prec:
            kw.update(precessing=True, frame="coprecessing")
        ek = {}
        if rng.random() < 0.5:
            ek["omega_gw_extrema_interpolation_method"] = "spline"
        tref = np.array(t)
        if kind == "reject":
            total = (ph[im] - ph[0]) / (4 * np.pi)
            if rng.random() < 0.5:
                N = rng.choice([-1, -0.5, -1e-9, -100, np.int64(-2)])
                rec["cls"] = "negative"
            else:
                N = total + rng.choice([1e-6, 0.1, 1, 50])
                rec["cls"] = "toomany"
            kw["num_orbits_to_exclude_before_merger"] = N
            rec["N"] = str(N)
            o = guarded(lambda: gw.measure_eccentricity(tref_in=tref, method=meth, dataDict=d, extra_kwargs=dict(ek), **kw))
            rec.update(outcome="ok" if o["ok"] else "error", msg=(o["msg"] or "")[:150])
            return rec
        if N is None:
            rec["cls"] = "none"
            cut = len(t)
            target = None
        else:
            target = ph[im] - 4 * np.pi * float(N)
            cut = int(np.argmin(abs(ph - target)))
            if np.sort(abs(ph - target))[1] - np.sort(abs(ph - target))[0] < 1e-5:
                return None

        def run(dd):
            if kind == "ctl":
                T = int(2 * np.pi * 2 / (ph[cut // 2 + 1] - ph[cut // 2]) * 0.5) if cut else 100

                def extrema(o):
                    n = len(o.t)
                    P = np.array(o.phase_gw)
                    last = n - 1
                    # one pericenter and one apocenter per 1.1 orbits, the
                    # last extremum at the very last analysed sample
                    p = [int(np.argmin(abs(P - (P[last] - 4.4 * np.pi * j)))) for j in range(3, -1, -1)]
                    a = [int(np.argmin(abs(P - (P[last] - 4.4 * np.pi * (j + 0.5))))) for j in range(3, -1, -1)]
                    a = a + [last] if False else a
                    return p, a
                return synth.controlled_measure(dd, extrema, tref_in=np.array(dd["t"]), extra_kwargs=dict(ek),
                                                base="Amplitude" if prec else "Frequency", **kw)
            return gw.measure_eccentricity(tref_in=np.array(dd["t"])[:cut + 1] if cut < len(t) else np.array(dd["t"]),
                                           method=meth, dataDict=dd, extra_kwargs=dict(ek), **kw)
        o = guarded(lambda: run(d))
        if not o["ok"]:
            if kind == "method" and (N is None or float(N) < 1.5):
                # extrema of the merger itself may make the measurement impossible
                return None
            rec.update(msg=o["msg"][:150])
            return rec
        R = o["value"]
        g = R["gwecc_object"]
        rec["outcome"] = "ok"
        tt = np.array(g.t)
        n = len(tt)
        rec.update(used=n, prefix=bool(n <= len(t) and np.array_equal(tt, t[:n])))
        P = ph - ph[0]
        if target is not None:
            tg = target - ph[0]
            rec.update(last=int(np.floor(P[n - 1] * MR)) if n else -1, next=[int(round(z * MR)) for z in P[n:n + 2]],
                       target=int(round(tg * MR)))
            if n and abs(P[n - 1] - tg) < 1e-5:
                return None
        if kind == "ctl":
            rec["lastused"] = bool(np.array(g.t_pericenters)[-1] == tt[-1])
        dig = lambda v: vlib.digest([np.array(v["eccentricity"]), np.array(v["mean_anomaly"]), np.array(v["tref_out"]),
                                     np.array(v["gwecc_object"].t_pericenters), np.array(v["gwecc_object"].t_apocenters)])
        rec["variants"] = [dig(R)]
        if target is not None:
            hows = ["amp", "omega", "ringdown", "all", "shorter"]
            for how in hows:
                if how == "shorter" and im + 6 > len(t):
                    continue
                dd = modify(d, cut, im, rng, how)
                tm2 = peak_time_via_quadratic_fit(dd["t"], amplitude_using_all_modes(dd["amplm"], "amplm"))[0]
                if abs(tm2 - tm) > 1e-9:
                    continue
                v = guarded(lambda: run(dd))
                rec["variants"].append(dig(v["value"]) if v["ok"] else f"{how}: {v['msg'][:80]}")
        return rec
    recs = pmap(one, jobs)
    good = []
    for j, x in zip(jobs, recs):
        if x is None:
            continue
        if "died" in x:
            c.violation(f"died:{j}", "process died", j)
        else:
            good.append(x)
    ok = [x for x in good if x["outcome"] == "ok" and x["cls"] == "ok" and len(x["next"]) > 1]
    controls = []
    if ok:
        b = ok[0]
        controls = [({**b, "last": b["target"] + 5}, "uses-excluded-sample"),
                    ({**b, "next": [b["target"] - 9, b["target"] - 2]}, "loses-earlier-sample"),
                    ({**b, "variants": ["a", "b"]}, "excluded-data-matters"), ({**b, "prefix": False}, "prefix")]
    vlib.judge(c, "JTruncate", good, controls=controls,
               key=lambda i, cl: f"{good[i]['kind']}:{good[i]['meth']}:{good[i]['N']}:{i}:{','.join(sorted(cl))}",
               what=lambda i, cl: f"{ {k: v for k, v in good[i].items() if k != 'variants'} } variants={[z[:60] for z in good[i]['variants']]} violates {sorted(cl)}")
    for x in good[:3]:
        c.sample(x)
    c.note(measurements=len(good), with_variants=len([x for x in good if len(x["variants"]) > 2]),
           methods=len({x["meth"] for x in good if x["kind"] == "method"}))
    c.assumptions += ["the phase up to the merger is left unchanged: it locates the merger, the excluded point and the orbital time scale"]


main(check, "P08")
