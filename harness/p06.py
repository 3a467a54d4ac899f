"""P06: eccentricity follows the defining relation to the two envelopes."""
import random
import numpy as np
import vlib
from vlib import Check, tlc, pmap, guarded, pick, main, fx
import synth

Z = fx(0.0, 16)


def build(peri, apo, N, dt, t0, cp, ca, scale, rng, variant=0, phase=None):
    u = np.arange(N) / N
    wp = np.polyval(cp[::-1], u) * scale
    wa = np.polyval(ca[::-1], u) * scale
    k = np.arange(N)
    if variant == 0:
        om = 0.5 * (wp + wa)
    elif variant == 1:
        om = 0.5 * (wp + wa) * (1 + 0.4 * np.sin(k / 11.0))
    else:
        om = wa * 0.2 + 0.01 * scale
    om = np.array(om)
    om[peri] = wp[peri]
    om[apo] = wa[apo]
    T = np.median(np.diff(peri))
    adv = 4 * np.pi * (1.3 + 0.1 * variant)
    kn = np.array(peri)
    ph = np.interp(k, np.concatenate([[kn[0] - T], kn, [kn[-1] + T]]), adv * np.arange(len(kn) + 2))
    ph[k < kn[0] - T] = ph[int(kn[0] - T)] - adv / T * (kn[0] - T - k[k < kn[0] - T])
    ph[k > kn[-1] + T] = ph[int(kn[-1] + T)] + adv / T * (k[k > kn[-1] + T] - kn[-1] - T)
    amp = 1 + 0.2 * variant * np.cos(k / 31.0)
    return synth.grid_wave(N, dt=dt, t0=t0, phase=ph, omega=om, amp=amp)


def check(c: Check):
    gw = vlib.import_gwecc()
    r = tlc("EccLaw", workers=4)
    c.tlc(r)
    jobs = [("ctl", i) for i in range(pick(500, 6000))]
    jobs += [("chain", i) for i in range(pick(24, 200))]
    jobs += [("method:" + m, i) for m in synth.methods() for i in range(pick(4, 24))]

    def one(job):
        kind, i = job
        rng = random.Random(f"{vlib.SEED}:{kind}:{i}")
        rec = dict(kind=kind, outcome="ok", msg="", q=[], s=[], variants=[], countok=True, poly=False,
                   cp=[Z], ca=[Z], tol=fx(1e-9, 16), chain=[])
        if kind.startswith("method"):
            m = kind.split(":")[1]
            d = synth.pn(e0=rng.uniform(0.12, 0.45), orbits=rng.uniform(10, 24), ano0=rng.uniform(0, 6),
                         dt=rng.choice([1.0, 0.5]))
            im = "spline" if i % 4 else "rational_fit"
            ek = {"omega_gw_extrema_interpolation_method": im}
            if i % 4 == 3:
                ek["treat_mid_points_between_pericenters_as_apocenters"] = True
            o = guarded(lambda: gw.measure_eccentricity(tref_in=d["t"], method=m, dataDict=d, extra_kwargs=ek))
            if not o["ok"]:
                rec.update(outcome="error", msg=o["msg"][:200])
                return rec
            g = o["value"]["gwecc_object"]
            to, e = np.array(o["value"]["tref_out"]), np.array(o["value"]["eccentricity"])
            rec["countok"] = len(to) == len(e)
            om = np.array(g.omega_gw)
            tt = np.array(g.t)
            sc = 1.0 / om.max()
            # at a pericenter the pericenter curve has the sampled value, at an
            # apocenter the apocenter curve has; the other one is an
            # independent cubic spline through the samples
            from scipy.interpolate import InterpolatedUnivariateSpline as IUS
            tp, ta = np.array(g.t_pericenters), np.array(g.t_apocenters)
            op, oa = np.interp(tp, tt, om), np.interp(ta, tt, om)
            if im == "spline":
                k = lambda z: min(3, len(z) - 1)
                sp, sa = IUS(tp, op, k=k(tp)), IUS(ta, oa, k=k(ta))
                idx = sorted(set(rng.sample(range(len(to)), 15) + [int(np.argmin(abs(to - z))) for z in list(tp) + list(ta)]))
                for j in idx:
                    rec["s"].append(dict(e=fx(e[j], 16), wp=fx(float(sp(to[j])) * sc, 16), wa=fx(float(sa(to[j])) * sc, 16)))
            else:
                rec["tol"] = fx(1e-9, 16)
                for j in sorted(rng.sample(range(len(to)), 15)):
                    rec["s"].append(dict(e=fx(e[j], 16), wp=fx(float(np.atleast_1d(g.omega_gw_pericenters_interp(to[j]))[0]) * sc, 16),
                                         wa=fx(float(np.atleast_1d(g.omega_gw_apocenters_interp(to[j]))[0]) * sc, 16)))
                # the fitted curves stay close to the samples
                fp = np.max(abs(np.atleast_1d(g.omega_gw_pericenters_interp(tp)) - op) / op)
                fa = np.max(abs(np.atleast_1d(g.omega_gw_apocenters_interp(ta)) - oa) / oa)
                rec["countok"] = rec["countok"] and bool(fp < 2e-2 and fa < 2e-2)
                rec["fit"] = [float(fp), float(fa)]
            e2 = guarded(lambda: g.compute_eccentricity(to))
            rec["variants"] = [vlib.digest(np.round(e, 9))] + ([vlib.digest(np.round(np.array(e2["value"]), 9))] if e2["ok"] else [])
            return rec
        npe = rng.choice([2, 3, 4, 5, 6, 8, 12, 20])
        if kind == "chain":
            npe = 8
        gaps = [rng.randint(90, 110) for _ in range(npe - 1)]
        peri = [150]
        for g in gaps:
            peri.append(peri[-1] + g)
        off = rng.choice([-50, 45, 50])
        apo = [p + off for p in peri]
        if npe >= 3 and rng.random() < 0.3:
            apo = apo[:-1] if off > 0 else apo[1:]
        N = peri[-1] + 150
        dt = rng.choice([1.0, 0.25, 1e-4])
        t0 = rng.choice([0.0, -500.0, 3333.3]) * dt
        scale = rng.choice([0.02, 1.0, 300.0])
        deg = lambda n: min(3, n - 1)
        im = rng.choice(["spline", "spline", "rational_fit"])
        if npe < 8:
            im = "spline"

        def coefs(n, base, d):
            cc = [base]
            for j in range(d):
                cc.append(base * rng.uniform(0.05, 0.5) if j == 0 else base * rng.uniform(-0.2, 0.2))
            return cc
        ratio = rng.choice([1.0, 1.0005, 1.05, 1.5, 3.0, 20.0, 0.8])
        k_user = None
        dp, da = deg(len(peri)), deg(len(apo))
        if im == "rational_fit":
            dp = da = 1
        elif rng.random() < 0.2:
            k_user = rng.choice([1, 2, 3, 4, 5])
            dp, da = min(dp, k_user), min(da, k_user)
        ca = coefs(len(apo), 1.0, da)
        cp = coefs(len(peri), ratio, dp)
        if ratio == 1.0:
            dd = min(dp, da)
            cp = ca = ca[:dd + 1]
        if im == "rational_fit":
            rec["tol"] = fx(2e-5, 16)
        ek = {"omega_gw_extrema_interpolation_method": im}
        if k_user:
            ek["special_interp_kwargs_for_omega_gw_extrema"] = {"k": k_user}
        if kind == "chain":
            ek = {"omega_gw_extrema_interpolation_method": "spline"}
            rats = [1.0, 1.001, 1.02, 1.1, 1.4, 2.0, 5.0, 50.0, 1000.0]
            ca = [1.0, 0.2, 0.05]
            for R in rats:
                d = build(peri, apo, N, dt, t0, [R * z for z in ca], ca, scale, rng)
                o = guarded(lambda: synth.controlled_measure(d, (peri, apo), tref_in=d["t"][(peri[2] + peri[3]) // 2],
                                                             extra_kwargs=dict(ek)))
                if not o["ok"]:
                    rec.update(outcome="error", msg=o["msg"][:200])
                    return rec
                rec["chain"].append(fx(float(o["value"]["eccentricity"]), 16))
            return rec
        rec.update(poly=True, cp=[fx(z, 16) for z in cp], ca=[fx(z, 16) for z in ca], im=im, npe=npe, ratio=ratio)
        outs = []
        for v in range(3):
            d = build(peri, apo, N, dt, t0, cp, ca, scale, rng, variant=v)
            t = d["t"]
            lo, hi = max(peri[0], apo[0]), min(peri[-1], apo[-1])
            ks = sorted({lo, hi, peri[1] if peri[1] <= hi else hi, (lo + hi) // 2, lo + 1, hi - 1} |
                        {random.Random(i).randint(lo, hi) for _ in range(5)})
            tref = t[ks]
            o = guarded(lambda: synth.controlled_measure(d, (peri, apo), tref_in=tref, extra_kwargs=dict(ek),
                                                         debug_level=rng.choice([0, 0, -1, 1])))
            if not o["ok"]:
                rec.update(outcome="error", msg=f"{im} npe={npe} {o['msg'][:200]}")
                return rec
            e = np.array(o["value"]["eccentricity"], dtype=float)
            if len(e) != len(ks):
                rec["countok"] = False
                return rec
            outs.append(e)
        rec["q"] = [dict(u=fx(kk / N, 16), e=fx(ee, 16)) for kk, ee in zip(ks, outs[0])]
        rec["variants"] = [vlib.digest(z) for z in outs]
        return rec
    recs = pmap(one, jobs)
    good = []
    for j, x in zip(jobs, recs):
        if "died" in x:
            c.violation(f"died:{j}", "process died", j)
        else:
            good.append(x)
    ok = [x for x in good if x["outcome"] == "ok" and x["poly"] and x.get("im") == "spline" and x["q"] and x["ratio"] in (1.5, 3.0)]
    controls = []
    if ok:
        b = ok[0]
        q = b["q"][0]
        controls = [({**b, "cp": b["ca"]}, "law"), ({**b, "q": [{**q, "e": fx(1.7, 16)}]}, "branch"),
                    ({**b, "variants": ["a", "b"]}, "depends-on-samples-only"),
                    ({**b, "chain": [fx(0.2, 16), fx(0.2, 16)]}, "grows")]
    vlib.judge(c, "JEccLaw", good, controls=controls,
               key=lambda i, cl: f"{good[i]['kind']}:{i}:{','.join(sorted(cl))}",
               what=lambda i, cl: f"{good[i]['kind']} im={good[i].get('im')} npe={good[i].get('npe')} ratio={good[i].get('ratio')} fit={good[i].get('fit')} violates {sorted(cl)} {good[i]['msg']}")
    for x in good[:2]:
        c.sample({k: (v[:2] if isinstance(v, list) else v) for k, v in x.items()})
    c.note(measurements=len(good))
    c.assumptions += ["spline envelopes checked to 1e-9 (polynomial samples, reproduced exactly by the curve); "
                      "rational-fit envelopes to 2e-5 for linear samples"]


main(check, "P06")
