"""P05: mean anomaly is linear in time between consecutive pericenters."""
import random
import numpy as np
import vlib
from vlib import Check, tlc_emit, pmap, guarded, pick, main, fx
import synth

TWO_PI = 2 * np.pi


def build(peri, apo, N, dt, t0, rng, variant=0):
    """waveform with uniform phase advance per radial period; variant changes
    everything the mean anomaly must not depend on"""
    gaps = [peri[0]] + list(np.diff(peri)) + [peri[-1] - peri[-2]]
    kn = [peri[0] - (peri[1] - peri[0])] + list(peri) + [peri[-1] + (peri[-1] - peri[-2])]
    adv = 4 * np.pi * (1.05 + 0.02 * variant)
    ph = np.interp(np.arange(N), kn, adv * np.arange(len(kn)))
    lo, hi = kn[0], kn[-1]
    if lo > 0:
        ph[:lo] = ph[lo] - adv / (peri[1] - peri[0]) * (lo - np.arange(lo))
    if hi < N:
        ph[hi:] = ph[hi - 1] + adv / (peri[-1] - peri[-2]) * np.arange(1, N - hi + 1)
    k = np.arange(N)
    om = (0.1 + 1e-5 * k * (1 + variant)) / dt
    om = om * (1 + 0.1 * np.sin(k / 17.0))
    for j, i in enumerate(peri):
        om[i] = (0.2 + 0.01 * (j + 1) * (1 + variant)) / dt
    for j, i in enumerate(apo):
        om[i] = (0.08 + 0.004 * (j + 1) * (1 + 0.5 * variant)) / dt
    amp = 1 + 0.1 * variant * np.cos(k / 29.0)
    return synth.grid_wave(N, dt=dt, t0=t0, phase=ph, omega=om, amp=amp)


OPTS = [
    {"omega_gw_extrema_interpolation_method": "spline"},
    {"omega_gw_extrema_interpolation_method": "rational_fit"},
    {"omega_gw_extrema_interpolation_method": "spline",
     "omega_gw_averaging_method": "mean_of_extrema_interpolants"},
    {"omega_gw_extrema_interpolation_method": "spline",
     "special_interp_kwargs_for_omega_gw_extrema": {"k": 1}},
    {"omega_gw_extrema_interpolation_method": "spline", "general_interp_kwargs": {"k": 2}},
]


def record(peri, tt, ms, tp, nums=None, dens=None):
    q = []
    for i, (t, m) in enumerate(zip(tt, ms)):
        j = min(max(int(np.searchsorted(tp, t, side="right")) - 1, 0), len(tp) - 1)
        a = tp[j]
        b = tp[j + 1] if j + 1 < len(tp) else None
        if b is None:                     # exactly the last pericenter
            a, b = tp[j], tp[j] + 1.0
        q.append(dict(t=fx(t, 16), a=fx(a, 16), b=fx(b, 16), m=fx(m, 16),
                      num=nums[i] if nums else 0, den=dens[i] if dens else 0))
    return q


def check(c: Check):
    gw = vlib.import_gwecc()
    r, cases = tlc_emit("MeanAno", defs=f"CONSTANTS Gaps = {{1, 2, 5}} MaxPeri = {pick(5, 6)} Emit = TRUE", workers=4)
    c.tlc(r)
    rng = random.Random(vlib.SEED)
    jobs = [("gen", x, i) for i, x in enumerate(cases) if len(x["gaps"]) >= 2]
    jobs += [("rand", None, i) for i in range(pick(400, 6000))]
    jobs += [("method", m, i) for m in synth.methods() for i in range(pick(2, 12))]

    def one(job):
        kind, x, i = job
        rng = random.Random(vlib.SEED * 100003 + i + {"gen": 0, "rand": 10 ** 6, "method": 2 * 10 ** 6}[kind])
        if kind == "method":
            d = synth.pn(e0=rng.uniform(0.12, 0.45), orbits=rng.uniform(10, 22), dt=rng.choice([1.0, 0.5]),
                         ano0=rng.uniform(0, 6))
            s = rng.choice([0.0, 5000.0, -777.7])
            d["t"] = d["t"] + s
            if rng.random() < 0.3:
                d.pop("omegalm", None)
                d = synth.to_hlm(d)
            o = guarded(lambda: gw.measure_eccentricity(tref_in=d["t"], method=x, dataDict=d))
            if not o["ok"]:
                return dict(kind=f"method:{x}", outcome="error", msg=o["msg"][:200], q=[], variants=[], countok=True)
            g = o["value"]["gwecc_object"]
            tp = np.array(g.t_pericenters)
            to = np.array(o["value"]["tref_out"])
            ma = np.array(o["value"]["mean_anomaly"])
            idx = sorted(set(rng.sample(range(len(to)), min(len(to), 20)) +
                             [int(np.argmin(abs(to - z))) for z in tp]))
            tt, ms = to[idx], ma[idx]
            w = []
            z = guarded(lambda: g.compute_mean_anomaly(to))
            w.append(vlib.digest(np.round(ma, 9)))
            if z["ok"]:
                w.append(vlib.digest(np.round(np.array(z["value"]), 9)))
            return dict(kind=f"method:{x}", outcome="ok", msg="", q=record(None, tt, ms, tp), variants=w,
                        countok=len(ma) == len(to), tol=fx(1e-8, 16), TwoPi=fx(TWO_PI, 16),
                        TwoPiUp=fx(TWO_PI, 16))
        if kind == "gen":
            unit = 40
            gaps = [g * unit for g in x["gaps"]]
            dt, t0 = rng.choice([(1.0, 0.0), (1.0, -3000.0), (0.5, 100.25)])
        else:
            n = rng.randint(3, 14)
            gaps = [rng.randint(30, 400) for _ in range(n)]
            dt = rng.choice([1.0, 0.1, 2.5e-4, 3.0])
            t0 = rng.choice([0.0, -1e4, 12345.678, 1e6]) * dt
        p0 = gaps[0] + rng.randint(30, 90)
        peri = [p0]
        for g in gaps:
            peri.append(peri[-1] + g)
        # apocenters anywhere between: they must not matter
        fr = rng.uniform(0.25, 0.75)
        apo = [peri[0] - gaps[0] + int(gaps[0] * fr)] + [a + int((b - a) * fr) for a, b in zip(peri, peri[1:])] + [peri[-1] + int(gaps[-1] * fr)]
        if rng.random() < 0.3:
            apo = apo[1:-1]
        if len(apo) < 2:
            apo = [peri[0] - gaps[0] + int(gaps[0] * fr)] + apo
        N = peri[-1] + gaps[-1] + 100
        d = build(peri, apo, N, dt, t0, rng)
        t = d["t"]
        tp, ta = t[peri], t[apo]
        lo, hi = max(tp[0], ta[0]), min(tp[-1], ta[-1])
        nums = dens = None
        if kind == "gen":
            ticks = [(p0 + j * unit) for j in range(len(x["num"]))]
            dd = []
            for gi, g in enumerate(x["gaps"]):
                dd += [g] * g
            dd.append(1)
            keep = [j for j in range(len(ticks)) if lo <= t[ticks[j]] <= hi]
            tref = np.array([t[ticks[j]] for j in keep])
            nums = [x["num"][j] for j in keep]
            dens = [dd[j] for j in keep]
        else:
            z = [float(v) for v in tp] + [np.nextafter(v, -np.inf) for v in tp] + [np.nextafter(v, np.inf) for v in tp]
            z += [rng.uniform(lo, hi) for _ in range(25)]
            z = [v for v in z if lo <= v <= hi]
            rng.shuffle(z)
            tref = np.array(z)
        rec = dict(kind=kind, outcome="ok", msg="", q=[], variants=[], countok=True,
                   tol=fx(1e-9 + 1e-15 * max(abs(t[0]), abs(t[-1])) / (dt * 30), 16), TwoPi=fx(TWO_PI, 16),
                   TwoPiUp=fx(TWO_PI, 16), gaps=gaps, dt=dt, t0=t0)
        outs = []
        for v, opt in enumerate(OPTS if (kind == "rand" or i % 5 == 0) else OPTS[:2]):
            dv = build(peri, apo, N, dt, t0, rng, variant=v)
            ap = apo
            if v == 2:      # other apocenters
                ap = [apo[0]] + [q + (1 if q + 1 < min([z for z in peri if z > q] + [N]) else 0) for q in apo[1:-1]] + [apo[-1]]
            o = guarded(lambda: synth.controlled_measure(dv, (peri, ap), tref_in=tref, extra_kwargs=dict(opt)))
            if not o["ok"]:
                rec.update(outcome="error", msg=f"{opt} {o['msg'][:200]}")
                return rec
            outs.append(np.array(o["value"]["mean_anomaly"], dtype=float))
            rec["countok"] = rec["countok"] and len(outs[-1]) == len(tref)
        if rec["countok"]:
            rec["q"] = record(peri, tref, outs[0], tp, nums, dens)
        rec["variants"] = [vlib.digest(z) for z in outs]
        return rec
    recs = pmap(one, jobs)
    good = []
    for j, x in zip(jobs, recs):
        if "died" in x:
            c.violation(f"died:{j}", "process died", j)
        else:
            good.append(x)
    ok = [x for x in good if x["outcome"] == "ok" and x["kind"] == "rand" and len(x["q"]) > 3]
    controls = []
    if ok:
        b = ok[0]
        q0 = dict(b["q"][1])
        q0["m"] = fx(3.0, 16) if q0["m"]["s"] == 0 or q0["m"]["m"][-1] != 3 else fx(1.5, 16)
        controls = [({**b, "q": [q0]}, "linear"), ({**b, "q": [{**q0, "m": fx(6.4, 16)}]}, "range"),
                    ({**b, "variants": ["x", "y"]}, "depends-on-other-data")]
    vlib.judge(c, "JMeanAno", good, controls=controls,
               key=lambda i, cl: f"{good[i]['kind']}:{i}:{','.join(sorted(cl))}",
               what=lambda i, cl: f"{good[i]['kind']} gaps={good[i].get('gaps')} violates {sorted(cl)} {good[i]['msg']}")
    for x in good[:2]:
        c.sample({k: (v[:3] if isinstance(v, list) else v) for k, v in x.items()})
    c.note(generated_patterns=len(cases), measurements=len(good))
    c.assumptions += ["values compared to 1e-9 rad (binary64 round-off of the reference times allowed for)"]


main(check, "P05")
