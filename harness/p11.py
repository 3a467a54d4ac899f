"""P11: zero is reported only for long waveforms without extrema, on request."""
import random
import numpy as np
import vlib
from vlib import Check, tlc_emit, pmap, guarded, pick, main
import synth


def points(rng, fd, t, inside):
    """reference points: style, values"""
    style = rng.choice(["scalar", "sorted", "shuffled", "repeat", "list"])
    if fd:
        pool = [float(z) for z in np.linspace(*inside, 7)[1:-1]]
        if rng.random() < 0.3:
            pool += [1e-6, 5.0]
    else:
        pool = [float(z) for z in np.linspace(*inside, 9)[1:-1]] + [float(inside[0])]
        if rng.random() < 0.3:
            pool += [float(t[0]) - 100, float(t[-1]) + 1e4]
    rng.shuffle(pool)
    if style == "scalar":
        return style, pool[0]
    if style == "sorted":
        pool.sort()
    if style == "repeat":
        pool = pool + pool[:3]
    return style, (pool if style == "list" else np.array(pool))


def check(c: Check):
    gw = vlib.import_gwecc()
    r, cases = tlc_emit("ZeroFallback", defs="CONSTANTS MaxN = 3 Emit = TRUE", workers=2)
    c.tlc(r)
    jobs = [("gen", x, i) for x in cases for i in range(pick(7, 60))]
    jobs += [("method", None, i) for i in range(pick(250, 2500))]

    def one(job):
        kind, x, i = job
        rng = random.Random(f"{vlib.SEED}:{kind}:{i}:{x}")
        fd = rng.random() < 0.5
        ek = {}
        if rng.random() < 0.5:
            ek["omega_gw_extrema_interpolation_method"] = "spline"
        T = 80
        prec = False
        if kind == "gen":
            ex = rng.choice([2, 2, 1, 0])
            nb = int(T * (rng.choice([5.4, 6.0, 7.5, 9.0]) if x["long"] else rng.choice([3.2, 3.9, 4.3])))
            k = np.arange(nb)
            ph = 4 * np.pi * (k / T + 0.002 * (k / T) ** 2)
            up = rng.uniform(0.17, 0.2)
            om = (4 * np.pi / T) * (1 + 0.2 * np.cos(2 * np.pi * (k - 20) / T)) * (1 + 0.0001 * k)
            dt = rng.choice([1.0, 0.5])
            d = synth.grid_wave(nb, dt=dt, t0=rng.choice([0.0, -500.0]), phase=ph, omega=om / dt)
            if x["long"] and rng.random() < 0.15:
                # five orbits, just above or below
                sgn = rng.choice([-1, 1])
                x = {**x, "long": None}
                P = d["phaselm"][(2, 2)]
                o = synth.controlled_obj(d, ([], []), tref_in=d["t"][5], num_orbits_to_exclude_before_merger=ex)
                span = P[len(o.t) - 1] - P[0]
                d["phaselm"][(2, 2)] = P * (20 * np.pi * (1 + sgn * rng.choice([1e-4, 1e-7])) / span)
                d["phaselm"][(2, 2)][len(o.t):] += 0
            if ex == 0 and not x["long"]:
                ex = 2
            seg = None
            if rng.random() < 0.15:
                seg = rng.choice([4, 4.9, 6.5])
            base = rng.choice(list(synth.methods()))
            if base.startswith("Residual"):
                base = "Amplitude"
            p = [20 + T * j for j in range(x["np"])]
            a = [60 + T * j for j in range(x["ra"])]
            if rng.random() < 0.2:
                p = [20 + T * j for j in range(x["np"])][::1]
                a = [60 + T * j for j in range(1, x["ra"] + 1)]
            inside = (d["t"][0] + 60 * dt, d["t"][0] + 140 * dt) if not fd else (1.0 / T / dt * 1.98, 1.0 / T / dt * 2.03)
            if fd and rng.random() < 0.7:
                ek["omega_gw_averaging_method"] = "mean_of_extrema_interpolants"
            mid = x["mid"]
            run = lambda e, kw: synth.controlled_measure(d, (p, a), base=base, num_orbits_to_exclude_before_merger=ex,
                                                         extra_kwargs=e, debug_level=-1, **kw)
            npp, na = len(p), (max(len(p) - 1, 0) if mid else len(a))
            flag = x["flag"]
            if seg:
                ek["use_only_these_many_orbits"] = seg
                mk = lambda e, kw: synth.controlled_obj(d, (p, a), base=base, num_orbits_to_exclude_before_merger=ex,
                                                        extra_kwargs=e, debug_level=-1, **kw)
            else:
                mk = lambda e, kw: synth.controlled_obj(d, (p, a), base=base, num_orbits_to_exclude_before_merger=ex,
                                                        extra_kwargs=e, debug_level=-1, **kw)
            if seg:
                # positions are indices of the analysed stretch: keep them there
                p = [z for z in p if z < 2.9 * T]
                a = [z for z in a if z < 2.9 * T]
                npp, na = len(p), (max(len(p) - 1, 0) if mid else len(a))
            who = base
        else:
            who = rng.choice(list(synth.methods()))
            e0 = rng.choice([0.0, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.3, 0.5])
            d = synth.pn(e0=e0, orbits=rng.uniform(4.6, 11), ano0=rng.uniform(0, 6), zeroecc=who.startswith("Res") or rng.random() < 0.2)
            ex = rng.choice([2, 2, 1])
            mid = rng.random() < 0.3
            flag = rng.random() < 0.6
            inside = (d["t"][0] * 0.7, d["t"][0] * 0.5) if not fd else (0.006, 0.0075)
            if rng.random() < 0.2:
                prec = True
                d = dict(d)
                for s in ["", "_zeroecc"]:
                    if "amplm" + s in d:
                        d["amplm" + s] = {(2, 2): d["amplm" + s][(2, 2)], (2, -2): d["amplm" + s][(2, 2)].copy()}
                        d["phaselm" + s] = {(2, 2): d["phaselm" + s][(2, 2)], (2, -2): -d["phaselm" + s][(2, 2)]}
            pk = dict(precessing=True, frame="coprecessing") if prec else {}
            run = lambda e, kw: gw.measure_eccentricity(method=who, dataDict=d, num_orbits_to_exclude_before_merger=ex,
                                                        extra_kwargs=e, debug_level=-1, **pk, **kw)
            mk = lambda e, kw: synth.methods()[who](d, num_orbits_to_exclude_before_merger=ex, extra_kwargs=e, debug_level=-1, **pk, **kw)
            npp = na = None
        if mid:
            ek["treat_mid_points_between_pericenters_as_apocenters"] = True
        style, ref = points(rng, fd, d["t"], inside)
        kw = {"fref_in" if fd else "tref_in": ref}
        o0 = guarded(lambda: mk(dict(ek), dict(kw)))
        if not o0["ok"]:
            return None
        g0 = o0["value"]
        P = d["phaselm"][(2, 2)]
        i0, i1 = [int(np.argmin(abs(d["t"] - z))) for z in (g0.t[0], g0.t[-1])]
        orb = (P[i1] - P[i0]) / (4 * np.pi)
        lg = "edge" if abs(orb - 5) < 1e-9 else ("yes" if orb > 5 else "no")
        if npp is None:
            z = guarded(lambda: len(g0.find_extrema("pericenters")))
            if not z["ok"]:
                return None
            npp = z["value"]
            if mid:
                na = max(npp - 1, 0)
            else:
                z = guarded(lambda: len(mk(dict(ek), dict(kw)).find_extrema("apocenters")))
                if not z["ok"]:
                    return None
                na = z["value"]
        out = []
        for f in (flag, None if rng.random() < 0.5 else False):
            e = dict(ek)
            if f is not None:
                e["return_zero_if_small_ecc_failure"] = f
            out.append(guarded(lambda: run(e, dict(kw)), timeout=60))
        n = np.size(ref)

        def cls(o):
            if not o["ok"]:
                return "error"
            v = o["value"]
            return "zero" if np.all(np.asarray(v["eccentricity"]) == 0) and np.all(np.asarray(v["mean_anomaly"]) == 0) else "values"

        def dg(o):
            v = o["value"]
            return vlib.digest([np.array(v[q], dtype=float) for q in ("eccentricity", "mean_anomaly", "fref_out" if fd else "tref_out")])
        rec = dict(kind=kind, who=who, np=min(npp, 9), na=min(na, 9), long=lg, orbits=round(orb, 4), flag=flag, mid=mid, fd=fd, style=style,
                   prec=prec, got=cls(out[0]), plain=cls(out[1]), dg="", plaindg="", points=True, msg=(out[0]["msg"] or "")[:100])
        if out[0]["ok"] and out[1]["ok"]:
            rec.update(dg=dg(out[0]), plaindg=dg(out[1]))
        if rec["got"] == "zero":
            v = out[0]["value"]
            q = v["fref_out" if fd else "tref_out"]
            rec["points"] = bool(np.array_equal(np.asarray(q, dtype=float), np.asarray(ref, dtype=float))
                                 and all(np.shape(v[k]) == np.shape(ref) for k in ("eccentricity", "mean_anomaly"))
                                 and np.shape(q) == np.shape(ref))
        return rec
    recs = []
    for j, x in zip(jobs, pmap(one, jobs)):
        if x is None:
            continue
        if "died" in x:
            c.violation(f"died:{j}", "process died", j)
        else:
            recs.append(x)
    z = [x for x in recs if x["got"] == "zero" and x["long"] == "yes"]
    v = [x for x in recs if x["got"] == "values" and x["np"] > 1 and x["na"] > 1]
    e = [x for x in recs if x["got"] == "error" and x["np"] < 2]
    controls = []
    if z and v and e:
        controls = [({**z[0], "flag": False}, "must-be-an-error"), ({**z[0], "long": "no"}, "must-be-an-error"),
                    ({**z[0], "points": False}, "points"), ({**z[0], "plain": "zero"}, "must-be-an-error-without"), ({**v[0], "dg": "x"}, "fallback-has-effect"),
                    ({**e[0], "flag": True, "long": "yes"}, "must-be-zero"), ({**z[0], "np": 2, "na": 2, "plain": "values"}, "unrequested-zero")]
    vlib.judge(c, "JZeroFallback", recs, controls=controls,
               key=lambda i, cl: "%s:%s:%d:%d:%s:%s:%s:%d:%s" % (recs[i]["kind"], recs[i]["who"], recs[i]["np"], recs[i]["na"], recs[i]["long"],
                                                             recs[i]["flag"], recs[i]["mid"], i, ",".join(sorted(cl))),
               what=lambda i, cl: f"{recs[i]} violates {sorted(cl)}")
    for x in z[:2] + v[:1] + e[:1]:
        c.sample(x)
    import collections
    c.note(measurements=len(recs), zeros=len(z), values=len(v), errors=len([x for x in recs if x["got"] == "error"]),
           from_methods=dict(collections.Counter(x["got"] for x in recs if x["kind"] == "method")))
    c.assumptions += ["extrema found means those the method locates, before the cleaning of P07"]


main(check, "P11")
