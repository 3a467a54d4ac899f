"""P25: method comparison covers exactly the common times."""
import random
import numpy as np
import vlib
from vlib import Check, tlc_emit, pmap, guarded, pick, main
import synth

C8 = 10 ** 8


def check(c: Check):
    gw = vlib.import_gwecc()
    from gw_eccentricity.compare_methods import compute_errors_between_methods as compare
    r, cases = tlc_emit("Compare", defs="CONSTANTS Pos = {1,2,3,4,5} Emit = TRUE", workers=4)
    c.tlc(r)
    rng = random.Random(vlib.SEED)
    T = 160
    n = T * 12
    k = np.arange(n)
    x = k / T
    ph = 4 * np.pi * (x + 0.01 * x * x)
    om = (4 * np.pi / T) * (1 + 0.02 * x) * (1 + 0.2 * np.cos(2 * np.pi * x))
    waves = [synth.grid_wave(n, dt=dt, t0=t0, phase=ph, omega=om) for dt, t0 in [(1.0, 0.0), (0.25, -1234.5)]]
    # position q of the model: half periods 3+3q
    half = lambda q: (3 + 3 * q) * (T // 2)

    def extrema(lo, hi, shift):
        h = [j for j in range(3 + 3 * lo - 1, 3 + 3 * hi + 2)]
        p = [j * (T // 2) + shift for j in h if j % 2 == 0]
        a = [j * (T // 2) + shift for j in h if j % 2 == 1]
        return p, a

    real = []
    d = synth.pn(e0=0.25, orbits=12, zeroecc=True)
    tr = np.array(d["t"][::9])
    for m in synth.methods():
        o = guarded(lambda: gw.measure_eccentricity(tref_in=tr, method=m, dataDict=d))
        if not o["ok"]:
            c.violation(f"setup:{m}", f"measurement failed: {o['msg']}", None)
        else:
            real.append((m, o["value"]["gwecc_object"]))
    cases = [x for x in cases]
    rng.shuffle(cases)
    jobs = [("gen", x, i) for i, x in enumerate(cases[:pick(900, len(cases))])]
    jobs += [("rand", None, i) for i in range(pick(400, 5000))]
    jobs += [("real", None, i) for i in range(pick(150, 1500))]
    jobs += [("diff", None, i) for i in range(pick(20, 100))]

    def one(job):
        kind, x, i = job
        rng = random.Random(f"{vlib.SEED}:{kind}:{i}")
        tmin = tmax = None
        if kind == "real":
            (n1, g1), (n2, g2) = rng.choice(real), rng.choice(real)
            lo, hi = max(g1.tmin, g2.tmin), min(g1.tmax, g2.tmax)
            pool = [lo, hi, g1.tmin, g2.tmax, np.nextafter(lo, 9e9), np.nextafter(hi, 9e9), lo - 50, hi + 50,
                    0.5 * (lo + hi), float(tr[len(tr) // 3]), float(tr[len(tr) // 2])]
            tmin = rng.choice(pool + [None] * 4)
            tmax = rng.choice(pool + [None] * 4)
            refs = [tr, tr]
            objs = [g1, g2]
        else:
            w = rng.choice(waves)
            t = w["t"]
            if kind == "gen":
                A, B = x["a"], x["b"]
                sh = 0
                pos = {q: float(t[half(q)]) for q in range(1, 6)}
                tmin = pos.get(x["tmin"])
                tmax = pos.get(x["tmax"])
            else:
                los = [rng.randint(1, 3), rng.randint(1, 3)]
                A, B = [dict(lo=l, hi=rng.randint(l + 1, 5)) for l in los]
                sh = rng.choice([0, 7, -9, 40, -40])
            e1, e2 = extrema(A["lo"], A["hi"], 0), extrema(B["lo"], B["hi"], sh)
            ends = [t[half(q)] for o in (A, B) for q in (o["lo"], o["hi"])]
            ends += [t[half(q) + sh] for o in (A, B) for q in (o["lo"], o["hi"])]
            pool = [float(z) for z in ends] + [float(np.nextafter(z, s)) for z in ends for s in (-9e9, 9e9)]
            ref = list(pool) + [float(t[half(q)]) for q in range(1, 6)] + [rng.uniform(t[0], t[-1]) for _ in range(30)]
            style = rng.choice(["sorted", "reversed", "shuffled", "shuffled", "grid", "scalar"])
            if style == "grid":
                ref = [float(z) for z in t[::11]]
            elif style == "scalar":
                ref = [float(t[half(max(A["lo"], B["lo"]))] + 31.25)]
            ref = {"reversed": sorted(ref)[::-1], "sorted": sorted(ref)}.get(style, ref)
            if style == "shuffled":
                rng.shuffle(ref)
            if kind != "gen":
                tmin = rng.choice(pool + [None] * 6)
                tmax = rng.choice(pool + [None] * 6)
            ref = np.array(ref) if style != "scalar" else ref[0]
            ref2 = ref
            if kind == "diff":
                ref2 = np.array(t[::13]) if rng.random() < 0.5 else np.append(np.atleast_1d(ref), t[half(3)])
            refs = [ref, ref2]
            objs = []
            w2 = dict(w)
            if rng.random() < 0.8:
                w2["omegalm"] = {(2, 2): w["omegalm"][(2, 2)] * (1 + 0.05 * np.cos(k_full(w, T)))}
            for (e, ww, rf) in ((e1, w, ref), (e2, w2, ref2)):
                o = guarded(lambda: synth.controlled_measure(
                    ww, e, tref_in=rf, extra_kwargs={"omega_gw_extrema_interpolation_method": "spline"}))
                if not o["ok"]:
                    return None
                objs.append(o["value"]["gwecc_object"])
        g1, g2 = objs
        o = guarded(lambda: compare(g1, g2, tmin=tmin, tmax=tmax))
        rr = np.atleast_1d(refs[0]).astype(float)
        out = [float(z) for z in np.atleast_1d(o["value"][0])] if o["ok"] else []
        lims = [z for z in (tmin, tmax) if z is not None]
        rk0 = vlib.dense_ranks(list(rr) + out + lims + [g1.tmin, g1.tmax, g2.tmin, g2.tmax])
        rk = lambda z: rk0(z) + 1
        sc = lambda z: [int(round(float(v) * C8)) if abs(float(v)) < 20 else 2 * 10 ** 9 for v in np.atleast_1d(z)]
        rec = dict(kind=kind, req=[rk(z) for z in rr], out=[rk(z) for z in out], lo1=rk(g1.tmin), hi1=rk(g1.tmax),
                   lo2=rk(g2.tmin), hi2=rk(g2.tmax), tmin=rk(tmin) if tmin is not None else 0,
                   tmax=rk(tmax) if tmax is not None else 0, outcome="ok" if o["ok"] else "error",
                   msg=(o["msg"] or "")[:120], differentrefs=kind == "diff",
                   e1=[], e2=[], m1=[], m2=[], de=[], dm=[], own1=[], own2=[], owm1=[], owm2=[])
        if o["ok"]:
            v = o["value"]
            rec.update(de=sc(v[1]), dm=sc(v[2]), e1=sc(v[3]), e2=sc(v[4]), m1=sc(v[5]), m2=sc(v[6]))
            for g, a, b in ((g1, "own1", "owm1"), (g2, "own2", "owm2")):
                to = [float(z) for z in np.atleast_1d(g.tref_out)]
                ix = {z: j for j, z in enumerate(to)}
                ee, mm = np.atleast_1d(g.eccentricity), np.atleast_1d(g.mean_anomaly)
                sel = [ix[z] for z in out if z in ix]
                rec[a], rec[b] = sc(ee[sel]) if sel else [], sc(mm[sel]) if sel else []
        return rec
    recs = pmap(one, jobs)
    good = []
    for j, x in zip(jobs, recs):
        if x is None:
            continue
        if "died" in x:
            c.violation(f"died:{j}", "process died", j)
        else:
            good.append(x)
    ok = [x for x in good if x["outcome"] == "ok" and len(x["out"]) > 2]
    controls = []
    if ok:
        b = ok[0]
        controls = [({**b, "out": b["out"][1:]}, "common-times"), ({**b, "dm": [z + 628318531 for z in b["dm"]]}, "ano-error"),
                    ({**b, "de": [z + 99 for z in b["de"]]}, "ecc-error"), ({**b, "m1": b["m2"][::-1] if b["m2"][::-1] != b["owm1"] else b["de"]}, "own-values")]
    vlib.judge(c, "JCompare", good, controls=controls,
               key=lambda i, cl: f"{good[i]['kind']}:{i}:{','.join(sorted(cl))}",
               what=lambda i, cl: f"comparison ({good[i]['kind']}, {len(good[i]['req'])} times, limits {good[i]['tmin']},{good[i]['tmax']}) violates {sorted(cl)} {good[i]['msg']}")
    for x in good[:3]:
        c.sample({k: (v[:8] if isinstance(v, list) else v) for k, v in x.items()})
    c.note(comparisons=len(good), errors=len([x for x in good if x["outcome"] != "ok"]), generated=len(cases))
    c.assumptions += ["two analyses whose admissible ranges do not overlap may give an empty comparison or an error"]


def k_full(w, T):
    return np.arange(len(w["t"])) / (3.0 * T)


main(check, "P25")
