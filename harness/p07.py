"""P07: extrema that are extra, missing or too close are dropped as documented."""
import random
import numpy as np
import vlib
from vlib import Check, tlc_emit, pmap, guarded, pick, main, fx
import synth


def build(N, spu, t0, dt, seed):
    rs = np.random.RandomState(seed)
    k = np.arange(N)
    ph = 4 * np.pi * k / (20.0 * spu) + 0.7
    om = (0.1 + 0.05 * rs.rand(N) + 2e-5 * k) / dt
    return synth.grid_wave(N, dt=dt, t0=t0, phase=ph, omega=om)


def measure(d, p, a, spu, rng, debug=0):
    """p, a: positions in phase units (20 = one orbit); spu samples per unit"""
    pi, ai = [x * spu for x in p], [x * spu for x in a]
    im = "spline"
    t = d["t"]
    o = synth.controlled_obj(d, (pi, ai), tref_in=np.array(t), debug_level=debug,
                             extra_kwargs={"omega_gw_extrema_interpolation_method": im})
    g = guarded(lambda: o.measure_ecc())
    rec = dict(p=[dict(i=x, ph=x) for x in p], a=[dict(i=x, ph=x) for x in a], orbit=20,
               outcome="ok" if g["ok"] else "error", msg=(g["msg"] or "")[:160], known=False, kp=[], ka=[], lo=0, hi=0,
               s=[], tol=fx(1e-9, 16))
    finish(rec, o, g, d, rng, lambda idx: int(idx) // spu if int(idx) % spu == 0 else -1)
    return rec


def finish(rec, o, g, d, rng, unit):
    t = np.array(o.t)
    try:
        if g["ok"]:
            kp = [int(np.argmin(abs(t - x))) for x in np.array(o.t_pericenters)]
            ka = [int(np.argmin(abs(t - x))) for x in np.array(o.t_apocenters)]
        else:
            kp, ka = list(map(int, o.pericenters_location)), list(map(int, o.apocenters_location))
        rec.update(kp=[unit(x) for x in kp], ka=[unit(x) for x in ka], known=True)
    except AttributeError:
        kp = ka = None
    if g["ok"]:
        R = g["value"]
        to, e = np.array(R["tref_out"]), np.array(R["eccentricity"])
        rec["lo"] = unit(int(np.argmin(abs(t - to[0]))))
        rec["hi"] = unit(int(np.argmin(abs(t - to[-1]))))
        if len(kp) >= 2 and len(ka) >= 2 and len(e) == len(to):
            from scipy.interpolate import InterpolatedUnivariateSpline as IUS
            om = np.array(o.omega_gw)
            sc = 1 / om.max()
            sp = IUS(t[kp], om[kp], k=min(3, len(kp) - 1))
            sa = IUS(t[ka], om[ka], k=min(3, len(ka) - 1))
            for j in sorted({0, len(to) - 1} | {rng.randrange(len(to)) for _ in range(4)}):
                wp, wa = float(sp(to[j])) * sc, float(sa(to[j])) * sc
                if wp > 0.01 and wa > 0.01:
                    rec["s"].append(dict(e=fx(e[j], 16), wp=fx(wp, 16), wa=fx(wa, 16)))


def noisy_case(i):
    """a real method on a clean inspiral with a defect in the amplitude"""
    import gw_eccentricity
    rng = random.Random(f"{vlib.SEED}:noisy:{i}")
    m = rng.choice(["Amplitude", "Frequency"])
    d = synth.pn(e0=rng.uniform(0.15, 0.4), orbits=rng.uniform(12, 22), zeroecc=False, ano0=rng.uniform(0, 6))
    C = synth.methods()[m]
    t = d["t"]
    o = C(d, tref_in=np.array(t))
    key = "amplm"
    p = np.array(o.find_extrema("pericenters"))
    a = np.array(o.find_extrema("apocenters"))
    if len(p) < 5 or len(a) < 5:
        return None
    # defect: add or remove a bump around one extremum
    amp = d["amplm"][(2, 2)]
    from gw_eccentricity.utils import time_deriv_4thOrder
    om = time_deriv_4thOrder(d["phaselm"][(2, 2)], t[1] - t[0])
    data = amp if m == "Amplitude" else om
    x = np.arange(len(t))
    for _ in range(rng.choice([1, 1, 2])):
        w = rng.choice(range(len(p) - 1))
        c0 = rng.choice([p, a])[min(w, len(a) - 1)]
        T = int(p[min(w + 1, len(p) - 1)] - p[w if w + 1 < len(p) else w - 1])
        amp_b = rng.choice([-1, 1]) * rng.uniform(0.1, 0.5) * abs(data[p[w]] - data[a[min(w, len(a) - 1)]])
        data = data + amp_b * np.exp(-((x - c0 - rng.randint(-T // 3, T // 3)) / (T / rng.uniform(3, 12))) ** 2)
    if m == "Amplitude":
        d["amplm"] = {(2, 2): data}
    else:
        d["omegalm"] = {(2, 2): data}
    ob = guarded(lambda: C(d, tref_in=np.array(t), extra_kwargs={"omega_gw_extrema_interpolation_method": "spline"}))
    if not ob["ok"]:
        return None
    o = ob["value"]
    p = np.array(o.find_extrema("pericenters"))
    a = np.array(o.find_extrema("apocenters"))
    if len(p) < 2 or len(a) < 2:
        return None
    ph = np.array(o.phase_gw)
    S = 10 ** 6
    orbit = int(round(4 * np.pi * S))
    for z in (p, a):
        dz = np.diff(ph[z])
        if np.any(abs(dz - 4 * np.pi) < 1e-4):
            return None
        if len(dz) > 1:
            r = dz[1:] / dz[:-1]
            if np.any(abs(r - 1.5) < 1e-4) or np.any(abs(r - 1 / 1.5) < 1e-4):
                return None
    g = guarded(lambda: o.measure_ecc())
    rec = dict(p=[dict(i=int(z), ph=int(round((ph[z] - ph[0]) * S))) for z in p],
               a=[dict(i=int(z), ph=int(round((ph[z] - ph[0]) * S))) for z in a], orbit=orbit,
               outcome="ok" if g["ok"] else "error", msg=f"{m}: " + (g["msg"] or "")[:160], known=False, kp=[], ka=[],
               lo=0, hi=0, s=[], tol=fx(1e-9, 16))
    finish(rec, o, g, d, rng, int)
    # a rejected measurement for other reasons (empty range) is not judged as a failure
    return rec


def check(c: Check):
    vlib.import_gwecc()
    cases = []
    n = pick(5, 7)
    for defs in [f"Gaps = {{15, 21, 45, 70}} NP = {n} NA = 9 APOGAPS = {{23}} Off = {{31}}",
                 f"Gaps = {{23}} NP = 9 NA = {n} APOGAPS = {{15, 21, 45, 70}} Off = {{7, 31}}",
                 "Gaps = {15, 22, 50} NP = 4 NA = 4 APOGAPS = {15, 21, 47} Off = {10, 28, 32}"]:
        r, x = tlc_emit("MCCleaning", defs="CONSTANTS Emit = TRUE " + defs, workers=8)
        c.tlc(r)
        cases.append(x)
    c.note(design_patterns=sum(map(len, cases)))
    rng = random.Random(vlib.SEED)
    jobs = []
    for x in cases:
        jobs += [("gen", y) for y in rng.sample(x, min(len(x), pick(700, 6000)))]
    for i in range(pick(800, 8000)):
        np_, na = rng.randint(3, 30), rng.randint(3, 30)

        def seq(n):
            g = [rng.randint(21, 23) for _ in range(n - 1)]
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                j = rng.choice([0, 1, n - 2, n - 3, rng.randrange(n - 1)]) % (n - 1)
                g[j] = rng.choice([12, 14, 16, 17, 18, 19, 34, 37, 43, 49, 62, 101])
            return g
        gp = seq(np_)
        x = 60 + rng.randint(0, 40)
        p = [x]
        for g in gp:
            p.append(p[-1] + g)
        style = rng.random()
        if style < 0.5:     # one apocenter between pericenters, then edits
            a = [p[0] - 11] + [(u + v) // 2 for u, v in zip(p, p[1:])] + [p[-1] + 11]
            for _ in range(rng.choice([0, 1, 2, 3])):
                if len(a) > 3:
                    a.pop(rng.choice([0, -1, rng.randrange(len(a))]))
            for _ in range(rng.choice([0, 0, 1, 2])):
                a = sorted(set(a + [rng.choice([a[0] - 21, a[-1] + 22, a[0] - rng.randint(5, 50), a[-1] + rng.randint(5, 50)])]))
        else:
            ga = seq(na)
            a = [x + rng.randint(-40, 60)]
            for g in ga:
                a.append(a[-1] + g)
        a = sorted(set(z for z in a if z > 0 and z not in p))
        if rng.random() < 0.5:
            p, a = a, p
        if len(p) < 2 or len(a) < 2:
            continue
        jobs.append(("rand", dict(p=p, a=a)))

    def amb(s):
        g = np.diff(s)
        r = [(2 * v == 3 * u) or (3 * v == 2 * u) for u, v in zip(g, g[1:])]
        return any(r) or any(z == 20 for z in g)
    jobs = [j for j in jobs if not amb(j[1]["p"]) and not amb(j[1]["a"])]
    jobs += [("noisy", i) for i in range(pick(160, 2500))]

    def one(ij):
        i, (kind, x) = ij
        if kind == "noisy":
            z = noisy_case(x)
            if z is not None:
                z["kind"] = kind
            return z
        rng = random.Random(f"{vlib.SEED}:{i}")
        spu = 7 if kind == "gen" else rng.choice([4, 7])
        N = (max(x["p"] + x["a"]) + 8) * spu
        d = build(N, spu, rng.choice([0.0, -500.0]), rng.choice([1.0, 0.5]), i)
        rec = measure(d, x["p"], x["a"], spu, rng, debug=rng.choice([0, 0, -1, 1]))
        rec["kind"] = kind
        return rec
    recs = pmap(one, list(enumerate(jobs)))
    good = []
    for j, x in zip(jobs, recs):
        if x is None:
            continue
        if "died" in x:
            c.violation(f"died:{j}", "process died", j)
        else:
            good.append(x)
    ok = [x for x in good if x["outcome"] == "ok" and len(x["kp"]) < len(x["p"]) and len(x["s"]) > 1]
    controls = []
    if ok:
        b = ok[0]
        controls = [({**b, "kp": [z["i"] for z in b["p"]]}, "kept-pericenters"),
                    ({**b, "hi": b["hi"] + 1}, "time-range"),
                    ({**b, "s": [{**b["s"][0], "e": fx(0.987, 16)}]}, "results-use-kept"),
                    ({**b, "outcome": "error"}, "must-succeed")]
    vlib.judge(c, "JCleaning", good, controls=controls,
               key=lambda i, cl: f"{good[i]['kind']}:{[z['i'] for z in good[i]['p']]}/{[z['i'] for z in good[i]['a']]}:{','.join(sorted(cl))}".replace(" ", ""),
               what=lambda i, cl: f"peri {[z['i'] for z in good[i]['p']]} apo {[z['i'] for z in good[i]['a']]} kept {good[i]['kp']} {good[i]['ka']} violates {sorted(cl)} {good[i]['msg']}")
    c.note(measurements=len(good), with_drops=len([x for x in good if len(x["kp"]) < len(x["p"]) or len(x["ka"]) < len(x["a"])]),
           noisy=len([x for x in good if x["kind"] == "noisy"]))
    for x in good[:2]:
        c.sample({k: x[k] for k in ("p", "a", "kp", "ka", "outcome")})
    c.assumptions += ["gaps exactly at the thresholds (4 pi, ratio 1.5) are excluded: binary64 decides them by round-off"]


main(check, "P07")
