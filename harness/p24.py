"""P24: quasicircular data is aligned at merger and never extrapolated."""
import random
import numpy as np
import vlib
from vlib import Check, tlc_emit, pmap, guarded, pick, main
import synth

V = 1e-8          # data unit
W = 200           # half width of the merger peak, quarter units


def poly(c, tau):
    return c[0] + c[1] * tau + c[2] * tau * tau


def peak(body, tau):
    """body with an exactly parabolic merger at tau = 0"""
    h, e = 2.0 / V, 0.6 / V
    return np.where(abs(tau) < W, np.maximum(body, h - (h - e) * (tau / W) ** 2), body)


def qc(rng, zs, ze, zm, dz, cA, cW, rep, prec):
    """quasicircular data on zs, zs+dz, ..., merger at zm (quarter units)"""
    t = np.arange(zs, ze + 1, dz)
    tau = (t - zm).astype(float)
    A = peak(poly(cA, tau), tau) * V
    # phase: integral of the frequency polynomial
    P = (cW[0] * tau + cW[1] * tau ** 2 / 2 + cW[2] * tau ** 3 / 3) * V / 4
    Om = poly(cW, tau) * V
    d = {"t_zeroecc": t / 4.0}
    other = None
    if not prec and rng.random() < 0.3:
        # the merger is the peak of all modes together, not of the (2, 2) mode
        A22 = poly(cA, tau) * V + 0.8 * np.maximum(0.0, 1 - ((tau - 50) / 100.0) ** 2)
        A22 = np.minimum(A22, A)
        other = np.sqrt(np.maximum(A * A - A22 * A22, 0.0))
        A = A22
    if rep == "hlm":
        d["hlm_zeroecc"] = {(2, 2): A * np.exp(-1j * P)}
        if other is not None:
            d["hlm_zeroecc"][(3, 3)] = other * np.exp(-1.5j * P)
        if prec:
            d["hlm_zeroecc"][(2, -2)] = A * np.exp(1j * P)
    else:
        d["amplm_zeroecc"] = {(2, 2): A}
        d["phaselm_zeroecc"] = {(2, 2): P}
        if rep == "omega":
            d["omegalm_zeroecc"] = {(2, 2): Om}
        if prec:
            d["amplm_zeroecc"][(2, -2)] = A.copy()
            d["phaselm_zeroecc"][(2, -2)] = -P
            if rep == "omega":
                d["omegalm_zeroecc"][(2, -2)] = -Om
        elif other is not None or rng.random() < 0.2:
            d["amplm_zeroecc"][(3, 3)] = 0.2 * A if other is None else other
            d["phaselm_zeroecc"][(3, 3)] = 1.5 * P
            if rep == "omega":
                d["omegalm_zeroecc"][(3, 3)] = 1.5 * Om
    return d


def build(x, rng):
    de = rng.choice([2, 3, 4])
    T = 80
    sc = rng.choice([1, 40])                     # scale of the start offset
    em = int(x["eo"] * rng.choice([0, 1, -400, 1000]))
    es = em - (8 * T * de + rng.choice([1, 2, 3, de]))
    n = int(10.5 * T)
    q = es + de * np.arange(n)
    tau = (q - em).astype(float)
    lead = x["lead"] - 13
    zm = int(x["zo"] * rng.choice([0, 1, -400, 1000]))
    dz = rng.choice([x["dz"], 2, 5])
    cA = [rng.randint(15000000, 25000000), rng.choice([-1, 1]) * rng.randint(100, 1000), rng.choice([0, 1, 2])]
    cW = [rng.randint(12000000, 20000000), rng.randint(0, 300), rng.choice([0, 1])]
    if cW[2] == 0:
        cW[1] = rng.randint(300, 1500)
    # start exactly lead * sc quarters before the eccentric one
    zs = zm + (es - em) - lead * sc
    ze = zm + x["tail"] * 40
    # the grid ends at or before ze: move the end to a grid point
    ze = zs + ((ze - zs) // dz) * dz if x["tail"] >= 0 else zs + ((ze - zs) // dz) * dz
    k = np.arange(n)
    osc = np.cos(2 * np.pi * (k - 20) / T)
    eA = np.round(peak(np.round(2.2e7 + 2e6 * osc + 300 * k), tau))
    A = eA * V
    P = 4 * np.pi * 1.05 * k / T + 0.3 * np.sin(2 * np.pi * (k - 20) / T)
    eO = np.round((4 * np.pi * 1.05 / T / (de / 4.0)) * (1 + 0.2 * osc) / V)
    Om = eO * V
    prec = rng.random() < 0.2
    d = {"t": q / 4.0, "amplm": {(2, 2): A}, "phaselm": {(2, 2): P}, "omegalm": {(2, 2): Om}}
    if prec:
        d["amplm"][(2, -2)] = A.copy()
        d["phaselm"][(2, -2)] = -P
        d["omegalm"][(2, -2)] = -Om
    rep = rng.choice(["hlm", "amp", "omega"])
    d.update(qc(rng, zs, ze, zm, dz, cA, cW, rep, prec))
    ex = (list(range(20, n - 10, T)), list(range(60, n - 10, T)))
    kw = dict(precessing=True, frame="coprecessing") if prec else {}
    return dict(d=d, q=q, em=em, es=es, zs=zs, ze=ze, zm=zm, de=de, dz=dz, cA=cA, cW=cW, eA=eA, eO=eO, ex=ex, kw=kw, prec=prec, rep=rep)


def model(x, rng):
    b = build(x, rng)
    d, q, em = b["d"], b["q"], b["em"]
    base = rng.choice(["ResidualAmplitude", "ResidualFrequency"])
    out = []
    # relative to the merger
    ref = {-11: -1500, -2: -300, 3: 120, 6: 240}[x["ref"]]
    refs = [ref]
    if rng.random() < 0.4:
        refs += rng.sample([-1400, -900, -310, 117, 235], 2)
        rng.shuffle(refs)
    NO = rng.choice([None, None, None, 1, 2]) if max(refs) < 0 else None
    lim = None
    if NO is not None:
        ex = (lambda o: ([z for z in b["ex"][0] if z < len(o.t) - 3], [z for z in b["ex"][1] if z < len(o.t) - 3]))
    else:
        ex = b["ex"]
    inp = np.array([(r + em) / 4.0 for r in refs]) if len(refs) > 1 or rng.random() < 0.5 else (refs[0] + em) / 4.0
    mk = lambda **k: synth.controlled_obj(d, ex, base=base, tref_in=inp, num_orbits_to_exclude_before_merger=NO, debug_level=-1, **b["kw"], **k)
    o = guarded(mk)
    m = guarded(lambda: mk().measure_ecc()) if o["ok"] else o
    if o["ok"]:
        g = o["value"]
        # admissible times: between the extrema given
        P, A = (ex(g) if callable(ex) else ex)
        if not P or not A:
            return []
        tl, th = max(g.t[P[0]], g.t[A[0]]), min(g.t[P[-1]], g.t[A[-1]])
        used = [r for r in refs if tl <= (r + em) / 4.0 <= th]
        if not used:
            return []
    else:
        used = refs
    r = dict(kind="accept", lead=b["es"] - em - (b["zs"] - b["zm"]), tail=b["ze"] - b["zm"], refs=used,
             got="values" if m["ok"] else "error", id=dict(x=x, base=base, NO=NO, prec=b["prec"], msg=str(m["msg"])[:200]))
    out.append(r)
    if o["ok"]:
        g = o["value"]
        ek = {}
        if rng.random() < 0.2 and NO is None:
            ek["use_only_these_many_orbits"] = rng.choice([2, 3, 4])
            z = guarded(lambda: mk(extra_kwargs=ek))
            if not z["ok"]:
                return out
            g = z["value"]
        data = guarded(lambda: np.asarray(g.get_data_for_finding_extrema()))
        if not data["ok"] or len(data["value"]) != len(g.t):
            out.append(dict(kind="law", c=[0, 0, 0], tol=0, pts=[dict(t=0, e=0, got=10 ** 8)], id=dict(x=x, msg=str(data["msg"]))))
            return out
        amp = base == "ResidualAmplitude"
        c, e = (b["cA"], b["eA"]) if amp else (b["cW"], b["eO"])
        i0 = int(round((g.t[0] * 4 - b["es"]) / b["de"]))
        n = len(g.t)
        far = W + 60 * b["dz"]
        ok = []
        for j in range(n):
            tau = int(b["q"][i0 + j]) - em
            inside = b["zs"] - b["zm"] <= tau <= b["ze"] - b["zm"]
            if inside and (not amp or abs(tau) > far):
                ok.append(j)
        # the frequency from complex modes or phases is only a derivative at the ends
        if not ok:
            return out
        S = sorted({ok[0], ok[-1], *rng.sample(ok, min(10, len(ok)))})
        pts = [dict(t=int(b["q"][i0 + j]) - em, e=int(e[i0 + j]), got=int(round(float(np.clip(data["value"][j], -20, 20)) / V))) for j in S]
        out.append(dict(kind="law", c=c, tol=20, pts=pts, id=dict(x=x, base=base, rep=b["rep"], prec=b["prec"], ek=str(ek))))
        if m["ok"] and "use_only_these_many_orbits" not in ek and rng.random() < 0.5:
            def av():
                g2 = mk()
                g2.measure_ecc()
                return g2.get_omega_gw_average("omega_gw_zeroecc")
            a = guarded(av)
            if a["ok"]:
                t, w = a["value"]
                S = sorted(rng.sample(range(len(t)), min(8, len(t))))
                tt = [int(round(t[j] * 4)) - em for j in S]
                out.append(dict(kind="law", c=b["cW"], tol=20, id=dict(x=x, what="average", rep=b["rep"]),
                                pts=[dict(t=tau, e=0, got=-int(round(float(w[j]) / V))) for j, tau in zip(S, tt)]))
    return out


def same(rng):
    """clean waveforms: other origins, lengths, samplings of the reference data"""
    who = rng.choice(["ResidualAmplitude", "ResidualFrequency"])
    kw = dict(e0=rng.choice([0.02, 0.1, 0.3]), orbits=rng.uniform(8, 20), ano0=rng.uniform(0, 6), adv=rng.choice([0.03, 0.08]))
    d = synth.pn(dt=1.0, **kw)
    fd = rng.random() < 0.4
    ek = {"omega_gw_extrema_interpolation_method": rng.choice(["spline", "rational_fit"])}
    if fd:
        ek["omega_gw_averaging_method"] = rng.choice(["omega_gw_zeroecc", "orbit_averaged_omega_gw", "mean_of_extrema_interpolants"])

    def run(w, ref):
        o = synth.methods()[who](w, extra_kwargs=dict(ek), debug_level=-1, **{"fref_in" if fd else "tref_in": ref})
        r = o.measure_ecc()
        return o, r
    o = guarded(lambda: run(d, np.linspace(d["t"][0] * 0.6, d["t"][0] * 0.4, 3) if not fd else np.array([0.0068, 0.0075])))
    if not o["ok"]:
        return []
    o, r = o["value"]
    ref = np.linspace(d["t"][0] * 0.6, d["t"][0] * 0.4, 3) if not fd else np.array([0.0068, 0.0075])
    out = []
    # a longer reference waveform to cut from
    how = rng.choice(["origin", "ecc-origin", "start", "end", "sampling"])
    e = {k: (dict(v) if isinstance(v, dict) else v) for k, v in d.items()}
    cut = lambda s: {k: ({m: y[s] for m, y in v.items()} if isinstance(v, dict) else v[s]) for k, v in e.items() if k.endswith("_zeroecc")}
    dt = 0.0
    exact = True
    if how == "origin":
        e["t_zeroecc"] = d["t_zeroecc"] + rng.choice([1024.0, -8192.0, 65536.0])
    elif how == "ecc-origin":
        dt = rng.choice([1024.0, -8192.0, 65536.0])
        e["t"] = d["t"] + dt
    elif how == "start":
        e.update(cut(slice(rng.randint(1, 280), None)))
    elif how == "end":
        k = int(np.searchsorted(d["t_zeroecc"], 2.0))
        e.update(cut(slice(None, rng.randint(k + 3, k + 50))))
    else:
        f = synth.pn(dt=rng.choice([0.5, 0.8]), **kw)
        exact = False
        for k in f:
            if k.endswith("_zeroecc"):
                e[k] = f[k]
    z = guarded(lambda: run(e, ref if fd else ref + dt))
    rec = dict(kind="same", how=how, exact=exact, dext=10 ** 6, dval=10 ** 6, id=dict(kw=str(kw), who=who, how=how, fd=fd, ek=str(ek), msg=str(z["msg"])))
    if z["ok"]:
        o2, r2 = z["value"]
        D = 0
        for k in ("pericenters_location", "apocenters_location"):
            p, p2 = getattr(o, k), getattr(o2, k)
            D = max(D, 10 ** 6 if len(p) != len(p2) else int(np.max(np.abs(p - p2))))
        rec["dext"] = D
        # moving an origin moves the merger by rounding only
        if np.shape(r["eccentricity"]) == np.shape(r2["eccentricity"]):
            dl = abs(r["mean_anomaly"] - r2["mean_anomaly"])
            v = max(np.max(np.minimum(dl, 2 * np.pi - dl)), np.max(abs(r["eccentricity"] - r2["eccentricity"])))
            rec["dval"] = int(min(10 ** 6, v * 1e7))
    return [rec]


def one(job):
    kind, x, i = job
    rng = random.Random(f"{vlib.SEED}:{kind}:{i}:{x}")
    return model(x, rng) if kind == "model" else same(rng)


def check(c: Check):
    vlib.import_gwecc()
    c.tlc(vlib.tlc("Align", defs="CONSTANTS Origins = {0, 5, 100} Emit = FALSE", workers=4))
    r, cases = tlc_emit("Align", defs="CONSTANTS Origins = {0, 5, 100} Emit = TRUE", workers=1)
    c.tlc(r)
    rng = random.Random(vlib.SEED)
    cases = [x for x in cases if x["tail"] >= -3]
    if not vlib.THOROUGH:
        cases = rng.sample(cases, min(len(cases), 1500))
    jobs = [("model", x, i) for x in cases for i in range(pick(1, 6))] + [("same", None, i) for i in range(pick(250, 4000))]
    recs = [z for y in pmap(one, jobs) for z in (y or [])]
    c.note(laws=sum(z["kind"] == "law" for z in recs), acceptance=sum(z["kind"] == "accept" for z in recs),
           accepted=sum(z["kind"] == "accept" and z["got"] == "values" for z in recs), equivalent=sum(z["kind"] == "same" for z in recs))
    for k in ("law", "accept", "same"):
        c.sample(next((z for z in recs if z["kind"] == k), None))

    def mod(pred, **kw):
        def f():
            z = dict(next(z for z in recs if pred(z)))
            z.update({k: (v(z) if callable(v) else v) for k, v in kw.items()})
            return z
        return f
    acc = lambda z: z["kind"] == "accept" and z["got"] == "values" and z["lead"] > 0
    law = lambda z: z["kind"] == "law" and z["c"][1] > 200
    controls = [(mod(law, pts=lambda z: [dict(p, t=p["t"] + 1) for p in z["pts"]]), "misaligned"),
                (mod(law, pts=lambda z: z["pts"][:-1] + [dict(z["pts"][-1], got=z["pts"][-1]["got"] + 40)]), "misaligned"),
                (mod(acc, lead=-1), "starts-later"), (mod(acc, tail=-1), "ends-before-merger"),
                (mod(acc, refs=lambda z: [z["tail"] + 1]), "reference-beyond-end"), (mod(acc, got="error"), "valid-rejected"),
                (mod(lambda z: z["kind"] == "same", dext=2), "other-extrema"),
                (mod(lambda z: z["kind"] == "same", dval=400000), "other-values")]
    vlib.judge(c, "JAlign", recs, controls=controls,
               key=lambda i, cl: f"{recs[i]['kind']}:{'+'.join(sorted(cl))}:{recs[i]['id']}"[:200],
               what=lambda i, cl: f"{sorted(cl)}: {recs[i]}")
    c.assumptions += ["limits met exactly (start with start, end with merger or reference time) are not judged: the merger is only known to rounding",
                      "residuals are checked away from the merger peak, 2e-7 absolute; data interpolated by a cubic spline reproduces the quadratic reference data exactly"]


if __name__ == "__main__":
    main(check, "P24")
