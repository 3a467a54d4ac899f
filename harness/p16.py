"""P16: every method reports true, consecutive, ordered extrema."""
import random
import numpy as np
from scipy.interpolate import InterpolatedUnivariateSpline as Spline
import vlib
from vlib import Check, tlc_emit, pmap, guarded, pick, main
import synth

DIRECT = ("Amplitude", "Frequency")
ECC = {1: 0.04, 2: 0.12, 3: 0.2, 4: 0.35}
DT = {1: 0.25, 2: 0.5, 3: 1.0, 4: 2.0}
ORBITS = {1: (9, 11), 2: (11, 16), 3: (16, 26), 4: (26, 45)}


def searched(d, who, n):
    """the data a method searches, from the waveform alone (not for fits)"""
    t = d["t"]
    if who in ("Amplitude", "ResidualAmplitude"):
        y = d["amplm"][2, 2]
        if who.startswith("Res"):
            y = y - Spline(d["t_zeroecc"], d["amplm_zeroecc"][2, 2])(t)
        return y[:n]
    y = Spline(t, d["phaselm"][2, 2]).derivative()(t)
    if who.startswith("Res"):
        y = y - Spline(d["t_zeroecc"], d["phaselm_zeroecc"][2, 2]).derivative()(t)
    return y[:n]


def off_peak(y, idx, sign, w=5):
    out = []
    for i in idx:
        lo, hi = max(i - w, 0), min(i + w + 1, len(y))
        seg = sign * y[lo:hi]
        best = np.flatnonzero(seg >= seg.max() - 1e-9 * np.max(np.abs(seg))) + lo
        out.append(int(np.min(np.abs(best - i))))
    return out


def measure(d, who, opt, tref):
    o = synth.methods()[who](dict(d), tref_in=tref, debug_level=-1, extra_kwargs=opt["extra"], **opt["kw"])
    o.measure_ecc()
    return o


def one(job):
    x, i = job
    rng = random.Random(f"{vlib.SEED}:{i}")
    par = dict(e0=ECC[x["ecc"]] * rng.uniform(0.9, 1.1), dt=DT[x["sampling"]], orbits=rng.uniform(*ORBITS[x["length"]]), q=rng.choice([1, 2, 4, 8]),
               ano0=2 * np.pi * (x["start"] + rng.random()) / 4, adv=rng.choice([0.03, 0.06, 0.1]))
    d, rad = synth.pn(truth=True, **par)
    ex = rng.choice([2, 2, 2, 1.5, 3, 4])
    common = dict(kw={"num_orbits_to_exclude_before_merger": ex}, extra={})
    ph = d["phaselm"][2, 2]
    last = np.flatnonzero(ph[np.argmax(d["amplm"][2, 2])] - ph > 4 * np.pi * ex)[-1]
    periods = int(rad[last] - rad[0])
    out, ano = [], {}
    whos = list(DIRECT) if x["kind"] == "direct" else [w for w in synth.methods() if w not in DIRECT]
    # all methods on the same stretch: the mean anomaly is compared
    tq = np.linspace(d["t"][0], d["t"][-1], 60)
    for who in whos:
        opt = dict(kw=dict(common["kw"]), extra={})
        fits = who.endswith("Fits")
        variant = {}
        if fits:
            if rng.random() < 0.4:
                variant = {"num_orbits": rng.choice([2, 3, 4])}
            if rng.random() < 0.3:
                variant["num_orbits_for_global_fit"] = rng.choice([5, 8, 15])
            if rng.random() < 0.3:
                opt["extra"]["refine_extrema"] = True
            opt["extra"]["kwargs_for_fits_methods"] = variant
        if rng.random() < 0.2:
            opt["extra"]["extrema_finding_kwargs"] = {"width": rng.choice([5, 10, 20])} if not fits else {}
            if fits:
                del opt["extra"]["extrema_finding_kwargs"]
        ident = dict(i=i, who=who, par={k: round(float(v), 6) for k, v in par.items()}, ex=ex, opt=str(opt["extra"]))
        z = guarded(lambda: measure(d, who, opt, tq), timeout=60)
        r = dict(kind="run", got=z["ok"], direct=who in DIRECT, samp=0, p=[], a=[], ip=[], ia=[], dp=[], da=[], start=[], end=[], late=0, peak=[], ref=[], who=who, id=ident)
        out.append(r)
        if fits and periods < 2 * variant.get("num_orbits", 3) + 3:
            # too short for a window of the search
            r["kind"] = "short"
        if not z["ok"]:
            ident["msg"] = str(z["msg"])[:200]
            continue
        o = z["value"]
        P, A = np.asarray(o.pericenters_location, dtype=int), np.asarray(o.apocenters_location, dtype=int)
        n = len(o.t)
        u = rad[:n]
        k, h = np.round(u[P]).astype(int), np.round(u[A] - 0.5).astype(int)
        mil = lambda v: [int(round(1000 * abs(float(q)))) for q in v]
        r.update(samp=int(1000 * np.max(np.diff(u))) + 1, p=k.tolist(), a=h.tolist(), ip=P.tolist(), ia=A.tolist(), dp=mil(u[P] - k), da=mil(u[A] - h - 0.5),
                 late=3300 if fits else 1300, n=len(P))
        if len(P) and len(A):
            r["start"] = mil([u[P[0]] - u[0], u[A[0]] - u[0]])
            r["end"] = mil([u[-1] - u[P[-1]], u[-1] - u[A[-1]]])
        else:
            r["start"] = [10 ** 6]
        if not fits:
            y = searched(d, who, n)
            r["peak"] = off_peak(y, P, 1) + off_peak(y, A, -1)
        for name, loc in (("periastron_info", P), ("apastron_info", A)):
            info = getattr(o, name, None)
            if info is not None and len(info[0]) == len(loc):
                # times relative to the merger, as the fits use them
                sh = np.asarray(info[0]) - o.t[loc]
                per = np.gradient(o.t, u)[loc]
                r["ref"] += mil((sh - (0 if abs(np.median(sh)) < per.min() else np.median(sh))) / per)
        e = dict(zip(np.round(np.atleast_1d(o.tref_out), 9).tolist(), np.atleast_1d(o.mean_anomaly).tolist()))
        ano[who] = (e, max(r["dp"], default=0))
    names = sorted(ano)
    for b, w in enumerate(names):
        for v in names[:b]:
            both = set(ano[w][0]) & set(ano[v][0])
            if both:
                df = np.array([ano[w][0][q] - ano[v][0][q] for q in both])
                df = np.abs((df + np.pi) % (2 * np.pi) - np.pi) / (2 * np.pi)
                # no more than the shifts of the two pericenter lists
                out.append(dict(kind="agree", diff=int(1000 * df.max()), allowed=100 if w in DIRECT or v in DIRECT else 25, n=len(both), who=[w, v], id=dict(i=i, par=str(par))))
    return out


def check(c: Check):
    vlib.import_gwecc()
    base = "CONSTANTS Orbits = {%s} Sizes = {%s} Losses = {%s} "
    none = "Kinds = {} Eccs = {} Samplings = {} Starts = {} Lengths = {} Emit = FALSE"
    sizes, loss = pick(14, 30), pick(6, 9)
    c.tlc(vlib.tlc("Extrema", defs=base % ("2, 3, 4, 5", ", ".join(map(str, range(1, sizes))), ", ".join(map(str, range(loss)))) + none, workers=8))
    r, cases = tlc_emit("Extrema", defs=base % ("3", "7", "0") + 'Kinds = {"direct", "trend"} Eccs = {1, 2, 3, 4} Samplings = {1, 2, 3, 4} Starts = {0, 1, 2, 3} Lengths = {1, 2, 3, 4} Emit = TRUE')
    c.tlc(r)
    seen = {}
    for x in cases:
        seen[str(sorted(x.items()))] = x
    cases = [seen[k] for k in sorted(seen)]
    rng = random.Random(vlib.SEED)
    rng.shuffle(cases)
    cases = cases[:pick(160, len(cases))] * pick(1, 6)
    recs = [z for y in pmap(one, [(x, i) for i, x in enumerate(cases)]) for z in (y or [])]
    runs = [z for z in recs if z["kind"] in ("run", "short")]
    c.note(cases=len(cases), runs=len(runs), measured=sum(z["got"] for z in runs), extrema=sum(len(z["p"]) + len(z["a"]) for z in runs), pairs=len(recs) - len(runs), short=sum(z["kind"] == "short" for z in recs), refined=sum(bool(z["ref"]) for z in runs))
    c.sample(recs[0])

    def mod(pred, fn):
        def f():
            z = dict(next(z for z in recs if pred(z)))
            fn(z)
            return z
        return f
    ok = lambda z: z["kind"] == "run" and z["got"] and len(z["p"]) > 4
    cut = lambda z, k, key: z.update({key: z[key][:k] + z[key][k + 1:]})
    controls = [(mod(ok, lambda z: z.update(got=False)), "fails"), (mod(ok, lambda z: z.update(dp=[400] + z["dp"][1:])), "not-an-extremum"),
                (mod(ok, lambda z: cut(z, 2, "p")), "not-consecutive"), (mod(ok, lambda z: z.update(ia=[z["ia"][0]] + z["ia"][:-1])), "not-in-order"),
                (mod(ok, lambda z: z.update(p=z["p"][2:])), "not-alternating"), (mod(ok, lambda z: z.update(start=[2000, 300])), "misses-the-start"),
                (mod(ok, lambda z: z.update(end=[2000, 300])), "misses-the-end"), (mod(lambda z: ok(z) and z["peak"], lambda z: z.update(peak=[3])), "not-a-local-extremum"),
                (dict(kind="agree", diff=200, allowed=25), "methods-disagree")]
    vlib.judge(c, "JExtrema", recs, controls=controls, key=lambda i, cl: f"{recs[i]['kind']}:{'+'.join(sorted(cl))}:{recs[i]['who']}:{recs[i]['id']}"[:200],
               what=lambda i, cl: f"{sorted(cl)}: {recs[i]}")


if __name__ == "__main__":
    main(check, "P16")
