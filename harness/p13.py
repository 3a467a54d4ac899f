"""P13: restricting the analysis to a few orbits selects the right stretch."""
import random
import numpy as np
import vlib
from vlib import Check, tlc_emit, pmap, guarded, pick, main
import synth

U = 10000


def orb(p):
    return int(round(p / (4 * np.pi) * U))


def where(o, full):
    """the analysed stretch as indices of the data, and whether it is a slice"""
    i0 = int(np.searchsorted(full.t, o.t[0]))
    i1 = i0 + len(o.t)
    ok = all(np.array_equal(getattr(o, k), getattr(full, k)[i0:i1]) for k in ("t", "amp_gw", "phase_gw", "omega_gw"))
    return i0, i1, bool(ok)


def mk(d, N, who="Amplitude", ek=None, **kw):
    e = dict(ek or {})
    if N is not None:
        e["use_only_these_many_orbits"] = N
    return synth.methods()[who](d, extra_kwargs=e, debug_level=-1, **kw)


def shifted(d, s):
    d = dict(d)
    for k in ("t", "t_zeroecc"):
        if k in d:
            d[k] = d[k] + s
    return d


def case_model(x, rng):
    """the design model's configurations, realised sample by sample: phases
    10 units to an orbit, here a knot every few samples"""
    m = rng.choice([1, 3, 12])
    ph = np.array(x["ph"], dtype=float) / 10 * 4 * np.pi
    k = np.arange((len(ph) - 1) * m + 1)
    P = np.interp(k, np.arange(len(ph)) * m, ph) * (1 + 1e-9)
    dt = rng.choice([1.0, 0.5])
    t0 = rng.choice([0.0, -800.0, 4096.0])
    d = synth.grid_wave(len(k), dt=dt, t0=t0, phase=P)
    n = len(k)
    d = {kk: ({(2, 2): v[(2, 2)][:n + 200]} if isinstance(v, dict) else v[:n + 200]) for kk, v in d.items()}
    # the merger ends the data used
    d["amplm"][(2, 2)] = np.ones(n + 200) * 0.5
    d["amplm"][(2, 2)][n - 1] = 1.0
    i, j = (x["lo"] - 1) * m, (x["hi"] - 1) * m
    inner = [z for z in range(i, j + 1)]
    refs = [d["t"][z] for z in {i, j, *[rng.choice(inner) for _ in range(3)]}]
    if i < j or rng.random() < 0.5:
        refs = refs + refs[:1]
    rng.shuffle(refs)
    ex = 0
    return d, refs, x["n"], ex, "tref_in"


def record(kind, d, refs, N, ex, key, who, ek, rng, values=False):
    kw = dict(num_orbits_to_exclude_before_merger=ex)
    if rng.random() < 0.3 and key == "tref_in" and len(set(refs)) == 1:
        refs = [refs[0]]
    arr = np.array(refs)
    style = rng.choice(["array", "list"])
    if len(refs) == 1 and rng.random() < 0.5:
        style = "scalar"
    inp = {"array": arr, "list": list(refs), "scalar": refs[0]}[style]
    f = guarded(lambda: mk(d, None, who, ek, **kw, **{key: inp}))
    if not f["ok"]:
        return None
    full = f["value"]
    if len(full.t) < 3:
        return None
    o = guarded(lambda: mk(d, N, who, ek, **kw, **{key: inp}), timeout=60)
    P = full.phase_gw
    r = dict(kind=kind, dom=key[0], who=who, it=(ek or {}).get("omega_gw_extrema_interpolation_method", "rational_fit"),
             got="ok" if o["ok"] else "error", n=orb(4 * np.pi * N), p0=orb(P[0]), p1=orb(P[-1]),
             g=int(np.max(np.diff(P)) / (4 * np.pi) * U) + 2, val=False, slice=True, i0=0, i1=len(full.t), len=len(full.t),
             ps=orb(P[0]), pe=orb(P[-1]), pl=0, pr=0, seg=[], same=True, dano=0, decc=0,
             id=dict(kind=kind, refs=[float(z) for z in refs][:6], N=N, ex=ex, msg=str(o["msg"]), q=str(o.get("tb"))[-300:]))
    if not o["ok"]:
        return r
    g = o["value"]
    r["i0"], r["i1"], r["slice"] = where(g, full)
    r["ps"], r["pe"] = orb(g.phase_gw[0]), orb(g.phase_gw[-1])
    if key == "tref_in":
        T = np.array(refs)
    else:
        T = values
        if T is None:
            return None
    pp = [P[int(np.argmin(abs(full.t - z)))] for z in (min(T), max(T))]
    r["pl"], r["pr"] = orb(pp[0]), orb(pp[1])
    # permuted points, another origin of time
    q = list(refs)
    rng.shuffle(q)
    o2 = mk(d, N, who, ek, **kw, **{key: np.array(q if rng.random() < 0.5 else sorted(q, reverse=True))})
    s = rng.choice([1024.0, -2048.0, 65536.0])
    o3 = mk(shifted(d, s), N, who, ek, **kw, **{key: arr + s if key == "tref_in" else arr})
    r["seg"] = [list(where(o2, full)[:2])]
    j0 = int(np.searchsorted(full.t, o3.t[0] - s - 1e-6))
    r["seg"].append([j0, j0 + len(o3.t)])
    return r


def case_pn(rng, i):
    fd = rng.random() < 0.45
    who = rng.choice(["Amplitude", "Frequency", "ResidualAmplitude", "ResidualFrequency"] * 3 + ["AmplitudeFits", "FrequencyFits"])
    e0 = rng.choice([0.05, 0.1, 0.2, 0.3])
    orbits = rng.uniform(12, 45) if "Fits" not in who else rng.uniform(10, 18)
    d = synth.pn(e0=e0, orbits=orbits, dt=rng.choice([0.5, 1.0]), ano0=rng.uniform(0, 6), zeroecc=who.startswith("Res"),
                 adv=rng.choice([0.03, 0.06, 0.1]))
    s = rng.choice([0.0, 0.0, 1024.0, -4096.0])
    d = shifted(d, s)
    ex = rng.choice([2, 2, 1, 3])
    ek = {}
    if rng.random() < 0.7:
        ek["omega_gw_extrema_interpolation_method"] = "spline"
    N = rng.choice([6, 7, 8, 8.5, 10, 11.3, 12, 15, 20, 60])
    if rng.random() < 0.2:
        N = rng.choice([1, 2, 3, 4, 2.5])
    kw = dict(num_orbits_to_exclude_before_merger=ex, extra_kwargs=ek, debug_level=-1)
    cls = synth.methods()[who]
    full = guarded(lambda: (lambda o: (o, o.measure_ecc()))(cls(d, tref_in=d["t"][: -1: 40], **kw)), timeout=90)
    if not full["ok"]:
        return None
    full = full["value"][0]
    lo, hi = full.tmin, full.tmax
    T = None
    if fd:
        ek["omega_gw_averaging_method"] = rng.choice(["mean_of_extrema_interpolants", "orbit_averaged_omega_gw"])
        a, b = full.get_fref_bounds(ek["omega_gw_averaging_method"])
    k = rng.choice([1, 1, 2, 4])
    z = [rng.choice([rng.random(), 0.02 * rng.random(), 1 - 0.02 * rng.random()]) for _ in range(k)]
    if k > 1 and rng.random() < 0.6:
        c = rng.random()
        z = [min(max(c + 0.1 * (v - 0.5), 0.001), 0.999) for v in z]
    if fd:
        refs = [float(a + (b - a) * (0.002 + 0.99 * v)) for v in z]
    else:
        refs = [float(lo + (hi - lo) * v) for v in z]
        if rng.random() < 0.3:
            # on a grid point
            refs = [float(full.t[int(np.argmin(abs(full.t - v)))]) for v in refs]
    rng.shuffle(refs)
    key = "fref_in" if fd else "tref_in"
    w = guarded(lambda: (lambda o: (o, o.measure_ecc()))(cls(d, **{key: np.array(refs)}, **kw)), timeout=90)
    if not w["ok"]:
        return None
    wo, wr = w["value"]
    if fd:
        if len(wr["fref_out"]) != len(refs):
            return None
        T = wo.tref_out
    r = record("pn", d, refs, N, ex, key, who, ek, rng, values=T)
    # values: enough orbits, points at least two orbits from the ends
    if r is None or r["got"] != "ok" or N < 6 or r["pl"] - r["p0"] < 2 * U or r["p1"] - r["pr"] < 2 * U:
        return r
    ek2 = dict(ek)
    ek2["use_only_these_many_orbits"] = N
    v = guarded(lambda: cls(d, **{key: np.array(refs)}, num_orbits_to_exclude_before_merger=ex, extra_kwargs=ek2, debug_level=-1).measure_ecc(), timeout=90)
    r["val"] = True
    r["id"].update(msg=str(v["msg"]), orbits=orbits, e0=e0)
    if not v["ok"]:
        r["same"] = False
        return r
    v = v["value"]
    ko = key[0] + "ref_out"
    r["same"] = bool(np.array_equal(np.atleast_1d(v[ko]), np.atleast_1d(wr[ko])))
    if r["same"]:
        dl = np.abs(np.atleast_1d(v["mean_anomaly"]) - np.atleast_1d(wr["mean_anomaly"]))
        r["dano"] = int(min(1e9, np.max(np.minimum(dl, 2 * np.pi - dl)) * 1e8))
        r["decc"] = int(min(1e9, np.max(abs(np.atleast_1d(v["eccentricity"]) - np.atleast_1d(wr["eccentricity"]))) / np.min(np.atleast_1d(wr["eccentricity"])) * 1e8))
    return r


def one(job):
    kind, x, i = job
    rng = random.Random(f"{vlib.SEED}:{kind}:{i}:{x}")
    if kind == "model":
        d, refs, n, ex, key = case_model(x, rng)
        return record(kind, d, refs, n if rng.random() < 0.7 else float(n), ex, key, "Amplitude", None, rng)
    return case_pn(rng, i)


def check(c: Check):
    vlib.import_gwecc()
    c.tlc(vlib.tlc("Segment", defs=pick("CONSTANTS Len0 = 6 Gaps = {3, 7, 16} Ns = {1, 2, 3, 4} Emit = FALSE",
                                        "CONSTANTS Len0 = 8 Gaps = {3, 7, 16} Ns = {1, 2, 3, 4, 5} Emit = FALSE"),
                   workers=8, timeout=800))
    r, cases = tlc_emit("Segment", defs="CONSTANTS Len0 = 7 Gaps = {3, 16} Ns = {1, 2, 3, 4, 7} Emit = TRUE", workers=4)
    c.tlc(r)
    rng = random.Random(vlib.SEED)
    if not vlib.THOROUGH:
        cases = rng.sample(cases, min(len(cases), 3000))
    jobs = [("model", x, 0) for x in cases] + [("pn", None, i) for i in range(pick(700, 12000))]
    recs = [z for z in pmap(one, jobs) if z]
    c.note(model_configurations=sum(z["kind"] == "model" for z in recs), waveforms=sum(z["kind"] == "pn" for z in recs),
           values_compared=sum(z["val"] for z in recs), short_waveforms=sum(z["p1"] - z["p0"] < z["n"] for z in recs),
           cut_at_the_start=sum(z["i0"] == 0 and z["i1"] < z["len"] - 1 for z in recs),
           cut_at_the_end=sum(z["i0"] > 0 and z["i1"] >= z["len"] - 1 for z in recs))
    for z in recs[:2] + recs[-2:]:
        c.sample({k: z[k] for k in ("id", "i0", "i1", "len", "pl", "pr", "n")})

    def mod(pred, **kw):
        def f():
            z = dict(next(z for z in recs if z["got"] == "ok" and pred(z)))
            z.update({k: (v(z) if callable(v) else v) for k, v in kw.items()})
            return z
        return f
    mid = lambda z: z["kind"] == "pn" and z["dom"] == "t" and z["i0"] > 5 and z["i1"] < z["len"] - 5 and z["n"] >= 4 * U
    controls = [(mod(mid, slice=False), "not-contiguous"),
                (mod(mid, ps=lambda z: z["pl"] + 3 * z["g"], seg=[]), "reference-outside"),
                (mod(mid, ps=lambda z: z["pl"] - z["n"] // 3), "reach-left"),
                (mod(mid, pe=lambda z: z["pr"] + z["n"] // 3), "reach-right"),
                (mod(lambda z: mid(z) and z["pl"] == z["pr"], pe=lambda z: z["pr"] + z["n"] // 4, ps=lambda z: z["pl"] - z["n"] // 2), "too-short"),
                (mod(mid, ps=lambda z: z["pl"] - 2 * z["n"] - 3 * U), "too-long"),
                (mod(lambda z: z["p1"] - z["p0"] < z["n"] - 5, i0=2), "not-whole"),
                (mod(mid, seg=lambda z: [z["seg"][0], [z["i0"] + 1, z["i1"]]]), "order-or-origin"),
                (mod(lambda z: z["val"], same=False), "other-references"),
                (mod(lambda z: z["val"] and z["dom"] == "t", dano=1000), "anomaly"),
                (mod(lambda z: z["val"], decc=7000000), "eccentricity"),
                (mod(lambda z: True, got="error"), "rejected")]
    vlib.judge(c, "JSegment", recs, controls=controls,
               key=lambda i, cl: f"{recs[i]['kind']}:{recs[i]['dom']}:{'+'.join(sorted(cl))}:{recs[i]['id']}"[:200],
               what=lambda i, cl: f"{sorted(cl)}: {recs[i]['who']} {recs[i]['it']} {({k: v for k, v in recs[i].items() if k != 'id'})} {recs[i]['id']}")
    c.assumptions += ["orbits are counted as gw phase / 4 pi; one sample of slack at the ends of the stretch",
                      "requests by frequency: the position of the reference points is only estimated when the stretch is chosen: "
                      "1.5 orbits of slack",
                      "values are compared for at least six orbits and points two orbits from the ends: mean anomaly 2e-8, "
                      "eccentricity 3% (by frequency 0.05 rad, 6%)"]


if __name__ == "__main__":
    main(check, "P13")
