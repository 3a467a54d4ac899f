"""P14: results are invariant under changes of origin and units."""
import random
import numpy as np
import vlib
from vlib import Check, tlc_emit, pmap, guarded, pick, main
import synth

TAGS = ("", "_zeroecc")


def as_modes(d):
    """complex modes, without frequency"""
    out = {k: v for k, v in d.items() if k.startswith("t")}
    for s in TAGS:
        if "amplm" + s in d:
            out["hlm" + s] = {m: d["amplm" + s][m] * np.exp(-1j * d["phaselm" + s][m]) for m in d["amplm" + s]}
    return out


class State:
    """a waveform dictionary, its request and how both were transformed"""

    def __init__(s, d, ref, fd):
        s.d, s.ref, s.fd, s.unit, s.shift = d, ref, fd, 1.0, 0.0

    def apply(s, op, rng):
        d = dict(s.d)
        if op == "shift":
            v = rng.choice([1000.0, -333.3, 12345.678, -2 ** 20 * 1.0, 1e-3, 1e7 + 0.1, -3.3e6, 33333333.3]) * s.unit
            both = rng.random() < 0.7       # the quasicircular origin is free
            for tag in TAGS:
                if "t" + tag in d and (both or tag == ""):
                    d["t" + tag] = d["t" + tag] + v
            if not s.fd:
                s.ref = s.ref + v
            s.shift += v
        elif op == "unit":
            c = rng.choice([4.925490947e-6 * 30, 0.5, 2.0, 4.925490947e-6 * 1e6, 1000.0, 3.0])
            for tag in TAGS:
                if "t" + tag in d:
                    d["t" + tag] = d["t" + tag] * c
                if "omegalm" + tag in d:
                    d["omegalm" + tag] = {m: w / c for m, w in d["omegalm" + tag].items()}
            s.ref = s.ref / c if s.fd else s.ref * c
            s.unit *= c
            s.shift *= c
        elif op == "amp":
            c = rng.choice([1e-21, 0.5, 7.0, 1e3, 1e-4])
            for tag in TAGS:
                for k in ("amplm", "hlm"):
                    if k + tag in d:
                        d[k + tag] = {m: w * c for m, w in d[k + tag].items()}
        elif op == "phase":
            c = rng.choice([0.3, 2 * np.pi, -40.0, 1e4, np.pi])
            for tag in TAGS:
                if "phaselm" + tag in d and rng.random() < 0.8:
                    d["phaselm" + tag] = {m: w + c for m, w in d["phaselm" + tag].items()}
        elif op == "rotate":
            for tag in TAGS:
                c = rng.uniform(-7, 7)
                if "hlm" + tag in d:
                    d["hlm" + tag] = {m: w * np.exp(1j * c) for m, w in d["hlm" + tag].items()}
        s.d = d


def request(rng, who):
    zero = who.startswith("Res") or rng.random() < 0.3
    small = not who.startswith("Amplitude") and not who.startswith("Freq") or who.endswith("Fits")
    d = synth.pn(e0=rng.choice([0.05, 0.1, 0.2, 0.35]) if small else rng.choice([0.15, 0.2, 0.35]), orbits=rng.uniform(9, 18), dt=rng.choice([1.0, 0.5]),
                 ano0=rng.uniform(0, 6), zeroecc=zero, adv=rng.choice([0.05, 0.1]))
    if rng.random() < 0.3:
        for s in TAGS:
            d.pop("omegalm" + s, None)
    opt = dict(extra={}, kw={})
    opt["extra"]["omega_gw_extrema_interpolation_method"] = rng.choice(["spline", "rational_fit"])
    if zero and rng.random() < 0.4:
        opt["extra"]["omega_gw_averaging_method"] = rng.choice(["mean_of_extrema_interpolants", "omega_gw_zeroecc"])
    if rng.random() < 0.2:
        opt["extra"]["treat_mid_points_between_pericenters_as_apocenters"] = True
    if rng.random() < 0.25:
        opt["kw"]["num_orbits_to_exclude_before_merger"] = rng.choice([1, 3, 2.5])
    if rng.random() < 0.2 and not who.endswith("Fits"):
        opt["extra"]["use_only_these_many_orbits"] = rng.choice([6, 7])
    return d, opt


def measure(st, who, opt):
    o = synth.methods()[who](dict(st.d), extra_kwargs=dict(opt["extra"]), debug_level=-1, **opt["kw"], **{"fref_in" if st.fd else "tref_in": st.ref})
    return o, o.measure_ecc()


def bounds(st, who, opt):
    o = synth.methods()[who](dict(st.d), extra_kwargs=dict(opt["extra"]), debug_level=-1, **opt["kw"], tref_in=np.array([st.d["t"][len(st.d["t"]) // 2]]))
    o.measure_ecc()
    return o


def lists(a, b):
    if len(a) == len(b):
        return 0
    if len(a) > len(b):
        a, b = b, a
    return 1 if len(b) == len(a) + 1 and (np.max(np.abs(b[1:] - a), initial=0) <= 1 or np.max(np.abs(b[:-1] - a), initial=0) <= 1) else 2


def rel(a, b):
    a, b = np.atleast_1d(a), np.atleast_1d(b)
    if a.shape != b.shape:
        return 10 ** 9
    return int(min(1e9, 1e9 * np.max(np.abs(a - b) / np.maximum(np.abs(b), 1e-300)))) if a.size else 0


def one(job):
    who, ops, rep, i = job
    rng = random.Random(f"{vlib.SEED}:{who}:{i}")
    d, opt = request(rng, who)
    if rep == "h":
        d = as_modes(d)
    st = State(d, None, False)
    b = guarded(lambda: bounds(st, who, opt))
    if not b["ok"]:
        return []
    g = b["value"]
    lo, hi = max(g.t_pericenters[0], g.t_apocenters[0]), min(g.t_pericenters[-1], g.t_apocenters[-1])
    if not hi > lo:
        return []
    tr = np.sort(np.array([rng.uniform(lo, hi) for _ in range(4)]))
    if rng.random() < 0.25:
        tr = np.append(tr, [lo - 5 * (hi - lo), hi + 10 * (hi - lo)])     # outside, to be left out
    fd = rng.random() < 0.4
    if fd:
        f = guarded(lambda: g.get_fref_bounds())
        if not f["ok"]:
            return []
        f0, f1 = f["value"]
        ref = np.array([f0 + (f1 - f0) * rng.uniform(0.05, 0.95) for _ in range(3)])
        if rng.random() < 0.25:
            ref = np.append(ref, [f0 * 0.5])
    else:
        ref = tr
    st = State(d, ref, fd)
    a = guarded(lambda: measure(st, who, opt))
    for op in ops:
        st.apply(op, rng)
    z = guarded(lambda: measure(st, who, opt))
    out = dict(kind="pair", unit=any(x == "unit" for x in ops), degrees=False, who=who, got1=a["ok"], got2=z["ok"], n=0, dext=0, cnt=0, de=0, dl=0, dref=0, fits=who.endswith("Fits"), rat=opt["extra"]["omega_gw_extrema_interpolation_method"] == "rational_fit",
               fd=fd, id=dict(i=i, ops=ops, rep=rep, opt=str(opt), unit=st.unit, shift=st.shift, msg=str(a["msg"])[:150], msg2=str(z["msg"])[:150]))
    if not (a["ok"] and z["ok"]):
        return [out]
    (o, r), (o2, r2) = a["value"], z["value"]
    p, p2, q, q2 = (np.array(v, dtype=int) for v in (o.pericenters_location, o2.pericenters_location, o.apocenters_location, o2.apocenters_location))
    out["cnt"] = max(lists(p, p2), lists(q, q2))
    if not out["cnt"]:
        out["dext"] = int(max(np.max(np.abs(p - p2), initial=0), np.max(np.abs(q - q2), initial=0)))
    out["n"] = len(np.atleast_1d(r["eccentricity"]))
    e, e2, l, l2 = (np.atleast_1d(v) for v in (r["eccentricity"], r2["eccentricity"], r["mean_anomaly"], r2["mean_anomaly"]))
    if e.shape != e2.shape:
        out["de"] = 10 ** 9
        return [out]
    out["de"] = int(min(1e9, 1e9 * np.max(np.abs(e - e2), initial=0)))
    dl = np.abs(l - l2)
    out["dl"] = int(min(1e9, 1e9 * np.max(np.minimum(dl, 2 * np.pi - dl), initial=0)))
    if fd:
        out["dref"] = rel(r2["fref_out"] * st.unit, r["fref_out"])
    else:
        dt = (o.t[1] - o.t[0])
        x = np.abs((r2["tref_out"] - st.shift) / st.unit - r["tref_out"]) / dt
        out["dref"] = int(min(1e9, 1e9 * np.max(x, initial=0)))
    if hasattr(o, "rational_fit_degrees") and hasattr(o2, "rational_fit_degrees"):
        out["degrees"] = o.rational_fit_degrees != o2.rational_fit_degrees
    return [out]


def check(c: Check):
    vlib.import_gwecc()
    c.tlc(vlib.tlc("Units", defs="CONSTANTS Levels = {1, 2, 3} K = 8 MaxOps = 1 Emit = FALSE", workers=8))
    c.tlc(vlib.tlc("Units", defs=f"CONSTANTS Levels = {{1, 2}} K = 8 MaxOps = {pick(2, 3)} Emit = FALSE", workers=8))
    r, words = tlc_emit("Units", defs="CONSTANTS Levels = {1} K = 5 MaxOps = 3 Emit = TRUE", workers=4)
    c.tlc(r)
    rng = random.Random(vlib.SEED)
    # single transformations of each kind, for every method, and compositions
    jobs, i = [], 0
    for who in synth.methods():
        w = [([op], rep) for op in ("shift", "unit", "amp", "phase", "rotate") for rep in (["h"] if op == "rotate" else ["ap"] if op == "phase" else ["h", "ap"])]
        w = w * pick(5, 60) + [(x["ops"], x["rep"]) for x in (rng.sample(words, 60) if vlib.TIER == "quick" else words * 8)]
        for ops, rep in w:
            jobs.append((who, ops, rep, i))
            i += 1
    recs = [z for y in pmap(one, jobs) for z in (y or [])]
    c.note(words=len(words), pairs=len(recs), both_values=sum(z["got1"] and z["got2"] for z in recs), both_errors=sum(not z["got1"] and not z["got2"] for z in recs),
           same_extrema=sum(z["got1"] and z["got2"] and z["dext"] == 0 and not z["cnt"] for z in recs), other_degrees=sum(z["degrees"] for z in recs))
    recs.append(dict(kind="edges", n=len(recs), edge=sum(z["cnt"] == 1 for z in recs), id="all"))
    c.sample(recs[0])

    def mod(pred, **kw):
        def f():
            z = dict(next(z for z in recs if pred(z)))
            z.update(kw)
            return z
        return f
    ok = lambda z: z["kind"] == "pair" and z["got1"] and z["got2"] and z["dext"] == 0 and z["cnt"] == 0
    controls = [(mod(ok, got2=False), "fails-in-one-unit"), (mod(ok, cnt=2), "other-extrema"), (mod(ok, dext=2), "other-extrema"),
                (mod(lambda z: ok(z) and not z["rat"], de=10 ** 5), "other-eccentricity"), (mod(lambda z: ok(z) and not z["fd"], dl=10 ** 5), "other-anomaly"),
                (mod(ok, dref=10 ** 5), "references-not-transformed"), (dict(kind="edges", n=100, edge=10), "edges-often-differ")]
    vlib.judge(c, "JUnits", recs, controls=controls,
               key=lambda i, cl: f"{recs[i]['kind']}:{'+'.join(sorted(cl))}:{recs[i].get('who')}:{recs[i]['id']}"[:200],
               what=lambda i, cl: f"{sorted(cl)}: {recs[i]}")


if __name__ == "__main__":
    main(check, "P14")
