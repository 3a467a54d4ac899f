"""P18: spin-oscillation filtering happens exactly when required."""
import random
import numpy as np
import vlib
from vlib import Check, tlc_emit, pmap, guarded, pick, main
import synth

RATIO = {0: 0.0, 1: 0.06, 3: 0.32, 5: 2.0}
THR = {1: 0.12, 2: 0.2, 4: 0.55}


def close(a, b, tol=1e-11):
    a, b = np.asarray(a), np.asarray(b)
    return bool(a.shape == b.shape and (not a.size or np.max(np.abs(a - b)) <= tol * max(1e-30, np.max(np.abs(b)))))


def one(job):
    x, i = job
    rng = random.Random(f"{vlib.SEED}:{i}:{x}")
    jit = lambda: rng.uniform(0.92, 1.08)
    dt = rng.choice([1.0, 2.0, 2.0])
    kind = rng.choice(["plain"] * 8 + ["inertial"])
    ra, rw = RATIO[x["amp"]] * jit(), RATIO[x["omega"]] * jit()
    if kind == "inertial":
        ra, rw = min(ra, 0.3), min(rw, 0.3)
    d = synth.asymmetric(rng.uniform(0.08, 0.2), rng.uniform(10, 14), ra, rw, rng.choice([1.7, 2.3] if x["thr"] == 4 else [1.7, 2.3, 3.0]), dt=dt,
                         ano0=rng.uniform(0, 6))
    form = rng.choice(["amp", "amp", "omega", "hlm"])
    if form == "omega":
        from gw_eccentricity.utils import time_deriv_4thOrder
        d["omegalm"] = {m: time_deriv_4thOrder(y, dt) for m, y in d["phaselm"].items()}
    if form == "hlm" or kind == "inertial":
        d = synth.to_hlm(d)
    if kind == "inertial":
        t = d["t"]
        al = 2 * np.pi * 2 * (t - t[0]) / (t[-1] - t[0])
        d = {"t": t, "hlm": synth.precess(d["hlm"], t, al, 0.3 + 0 * t)}
    s = rng.choice([0.0, 0.0, 3000.0, -512.5])
    d["t"] = d["t"] + s
    fk = dict(padding_length=300)
    if x["thr"] != 2 or rng.random() < 0.5:
        fk["filter_threshold"] = THR[x["thr"]]
    if x["src"] != "own":
        fk["data_type_for_filter_requirement_check"] = x["src"]
    elif rng.random() < 0.3:
        fk["data_type_for_filter_requirement_check"] = None
    if x["off"] or rng.random() < 0.3:
        fk["do_not_filter"] = x["off"]
    # where one kind has no asymmetry the other must give the spin frequency
    if x["src"] != "own":
        fk["data_type_for_fspin_estimate"] = x["src"]
    who = rng.choice(["Amplitude", "Frequency"])
    NO = rng.choice([2, 2, 1, None])
    T = rng.randint(60, 90)

    shape = rng.choice(["PA", "AP", "PAP", "APA"])

    def extrema(o):
        P = np.array(o.phase_gw)
        at = lambda z: int(np.argmin(abs(P - P[0] - 4 * np.pi * z)))
        tot = (P[-1] - P[0]) / (4 * np.pi)
        k = [0.3 + 1.06 * j for j in range(int((tot - 1.2) / 1.06))]
        one, two = [at(z) for z in k], [at(z + 0.53) for z in k]
        if len(shape) == 3:
            two = two[:-1]
        return (one, two) if shape[0] == "P" else (two, one)
    kw = dict(tref_in=np.array(d["t"]), precessing=True, frame="inertial" if kind == "inertial" else "coprecessing",
              num_orbits_to_exclude_before_merger=NO, debug_level=-1,
              extra_kwargs={"filter_kwargs": fk, "omega_gw_extrema_interpolation_method": "spline"})
    r = dict(kind="decision", late=True, level=dict(amp=x["amp"], omega=x["omega"]), thr=x["thr"], src=x["src"], off=x["off"], known=kind == "plain",
             got="ok", same=dict(amp=True, omega=True), isfilt=dict(amp=False, omega=False), orig=dict(amp=True, omega=True, phase=True),
             len=True, phplain=True, phint=True, drop=0, id=dict(x=x, kind=kind, who=who, NO=NO, form=form, fk=str(fk), shape=shape, i=i))
    o = guarded(lambda: synth.controlled_obj(d, extrema, base=who, **kw), timeout=120)
    if not o["ok"]:
        r["got"] = "error"
        r["id"]["msg"] = o["msg"]
        return r
    g = o["value"]
    D = g.dataDict
    pl = dict(amp=0.5 * (D["amplm"][(2, 2)] + D["amplm"][(2, -2)]), omega=0.5 * (D["omegalm"][(2, 2)] - D["omegalm"][(2, -2)]),
              phase=0.5 * (D["phaselm"][(2, 2)] - D["phaselm"][(2, -2)]))
    n = len(g.t)
    lens = []
    for k in ("amp", "omega"):
        u = np.asarray(getattr(g, f"{k}_gw"))
        f = getattr(g, f"{k}_gw_filtered", None)
        r["same"][k] = close(u, pl[k])
        r["isfilt"][k] = bool(f is not None and close(u, f))
        r["orig"][k] = close(getattr(g, f"{k}_gw_original"), pl[k])
        lens += [len(u), len(getattr(g, f"{k}_gw_original"))] + ([len(f)] if f is not None else [])
    ph = np.asarray(g.phase_gw)
    r["orig"]["phase"] = close(g.phase_gw_original, pl["phase"])
    lens += [len(ph), len(g.phase_gw_original)]
    r["len"] = all(z == n for z in lens)
    r["phplain"] = close(ph, pl["phase"])
    after = np.arange(n) > np.argmax(sum(np.asarray(z)[:n] ** 2 for z in D["amplm"].values())) + 4
    if r["len"] and NO is None:
        r["late"] = all(close(np.asarray(getattr(g, f"{k}_gw"))[after], pl[k][after]) for k in ("amp", "omega"))
    if r["len"] and not r["same"]["omega"]:
        w = np.asarray(g.omega_gw)
        dph = np.diff(ph) / (g.t[1] - g.t[0])
        r["phint"] = bool(np.max(np.maximum(np.minimum(w[1:], w[:-1]) - dph, dph - np.maximum(w[1:], w[:-1]))) < 1e-8)
    # the extrema used by a measurement
    m = guarded(lambda: g.measure_ecc(), timeout=120)
    if m["ok"]:
        P, A = extrema(g)
        up, ua = np.asarray(g.pericenters_location), np.asarray(g.apocenters_location)
        both = (int(up[0]) == P[0], int(up[0]) == P[1], int(ua[0]) == A[0], int(ua[0]) == A[1])
        r["drop"] = 0 if both[0] and both[2] else 1 if both[1] and both[3] else 9
        r["id"]["extrema"] = [P[:3], A[:3], up[:3].tolist(), ua[:3].tolist()]
    else:
        r["got"] = "error"
        r["id"]["msg"] = m["msg"]
    return r


def effect(i):
    """Spin oscillations of known size in both modes: what is left of them."""
    rng = random.Random(f"effect:{vlib.SEED}:{i}")
    dt = rng.choice([1.0, 2.0])
    e, orbits, ra, rw, k = (rng.uniform(0.05, 0.2), rng.uniform(14, 24), rng.uniform(0.4, 1), rng.uniform(0.4, 1), rng.uniform(1.2, 1.65))
    ano, spin = rng.uniform(0, 6), rng.uniform(0.2, 0.5)
    mk = lambda z: synth.asymmetric(e, orbits, ra, rw, k, dt=dt, ano0=ano, spin=z)
    d = mk(spin)
    form = rng.choice(["amp", "omega", "hlm"])
    if form == "omega":
        from gw_eccentricity.utils import time_deriv_4thOrder
        d["omegalm"] = {m: time_deriv_4thOrder(y, dt) for m, y in d["phaselm"].items()}
    if form == "hlm":
        d = synth.to_hlm(d)
    d["t"] = d["t"] + rng.choice([0.0, 3000.0, -512.5])
    fk = dict(padding_length=rng.choice([300, 2000]))
    if rng.random() < 0.5:
        fk.update(alpha=rng.choice([1, 2, 3]), segment_size=rng.choice([12, 15, 20]), taper_width=rng.choice([0.1, 0.2, 0.3]))
    src = rng.choice([None, None, "amp", "omega"])
    if src:
        fk["data_type_for_filter_requirement_check"] = src
    src = rng.choice([None, None, "amp", "omega"])
    if src:
        fk["data_type_for_fspin_estimate"] = src
    NO = rng.choice([2, 1, None])
    who = rng.choice(["Amplitude", "Frequency"])
    kw = dict(tref_in=np.array(d["t"]), precessing=True, frame="coprecessing", num_orbits_to_exclude_before_merger=NO, debug_level=-1,
              extra_kwargs={"filter_kwargs": fk, "omega_gw_extrema_interpolation_method": "spline"})
    r = dict(kind="effect", got="ok", filtered=dict(amp=True, omega=True), left=dict(amp=0, omega=0), lost=dict(amp=0, omega=0), late=True,
             id=dict(i=i, k=k, e=e, spin=spin, ra=ra, rw=rw, NO=NO, form=form, fk=str(fk), who=who))
    none = lambda o: ([], [])
    o = guarded(lambda: synth.controlled_obj(d, none, base=who, **kw), timeout=120)
    if not o["ok"]:
        r["got"] = "error"
        r["id"]["msg"] = o["msg"]
        return r
    g, true = o["value"], mk(0.0)
    D, t = g.dataDict, true["t"]
    n = len(g.t)
    t = t[:n]
    from gw_eccentricity.utils import time_deriv_4thOrder
    tw = {m: time_deriv_4thOrder(y, dt) for m, y in true["phaselm"].items()}
    T = dict(amp=0.5 * (true["amplm"][(2, 2)] + true["amplm"][(2, -2)])[:n], omega=0.5 * (tw[(2, 2)] - tw[(2, -2)])[:n])
    end = min(t[-1], 0.0)
    s = (t > t[0] + 0.2 * (end - t[0])) & (t < end - 0.2 * (end - t[0]))
    after = np.arange(n) > np.argmax(true["amplm"][(2, 2)]) + 4
    rms = lambda z: float(np.sqrt(np.mean(z[s] ** 2)))
    for key in ("amp", "omega"):
        f = getattr(g, f"{key}_gw_filtered", None)
        u, w = np.asarray(getattr(g, f"{key}_gw")), np.asarray(getattr(g, f"{key}_gw_original"))
        if f is None or len(u) != n:
            r["filtered"][key] = False
            continue
        x = np.linspace(-1, 1, n)
        ecc = T[key] - np.polyval(np.polyfit(x[s], T[key][s], 4), x)
        r["left"][key] = min(99999, int(1000 * rms(u - T[key]) / rms(w - T[key])))
        r["lost"][key] = min(99999, int(1000 * rms(u - T[key]) / rms(ecc)))
        r["late"] = r["late"] and close(u[after], w[after])
    return r


def check(c: Check):
    vlib.import_gwecc()
    c.tlc(vlib.tlc("SpinFilter", defs="CONSTANTS Levels = {0, 1, 3, 5} Thrs = {1, 2, 4} Emit = FALSE", workers=4))
    r, cases = tlc_emit("SpinFilter", defs="CONSTANTS Levels = {0, 1, 3, 5} Thrs = {1, 2, 4} Emit = TRUE", workers=1)
    c.tlc(r)
    rng = random.Random(vlib.SEED)
    jobs = [(x, i) for x in cases for i in range(pick(1, 8))]
    recs = pmap(one, jobs)
    effects = pmap(effect, list(range(pick(40, 400))))
    c.note(measurements=len(recs), amp_filtered=sum(not z["same"]["amp"] for z in recs), omega_filtered=sum(not z["same"]["omega"] for z in recs))
    c.note(effects=len(effects), worst_left=max([z["left"][k] for z in effects for k in ("amp", "omega")]),
           worst_lost=max([z["lost"][k] for z in effects for k in ("amp", "omega")]))
    c.sample(recs[0])
    c.sample(effects[0])

    def mod(pred, **kw):
        def f():
            z = dict(next(z for z in recs if z["got"] == "ok" and pred(z)))
            z.update({k: (v(z) if callable(v) else v) for k, v in kw.items()})
            return z
        return f
    fa = lambda z: z["known"] and not z["same"]["amp"]
    na = lambda z: z["known"] and z["same"]["amp"] and z["same"]["omega"]
    fw = lambda z: z["known"] and not z["same"]["omega"]
    flip = lambda k, d: (lambda z: dict(z[k], **{d: not z[k][d]}))
    controls = [(mod(fa, same=flip("same", "amp")), "amp-not-filtered"), (mod(na, same=flip("same", "amp")), "amp-filtered"),
                (mod(fw, same=flip("same", "omega")), "omega-not-filtered"), (mod(na, same=flip("same", "omega")), "omega-filtered"),
                (mod(fa, off=True), "disabled"), (mod(na, orig=flip("orig", "phase")), "original-lost"),
                (mod(fa, isfilt=flip("isfilt", "amp")), "inconsistent"), (mod(fa, len=False), "length"),
                (mod(fw, phint=False), "phase"), (mod(na, phplain=False), "phase"), (mod(fw, drop=0), "first-extrema"),
                (mod(na, drop=1), "first-extrema"), (mod(na, got="error"), "rejected"), (mod(fa, late=False), "after-merger"),
                (lambda: dict(effects[0], left=dict(amp=0, omega=300)), "spin-left"),
                (lambda: dict(effects[0], lost=dict(amp=140, omega=0)), "eccentricity-lost"),
                (lambda: dict(effects[0], filtered=dict(amp=False, omega=True)), "not-filtered"),
                (lambda: dict(effects[0], late=False), "after-merger")]
    recs = recs + effects
    vlib.judge(c, "JSpinFilter", recs, controls=controls,
               key=lambda i, cl: f"{'+'.join(sorted(cl))}:{recs[i]['id']}"[:200],
               what=lambda i, cl: f"{sorted(cl)}: {recs[i]}")
    c.assumptions += ["the asymmetry of the waveforms is well away from the threshold (more than 20%)",
                      "modes given in the inertial frame are judged for consistency only"]


if __name__ == "__main__":
    main(check, "P18")
