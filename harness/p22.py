"""P22: the frame in which precessing modes are given does not matter."""
import random
import numpy as np
import vlib
from vlib import Check, tlc_emit, pmap, guarded, pick, main
import synth

PAIR = [(2, m) for m in range(-2, 3)]


def system(rng, zero, eps=None):
    """coprecessing modes (hlm) of an inspiral, and of its quasicircular
    companion"""
    d = synth.pn(e0=rng.choice([0.1, 0.2, 0.3]), orbits=rng.uniform(8, 14), dt=1.0, ano0=rng.uniform(0, 6), adv=rng.choice([0.05, 0.1]), zeroecc=zero)
    eps = rng.choice([0.0, 0.003, 0.01]) if eps is None else eps
    m21, k = rng.choice([0.0, 0.02, 0.1]), rng.choice([0.5, 0.35])
    out = {}
    for s in ["", "_zeroecc"] if zero else [""]:
        t, A, P = d["t" + s], d["amplm" + s][(2, 2)], d["phaselm" + s][(2, 2)]
        f = eps * np.sin(k * P + 0.4)
        out["t" + s] = t
        out["hlm" + s] = {(2, 2): A * (1 + f) * np.exp(-1j * P), (2, -2): A * (1 - f) * np.exp(1j * P),
                          (2, 1): m21 * A * np.exp(-0.5j * P), (2, -1): m21 * A * np.exp(0.5j * P), (2, 0): 0.01 * A * np.cos(P / 3) + 0j}
    return out, eps


def incline(c, rng):
    """the modes in an inertial frame: time-dependent rotation of each tag"""
    kind = rng.choice(["precess", "precess", "precess", "wobble", "fixed", "none"])
    n, b, ph = rng.uniform(0.5, 6), rng.uniform(0.05, 1.2), rng.uniform(0, 6)
    out = {}
    for s in ["", "_zeroecc"] if "t_zeroecc" in c else [""]:
        t = c["t" + s]
        x = (t - t[0]) / (t[-1] - t[0])
        al = ph + 2 * np.pi * n * x * (1 + 0.3 * x) if kind in ("precess", "wobble") else np.full(len(t), ph)
        be = b * (1 + 0.2 * np.sin(0.7 * al)) if kind == "precess" else b * x * (1 - x) * 4 if kind == "wobble" else np.full(len(t), b)
        out["t" + s] = t
        out["hlm" + s] = synth.precess(c["hlm" + s], t, al, be) if kind != "none" else dict(c["hlm" + s])
    return out, kind


def rotated_back(d):
    """the same modes rotated to the coprecessing frame, independently of the
    code under test"""
    import scri
    out = {}
    for s in ["", "_zeroecc"] if "t_zeroecc" in d else [""]:
        data = np.stack([d["hlm" + s][m] for m in PAIR], axis=1)
        w = scri.WaveformModes(dataType=scri.h, t=np.array(d["t" + s]), data=data, ell_min=2, ell_max=2, frameType=scri.Inertial,
                               r_is_scaled_out=True, m_is_scaled_out=True).to_coprecessing_frame()
        out["t" + s] = d["t" + s]
        out["hlm" + s] = {m: np.array(w.data[:, w.index(*m)]) for m in PAIR}
    return out


def lowest(d, q):
    """how close the rotated orbital axis comes to -z"""
    import scri
    from quaternion import quaternion, as_rotation_matrix
    z = []
    for s in ["", "_zeroecc"] if "t_zeroecc" in d else [""]:
        data = np.stack([d["hlm" + s][m] for m in PAIR], axis=1)
        w = scri.WaveformModes(dataType=scri.h, t=np.array(d["t" + s]), data=data, ell_min=2, ell_max=2, frameType=scri.Inertial,
                               r_is_scaled_out=True, m_is_scaled_out=True)
        a = w.LLDominantEigenvector(RoughDirection=-w.LdtVector()[0], RoughDirectionIndex=0)
        R = as_rotation_matrix(quaternion(*q).normalized())
        z += [(a @ R.T)[:, 2].min(), (a @ R)[:, 2].min()]
    return min(z)


def represent(d, rep, rng):
    d = synth.copy_dict(d)
    if rep == "h":
        return d
    a = synth.to_ampphase(d)
    for s in ["", "_zeroecc"] if "t_zeroecc" in d else [""]:
        if rng.random() < 0.3:      # phases are defined up to full turns
            for m in a["phaselm" + s]:
                a["phaselm" + s][m] = a["phaselm" + s][m] + 2 * np.pi * rng.choice([-3, 0, 5])
        if rep == "apw":
            # as the documented derivative of the phase
            a["omegalm" + s] = {m: derivative(a["t" + s], p) for m, p in a["phaselm" + s].items()}
    return a


def derivative(t, p):
    from gw_eccentricity.utils import time_deriv_4thOrder
    return time_deriv_4thOrder(p, t[1] - t[0])


def measure(d, who, refs, prec=True, frame="inertial", ek=None):
    ek = dict(ek or {})
    fd, ref = refs
    o = synth.methods()[who](d, precessing=prec, frame=frame, extra_kwargs=ek, debug_level=-1, **{"fref_in" if fd else "tref_in": ref})
    r = o.measure_ecc()
    return o, r


def compare(a, b):
    (o, r), (o2, r2) = a, b
    D = 0
    for k in ("pericenters_location", "apocenters_location"):
        p, p2 = getattr(o, k), getattr(o2, k)
        # positions in time: index 0 may differ
        p, p2 = o.t[p], o2.t[p2]
        if len(p) != len(p2):
            # an extremum at the very edge may go; compare the common ones
            q = [min(abs(x - p2)) for x in p] if len(p) < len(p2) else [min(abs(x - p)) for x in p2]
            D = max(D, 10 ** 6)
        else:
            D = max(D, int(np.ceil(np.max(np.abs(p - p2)) - 1e-6)))
    if np.shape(r["eccentricity"]) != np.shape(r2["eccentricity"]):
        return D, 10 ** 9, 10 ** 9
    de = np.max(np.abs(r["eccentricity"] - r2["eccentricity"]))
    dl = np.abs(r["mean_anomaly"] - r2["mean_anomaly"])
    dl = np.max(np.minimum(dl, 2 * np.pi - dl))
    return D, int(min(1e9, de * 1e9)), int(min(1e9, dl * 1e9))


def setup(rng, zero, fd=True):
    who = rng.choice(["ResidualAmplitude", "ResidualFrequency"]) if zero and rng.random() < 0.8 else rng.choice(["Amplitude", "Frequency", "Amplitude", "Frequency", "AmplitudeFits", "FrequencyFits"])
    c, eps = system(rng, zero)
    fd = fd and rng.random() < 0.3
    t = c["t"]
    refs = (fd, np.array([0.0085, 0.0095]) if fd else np.linspace(t[0] * 0.6, t[0] * 0.4, 3))
    ek = {"omega_gw_extrema_interpolation_method": rng.choice(["spline", "rational_fit"])}
    return who, c, eps, refs, ek


def one(job):
    kind, x, i = job
    rng = random.Random(f"{vlib.SEED}:{kind}:{i}:{x}")
    if kind == "modes":
        who, c, eps, refs, ek = setup(rng, x["zero"], False)
        d = incline(c, rng)[0] if x["frame"] == "inertial" else c
        d = represent(d, x["rep"], rng)
        for key in d:
            if isinstance(d[key], dict):
                have = x["z"] if key.endswith("_zeroecc") else x["e"]
                d[key] = {m: v for m, v in d[key].items() if m[1] in have}
        if rng.random() < 0.2:
            for key in d:
                if isinstance(d[key], dict):
                    d[key][(3, 3)] = d[key][(2, 2)] * 0.1
        r = guarded(lambda: measure(d, who, refs, x["prec"], x["frame"], ek))
        if not x["prec"]:
            return [dict(kind="modes", frame="coprecessing", tags=[], m=dict(ecc=[2], zero=[2]), got="values" if r["ok"] else "error", id=dict(x=x, who=who, msg=str(r["msg"])[:200]))]
        return [dict(kind="modes", frame=x["frame"], tags=["ecc", "zero"] if x["zero"] else ["ecc"], m=dict(ecc=x["e"], zero=x["z"]),
                     got="values" if r["ok"] else "error", id=dict(x=x, who=who, msg=str(r["msg"])[:200]))]
    out = []
    zero = rng.random() < 0.5
    if kind == "symmetric":
        # identical symmetric modes: precessing equals nonprecessing
        who, c, eps, refs, ek = setup(rng, zero)
        d = {}
        for s in ["", "_zeroecc"] if zero else [""]:
            h = c["hlm" + s]
            d["t" + s] = c["t" + s]
            p = 0.5 * (h[(2, 2)] + np.conj(h[(2, -2)]))
            d["hlm" + s] = {(2, 2): p, (2, -2): np.conj(p), (2, 1): 0 * p, (2, -1): 0 * p, (2, 0): 0 * p}
        rep = rng.choice(["h", "ap", "apw"])
        p = represent(d, rep, rng)
        n = {k: ({(2, 2): v[(2, 2)]} if isinstance(v, dict) else v) for k, v in p.items()}
        a = guarded(lambda: measure(n, who, refs, False, ek=ek))
        if not a["ok"]:
            return []
        frame = rng.choice(["inertial", "coprecessing"])
        if frame == "coprecessing":
            p = {k: ({m: v[m] for m in ((2, 2), (2, -2))} if isinstance(v, dict) else v) for k, v in p.items()}
        b = guarded(lambda: measure(p, who, refs, True, frame, ek=ek))
        ways = [(b, frame == "coprecessing", dict(rep=rep, frame=frame))]
        inc = "symmetric"
    else:
        who, c, eps, refs, ek = setup(rng, zero)
        d, inc = incline(c, rng)
        cop = rotated_back(d)
        a = guarded(lambda: measure(cop, who, refs, True, "coprecessing", ek))
        if not a["ok"]:
            return []
        ways = []
        for rep in rng.sample(["h", "ap", "apw"], 2):
            z = represent(d, rep, rng)
            ways.append((guarded(lambda: measure(z, who, refs, True, "inertial", ek)), True, dict(rep=rep)))
        while True:
            # (the frame finder is singular where the axis is opposite to z)
            q = [rng.gauss(0, 1) for _ in range(4)]
            if lowest(d, q) > -0.98:
                break
        g = synth.copy_dict(d)
        for s in ["", "_zeroecc"] if zero else [""]:
            g["hlm" + s] = synth.rotate_fixed(d["hlm" + s], d["t" + s], q)
        g = represent(g, rng.choice(["h", "h", "ap"]), rng)
        ways.append((guarded(lambda: measure(g, who, refs, True, "inertial", ek)), False, dict(q=q)))
        if rng.random() < 0.3:
            # another representation of the coprecessing modes
            rep = rng.choice(["ap", "apw"])
            z = represent(cop, rep, rng)
            ways.append((guarded(lambda: measure(z, who, refs, True, "coprecessing", ek)), True, dict(rep=rep, cop=1)))
        if rng.random() < 0.3 and eps < 0.005:
            # the system itself, before it was inclined
            ways.append((guarded(lambda: measure(c, who, refs, True, "coprecessing", ek)), False, dict(system=1)))
    for b, exact, tag in ways:
        r = dict(kind="same", exact=exact, got="values" if b["ok"] else "error", dext=0, de=0, dl=0,
                 id=dict(i=i, who=who, inc=inc, eps=eps, zero=zero, fd=refs[0], way=str(tag), msg=str(b["msg"])[:200]))
        if b["ok"]:
            r["dext"], r["de"], r["dl"] = compare(a["value"], b["value"])
        out.append(r)
    return out


def check(c: Check):
    vlib.import_gwecc()
    import scri  # noqa
    c.tlc(vlib.tlc("Frame", defs="CONSTANTS Fixed = {0, 1, 2} Emit = FALSE", workers=8))
    r, cases = tlc_emit("Frame", defs="CONSTANTS Fixed = {0} Emit = TRUE", workers=4)
    c.tlc(r)
    jobs = [("modes", x, i) for x in cases for i in range(pick(1, 8))] + [("same", None, i) for i in range(pick(130, 3000))] + \
        [("symmetric", None, i) for i in range(pick(80, 1500))]
    recs = [z for y in pmap(one, jobs) for z in (y or [])]
    c.note(pairs=sum(z["kind"] == "same" for z in recs), exact_pairs=sum(z["kind"] == "same" and z["exact"] for z in recs),
           mode_sets=sum(z["kind"] == "modes" for z in recs), rejected=sum(z["got"] == "error" for z in recs))
    for k in ("same", "modes"):
        c.sample(next((z for z in recs if z["kind"] == k), None))

    def mod(pred, **kw):
        def f():
            z = dict(next(z for z in recs if pred(z)))
            z.update({k: (v(z) if callable(v) else v) for k, v in kw.items()})
            return z
        return f
    same = lambda z: z["kind"] == "same" and z["got"] == "values"
    controls = [(mod(same, dext=2), "other-extrema"), (mod(same, de=10 ** 8), "other-values"), (mod(same, dl=10 ** 9), "other-values"),
                (mod(same, got="error"), "fails-in-one-way"),
                (mod(lambda z: z["kind"] == "modes" and z["got"] == "error", got="values"), "missing-accepted"),
                (mod(lambda z: z["kind"] == "modes" and z["got"] == "values", got="error"), "valid-rejected")]
    vlib.judge(c, "JFrame", recs, controls=controls,
               key=lambda i, cl: f"{recs[i]['kind']}:{'+'.join(sorted(cl))}:{recs[i]['id']}"[:200],
               what=lambda i, cl: f"{sorted(cl)}: {recs[i]}")


if __name__ == "__main__":
    main(check, "P22")
