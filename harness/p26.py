"""P26: the warnings of a measurement say what is true."""
import random, re
import numpy as np
from scipy.interpolate import InterpolatedUnivariateSpline as Spline
import vlib
from vlib import Check, tlc_emit, pmap, guarded, pick, main
import synth

NUM = re.compile(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?")


def is_mono(m):
    m = m.lower()
    return "nonmonotonic" in m and ("egw" in m or "eccentricity" in m) and "interpolant" not in m and "fit" not in m


def classify(warns):
    out = []
    for _, m in warns:
        m = re.sub(r"\s+", " ", m.lower())
        kind = "p" if "pericenter" in m.split(".")[0] else "a"
        if is_mono(m):
            out.append("mono")
        elif "negative eccentricity" in m:
            out.append("neg")
        elif "differ by" in m:
            out.append("differ")
        elif "alternately" in m:
            out.append("mixed")
        elif "too close" in m and "each other" not in m:
            out.append("close-" + kind)
        elif "too far" in m:
            out.append("far-" + kind)
        elif "closer to pi" in m:
            out.append("half")
        elif "more than" in m and "was dropped" in m:
            out.append("dropped-" + ("p" if "pericenter" in m else "a"))
    return sorted(set(out))


def wave(N, spu, rng, omega=None):
    k = np.arange(N)
    ph = 4 * np.pi * k / (20.0 * spu) + rng.uniform(-3, 3)
    dt = rng.choice([0.5, 1.0, 2.0])
    t0 = rng.choice([0.0, -300.0, 1e4])
    if omega is None:
        omega = 0.1 + 0.05 * np.random.RandomState(rng.randrange(10 ** 6)).rand(N) + 2e-5 * k
    return synth.grid_wave(N, dt=dt, t0=t0, phase=ph, omega=omega / dt)


def layout(job):
    x, i = job
    rng = random.Random(f"layout:{vlib.SEED}:{i}:{x}")
    spu = rng.choice([2, 3, 4])
    lo = min(x["p"] + x["a"]) - rng.randint(1, 30)
    P, A = [z - lo for z in x["p"]], [z - lo for z in x["a"]]
    d = wave((max(P + A) + rng.randint(2, 30)) * spu, spu, rng)
    level = rng.choice([1, 1, 1, 1, 0, -1])
    extra = {"omega_gw_extrema_interpolation_method": "spline"}
    mk = lambda lev: synth.controlled_obj(d, ([z * spu for z in P], [z * spu for z in A]), tref_in=np.array(d["t"]), debug_level=lev, extra_kwargs=dict(extra))
    o = mk(level)
    g = guarded(lambda: o.measure_ecc())
    if not g["ok"]:
        if level < 1 or not guarded(lambda: mk(-1).measure_ecc())["ok"]:
            return None
        return dict(kind="fails", id=dict(i=i, level=level, spu=spu, p=P, a=A, msg=g["msg"]))
    back = lambda v: [int(z) // spu if int(z) % spu == 0 else -1 for z in v]
    return dict(kind="layout", level=level, p=P, a=A, up=back(o.pericenters_location), ua=back(o.apocenters_location), warns=classify(g["warns"]),
                id=dict(i=i, level=level, spu=spu, p=P, a=A))


def direct(i):
    rng = random.Random(f"direct:{vlib.SEED}:{i}")
    spu = rng.choice([2, 3])
    f = dict()
    half, num, den = 10, 3, 2
    if rng.random() < 0.3:
        num, den = rng.choice([(2, 1), (5, 4), (3, 1)])
        f["max_orb_phase_diff_factor"] = num / den
    if rng.random() < 0.3:
        half = rng.choice([5, 14, 18])
        f["min_orb_phase_diff"] = half * np.pi / 10
    while True:
        n = rng.randint(2, 8)
        base = rng.choice([11, 16, 21, 21, 21, 30])
        g = [base + rng.choice([-1, 0, 0, 1]) for _ in range(n)]
        for _ in range(rng.choice([0, 1, 1, 2])):
            g[rng.randrange(n)] = rng.choice([4, 7, 9, 12, 14, 13, 16, 17, 24, 33, 45])
        if any(z in (10, 15, half) for z in g) or any(den * y == num * z for z, y in zip(g, g[1:])):
            continue
        break
    s = [rng.randint(1, 30)]
    for z in g:
        s.append(s[-1] + z)
    d = wave((s[-1] + 8) * spu, spu, rng)
    level = rng.choice([1, 1, 0, -1])
    always = rng.random() < 0.5
    if always:
        f["always_return"] = True
    typ = rng.choice(["p", "a"])
    o = synth.controlled_obj(d, ([], []), tref_in=np.array(d["t"]), debug_level=level)
    r = guarded(lambda: o.check_extrema_separation(np.array(s) * spu, {"p": "pericenters", "a": "apocenters"}[typ], **f))
    if not r["ok"]:
        raise RuntimeError(r["msg"])
    diff, ratio = r["value"]
    ret = diff is not None and ratio is not None
    said = dict(close=[], far=[])
    T = np.asarray(d["t"])[np.array(s) * spu]
    for _, m in r["warns"]:
        if "occurrences are" in m:
            z = [float(v) for v in NUM.findall(re.sub(r"(float|int)\d+", "", m.split("occurrences are")[1].split("]")[0]))]
            near = [int(np.argmin(np.abs(T - v))) + 1 if np.min(np.abs(T - v)) < 0.3 * (d["t"][1] - d["t"][0]) else 0 for v in z]
            said["close" if "too close" in m else "far"] = near
    return dict(kind="direct", level=level, type=typ, s=s, half=half, num=num, den=den, always=always, returned=ret,
                gaps=[int(round(z * 1e7 / np.pi)) for z in diff] if ret else [], ratios=[int(round(z * 1e6)) for z in ratio] if ret else [],
                close=said["close"], far=said["far"],
                warns=classify(r["warns"]), id=dict(i=i, s=s, f=str(f), level=level))


def mono(i):
    """envelopes that make the eccentricity fall, rise, or both"""
    rng = random.Random(f"mono:{vlib.SEED}:{i}")
    spu = 2
    n = rng.randint(5, 9)
    gaps = [rng.randint(21, 23) for _ in range(n)]
    P = [rng.randint(2, 12)]
    for z in gaps:
        P.append(P[-1] + z)
    A = [(x + y) // 2 for x, y in zip(P, P[1:])]
    if rng.random() < 0.5:
        A = A + [P[-1] + 11]
    N = (max(P + A) + 6) * spu
    x = np.linspace(0, 1, N)
    shape = rng.choice(["falls", "rises", "bump", "dip", "tail", "head", "negative", "flat", "crossing", "wiggle", "last", "last", "first", "first"])
    h = rng.uniform(0.05, 0.3)
    # the trend turns between the last (first) two samples that can be measured
    lo, hi = max(P[0], A[0]) * spu, min(P[-1], A[-1]) * spu
    turn = {"last": hi - rng.uniform(0.1, 0.45), "first": lo + rng.uniform(0.1, 0.9)}.get(shape, 1) / (N - 1)
    s = {"falls": h * (1.3 - x), "rises": h * (0.3 + x), "bump": h * (1 - 1.5 * (x - rng.uniform(0.2, 0.8)) ** 2),
         "dip": h * (0.5 + 2 * (x - rng.uniform(0.2, 0.8)) ** 2), "tail": h * (1 - x + 0.62 * x ** 2), "head": h * (1 - (x - 0.12) ** 2),
         "negative": -h * (1.2 - x), "flat": h + 0 * x, "crossing": h * (rng.uniform(0.3, 0.7) - x), "last": h * (1 - x + x ** 2 / (2 * turn)), "first": h * (1 - (x - turn) ** 2),
         "wiggle": h * (1.5 - x + 0.08 * np.sin(9 * x))}[shape]
    c = 0.06 * (1 + 0.4 * x)
    w = np.array(c)
    w[np.array(P) * spu] = (c * (1 + s))[np.array(P) * spu]
    w[np.array(A) * spu] = (c * (1 - s))[np.array(A) * spu]
    d = wave(N, spu, rng, omega=w)
    level = rng.choice([0, 1, 1, -1])
    how = rng.choice(["spline", "spline", "rational_fit"]) if shape not in ("last", "first") else "spline"
    sub = rng.random() < 0.4
    t = np.array(d["t"])
    tref = t[sorted(rng.sample(range(lo, hi + 1), 3))] if sub else t
    mk = lambda tr, lev: synth.controlled_obj(d, ([z * spu for z in P], [z * spu for z in A]), tref_in=tr, debug_level=lev,
                                               extra_kwargs={"omega_gw_extrema_interpolation_method": how})
    o, full = mk(tref, level), mk(t, -1)
    g, f = guarded(lambda: o.measure_ecc()), guarded(lambda: full.measure_ecc())
    if not (g["ok"] and f["ok"]):
        return None
    T, e = np.asarray(f["value"]["tref_out"]), np.asarray(f["value"]["eccentricity"])
    sp = Spline(T, e)
    d1, d2 = sp.derivative(1)(T), sp.derivative(2)(T)
    eps = 1e-7 * np.max(np.abs(d1)) + 1e-13
    tr = np.where(d1 > eps, 1, np.where(d1 < -eps, -1, 0))
    cl = classify(g["warns"])
    rng_lo = rng_hi = 0
    for _, m in g["warns"]:
        if is_mono(m):
            z = [float(v) for v in NUM.findall(re.sub(r"(float|int)\d+", "", m.split("nonmonotonic", 1)[1]).split("For more")[0])]
            if len(z) in (1, 2):
                dt = T[1] - T[0]
                at = lambda v: int(np.argmin(np.abs(T - v))) + 1 if np.min(np.abs(T - v)) < 0.3 * dt else 0
                rng_lo, rng_hi = at(z[0]), at(z[-1])
    q = guarded(lambda: (o.derivative_of_eccentricity(T), o.derivative_of_eccentricity(T, n=2)))
    dev = lambda u, v: min(10 ** 6, int(1e6 * np.max(np.abs(u - v)) / (np.max(np.abs(v)) + 1e-12)))
    er = np.atleast_1d(g["value"]["eccentricity"])
    near = bool(np.any(np.abs(er) < 1e-9))
    neg = bool(np.any(er < 0))
    return dict(kind="mono", level=level, e=tr.tolist(), warned="mono" in cl, lo=rng_lo, hi=rng_hi, neg="neg" in cl if near and level >= 0 else neg, negwarn="neg" in cl,
                d1=dev(q["value"][0], d1) if q["ok"] else 10 ** 6, d2=dev(q["value"][1], d2) if q["ok"] and shape != "flat" else 0 if q["ok"] else 10 ** 6,
                id=dict(i=i, shape=shape, level=level, how=how, sub=sub))


def check(c: Check):
    vlib.import_gwecc()
    base = "CONSTANTS Gaps = {%s} NP = %d NA = %d Offsets = {%s} ELen = %d Emit = %s"
    r, cases = tlc_emit("SelfCheck", defs=base % ("8, 13, 21, 34", 3, 3, "31, 15, 47", 5, "TRUE"), workers=8)
    c.tlc(r)
    if vlib.TIER != "quick":
        c.tlc(vlib.tlc("SelfCheck", defs=base % ("8, 13, 21, 34", 4, 4, "31, 15", 7, "FALSE"), workers=8))
    else:
        c.tlc(vlib.tlc("SelfCheck", defs=base % ("8, 21, 34", 4, 3, "31, 14", 6, "FALSE"), workers=8))
    rng = random.Random(vlib.SEED)
    cases = [x for x in cases if len(x["p"]) > 1 and len(x["a"]) > 1]
    jobs = rng.sample(cases, min(len(cases), pick(1500, 15000)))
    # longer lists: regular ones with one or two faults, in the middle too
    while len(jobs) < pick(2700, 27000):
        def seq(n):
            g = [rng.randint(21, 23) for _ in range(n)]
            for _ in range(rng.choice([0, 1, 1, 2])):
                j = rng.choice([n // 2, n // 2, n // 2 + 1, n // 2 - 1, rng.randrange(n)]) % n
                g[j] = rng.choice([4, 8, 9, 12, 14, 13, 16, 19, 29, 34, 45])
            s = [0]
            for z in g:
                s.append(s[-1] + z)
            return s, g
        n = rng.randint(3, 12)
        (p, gp), (a, ga) = seq(n), seq(max(2, n + rng.choice([-2, -1, 0, 0, 0, 1, 2])))
        o = rng.choice([11, 9, 12, -11, -10, 33])
        p, a = [100 + z for z in p], [100 + o + z for z in a]
        bad = any(2 * y == 3 * x for g in (gp, ga) for x, y in zip(g, g[1:]))
        if not bad and not set(p) & set(a):
            jobs.append(dict(p=p, a=a))
    recs = [z for z in pmap(layout, [(x, i) for i, x in enumerate(jobs)]) if z]
    n1 = len(recs)
    recs += pmap(direct, list(range(pick(600, 6000))))
    n2 = len(recs)
    recs += [z for z in pmap(mono, list(range(pick(500, 5000)))) if z]
    seen = {}
    for z in recs:
        for w in z.get("warns", []) + [k for k in ("warned", "negwarn") if z.get(k)]:
            seen[w] = seen.get(w, 0) + 1
    c.note(patterns=len(jobs), layouts=n1, direct=n2 - n1, trends=len(recs) - n2, warnings={k: seen[k] for k in sorted(seen)})
    for z in (recs[0], recs[n1], recs[n2]):
        c.sample({k: v for k, v in z.items() if k != "e"})

    def mod(pred, **kw):
        def f():
            z = dict(next(z for z in recs if pred(z)))
            z.update({k: (v(z) if callable(v) else v) for k, v in kw.items()})
            return z
        return f
    drop = lambda w: (lambda z: [v for v in z["warns"] if v != w])
    has = lambda kind, w: (lambda z: z["kind"] == kind and w in z["warns"])
    hasnt = lambda kind, w: (lambda z: z["kind"] == kind and w not in z["warns"])
    controls = []
    for w in ("differ", "mixed", "close-p", "close-a", "half", "far-p", "far-a", "dropped-p", "dropped-a"):
        if any(has("layout", w)(z) for z in recs):
            controls.append((mod(has("layout", w), warns=drop(w)), "missing-warning"))
        controls.append((mod(hasnt("layout", w), warns=lambda z, w=w: z["warns"] + [w]), "false-warning"))
    ret = lambda z: z["kind"] == "direct" and z["returned"]
    up = lambda z: z["kind"] == "mono" and z["warned"] and 1 in z["e"]
    controls += [(mod(lambda z: z["kind"] == "direct" and z["warns"], warns=[]), "missing-warning"),
                 (mod(ret, gaps=lambda z: [z["gaps"][0] + 100] + z["gaps"][1:]), "gaps"),
                 (mod(ret, ratios=lambda z: [z["ratios"][0], z["ratios"][1] + 100] + z["ratios"][2:]), "ratios"),
                 (mod(lambda z: z["kind"] == "direct" and z["close"], close=lambda z: [z["close"][0] - 1]), "times"),
                 (mod(lambda z: z["kind"] == "direct" and z["far"], far=lambda z: z["far"] + [1]), "times"),
                 (mod(ret, returned=False), "returns"), (mod(up, warned=False), "missing-warning"),
                 (mod(lambda z: z["kind"] == "mono" and set(z["e"]) == {-1}, warned=True), "false-warning"),
                 (mod(lambda z: up(z) and z["lo"] > 0, lo=lambda z: z["lo"] + 3), "range"),
                 (mod(lambda z: up(z) and z["hi"] > 3, hi=lambda z: z["hi"] - 3), "range"),
                 (mod(lambda z: z["kind"] == "mono" and z["negwarn"], negwarn=False), "missing-warning"),
                 (mod(lambda z: z["kind"] == "mono" and not z["neg"], negwarn=True), "false-warning"),
                 (mod(lambda z: z["kind"] == "mono", d1=1000), "derivative"), (lambda: dict(kind="fails", id={}), "warning-is-error")]
    vlib.judge(c, "JSelfCheck", recs, controls=controls,
               key=lambda i, cl: f"{recs[i]['kind']}:{'+'.join(sorted(cl))}:{recs[i]['id']}"[:200],
               what=lambda i, cl: f"{sorted(cl)}: {recs[i]}"[:900])
    c.assumptions += ["warnings are recognised by key words of their text", "gaps and ratios exactly on a limit and trends of the eccentricity within rounding are not judged"]


if __name__ == "__main__":
    main(check, "P26")
