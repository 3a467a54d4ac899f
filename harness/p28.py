"""P28: derivatives, peaks and interpolants are exact where they claim to be."""
import random
import warnings
import numpy as np
import vlib
from vlib import Check, tlc_emit, pmap, guarded, pick, main
import synth

BIG = 2 * 10 ** 9


def ints(v, scale, bound=BIG):
    out = []
    for z in np.atleast_1d(np.asarray(v, dtype=float)):
        out.append(int(round(float(z) * scale)) if np.isfinite(z) and abs(z * scale) < bound else bound)
    return out


def rng_of(*a):
    return random.Random(f"{vlib.SEED}:{a}")


def slope(y, i):
    """the function itself, on any step"""
    from gw_eccentricity.utils import time_deriv_4thOrder
    rng = rng_of("slope", i)
    dt = 2.0 ** rng.randint(-12, 4)
    z = np.array(y, dtype=float)
    o = guarded(lambda: time_deriv_4thOrder(z, dt))
    got = ints(o["value"] * dt, 12000, 10 ** 9) if o["ok"] else []
    return dict(kind="slope", y=list(map(int, y)), n=len(y), got=got, tol=3, id=dict(i=i, dt=dt, msg=str(o["msg"])[:150]))


def peak_record(y, t0, dt, tp, fp, top, i, msg):
    c = max(2, min(len(y) - 3, int(np.argmax(y))))
    off = (tp - t0) / dt if np.isfinite(tp) else 1e9
    far = abs(off - c) > 10
    return dict(kind="peak", y=list(map(int, y)), far=bool(far), off=0 if far else int(round(off * 10000)), id=dict(i=i, dt=dt, t0=t0, msg=msg),
                top=ints(fp, 100, 10000)[0] if top and np.isfinite(fp) and abs(fp) < 100 else -1)


def peak(y, i):
    from gw_eccentricity.utils import peak_time_via_quadratic_fit
    rng = rng_of("peak", i)
    dt, t0 = 2.0 ** rng.randint(-8, 3), 64.0 * rng.randint(-20, 20)
    t = t0 + dt * np.arange(len(y))
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        o = guarded(lambda: peak_time_via_quadratic_fit(t, np.array(y, dtype=float)))
    tp, fp = o["value"] if o["ok"] else (np.nan, np.nan)
    return peak_record(y, t0, dt, tp, fp, True, i, str(o["msg"])[:150])


def total(i):
    from gw_eccentricity.utils import amplitude_using_all_modes
    rng = rng_of("total", i)
    n, m = rng.randint(1, 6), rng.randint(1, 5)
    names = rng.sample([(2, 2), (2, 1), (3, 3), (3, 2), (2, 0), (2, -2), (4, 4)], m)
    kind = rng.choice(["hlm", "amplm"])
    z = [[[rng.randint(-30, 30), rng.randint(-30, 30) if kind == "hlm" else 0] for _ in range(n)] for _ in range(m)]
    d = {k: np.array([complex(*p) if kind == "hlm" else float(abs(p[0])) for p in v]) for k, v in zip(names, z)}
    o = guarded(lambda: amplitude_using_all_modes(d, kind) if kind == "amplm" or rng.random() < 0.5 else amplitude_using_all_modes(d))
    return dict(kind="total", modes=z, got=ints(np.asarray(o["value"]) ** 2, 1) if o["ok"] else [-1] * n, id=dict(i=i, data=kind, msg=str(o["msg"])[:150]))


def whole(i):
    """frequency and merger time of a measurement, from the phases and the
    amplitudes of several modes"""
    rng = rng_of("whole", i)
    n = rng.randint(60, 120)
    dt = 2.0 ** rng.randint(-4, 1)
    t0 = 32.0 * rng.randint(-30, 30)
    t = t0 + dt * np.arange(n)
    inc = [rng.randint(5, 7) for _ in range(n)]
    ph = np.cumsum(inc)
    w = rng.randint(5, 12)
    y = [1] * (n - w) + [rng.randint(1, 8) for _ in range(w)]
    # largest once, so that there are no ties to break, and falling around it,
    # so that the peak is close
    m = len(y) - 1 - rng.randint(0, w - 1)
    for k, v in ((0, 9), (1, rng.randint(6, 8)), (-1, rng.randint(6, 8)), (2, rng.randint(2, 5)), (-2, rng.randint(2, 5)), (-3, 1), (-4, 1)):
        if m + k < len(y):
            y[m + k] = v
    if rng.random() < 0.5:
        y += [1] * 4
        y = y[4:]
    y0 = np.array(y, dtype=float)
    # the largest sample is that of the total, not of any mode
    swap = np.array([rng.random() < 0.5 for _ in y])
    amps = {(2, 2): np.where(swap, 3, 4) * y0, (2, 1): np.where(swap, 4, 3) * y0} if i % 3 else ({(2, 2): 5 * y0} if i % 2 else {(2, 2): 2 * y0, (3, 3): 1 * y0, (4, 4): 2 * y0, (3, 2): 4 * y0})
    d = {"t": t, "amplm": amps, "phaselm": {k: ph * k[1] / 2.0 for k in amps}}
    if rng.random() < 0.4:
        # as complex modes: phases are found again up to whole turns
        d = {"t": t, "hlm": {k: amps[k] * np.exp(-0.3j * d["phaselm"][k]) for k in amps}}
        inc2 = True
    else:
        inc2 = False
    cut = rng.choice([None, None, 0, 1])
    o = guarded(lambda: synth.methods()["Amplitude"](d, tref_in=t, num_orbits_to_exclude_before_merger=cut, debug_level=-1), timeout=60)
    out = []
    if not o["ok"]:
        return [dict(kind="slope", y=[0] * 5, n=5, got=[], tol=0, id=dict(i=i, msg=str(o["msg"])[:200]))]
    g = o["value"]
    out.append(peak_record(y, t0, dt, g.t_merger, np.nan, False, f"whole{i}", ""))
    # the slope at a sample depends on the samples around it only if these
    # were analysed together: the frequency belongs to the whole waveform
    om = np.asarray(g.omega_gw)
    if not inc2:
        out.append(dict(kind="slope", y=[int(v) for v in ph], n=n if cut is None else len(om), got=ints(om * dt, 12000, 10 ** 9), tol=3, id=dict(i=i, whole=True, cut=cut)))
    return out


def interp(i):
    from gw_eccentricity import utils as U
    rng = rng_of("interp", i)
    mono = rng.random() < 0.35
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 9]) if rng.random() < 0.9 else 2
    k = rng.randint(1, 5)
    q = sorted(rng.sample(range(0, 25), n))             # quarter units
    deg = rng.randint(0, 3)
    c = [rng.randint(-3, 3) for _ in range(deg + 1)]
    fault = rng.choice(["none"] * 7 + ["length", "order", "equal"])
    if fault == "order" and n > 1:
        a = rng.randrange(n - 1)
        q[a], q[a + 1] = q[a + 1], q[a]
    if fault == "equal" and n > 1:
        a = rng.randrange(n - 1)
        q[a + 1] = q[a]
    scale = 2.0 ** rng.randint(-3, 3)
    x = np.array(q) / 4.0 * scale
    if mono:
        data = [rng.randint(-50, 50) for _ in q]
        if rng.random() < 0.5:
            data.sort()
        y = np.array(data, dtype=float)
    else:
        data = [0] * n
        y = sum(cc * (np.array(q) / 4.0) ** e for e, cc in enumerate(c)) + 0.0 * x
    if fault == "length":
        data = data[:-1] if rng.random() < 0.5 or n < 2 else data + [1]
        y = y[:len(data)] if len(data) < n else np.append(y, 1.0)
    lo, hi = min(q), max(q)
    extra = rng.random() < 0.35
    new = [rng.randint(lo, hi) for _ in range(rng.randint(1, 6))] + rng.sample(q, min(n, rng.randint(0, 3)))
    if rng.random() < 0.35:
        new.append(rng.choice([lo - 1, hi + 1, lo - 3, hi + 5]))
    rng.shuffle(new)
    opts = None
    kw = dict(allowExtrapolation=extra) if extra or rng.random() < 0.5 else {}
    if mono:
        kw["interpolator"] = "monotonic_spline"
        kk = 3
    else:
        kk = 3
        if rng.random() < 0.3:
            kw["interpolator"] = "spline"
        if rng.random() < 0.6:
            opts = {"k": k}
            kk = k
            if rng.random() < 0.5:
                opts["ext"] = rng.choice([0, 2] if extra else [0, 1, 2, 3])
            if rng.random() < 0.3:
                opts["w"] = np.array([rng.choice([0.5, 1.0, 2.0])] * len(x))
            kw["spline_kwargs"] = opts
    before = str(opts)
    full = rng.random() < 0.6
    arg = np.array(new) / 4.0 * scale
    single = len(new) == 1 and rng.random() < 0.5

    def run():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            kw["debug_level"] = -1
            a = float(arg[0]) if single else arg
            return np.atleast_1d(U.interpolate(a, x, y, **kw) if full else U.get_interpolant(x, y, **kw)(a))
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        o = guarded(run)
    # a bare interpolant may also answer "not a number" outside
    refused = not o["ok"] or (not full and bool(np.any(np.isnan(o["value"]))))
    return dict(kind="mono" if mono else "poly", x=q, data=[int(v) for v in data], c=c, k=kk, new=new, extra=extra, refused=refused,
                got=ints(o["value"], 10000 if mono else 4 ** deg) if not refused else [], id=dict(i=i, fault=fault, n=n, full=full, opts=before, msg=str(o["msg"])[:200]))


def one(job):
    kind, y, i = job
    if kind == "slope":
        return [slope(y, i)]
    if kind == "peak":
        return [peak(y, i)]
    if kind == "chunk":
        return [f(z, (i, j)) for j, z in enumerate(y) for f in (slope, peak)]
    if kind == "total":
        return [total(i * 100 + j) for j in range(20)]
    if kind == "interp":
        return [interp(i * 100 + j) for j in range(40)]
    return whole(i)


def check(c: Check):
    vlib.import_gwecc()
    c.tlc(vlib.tlc("Numerics", defs="CONSTANTS Ns = {5,6,7} Vals = {0,1,%s} Emit = FALSE" % pick("3", "2,5"), workers=8))
    r, cases = tlc_emit("Numerics", defs="CONSTANTS Ns = {5,%s} Vals = {0,1,4} Emit = TRUE" % pick("6", "6,7"), workers=4)
    c.tlc(r)
    ys = [z["y"] for z in cases if max(map(abs, z["y"])) < 10]
    rest = [z["y"] for z in cases if max(map(abs, z["y"])) >= 10]
    rng = random.Random(vlib.SEED)
    more = [[rng.randint(0, 9) for _ in range(rng.randint(5, 15))] for _ in range(pick(400, 6000))]
    jobs = [("chunk", (ys + more)[a:a + 40], a) for a in range(0, len(ys) + len(more), 40)]
    # powers: slopes only (the values are too large for the peak's judge)
    jobs += [("slope", z, 10 ** 6 + a) for a, z in enumerate(rest)]
    jobs += [("slope", [rng.randint(-5000, 5000) for _ in range(rng.randint(5, 30))], 2 * 10 ** 6 + a) for a in range(pick(60, 600))]
    jobs += [("total", None, a) for a in range(pick(10, 100))]
    jobs += [("interp", None, a) for a in range(pick(60, 700))]
    jobs += [("whole", None, a) for a in range(pick(150, 2500))]
    recs = [z for x in pmap(one, jobs) for z in (x or [])]
    c.note(**{"recorded_" + k: sum(z["kind"] == k for z in recs) for k in ("slope", "peak", "total", "poly", "mono")}, refused=sum(z.get("refused", False) for z in recs),
           whole=sum(z["kind"] == "peak" and str(z["id"]["i"]).startswith("whole") for z in recs))
    c.sample(recs[0])

    def mod(pred, **kw):
        def f():
            z = dict(next(z for z in recs if pred(z)))
            for k, v in kw.items():
                z[k] = v(z) if callable(v) else v
            return z
        return f
    sl = lambda z: z["kind"] == "slope" and len(z["got"]) > 5
    pk = lambda z: z["kind"] == "peak" and not z["far"] and z["top"] != -1 and z["y"][2] == max(z["y"]) and z["y"].count(max(z["y"])) == 1
    po = lambda z: z["kind"] == "poly" and not z["refused"] and len(z["c"]) - 1 <= min(z["k"], len(z["x"]) - 1) and set(z["new"]) & set(z["x"])
    mo = lambda z: z["kind"] == "mono" and not z["refused"] and set(z["new"]) & set(z["x"])
    controls = [(mod(sl, got=lambda z: [z["got"][0] + 9] + z["got"][1:]), "slope-at-the-ends"), (mod(sl, got=lambda z: [v + 12000 for v in z["got"]]), "slope"),
                (mod(sl, got=lambda z: z["got"][1:]), "samples-missing"), (mod(pk, off=lambda z: z["off"] + 100), "peak-time"), (mod(pk, top=lambda z: z["top"] + 100), "peak-value"), (mod(pk, far=True), "peak-time"),
                (mod(lambda z: z["kind"] == "total", got=lambda z: [v + 1 for v in z["got"]]), "total-amplitude"),
                (mod(po, got=lambda z: [v + 7 for v in z["got"]]), "not-reproduced"), (mod(po, got=lambda z: [v + 7 for v in z["got"]]), "misses-data"),
                (mod(mo, got=lambda z: [v + 5 for v in z["got"]]), "misses-data"), (mod(mo, got=lambda z: [v + 2 * 10 ** 6 for v in z["got"]]), "overshoots"),
                (mod(po, refused=True), "refuses"), (mod(lambda z: z.get("refused"), refused=False), "accepts")]
    vlib.judge(c, "JNumerics", recs, controls=controls, key=lambda i, cl: f"{recs[i]['kind']}:{'+'.join(sorted(cl))}:{recs[i]['id']}"[:150],
               what=lambda i, cl: f"{sorted(cl)}: {str(recs[i])[:700]}")
    c.assumptions += ["samples are small integers on grids whose step is a power of two, so that exact values are known; a peak whose parabola is flat is not judged",
                      "beyond the points asked to extrapolate, only polynomials the spline reproduces are judged"]


if __name__ == "__main__":
    main(check, "P28")
