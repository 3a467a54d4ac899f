"""P15: the adaptive degree search of the rational fits."""
import random
import numpy as np
from scipy.interpolate import InterpolatedUnivariateSpline
import vlib
from vlib import Check, tlc_emit, pmap, guarded, pick, main
import synth

DEFAULT = dict(max_iterations=20, tol=1e-7)


def wave(np_, na, first_peri, gap, rng, noise, shape, dt, t0):
    """alternating extrema with arbitrary values of the frequency"""
    n = np_ + na
    ext = np.cumsum([rng.randint(gap, gap + max(1, gap // 4)) for _ in range(n)]) + 30
    ph = np.cumsum(np.full(n, 2.3 * np.pi)) + 1.0
    N = int(ext[-1]) + 60
    k = np.arange(N)
    p = np.interp(k, ext, ph)
    s0, s1 = (ph[1] - ph[0]) / (ext[1] - ext[0]), (ph[-1] - ph[-2]) / (ext[-1] - ext[-2])
    p[:ext[0]] = ph[0] - s0 * (ext[0] - k[:ext[0]])
    p[ext[-1]:] = ph[-1] + s1 * (k[ext[-1]:] - ext[-1])
    kinds = np.array([(i % 2 == 0) == first_peri for i in range(n)])
    x = (ext - ext[0]) / (ext[-1] - ext[0])
    nr = np.random.default_rng(rng.randrange(2 ** 32))
    f = {"chirp": 1 / (1.25 - x), "line": 1 + x, "steep": 1 / (1.02 - x) ** 0.5, "wavy": 1 + x + 0.1 * np.sin(9 * x), "flat": 1 + 1e-4 * x,
         "down": 2 - x, "quad": 1 + x ** 2}[shape]
    y = f * (1 + noise * nr.standard_normal(n))
    y = np.abs(y) * np.where(kinds, 0.2, 0.1) / dt
    om = np.interp(k, ext, np.interp(ext, ext, y))
    om[ext] = y
    d = synth.grid_wave(N, dt=dt, t0=t0, phase=p, omega=om)
    return d, [int(e) for e in ext[kinds]], [int(e) for e in ext[~kinds]]


def curve(x, y, deg, kw):
    from gw_eccentricity.rational_fit import RationalFit
    f = RationalFit(x, y, degrees=deg)
    f.fit(**kw)
    return f


def own_fit(x, y, deg, max_iterations, tol):
    """reference implementation: SK iteration with variable projection in a
    basis orthonormal at the weighted points; the best iterate is kept"""
    m, n = deg
    z = 2 * (x - x.min()) / (x.max() - x.min()) - 1

    def basis(w, z, d):
        V, H = [w / np.linalg.norm(w)], []
        for k in range(d):
            v = V[k] * z
            h = np.zeros(k + 1)
            for _ in range(2):
                c = np.array([u @ v for u in V])
                h += c
                v = v - sum(a * u for a, u in zip(c, V))
            H.append((h, np.linalg.norm(v)))
            V.append(v / H[-1][1])
        return np.array(V).T, H
    q, best, prev = np.ones(len(x)), None, np.zeros(len(x))
    for _ in range(max_iterations):
        w = 1 / q
        V, H = basis(w, z, max(m, n))
        P, Q = V[:, :m + 1], V[:, :n + 1]
        A = y[:, None] * Q
        A = A - P @ np.linalg.lstsq(P, A, rcond=None)[0]
        b = np.linalg.svd(A, full_matrices=False)[2][-1]
        a = np.linalg.lstsq(P, y * (Q @ b), rcond=None)[0]
        r = (P @ a) / (Q @ b)
        res = np.linalg.norm(r - y)
        if best is None or res < best[0]:
            best = (res, a, b, H, np.linalg.norm(w))
        if np.linalg.norm(r - prev) < tol:
            break
        prev = r
        q = np.abs(q * (Q @ b))
        q[q == 0] = 1
    _, a, b, H, w0 = best

    def f(xx):
        zz = 2 * (xx - x.min()) / (x.max() - x.min()) - 1
        V = [np.ones(len(zz)) / w0]
        for k, (h, nn) in enumerate(H):
            V.append((V[k] * zz - sum(c * u for c, u in zip(h, V))) / nn)
        V = np.array(V).T
        with np.errstate(all="ignore"):
            return (V[:, :m + 1] @ a) / (V[:, :n + 1] @ b)
    return f


def answer(x, y, deg, kw, dt):
    """does the fit have a slope of one sign? (2: too close to call)"""
    xt = np.arange(x[0], x[-1], dt)
    with np.errstate(all="ignore"):
        v = curve(x, y, deg, kw)(xt)
        g = np.gradient(v, xt[1] - xt[0])
        r = g[1:] / g[:-1]
        top = np.nanmax(np.abs(g))
        if not np.isfinite(top) or top == 0:
            return 2
        small = np.minimum(np.abs(g[1:]), np.abs(g[:-1])) < 1e-9 * top
    bad = r <= 0
    if np.any(bad & ~small):
        return 0
    return 2 if np.any(small) else 1


def under(d, n):
    return d[0] + d[1] + 1 >= n


def acceptance(x, y, kw, dt, around):
    """answers on all degrees a search around some starting points may meet"""
    out = {}
    for d in around:
        for step in (0, 1):
            e = d
            while True:
                if tuple(e) not in out:
                    out[tuple(e)] = answer(x, y, tuple(e), kw, dt)
                if step and (out[tuple(e)] == 0 or under((e[0] + 1, e[1] + 1), len(x))):
                    break
                if not step and e[0] <= 1 and e[1] <= 1:
                    break
                e = (e[0] + 1, e[1] + 1) if step else (max(e[0] - 1, 1), max(e[1] - 1, 1))
    return out


def starts(user, counts, n):
    """where a search may start: the (reduced) degrees; a superset"""
    c = max(counts)
    d = tuple(user) if user else (3, 3) if c <= 20 else (4, 4) if c <= 40 else (5, 5) if c <= 60 else (6, 6)
    out, denom = [], True
    while under(d, n) and d != (0, 0):
        if denom and d[1] > 0:
            d = (d[0], d[1] - 1)
        elif d[0] > 0:
            d = (d[0] - 1, d[1])
        denom = not denom
    return [d]


def ecc(p, a):
    with np.errstate(all="ignore"):
        e = (np.sqrt(p) - np.sqrt(a)) / (np.sqrt(p) + np.sqrt(a))
        psi = np.arctan2(1 - e * e, 2 * e)
        return np.cos(psi / 3) - np.sqrt(3) * np.sin(psi / 3)


def one(job):
    kind, x, i = job
    rng = random.Random(f"{vlib.SEED}:{kind}:{i}")
    from gw_eccentricity.rational_fit import RationalFit  # noqa
    if kind == "fit":
        n = rng.randint(4, 40)
        xs = np.sort(np.array([rng.uniform(0, 1) for _ in range(n)])) * rng.choice([1, 1000.0]) + np.arange(n) * rng.choice([0.01, 50.0])
        z = (xs - xs[0]) / (xs[-1] - xs[0])
        nr = np.random.default_rng(i)
        ys = rng.choice([1 / (1.3 - z), 1 + z ** 2, np.exp(z), 0.02 / (1.1 - z) ** 0.375]) * (1 + rng.choice([0, 1e-6, 1e-3, 0.03]) * nr.standard_normal(n))
        deg = (rng.randint(0, 4), rng.randint(0, 4))
        kw = dict(max_iterations=rng.choice([20, 20, 3, 1, 10]), tol=rng.choice([1e-7, 1e-7, 1e-2, 1e-12]))
        if under(deg, n):
            return []
        g = lambda v: own_fit(xs, v, deg, **kw)(xs)
        # ill-conditioned problems have no well-defined answer
        try:
            ref = g(ys)
            scale = np.max(np.abs(ref))
            spread = max(np.max(np.abs(g(ys * (1 + u * nr.standard_normal(n))) - ref)) / u for u in (1e-13, 1e-11, 1e-10, 1e-9, 1e-9, 1e-8)) / scale
        except np.linalg.LinAlgError:
            return []
        if not np.isfinite(spread) or spread > 30:
            return []
        xx = np.linspace(xs[0], xs[-1], 57)
        with np.errstate(all="ignore"):
            ref, got = own_fit(xs, ys, deg, **kw), curve(xs, ys, deg, kw)
            # away from poles, and at the points
            dd = np.max(np.abs(ref(xs) - got(xs))) / scale
            a, b = ref(xx), got(xx)
        w = np.abs(a) < 3 * scale
        if np.all(w):
            dd = max(dd, np.max(np.abs(a - b)) / scale)
        return [dict(kind="fit", d=int(min(1e9, dd * 1e9)) if np.isfinite(dd) else 10 ** 9, id=dict(i=i, deg=deg, n=n, kw=kw))]
    dt = rng.choice([1.0, 1.0, 0.5, 2.0, 1e-3, 2000.0])
    forced = kind == "forced"
    kw = dict(DEFAULT)
    user = []
    if forced:
        cnt = x["n"]
        user = x["user"]
        shape, noise = rng.choice(["chirp", "quad", "steep"]), rng.choice([1e-3, 1e-2])
    else:
        if kind == "count":
            m = x
            cnt = [m, m + rng.choice([-1, 0, 1])]
            shape, noise = rng.choice(["chirp", "line", "quad"]), rng.choice([1e-4, 1e-2, 0.03])
        else:
            m = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20])
            cnt = [m, max(2, m + rng.choice([-1, 0, 1]))]
            shape = rng.choice(["chirp", "line", "steep", "wavy", "flat", "down", "quad"])
            noise = rng.choice([0.0, 1e-7, 1e-5, 1e-4, 1e-3, 1e-2, 3e-2])
        if rng.random() < 0.5 and kind != "count":
            user = [rng.randint(1, 6), rng.randint(1, 6)]
            if rng.random() < 0.5:
                user[1] = user[0]
        if rng.random() < 0.2:
            kw = dict(max_iterations=rng.choice([5, 40]), tol=rng.choice([1e-5, 1e-9]))
    first = cnt[0] > cnt[1] if cnt[0] != cnt[1] else rng.random() < 0.5
    d, P, A = wave(cnt[0], cnt[1], first, 8 if max(cnt) > 30 else rng.choice([10, 16, 25]), rng, noise, shape, dt, rng.choice([0.0, -512.0]))
    C = synth.controlled_class("Amplitude")

    class One(C):
        given = (P, A)
    want = None
    if forced:
        want = [{(a, b): ok for a, b, ok in z} for z in x["tried"]]
    hits, unclear = [0, 0], [False]
    if forced and hasattr(C, "check_if_first_derivative_is_not_strictly_monotonic"):
        cache = {}

        def decide(self, xt, yt, *a, **k2):
            real = C.check_if_first_derivative_is_not_strictly_monotonic(self, xt, yt, *a, **k2)
            for j, loc in enumerate((self.pericenters_location, self.apocenters_location)):
                xs, ys = self.t[loc], self.omega_gw[loc]
                if len(xt) != len(np.arange(xs[0], xs[-1], self.t[1] - self.t[0])) or xt[0] != xs[0]:
                    continue
                top, near = np.nanmax(np.abs(yt)), []
                for g, ok in want[j].items():
                    with np.errstate(all="ignore"):
                        if (j, g) not in cache:
                            cache[j, g] = curve(xs, ys, g, kw)(xt)
                        z = cache[j, g]
                        near.append((0.0 if np.array_equal(z, yt, equal_nan=True) else np.nanmax(np.abs(z - yt)) / top, not ok))
                near.sort()
                if near[0][0] < 1e-6:
                    hits[j] += 1
                    # curves of different degrees may coincide
                    unclear[0] |= len(near) > 1 and near[1][0] < 1e-6 and near[1][1] != near[0][1]
                    return near[0][1]
            return real
        One.check_if_first_derivative_is_not_strictly_monotonic = decide
    spec = {} if kw == DEFAULT else dict(kw)
    if user:
        spec["degrees"] = tuple(user)
    ek = {"special_interp_kwargs_for_omega_gw_extrema": spec} if spec else {}
    lo, hi = max(P[0], A[0]), min(P[-1], A[-1])
    tref = d["t"][0] + dt * (lo + np.linspace(0.03, 0.97, 7) * (hi - lo))
    o = None

    def run():
        nonlocal o
        o = One(d, tref_in=tref, extra_kwargs=ek, debug_level=-1)
        return o.measure_ecc()
    r = guarded(run, timeout=15)
    rec = dict(kind="search", user=user, got="values" if r["ok"] else "error", n=[0, 0], acc=[[], []], final=[[], []], tried=[[], []],
               known=[0, 0], curve=[0, 0], de=0, id=dict(kind=kind, i=i, shape=shape, noise=noise, kw=kw, msg=str(r["msg"])[:200]), forced=int(forced))
    if o is None:
        return [rec]
    if forced and r["ok"] and (min(hits) == 0 or unclear[0]):
        return [dict(kind="unforced")]
    if not r["ok"]:
        return [rec]
    locs = [o.pericenters_location, o.apocenters_location]
    rec["n"] = [len(z) for z in locs]
    vals = []
    for j, (name, loc) in enumerate(zip(("pericenters", "apocenters"), locs)):
        xs, ys = o.t[loc], o.omega_gw[loc]
        fin = o.rational_fit_degrees[name]
        rec["final"][j] = [] if fin is None else [int(v) for v in fin]
        hist = getattr(o, "rational_fit_nonmonotonicity_history", None)
        if hist is not None and name in hist:
            rec["known"][j] = 1
            rec["tried"][j] = [[int(k[0]), int(k[1]), 0 if v else 1] for k, v in hist[name].items()]
        if forced:
            rec["acc"][j] = [[a, b, ok] for (a, b), ok in want[j].items()]
        else:
            given = user if j == 0 else rec["final"][0]
            rec["acc"][j] = [[a, b, v] for (a, b), v in acceptance(xs, ys, kw, dt, starts(given, rec["n"], len(xs))).items()]
        itp = [o.omega_gw_pericenters_interp, o.omega_gw_apocenters_interp][j]
        tt = np.append(tref, xs[1:-1]) if len(xs) > 2 else tref
        tt = tt[(tt >= xs[0]) & (tt <= xs[-1])]
        with np.errstate(all="ignore"):
            if fin is None:
                ref = InterpolatedUnivariateSpline(xs, ys, k=min(3, len(xs) - 1))
            else:
                ref = curve(xs, ys, tuple(rec["final"][j]), kw)
            a, b = ref(tt), itp(tt)
            rec["curve"][j] = 0 if np.array_equal(a, b, equal_nan=True) else int(min(1e9, 1e9 * np.nanmax(np.abs(a - b)) / max(1e-12, np.nanmax(np.abs(a)))))
            vals.append(ref(tref))
    e = ecc(vals[0], vals[1])
    w = np.isfinite(e) & (vals[0] > vals[1]) & (vals[1] > 0)
    if len(r["value"]["eccentricity"]) == len(e) and np.any(w):
        rec["de"] = int(min(1e9, 1e9 * np.max(np.abs(e - r["value"]["eccentricity"])[w])))
    elif len(r["value"]["eccentricity"]) != len(e):
        rec["de"] = 10 ** 9
    return [rec]


def check(c: Check):
    vlib.import_gwecc()
    c.tlc(vlib.tlc("Degrees", defs="CONSTANTS Counts = {2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 14, 15, 16} Users = 2 B1 = 3 B2 = 5 B3 = 7 Emit = FALSE", workers=8))
    r, cases = tlc_emit("Degrees", defs="CONSTANTS Counts = {2, 3, 4, 5, 6, 7, 8, 9, 11} Users = 1 B1 = 20 B2 = 40 B3 = 60 Emit = TRUE", workers=4)
    c.tlc(r)
    rng = random.Random(vlib.SEED)
    sel = rng.sample(cases, min(len(cases), pick(500, 20000)))
    # one of each shape of search at least
    seen = set()
    for x in cases:
        k = (str(x["user"]), tuple(tuple(z[2] for z in t) for t in x["tried"]))
        if k not in seen:
            seen.add(k)
            sel.append(x)
    sel = sel[:pick(900, 10 ** 6)]
    jobs = [("forced", x, i) for i, x in enumerate(sel)]
    jobs += [("natural", None, i) for i in range(pick(900, 15000))]
    jobs += [("count", n, i) for i, n in enumerate([n for n in (19, 20, 21, 22, 39, 40, 41, 42, 59, 60, 61, 62, 66) for _ in range(pick(3, 20))])]
    jobs += [("fit", None, i) for i in range(pick(400, 6000))]
    got = [z for y in pmap(one, jobs) for z in (y or [])]
    recs = [z for z in got if z["kind"] != "unforced"]
    nat = [z for z in recs if z["kind"] == "search"]

    def shape(z, j):
        a = [t[2] for t in z["tried"][j]]
        return "exhausted" if not z["final"][j] else "lowered" if a and a[0] == 0 else "reverted" if a and a[-1] == 0 else "raised" if len(a) > 1 else "kept"
    cov = {}
    for z in nat:
        if z["got"] == "values":
            for j in (0, 1):
                k = ("forced " if z["forced"] else "natural ") + shape(z, j)
                cov[k] = cov.get(k, 0) + 1
    c.note(searches=len(nat), fits=len(recs) - len(nat), unforced=len(got) - len(recs), generated_cases=len(cases), failed=sum(z["got"] != "values" for z in nat),
           shapes=str(cov), close_calls=sum(any(a[2] == 2 for q in z["acc"] for a in q) for z in nat))
    c.sample(next((z for z in nat if z["got"] == "values"), None))

    def mod(pred, fn):
        def f():
            import copy
            z = copy.deepcopy(next(z for z in recs if pred(z)))
            fn(z)
            return z
        return f
    ok = lambda z: z["kind"] == "search" and z["got"] == "values" and z["final"][0] and z["final"][1]
    nat1 = lambda z: ok(z) and not z["forced"] and all(a[2] != 2 for q in z["acc"] for a in q)
    controls = [(mod(nat1, lambda z: z["final"].__setitem__(1, [z["final"][1][0] + 1, z["final"][1][1] + 1])), "wrong-final"),
                (mod(nat1, lambda z: z["final"].__setitem__(1, [])), "wrong-final"),
                (mod(lambda z: nat1(z) and z["known"][0], lambda z: z["tried"][0].append([9, 9, 1])), "wrong-search"),
                (mod(ok, lambda z: z["curve"].__setitem__(0, 10 ** 6)), "other-curve"),
                (mod(ok, lambda z: z.update(de=10 ** 6)), "other-values"),
                (mod(ok, lambda z: z.update(got="error")), "fails"),
                (dict(kind="fit", d=10 ** 6), "wrong-fit")]
    vlib.judge(c, "JDegrees", recs, controls=controls,
               key=lambda i, cl: f"{recs[i]['kind']}:{'+'.join(sorted(cl))}:{recs[i]['id']}"[:200],
               what=lambda i, cl: f"{sorted(cl)}: {recs[i]}")


if __name__ == "__main__":
    main(check, "P15")
