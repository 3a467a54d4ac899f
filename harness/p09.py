"""P09: exactly the documented waveform data is accepted, equivalent data agree."""
import random
import numpy as np
import vlib
from vlib import Check, tlc_emit, pmap, guarded, pick, main
import synth

AVGS = ["orbit_averaged_omega_gw", "mean_of_extrema_interpolants", "omega_gw_zeroecc"]


def deriv(y, dt):
    """fourth-order finite differences"""
    n = len(y)
    r = np.empty(n)
    r[2:-2] = (y[:-4] - 8 * y[1:-3] + 8 * y[3:-1] - y[4:]) / 12
    f, b = y[:5], y[-5:][::-1]
    for e, s, i, j in ((f, 1, 0, 1), (b, -1, -1, -2)):
        r[i] = s * (-25 * e[0] + 48 * e[1] - 36 * e[2] + 16 * e[3] - 3 * e[4]) / 12
        r[j] = s * (-3 * e[0] - 10 * e[1] + 18 * e[2] - 6 * e[3] + e[4]) / 12
    return r / dt


def full(prec, i):
    """every piece of one waveform under its documented key"""
    d = synth.pn(e0=[0.25, 0.35, 0.2, 0.3][i], orbits=[11, 12.5, 10.3, 11.7][i], ano0=[0.3, 2.1, 4.4, 5.5][i],
                 dt=[1.0, 1.0, 0.5, 1.0][i], zeroecc=True)
    d["t"] = d["t"] + [0.0, 512.0, -33.0, 0.0][i]
    out = {"unknown": {"a": 1}}
    for s in ["", "_zeroecc"]:
        t, A, P = d["t" + s], d["amplm" + s][(2, 2)], d["phaselm" + s][(2, 2)]
        a, p = {(2, 2): A}, {(2, 2): P}
        if prec:
            f = 0.01 * np.sin(0.7 * P)
            a = {(2, -2): A * (1 - f), (2, 2): A * (1 + f)}
            p = {(2, -2): -P, (2, 2): P}
            if prec == "inertial":
                for m, z, k in (((2, 1), 0.02, 0.5), ((2, -1), 0.02, -0.5), ((2, 0), 0.01, 1 / 3)):
                    a[m], p[m] = A * z, P * k
        h = {m: a[m] * np.exp(-1j * p[m]) for m in a}
        if prec == "inertial":
            al = 2 * np.pi * 2 * (t - t[0]) / (t[-1] - t[0])
            h = synth.precess(h, t, al, 0.3 * (1 + 0.2 * np.sin(0.7 * al)))
            a = {m: np.abs(z) for m, z in h.items()}
            p = {m: -np.unwrap(np.angle(z)) for m, z in h.items()}
        out.update({"t" + s: t, "hlm" + s: h, "amplm" + s: a, "phaselm" + s: p,
                    "omegalm" + s: {m: deriv(p[m], t[1] - t[0]) for m in p}})
    return out


def check(c: Check):
    gw = vlib.import_gwecc()
    r, cases = tlc_emit("DataDict", defs="CONSTANT Emit = TRUE", workers=8)
    c.tlc(r)
    if len(cases) != 2 ** 12:
        raise vlib.MachineryError(f"{len(cases)} cases")
    ms = list(synth.methods())
    res = [m for m in ms if m.startswith("Residual")]
    plain = [m for m in ms if not m.startswith("Residual")]
    pool = {(p, i): full(p, i) for p in (False, "coprecessing", "inertial") for i in range(pick(2, 4))}
    refs = {}

    def base(pk, m, dom, avg, interp):
        """measurement from the canonical dictionary"""
        F = pool[pk]
        K = (["t", "amplm", "phaselm", "t_zeroecc", "amplm_zeroecc", "phaselm_zeroecc"])
        if not (m in res or (dom == "f" and avg == AVGS[2])):
            K = K[:3]
        return guarded(lambda: run({k: F[k] for k in K}, pk, m, dom, avg, interp))

    def run(d, pk, m, dom, avg, interp):
        F = pool[pk]
        kw = dict(tref_in=F["t"][::17]) if dom == "t" else dict(fref_in=np.linspace(0.0062, 0.0095, 12)[::-1])
        if pk[0]:
            kw.update(precessing=True, frame=pk[0])
        return gw.measure_eccentricity(method=m, dataDict=d, debug_level=-1, extra_kwargs={
            "omega_gw_averaging_method": avg, "omega_gw_extrema_interpolation_method": interp}, **kw)
    combos = []
    for pk in pool:
        for m in ms:
            for dom, avg in [("t", AVGS[0]), ("f", AVGS[0]), ("f", AVGS[1]), ("f", AVGS[2]), ("t", AVGS[2])]:
                combos.append((pk, m, dom, avg))
    bases = pmap(lambda q: (lambda o: (o["ok"], vals(o["value"]) if o["ok"] else o["msg"]))(base(*q, "spline")), combos)
    for q, b in zip(combos, bases):
        if isinstance(b, dict) or not b[0]:
            c.violation(f"canonical:{q}", f"canonical dictionary rejected: {b}", None)
        else:
            refs[q] = b[1]
    needs = {True: [q for q in combos if q in refs and (q[1] in res or (q[2] == "f" and q[3] == AVGS[2]))],
             False: [q for q in combos if q in refs and not (q[1] in res or (q[2] == "f" and q[3] == AVGS[2]))]}
    rng = random.Random(vlib.SEED)
    jobs = []
    for x in cases:
        for _ in range(pick(1 if x["decide"] == "reject" else 10, 4 if x["decide"] == "reject" else 60)):
            cheap = [q for q in needs[x["need"]] if q[0][0] != "inertial" and "Fits" not in q[1]]
            q = rng.choice(needs[x["need"]] if rng.random() < pick(0.12, 0.4) else cheap)
            jobs.append((x, q, rng.random(), rng.randrange(10 ** 9)))

    def one(job):
        x, q, u, seed = job
        rng = random.Random(seed)
        F = pool[q[0]]
        keys = list(x["keys"])
        rng.shuffle(keys)
        d = {}
        extra = False
        for k in keys:
            v = F[k]
            if isinstance(v, dict) and k != "unknown":
                ks = list(v)
                rng.shuffle(ks)
                v = {m: v[m] for m in ks}
            d[k if k != "unknown" else rng.choice(["note", "Hlm", "mass_ratio", 7])] = v
        if u < 0.4 and q[0][0] is False:
            # further modes with proportional amplitude leave the merger in place
            extra = True
            for s in ["", "_zeroecc"]:
                for m, z, k_ in (((3, 3), 0.3, 1.5), ((2, 1), 0.1, 0.5), ((3, -3), 0.3, -1.5), ((2, 0), 0.05, 0.0)):
                    if rng.random() < 0.7:
                        A, P = F["amplm" + s][(2, 2)] * z, F["phaselm" + s][(2, 2)] * k_
                        for kk, val in (("hlm", A * np.exp(-1j * P)), ("amplm", A), ("phaselm", P),
                                        ("omegalm", F["omegalm" + s][(2, 2)] * k_)):
                            if kk + s in d:
                                d[kk + s] = {**d[kk + s], m: val} if rng.random() < 0.5 else {m: val, **d[kk + s]}
        o = guarded(lambda: run(d, *q, "spline"))
        rec = dict(keys=sorted(x["keys"]), need=x["need"], method=q[1], domain=q[2], avg=q[3], frame=str(q[0][0]), extra=extra,
                   outcome="ok" if o["ok"] else "error", msg=(o["msg"] or "")[:160], shape=True, dev=0, tol=1000)
        if o["ok"]:
            v, w = vals(o["value"]), refs[q]
            rec["shape"] = [len(z) for z in v] == [len(z) for z in w]
            if rec["shape"]:
                dv = max(float(np.max(np.abs(v[0] - w[0]))), float(np.max(np.abs(np.angle(np.exp(1j * (v[1] - w[1])))))),
                         float(np.max(np.abs(v[2] / w[2] - 1))))
                rec["dev"] = int(min(dv * 1e9, 2e9)) if np.isfinite(dv) else 2 * 10 ** 9
        return rec
    recs = []
    for j, x in zip(jobs, pmap(one, jobs)):
        if "died" in x:
            c.violation(f"died:{j}", "process died", j)
        else:
            recs.append(x)
    ok = [x for x in recs if x["outcome"] == "ok"]
    bad = [x for x in recs if x["outcome"] != "ok"]
    controls = []
    if ok and bad:
        controls = [({**ok[0], "outcome": "error", "keys": ["t", "hlm"], "need": False}, "must-be-accepted"),
                    ({**ok[0], "keys": ["t", "hlm", "amplm", "phaselm"]}, "must-be-rejected"),
                    ({**ok[0], "need": True, "keys": ["t", "hlm", "hlm_zeroecc"]}, "must-be-rejected"),
                    ({**ok[0], "dev": 1001}, "same-values"), ({**ok[0], "shape": False}, "same-points")]
    vlib.judge(c, "JDataDict", recs, controls=controls,
               key=lambda i, cl: "%s:%s:%s:%s:%s" % ("+".join(recs[i]["keys"]), recs[i]["method"], recs[i]["avg"], recs[i]["domain"], ",".join(sorted(cl))),
               what=lambda i, cl: f"{recs[i]} violates {sorted(cl)}")
    for x in ok[:2] + bad[:1]:
        c.sample(x)
    c.note(key_subsets=2 ** 11, measurements=len(recs), accepted=len(ok), max_deviation=max([x["dev"] for x in ok] or [0]) / 1e9)
    c.assumptions += ["incomplete quasicircular data that the request does not need may be ignored or rejected",
                      "a derived frequency is the fourth-order finite difference of the phase"]


def vals(r):
    return [np.atleast_1d(np.array(r[k], dtype=float)) for k in ("eccentricity", "mean_anomaly", "tref_out" if "tref_out" in r else "fref_out")]


main(check, "P09")
