"""P03: reference times are selected exactly and point by point."""
import random
import numpy as np
import vlib
from vlib import Check, judge, tlc_emit, pmap, guarded, pick, main
import synth

C8 = 10 ** 8


def base_wave(dt, t0, nper=9, T=200, al=0.0):
    n = T * (nper + 2)
    k = np.arange(n)
    x = k / T
    ph = 4 * np.pi * (x + 0.01 * x * x)
    om = (4 * np.pi / T / dt) * (1 + 0.02 * x) * (1 + 0.2 * np.cos(2 * np.pi * x))
    return synth.grid_wave(n, dt=dt, t0=t0, phase=ph, omega=om)


# extrema layouts: which kind comes first / last
def layouts(T=200, n=8):
    p = [T * (i + 1) for i in range(n)]
    a = [T * (i + 1) + 90 for i in range(n)]
    return {
        "PA": (p, a), "AP": (a, p),
        "PP": (p, a[:-1]), "AA": (a, p[1:]),
        "PAx": (p, [x + 35 for x in a]),
    }


def positions(t, p, a):
    """position classes in increasing time (tmin = class 4, tmax = class 8)"""
    tp, ta = t[np.array(p)], t[np.array(a)]
    lo = max(tp[0], ta[0])
    hi = min(tp[-1], ta[-1])
    return [t[0] - 50.0, min(tp[0], ta[0]), np.nextafter(lo, -np.inf), lo,
            np.nextafter(lo, np.inf), tp[3], 0.5 * (ta[3] + tp[4]) + 0.123,
            np.nextafter(hi, -np.inf), hi, np.nextafter(hi, np.inf),
            max(tp[-1], ta[-1]), t[-1] + 10.0], 4, 9


def containers(vals, kind):
    if kind == "list":
        return [float(v) for v in vals]
    if kind == "tuple":
        return tuple(float(v) for v in vals)
    if kind == "array":
        return np.array(vals, dtype=float)
    if kind == "strided":
        z = np.zeros(2 * len(vals))
        z[::2] = vals
        return z[::2]
    if kind == "readonly":
        z = np.array(vals, dtype=float)
        z.setflags(write=False)
        return z
    if kind == "pyscalar":
        return float(vals[0])
    if kind == "npscalar":
        return np.float64(vals[0])
    if kind == "0d":
        return np.array(float(vals[0]))
    if kind == "int":
        return [int(v) for v in vals]
    if kind == "intarray":
        return np.array([int(v) for v in vals])
    if kind == "pyint":
        return int(vals[0])
    raise ValueError(kind)


class Cfg:
    """one measured system: how to run a request and which extrema it has"""

    def __init__(self, name, run, t):
        self.name, self.run, self.t = name, run, t


def make_cfgs():
    gw = vlib.import_gwecc()
    out = {}
    for lay, (p, a) in layouts().items():
        for dt, t0 in [(1.0, 0.0), (0.25, -1234.5)]:
            for im in ["spline", "rational_fit"]:
                d = base_wave(dt, t0)

                def run(tref, d=d, p=p, a=a, im=im):
                    return synth.controlled_measure(
                        d, (p, a), tref_in=tref,
                        extra_kwargs={"omega_gw_extrema_interpolation_method": im})
                out[f"ctl-{lay}-{dt}-{im}"] = (run, d["t"], p, a)
    d = synth.pn(e0=0.15, orbits=14)
    for m in synth.methods():
        for mid in [False, True]:
            ek = {"treat_mid_points_between_pericenters_as_apocenters": mid}

            def run(tref, d=d, m=m, ek=ek):
                return gw.measure_eccentricity(tref_in=tref, method=m, dataDict=d,
                                               extra_kwargs=dict(ek))
            out[f"pn-{m}-{'mid' if mid else 'std'}"] = (run, d["t"], None, None)
    return out


def check(c: Check):
    cfgs = make_cfgs()
    # 1. design model + generation of requests
    r, cases = tlc_emit("MCRefSelect", defs="CONSTANTS MaxLen = 3  Positions = {1,2,3,4,5,6,7,8,9,10,11,12}"
                        "  Lo = 4  Hi = 9  Emit = TRUE", workers=4)
    c.tlc(r)
    c.note(design_states=r.distinct, generated_requests=len(cases))
    rng = random.Random(vlib.SEED)

    # 2. extrema of every configuration, as the object reports them
    info = {}
    for name, (run, t, p, a) in cfgs.items():
        if p is None:
            o = guarded(lambda: run(t))
            if not o["ok"]:
                c.violation(f"setup:{name}", f"measurement on a clean waveform failed: {o['msg']}", o)
                continue
            g = o["value"]["gwecc_object"]
            tp, ta = np.array(g.t_pericenters), np.array(g.t_apocenters)
            # the extrema are samples of the analysed data
            p = [int(np.argmin(abs(t - x))) for x in tp]
            a = [int(np.argmin(abs(t - x))) for x in ta]
            if np.any(t[p] != tp) or np.any(t[a] != ta):
                c.violation(f"setup:{name}", "extrema are not at sample times", None)
                continue
        info[name] = (p, a)
    jobs = []
    for i, name in enumerate(info):
        run, t, _, _ = cfgs[name]
        pos, lo, hi = positions(t, *info[name])
        short = [x for x in cases if len(x["req"]) <= 2]
        long_ = [x for x in cases if len(x["req"]) == 3]
        per = pick(40, 3000) if name.startswith("ctl") else pick(6 if 'Fits' in name else 16, 800)
        sel = [x for x in short if len(x["req"]) == 1] + \
            rng.sample(short, min(len(short), per)) + rng.sample(long_, min(len(long_), per))
        for x in sel:
            v = [pos[k - 1] for k in x["req"]]
            kinds = ["list", "array", "strided", "readonly", "tuple"]
            if len(v) == 1:
                kinds += ["pyscalar", "npscalar", "0d"]
            ks = kinds if len(v) == 1 else [rng.choice(kinds)]
            for k in ks:
                jobs.append((name, v, k))
        # long requests: unsorted, repeated, across the limits, many points
        for m in pick([17, 300] if 'Fits' in name else [17, 300, 5000], [5, 17, 64, 300, 1001, 4096, 5000, 20000]):
            v = [rng.uniform(t[0], t[-1]) for _ in range(m)] + [rng.choice(pos) for _ in range(m // 4)]
            v += rng.sample(v, m // 5)
            rng.shuffle(v)
            jobs.append((name, v, "array"))
        tt = [float(x) for x in t]
        jobs.append((name, tt, "array"))
        jobs.append((name, tt[::-1], "array"))
        if float(t[1]).is_integer():
            v = [rng.randint(int(t[0]), int(t[-1])) for _ in range(20)]
            jobs.append((name, v, "intarray"))
            jobs.append((name, v, "int"))
            v = int(pos[5])
            jobs.append((name, [v], "pyint"))

    def one(job):
        name, v, kind = job
        run, t, _, _ = cfgs[name]
        p, a = info[name]
        req = containers(v, kind)
        o = guarded(lambda: run(req))
        vals = np.atleast_1d(np.array(req, dtype=float))
        tp, ta = t[np.array(p)], t[np.array(a)]
        lo, hi = max(tp[0], ta[0]), min(tp[-1], ta[-1])
        rec = dict(cfg=name, kind=kind, outcome="ok" if o["ok"] else "error",
                   msg=(o["msg"] or "")[:200], reqndim=int(np.ndim(req)),
                   out=[], ecc=[], ano=[], ecc1=[], ano1=[], ndims=[], finite=True)
        outv = []
        if o["ok"]:
            R = o["value"]
            outv = [float(x) for x in np.atleast_1d(R["tref_out"])]
            e = np.atleast_1d(np.asarray(R["eccentricity"], dtype=float))
            m = np.atleast_1d(np.asarray(R["mean_anomaly"], dtype=float))
            rec["ndims"] = [int(np.ndim(R[k])) for k in ("tref_out", "eccentricity", "mean_anomaly")]
            rec["finite"] = bool(np.all(np.isfinite(e)) and np.all(np.isfinite(m)))
            sc = lambda z: [int(round(float(x) * C8)) if np.isfinite(x) and abs(x) < 20 else 2 * 10 ** 9 for x in z]
            rec["ecc"], rec["ano"] = sc(e), sc(m)
            # what the same times give alone (a sample of them for long answers)
            idx = range(len(outv)) if len(outv) <= 12 else \
                sorted(random.Random(len(outv)).sample(range(len(outv)), pick(6, 12)))
            e1, m1 = list(rec["ecc"]), list(rec["ano"])
            for i in idx:
                if i >= len(e1) or i >= len(m1):
                    continue
                s = guarded(lambda: run(outv[i]))
                if s["ok"]:
                    e1[i] = sc([float(np.atleast_1d(s["value"]["eccentricity"])[0])])[0]
                    m1[i] = sc([float(np.atleast_1d(s["value"]["mean_anomaly"])[0])])[0]
                else:
                    e1[i] = m1[i] = 2 * 10 ** 9
            rec["ecc1"], rec["ano1"] = e1, m1
        rk = vlib.dense_ranks(list(vals) + outv + list(tp) + list(ta))
        rec["req"] = [rk(x) for x in vals]
        rec["out"] = [rk(x) for x in outv]
        rec["peri"] = [rk(x) for x in tp]
        rec["apo"] = [rk(x) for x in ta]
        return rec
    recs = pmap(one, jobs)
    good = []
    for j, r_ in zip(jobs, recs):
        if "died" in r_:
            c.violation(f"died:{j[0]}", "process died", j)
        else:
            good.append(r_)
    ok = [x for x in good if x["outcome"] == "ok" and len(x["out"]) >= 2 and len(set(x["out"])) >= 2]
    controls = []
    if ok:
        b = dict(ok[0])
        controls = [({**b, "out": b["out"][1:] + b["out"][:1] if b["out"][1:] + b["out"][:1] != b["out"] else b["out"][:-1]}, "selection"),
                    ({**b, "out": b["out"][:-1]}, "selection"),
                    ({**b, "outcome": "error"}, "admissible-must-succeed"),
                    ({**b, "ecc1": [x + 99 for x in b["ecc"]]}, "ecc-pointwise")]
    judge(c, "JRefTime", good, controls=controls,
          key=lambda i, cl: f"{good[i]['cfg']}:{good[i]['kind']}:{len(good[i]['req'])}:{','.join(sorted(cl))}",
          what=lambda i, cl: f"{good[i]['cfg']} request({good[i]['kind']}, {len(good[i]['req'])} points) "
          f"violates {sorted(cl)} {good[i]['msg']}")
    for x in good[:2] + good[-2:]:
        c.sample({k: (v[:12] if isinstance(v, list) else v) for k, v in x.items()})
    c.note(requests=len(good), configurations=len(info))
    c.assumptions += ["times compared exactly (ranks of binary64); values to 3e-8"]


main(check, "P03")
