"""Histories of measurements, queries and plots over shared caller objects
(P01, P02)."""
import os
import pickle
import random
import numpy as np
import vlib
import synth

AVGS = [None, "orbit_averaged_omega_gw", "mean_of_extrema_interpolants", "omega_gw_zeroecc"]


def fresh(fn):
    """run fn in a forked copy of the current process; its result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                v = pickle.dumps(fn())
            except BaseException as ex:      # noqa
                v = pickle.dumps(("fresh-error", repr(ex)))
            with os.fdopen(w, "wb") as f:
                f.write(v)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        v = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(v) if v else ("fresh-error", "died")


def world():
    """every object of the caller, shared by all operations of a history"""
    W = {}
    d = synth.pn(e0=0.3, orbits=13, zeroecc=True)
    om = {s: np.gradient(d["phaselm" + s][(2, 2)], d["t" + s]) for s in ["", "_zeroecc"]}
    W["amp"] = {**synth.copy_dict(d), "omegalm": {(2, 2): om[""]}, "omegalm_zeroecc": {(2, 2): om["_zeroecc"]}}
    W["ampmin"] = {k: v for k, v in synth.copy_dict(d).items() if "zeroecc" not in k}
    W["hlm"] = synth.to_hlm(synth.copy_dict(d))
    # modes shared between two dictionaries, a view, a list of extra keys
    W["shared"] = {"t": W["amp"]["t"], "amplm": W["amp"]["amplm"], "phaselm": W["amp"]["phaselm"],
                   "omegalm": W["amp"]["omegalm"], "note": {"a": [1, 2]}}
    cop, ine = synth.precessing_pair(e0=0.3, orbits=11, zeroecc=True, eps=0.01)
    W["cop"] = {**synth.to_ampphase(cop)}
    W["coph"] = cop
    W["ineh"] = ine
    ap = synth.to_ampphase(ine)
    W["ineap"] = {**ap, "omegalm": {m: np.gradient(p, ap["t"]) for m, p in ap["phaselm"].items()},
                  "omegalm_zeroecc": {m: np.gradient(p, ap["t_zeroecc"]) for m, p in ap["phaselm_zeroecc"].items()}}
    W["spin"] = synth.precessing_pair(e0=0.3, orbits=13, zeroecc=False, eps=0.12, mult=1.7)[0]
    tiny = synth.pn(e0=1e-9, orbits=12, zeroecc=False)
    W["tiny"] = tiny
    W["bad"] = {k: v for k, v in synth.copy_dict(d).items() if k != "phaselm"}
    O = {"none": None, "empty": {},
         "rich": {"general_interp_kwargs": {"k": 3}, "special_interp_kwargs_for_omega_gw_extrema": {"k": 3},
                  "extrema_finding_kwargs": {"height": None}, "omega_gw_extrema_interpolation_method": "spline",
                  "kwargs_for_fits_methods": {"nPN": -3.0 / 8}, "refine_extrema": True},
         "partial": {"kwargs_for_fits_methods": {}, "special_interp_kwargs_for_omega_gw_extrema": {}, "filter_kwargs": {},
                     "extrema_finding_kwargs": {}},
         "mean": {"omega_gw_averaging_method": "mean_of_extrema_interpolants"},
         "zero": {"omega_gw_averaging_method": "omega_gw_zeroecc"},
         "seg": {"use_only_these_many_orbits": 6, "special_interp_kwargs_for_omega_gw_extrema": {"degrees": (2, 2)}},
         "segonly": {"use_only_these_many_orbits": 5},
         "rational": {"omega_gw_extrema_interpolation_method": "rational_fit", "special_interp_kwargs_for_omega_gw_extrema": {"degrees": None}},
         "degrees": {"special_interp_kwargs_for_omega_gw_extrema": {"degrees": (1, 2)}},
         "mid": {"treat_mid_points_between_pericenters_as_apocenters": True},
         "badnest": {"extrema_finding_kwargs": {"widht": 3}},
         "badtop": {"no_such_option": 1},
         "fallback": {"return_zero_if_small_ecc_failure": True, "filter_kwargs": {"do_not_filter": True}},
         "nofilter": {"filter_kwargs": {"do_not_filter": True}},
         "pad": {"filter_kwargs": {"padding_length": 300}},
         "plots": {"debug_plots": True},
         "spline": {"omega_gw_extrema_interpolation_method": "spline"},
         "refine": {"refine_extrema": True, "omega_gw_extrema_interpolation_method": "spline"}}
    t = d["t"]
    R = {"t": np.array(t[::7]), "tlist": [float(x) for x in t[::50]], "t1": float(t[len(t) // 3]),
         "tint": np.arange(-1500, -400), "tout": [1e9], "t2d": np.zeros((2, 2)),
         "tmix": t[np.random.RandomState(3).permutation(len(t))[:60]].copy(), "tint_rev": np.arange(-1500, -400)[::-1].copy(),
         "f": np.linspace(0.0045, 0.014, 60)[::-1].copy(), "f1": 0.0075, "fout": [55.0]}
    return W, O, R


def requests():
    q = []

    def add(w, m, ref, o="none", prec=False, frame="inertial", ex=2, dbg=-1):
        q.append(dict(w=w, m=m, ref=ref, o=o, prec=prec, frame=frame, ex=ex, dbg=dbg))
    for m in ["Amplitude", "Frequency", "ResidualAmplitude", "ResidualFrequency", "AmplitudeFits", "FrequencyFits"]:
        add("amp", m, "t")
        add("hlm", m, "f" if "Fits" not in m else "tlist", o="rich" if "Fits" not in m else "partial")
    add("shared", "Amplitude", "t1", o="empty")
    add("shared", "FrequencyFits", "tint", o="partial", ex=1)
    add("amp", "Amplitude", "f", o="mean")
    add("amp", "ResidualAmplitude", "f1", o="zero")
    add("amp", "Amplitude", "f", o="empty", ex=0)
    add("ampmin", "Amplitude", "t", o="seg")
    add("ampmin", "Frequency", "f1", o="seg")
    add("ampmin", "AmplitudeFits", "t", o="degrees")
    add("amp", "ResidualAmplitude", "tmix", o="seg")
    add("hlm", "FrequencyFits", "tint_rev", o="seg")
    add("shared", "Amplitude", "f", o="segonly", ex=1)
    add("amp", "Frequency", "tmix", o="rational")
    add("ampmin", "Frequency", "t", o="mid", ex=1.5)
    # options that leave every nested option to its default
    add("ampmin", "Amplitude", "t", o="spline")
    add("hlm", "Frequency", "f", o="spline")
    add("amp", "AmplitudeFits", "tlist", o="spline")
    add("amp", "FrequencyFits", "t", o="refine")
    add("coph", "Amplitude", "t", o="spline", prec=True, frame="coprecessing")
    add("cop", "Amplitude", "t", o="partial", prec=True, frame="coprecessing")
    add("coph", "FrequencyFits", "t", o="nofilter", prec=True, frame="coprecessing")
    add("ineh", "ResidualAmplitude", "t", o="partial", prec=True)
    add("ineh", "Amplitude", "f", o="none", prec=True)
    add("ineap", "ResidualFrequency", "t", o="fallback", prec=True)
    add("ineap", "AmplitudeFits", "tint", o="empty", prec=True)
    add("spin", "Frequency", "t", o="pad", prec=True, frame="coprecessing")
    add("tiny", "Amplitude", "t", o="fallback")
    add("tiny", "Amplitude", "f1", o="fallback")
    # failing requests
    add("tiny", "Frequency", "t")
    add("bad", "Amplitude", "t", o="rich")
    add("amp", "Amplitude", "t", o="badnest")
    add("amp", "AmplitudeFits", "t", o="badtop")
    add("hlm", "NoSuchMethod", "t", o="rich")
    add("amp", "FrequencyFits", "tout", o="partial")
    add("amp", "Frequency", "fout", o="mean")
    add("amp", "Amplitude", "t2d", o="rich")
    add("amp", "Amplitude", "t", o="rich", ex=200)
    add("cop", "Amplitude", "t", o="partial", prec=True, frame="nowhere")
    add("ampmin", "ResidualAmplitude", "t", o="rich")
    add("ampmin", "Amplitude", "t", o="none", dbg=2, ex=None)
    add("ampmin", "Amplitude", "f", o="plots")
    add("ineh", "Frequency", "tlist", o="plots", prec=True)
    return q


QS = ["ecc", "ano", "decc", "plot_eccentricity", "plot_omega_gw", "plot_decc_dt", "plot_mean_anomaly", "rows",
      "plot_phase_diff_ratio_between_extrema", "plot_data_used_for_finding_extrema", "plot_residual_omega_gw", "attrs",
      "plot_amp_gw", "plot_residual_amp_gw", "new_figures", "convexity", "envelopes"]
PS = ["plot_omega_gw_average", "make_diagnostic_plots"]


def _lines(axes):
    out = []
    for ax in np.atleast_1d(np.array(axes, dtype=object)).ravel():
        for ln in ax.get_lines():
            out += [np.asarray(ln.get_xdata(), dtype=float), np.asarray(ln.get_ydata(), dtype=float)]
    return out


class Player:
    """one process' view: shared caller objects and the last analysis"""

    def __init__(self, quiet=False):
        self.gw = vlib.import_gwecc()
        self.W, self.O, self.R = world()
        self.reqs = requests()
        self.last = None
        self.objs = []
        d = vlib.scratch("cwd", str(os.getpid()))
        os.chdir(d)

    def caller(self):
        return vlib.digest([self.W, self.O, self.R])

    def measure(self, i, keep=True):
        q = self.reqs[i]
        ref = self.R[q["ref"]]
        kw = dict(tref_in=ref) if q["ref"].startswith("t") else dict(fref_in=ref)
        o = vlib.guarded(lambda: self.gw.measure_eccentricity(
            method=q["m"], dataDict=self.W[q["w"]], num_orbits_to_exclude_before_merger=q["ex"],
            precessing=q["prec"], frame=q["frame"], debug_level=q["dbg"], extra_kwargs=self.O[q["o"]], **kw))
        if not o["ok"]:
            return ("error", o["etype"], [])
        r = o["value"]
        if keep:
            self.last = r["gwecc_object"]
        return ("ok", "", [np.array(r[k], dtype=float) for k in ("eccentricity", "mean_anomaly", "tref_out", "fref_out") if k in r])

    def query(self, k, a):
        g = self.last
        import matplotlib.pyplot as plt

        def run():
            if k == "b":
                return [np.array(g.get_fref_bounds(AVGS[a]), dtype=float)]
            if k == "a":
                return [np.array(x, dtype=float) for x in g.get_omega_gw_average(AVGS[a])]
            name = (QS if k == "q" else PS)[a - 1]
            if name == "ecc":
                return [np.array(g.compute_eccentricity(np.linspace(g.tmin, g.tmax, 40)))]
            if name == "ano":
                return [np.array(g.compute_mean_anomaly(np.linspace(g.tmin, g.tmax, 40)))]
            if name == "decc":
                return [np.array(g.derivative_of_eccentricity(np.linspace(g.tmin, g.tmax, 9)))]
            if name == "rows":
                return [np.array(g.eccentricity), np.array(g.mean_anomaly), np.array(g.tref_out)]
            if name == "attrs":
                return [np.array(g.t_pericenters), np.array(g.t_apocenters), np.array([g.tmin, g.tmax]),
                        np.array(g.t), np.array(g.omega_gw), np.array(g.phase_gw), np.array(g.amp_gw)]
            if name == "new_figures":
                return [v for f in (g.plot_eccentricity, g.plot_omega_gw, g.plot_mean_anomaly, g.plot_amp_gw) for v in _lines(f()[1])]
            if name == "convexity":
                g.check_monotonicity_and_convexity(check_convexity=True)
                return [np.array(g.decc_dt_for_checks), np.array(g.d2ecc_dt_for_checks)]
            if name == "envelopes":
                return [np.array(g.t_pericenters), np.array(g.omega_gw_pericenters_interp(g.t_pericenters)),
                        np.array(g.omega_gw_apocenters_interp(g.t_apocenters))]
            if k == "p" and name == "make_diagnostic_plots":
                fig, ax = g.make_diagnostic_plots()
                return _lines(ax)
            fig, ax = plt.subplots()
            getattr(g, name)(fig, ax, use_fancy_settings=False)
            return _lines(ax)
        o = vlib.guarded(run, timeout=60)
        plt.close("all")
        if not o["ok"]:
            return ("error", o["etype"], [])
        return ("ok", "", o["value"])

    def op(self, op):
        return self.measure(op["r"] - 1) if op["k"] == "m" else self.query(op["k"], op["a"])


def same(a, b):
    if a[:2] != b[:2] or len(a[2]) != len(b[2]):
        return False
    for x, y in zip(a[2], b[2]):
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        if x.shape != y.shape:
            return False
        if x.size and not np.allclose(x, y, rtol=1e-9, atol=1e-11, equal_nan=True):
            return False
    return True


def defaults(reqs, O):
    """default average (code) of each request"""
    out = []
    for q in reqs:
        m = (O[q["o"]] or {}).get("omega_gw_averaging_method", AVGS[1])
        out.append(AVGS.index(m))
    return out


def all_ops(P):
    ops = [dict(k="m", r=i + 1, a=0) for i in range(len(P.reqs))]
    ops += [dict(k="b", r=0, a=a) for a in range(4)] + [dict(k="a", r=0, a=a) for a in range(1, 4)]
    ops += [dict(k="q", r=0, a=a + 1) for a in range(len(QS))] + [dict(k="p", r=0, a=1), dict(k="p", r=0, a=2)]
    return ops


def base_measures(P):
    """what a fresh process answers to every request"""
    n = len(P.reqs)
    res = vlib.pmap(lambda r: fresh(lambda: P.measure(r)), range(n))
    return {("m", r + 1, 0): v for r, v in enumerate(res)}


def candidates(o, last):
    """keys whose baseline the operation may be compared with"""
    if o["k"] == "m":
        return [("m", o["r"], 0)]
    if o["k"] == "b":
        return [("b", last, a) for a in (1, 2, 3)]
    return [(o["k"], last, o["a"])]


def base_queries(P, base, hs):
    """what a fresh process that only measured answers to the queries needed"""
    need = set()
    for h in hs:
        last = 0
        for o in h:
            if o["k"] == "m":
                if base[("m", o["r"], 0)][0] == "ok":
                    last = o["r"]
            else:
                need |= set(candidates(o, last))
    need = sorted(need)
    random.Random(5).shuffle(need)

    def one(key):
        def run():
            if key[1]:
                P.measure(key[1] - 1)
            return P.query(key[0], key[2])
        return fresh(run)
    for key, v in zip(need, vlib.pmap(one, need)):
        base[key] = v


def play(P, hist, base, defs):
    """play a history in the current (forked) process"""
    ops, ids = [], {}
    rec = dict(ops=[], base=[], defs=defs, objs0=1, hist=hist)
    d0 = P.caller()
    need, seen = set(), {}
    st = [0, 0]
    for o in hist:
        v = P.op(o)
        # whether it fails is known from a fresh process (a difference shows
        # in the response)
        fails = o["k"] == "m" and base[("m", o["r"], 0)][0] != "ok"
        freq = o["k"] == "m" and P.reqs[o["r"] - 1]["ref"].startswith("f")
        d = defs[(o["r"] if o["k"] == "m" else st[0]) - 1]
        cand = candidates(o, st[0])
        pool = seen.setdefault((o["k"], o["r"] if o["k"] == "m" else st[0]), [])
        for c in cand:
            if c not in need and c in base:
                need.add(c)
                j = next((i for i, (z, x) in enumerate(pool) if same(x, base[c])), None)
                if j is None:
                    pool.append((len(seen) * 1000 + len(pool) + 1, base[c]))
                    j = len(pool) - 1
                rec["base"].append(dict(k=c[0], r=c[1], a=c[2], id=pool[j][0]))
        j = next((i for i, (z, x) in enumerate(pool) if same(x, v)), None)
        if j is None:
            pool.append((len(seen) * 1000 + len(pool) + 1, v))
            j = len(pool) - 1
        rec["ops"].append(dict(k=o["k"], r=o["r"], a=o["a"], resp=pool[j][0], freq=freq, fails=fails,
                               objs=1 if P.caller() == d0 else 2, **{"def": d}, out=f"{v[0]}:{v[1]}"))
        if o["k"] == "m" and not fails:
            st = [o["r"], 0]
    return rec


def histories(P, base, cases, rng, n_inst, n_rand, length):
    """instantiate TLC's abstract histories and add random long ones"""
    ok_t = [i for i in range(len(P.reqs)) if base[("m", i + 1, 0)][0] == "ok" and P.reqs[i]["ref"].startswith("t")]
    ok_f = [i for i in range(len(P.reqs)) if base[("m", i + 1, 0)][0] == "ok" and P.reqs[i]["ref"].startswith("f")]
    bad = [i for i in range(len(P.reqs)) if base[("m", i + 1, 0)][0] != "ok"]
    if not vlib.THOROUGH:
        cases = rng.sample(cases, min(len(cases), 200))
    out = []
    D = defaults(P.reqs, P.O)
    for c in cases:
        for _ in range(n_inst):
            m = {1: rng.choice(ok_t), 2: rng.choice([i for i in ok_f if D[i] == 1]),
                 3: rng.choice([i for i in ok_f if D[i] != 1]), 4: rng.choice(bad)}
            h = []
            for o in c:
                o = dict(o)
                if o["k"] == "m":
                    o["r"] = m[o["r"]] + 1
                elif o["k"] == "q":
                    o["a"] = rng.randrange(1, len(QS) + 1)
                h.append(o)
            out.append(h)
    qops = [o for o in all_ops(P) if o["k"] != "m"]
    for _ in range(n_rand):
        h = []
        for j in range(length):
            if j == 0 or (rng.random() < 0.45):
                i = rng.choice(ok_t + ok_f) if j == 0 else rng.randrange(len(P.reqs))
                h.append(dict(k="m", r=i + 1, a=0))
            else:
                o = rng.choice(qops)
                if o["k"] == "p" and o["a"] == 2 and rng.random() < 0.9:
                    o = dict(k="p", r=0, a=1)
                h.append(dict(o))
        out.append(h)
    # every request twice around every other request (leaks from one to another)
    heavy = [i for i, q in enumerate(P.reqs) if q["o"] in ("plots", "pad")]
    pairs = [(i, j) for i in range(len(P.reqs)) for j in range(len(P.reqs)) if i != j and (vlib.THOROUGH or (i not in heavy and (j not in heavy or rng.random() < 0.1)))]
    rng.shuffle(pairs)
    # first those with all-default nested options around requests of the same
    # method, and of every method
    plain = lambda i: P.reqs[i]["o"] in ("none", "empty", "spline", "refine")
    pairs.sort(key=lambda p: not ((plain(p[0]) or plain(p[1])) and P.reqs[p[0]]["m"] == P.reqs[p[1]]["m"]
                                  and P.reqs[p[0]]["o"] != P.reqs[p[1]]["o"]))
    return out, pairs


def run_check(c, pid):
    P = Player()
    mutant = vlib.tlc("Session", defs="CONSTANTS MaxLen = 2 Emit = FALSE Discipline = FALSE", expect_ok=False)
    if "is violated" not in mutant.out:
        raise vlib.MachineryError("the specification does not notice writes to caller cells")
    r, cases = vlib.tlc_emit("Session", defs="CONSTANTS MaxLen = 3 Emit = TRUE Discipline = TRUE", workers=4)
    c.tlc(r)
    vlib.log("baselines")
    base = base_measures(P)
    defs = defaults(P.reqs, P.O)
    rng = random.Random(vlib.SEED + (0 if pid == "P01" else 17))
    hs, pairs = histories(P, base, cases, rng, vlib.pick(1, 12), vlib.pick(30, 1500), vlib.pick(10, 24))
    # all ordered pairs of requests, chained into long histories: i j i j' i ...
    chains = []
    sel = pairs if vlib.THOROUGH else pairs[:220]
    by = {}
    for i, j in sel:
        by.setdefault(i, []).append(j)
    for i, js in by.items():
        for k in range(0, len(js), 6):
            h = []
            for j in js[k:k + 6]:
                h += [dict(k="m", r=j + 1, a=0), dict(k="m", r=i + 1, a=0)]
            chains.append(h)
    hs += chains
    vlib.log("histories", len(hs), sum(len(h) for h in hs))
    if pid == 'P02':
        base_queries(P, base, hs)
    recs = vlib.pmap(lambda h: fresh(lambda: play(P, h, base, defs)), hs)
    good = []
    for h, x in zip(hs, recs):
        if isinstance(x, tuple) or "died" in x:
            raise vlib.MachineryError(f"history could not be played: {x} {h}")
        good.append(x)
    b = next(x for x in good if len(x["ops"]) > 2)
    bad_resp = {**b, "ops": [{**o, "resp": 999999} if i == 1 else o for i, o in enumerate(b["ops"])]}
    bad_obj = {**b, "ops": [{**o, "objs": 2} if i == 1 else o for i, o in enumerate(b["ops"])]}
    # a wrong cache rule must be noticed too
    controls = [(bad_resp, b["ops"][1]["k"] + "-response"), (bad_obj, "caller-object-changed")]
    mine = (lambda cl: "caller-object-changed" in cl) if pid == "P01" else (lambda cl: any(z.endswith("-response") for z in cl))
    bad = vlib.judge(_Filter(c), "JSession", good, controls=controls)
    for i in sorted(bad):
        if not mine(bad[i]):
            continue
        x = good[i]
        if pid == "P01":
            k = next(j for j, o in enumerate(x["ops"]) if o["objs"] != 1)
            o = x["ops"][k]
            q = P.reqs[o["r"] - 1] if o["k"] == "m" else dict(query=o)
            c.violation(f"mutates:{o['k']}:{sorted(q.items())}", f"the caller's objects changed in operation {k} of the history: {q} ({o['out']})", x["hist"])
        else:
            lab = [(o["k"], (P.reqs[o["r"] - 1] if o["k"] == "m" else o["a"])) for o in x["ops"]]
            c.violation(f"history:{i}:{','.join(sorted(bad[i]))}", f"a response differs from a fresh process' response ({sorted(bad[i])}) in history {lab}"[:1200], x["hist"])
    for x in good[:3]:
        c.sample([(o["k"], o["r"], o["a"], o["out"]) for o in x["ops"]])
    c.note(histories=len(good), operations=sum(len(x["ops"]) for x in good), requests=len(P.reqs),
           failing_requests=len([1 for i in range(len(P.reqs)) if base[("m", i + 1, 0)][0] != "ok"]),
           generated_histories=len(cases))
    return P, base, good


class _Filter:
    """judge registers states and counts; violations are attributed here"""

    def __init__(self, c):
        self.c = c
        self.viol = []

    def violation(self, *a, **k):
        self.viol.append(a)

    def tlc(self, r):
        self.c.tlc(r)

    def note(self, **k):
        self.c.note(**k)

    @property
    def traces(self):
        return self.c.traces

    @traces.setter
    def traces(self, v):
        self.c.traces = v
