"""P23: loaded waveforms satisfy the contract measurements rely on."""
import contextlib
import io
import copy
import os
import random
import types
import warnings
import numpy as np
from scipy.interpolate import InterpolatedUnivariateSpline as Spline
import vlib
from vlib import Check, tlc_emit, pmap, guarded, pick, main, scratch
import sources as S
import synth

MTSUN = 4.925490947641267e-06
M2 = [(2, m) for m in range(-2, 3)]
LAL_VALUES = dict(approximant="IMRPhenomT", q=2.0, chi1=[0, 0, 0.1], chi2=[0, 0, 0.0], ecc=0.0, mean_ano=0.0, Momega0=0.02, deltaTOverM=0.5, physicalUnits=False, M=None, D=None,
                  include_zero_ecc=False)
FOREIGN = dict(LAL_VALUES, data_dir="/nonexistent", metadata_path="x", include_params_dict=True, zero_ecc_approximant="IMRPhenomT", num_orbits_to_remove_as_junk=1, mode_array=[(2, 2)],
               extrap_order=2, keep_memory=True, filepath="/nonexistent", filepath_zero_ecc="/nonexistent", start_time=None, end_time=None, deltaT=0.5, include_geodesic_ecc=False)


def world(k):
    """one set of files in all formats"""
    rng = random.Random(f"{vlib.SEED}:world:{k}")
    d = scratch("sources", f"w{k}")
    os.makedirs(d, exist_ok=True)
    q = [1.0, 1.5, 3.0, 4.0][k % 4]
    # masses as simulations report them
    qmeta = rng.choice([1 - 2e-4, 1 - 4e-4]) if q == 1.0 else q
    e = rng.choice([0.08, 0.15, 0.25])
    par = dict(q=q, e=e, orbits=rng.uniform(12, 16), adv=rng.choice([0.03, 0.08]))
    chi1, chi2 = (0.0, 0.0, round(rng.uniform(-0.3, 0.3), 2)), (0.0, 0.0, round(rng.uniform(-0.3, 0.3), 2))
    w = dict(dir=d, par=par, chi1=chi1, chi2=chi2, raw={})

    def make(name, **kw):
        t, a, p, i = S.inspiral(rng, **dict(par, **kw))
        w["raw"][name] = (t, a, p, i)
        return t, a, p
    lv = make("LVCNR", modes=M2, shift=0.0)
    ecc = rng.choice([0.1, 0.1, "unknown", "0.02"])
    S.lvcnr(d + "/lvcnr.h5", *lv, q=q, chi1=chi1, chi2=chi2, ecc=ecc, mean_ano=rng.choice([0.3, -1.0]) if ecc != "unknown" else "unknown")
    even = rng.random() < 0.3
    t, a, p = make("SXSCatalog", modes=M2, shift=0.0, nonuniform=not even, dt=0.5)
    start = 0.0
    w["raw"]["SXSCatalog"] = (t - t[0] + start, a, p, dict(w["raw"]["SXSCatalog"][3], t0=-t[0] + start))
    t = t - t[0] + start
    os.makedirs(d + "/sxs", exist_ok=True)
    order = rng.choice([2, 2, 3])
    w["order"] = order
    with contextlib.redirect_stdout(io.StringIO()):
        S.sxs_new(d + "/sxs", t, a, p, order=order)
        S.sxs_old(d + "/sxs", t, a, p, orders=[order] + [n for n in (2, 3, 4) if n != order])
    for name, ratio in (("m", qmeta), ("swapped", rng.choice([0.99, 0.5]))):
        S.metadata(d + "/sxs", q=ratio, chi1=chi1, chi2=chi2)
        os.rename(d + "/sxs/metadata.json", d + f"/sxs/{name}.json")
        S.metadata(d + "/sxs", q=ratio, chi1=chi1, chi2=chi2, fmt="txt")
        os.rename(d + "/sxs/metadata.txt", d + f"/sxs/{name}.txt")
    S.horizons(d + "/sxs", t, w["raw"]["SXSCatalog"][3]["orbit"], start)
    os.rename(d + "/sxs/Horizons.h5", d + "/sxs/H.h5")
    w["raw"]["SXSCatalog_old"] = w["raw"]["SXSCatalog"]
    w["raw"]["LVCNR_hack"] = w["raw"]["LVCNR"]
    S.eob(d + "/ecc.h5", *make("EOB", nonuniform=False, dt=0.6, shift=rng.choice([0.0, 500.0, -33.3])))
    S.eob(d + "/qc.h5", *make("EOBz", nonuniform=False, dt=0.6, shift=rng.choice([0.0, 100.0]), e=0.0, orbits=par["orbits"] + 3))
    t, a, p = make("EMRI", shift=rng.choice([0.0, 250.0]))
    S.emri(d + "/emri.h5", t, a, p, d + "/geo.h5", e * np.exp(-1e-4 * (t - t[0])))
    w["geodesic"] = e * np.exp(-1e-4 * (t - t[0]))
    S.emri(d + "/emri0.h5", *make("EMRIz", shift=40.0, e=0.0, orbits=par["orbits"] + 3))
    return w


def link(src, dst):
    if not os.path.exists(dst):
        os.symlink(src, dst)


class Library:
    """Stand-ins for two library calls that need data files which are not
    here: the estimate of a frequency for a duration (off by a factor, as
    estimates are) and the reader of NR files; and a model whose
    quasicircular waveforms may be shorter than its eccentric ones."""

    def __init__(s, factor, raised=1.0):
        import lalsimulation as lalsim
        s.mod, s.factor, s.raised = lalsim, factor, raised

    def waveform(s, *a):
        """quasicircular waveforms from an eccentric model start later than
        asked for (the frequency a model starts at is its own choice)"""
        a = list(a)
        if 0 < a[12] < 1e-4:
            a[15] *= s.raised
            a[16] *= s.raised
        return s.old[2](*a)

    def freq(s, T, m1, m2, s1, s2):
        m = (m1 + m2) / 1.988409870698051e30
        eta = m1 * m2 / (m1 + m2) ** 2
        x = T / (m * MTSUN)
        return s.factor * (5 / (256 * eta * x)) ** 0.375 / np.pi / (m * MTSUN)

    def hlms(s, dt, m1, m2, dist, f_low, f_ref, s1x, s1y, s1z, s2x, s2y, s2z, path, arr):
        import h5py
        m = (m1 + m2) / 1.988409870698051e30
        scale = m * MTSUN * 299792458.0 / dist
        head = None
        with h5py.File(path) as f:
            names = sorted(k[4:] for k in f if k.startswith("amp_"))
            p22 = f["phase_l2_m2"]
            om = np.abs(np.gradient(p22["Y"][:], p22["X"][:])) / (2 * np.pi) / (m * MTSUN)
            first = p22["X"][:][np.argmax(om >= f_low * (1 - 1e-3))] if om[0] < f_low else p22["X"][0]
            t = np.arange(first, p22["X"][-1], dt / (m * MTSUN))
            for n in names:
                l, mm = int(n[1]), int(n[4:])
                h = scale * Spline(f["amp_" + n]["X"][:], f["amp_" + n]["Y"][:])(t) * np.exp(1j * Spline(f["phase_" + n]["X"][:], f["phase_" + n]["Y"][:])(t))
                head = types.SimpleNamespace(l=l, m=mm, mode=types.SimpleNamespace(data=types.SimpleNamespace(data=h)), next=head)
        return 0, head

    def __enter__(s):
        s.old = s.mod.SimIMRSEOBNRv4ROMFrequencyOfTime, s.mod.SimInspiralNRWaveformGetHlms, s.mod.SimInspiralChooseTDWaveform
        s.mod.SimIMRSEOBNRv4ROMFrequencyOfTime, s.mod.SimInspiralNRWaveformGetHlms, s.mod.SimInspiralChooseTDWaveform = s.freq, s.hlms, s.waveform

    def __exit__(s, *a):
        s.mod.SimIMRSEOBNRv4ROMFrequencyOfTime, s.mod.SimInspiralNRWaveformGetHlms, s.mod.SimInspiralChooseTDWaveform = s.old


def request(x, w, d, rng):
    """options, files present and what is expected, for case x"""
    s, fault = x["source"], x["fault"]
    o, present, exp = {}, set(), dict(dt=None, junk=None, modes=["(2, 2)"], values=True)
    files = {}
    if s == "LAL":
        o = dict(LAL_VALUES, q=rng.choice([1.0, 2.0, 5.0]), Momega0=rng.choice([0.02, 0.025]), deltaTOverM=rng.choice([0.2, 0.5, 1.0]))
        o["approximant"] = rng.choice(["EccentricTD", "EccentricTD", "IMRPhenomT", "TEOBResumS", "SEOBNRv4_opt"])
        if o["approximant"] == "EccentricTD":
            o.update(chi1=[0, 0, 0], chi2=[0, 0, 0], ecc=rng.choice([0.05, 0.1, 0.2, 0.3]), mean_ano=rng.choice([0.0, 1.0]))
            if fault.startswith("not-") or rng.random() < 0.3:
                o.pop("chi2")
                o["chi2"] = np.zeros(3)
        else:
            o.update(chi1=[0, 0, rng.choice([-0.3, 0.0, 0.4])], chi2=[0, 0, rng.choice([-0.2, 0.0])])
        if rng.random() < 0.3:
            o.update(physicalUnits=True, M=rng.choice([20.0, 60.0]), D=rng.choice([10.0, 400.0]))
        o["include_zero_ecc"] = x["zero"]
        exp["dt"] = o["deltaTOverM"] * (o["M"] * MTSUN if o["physicalUnits"] else 1)
        if fault == "none" and rng.random() < 0.35:
            exp["values"] = False
            bad = rng.choice(["precessing", "spin", "size", "M", "D", "approximant"])
            if bad == "precessing":
                o["chi1"] = [0.1, 0.0, 0.2]
            elif bad == "spin":
                o[rng.choice(["chi1", "chi2"])] = [0, 0, rng.choice([1.2, -1.01, 3.0])]
            elif bad == "size":
                o[rng.choice(["chi1", "chi2"])] = rng.choice([[0.0, 0.0], [0.0], 0.0, [0.0, 0.0, 0.0, 0.1]])
            elif bad == "approximant":
                o["approximant"] = "NoSuchModel"
            else:
                o.update(physicalUnits=True, M=30.0, D=100.0)
                o[bad] = None
            exp["bad"] = bad
        for k in ("physicalUnits", "M", "D", "include_zero_ecc"):
            if o[k] in (None, False) and rng.random() < 0.5 and (k in ("M", "D") or not o[k]):
                del o[k]
    elif s.startswith("SXS"):
        src = w["dir"] + "/sxs"
        if s == "SXSCatalog":
            files = {"strain": (f"{src}/Strain_N{w['order']}.h5", f"Strain_N{w['order']}.h5"), "index": (f"{src}/Strain_N{w['order']}.json", f"Strain_N{w['order']}.json"),
                     "metadata": (src + "/m.json", "metadata.json")}
            o["keep_memory"] = x["memory"]
        else:
            files = {"strain": (src + "/rhOverM_Asymptotic_GeometricUnits_CoM.h5", "rhOverM_Asymptotic_GeometricUnits_CoM.h5"), "metadata": (src + "/m.txt", "metadata.txt")}
        if rng.random() < 0.6:
            link(src + "/H.h5", d + "/Horizons.h5")
        if fault == "none" and (x["zero"] or x["params"]) and rng.random() < 0.15:
            files["metadata"] = (files["metadata"][0].replace("/m.", "/swapped."), files["metadata"][1])
            exp.update(values=False, bad="masses")
        o["data_dir"] = d
        if w["order"] != 2 or rng.random() < 0.3:
            o["extrap_order"] = w["order"]
        if rng.random() < 0.5:
            m = rng.sample(M2, rng.randint(1, 5))
            o["mode_array"] = [(2, 2)] + [k for k in m if k != (2, 2)]
            if rng.random() < 0.3:
                rng.shuffle(o["mode_array"])
            exp["modes"] = [str(k) for k in o["mode_array"]]
    elif s.startswith("LVCNR"):
        files = {"strain": (w["dir"] + "/lvcnr.h5", "nr.h5")}
        o["filepath"] = d + "/nr.h5"
        if s == "LVCNR":
            exp["modes"] = [str(k) for k in M2]
    elif s == "EOB":
        files = {"strain": (w["dir"] + "/ecc.h5", "EccTest_a.h5"), "circular": (w["dir"] + "/qc.h5", "EccTest_z.h5")}
        o["filepath"] = d + "/EccTest_a.h5"
        if x["zero"]:
            o["filepath_zero_ecc"] = d + "/EccTest_z.h5"
        if fault == "none" and rng.random() < 0.25:
            files["strain"] = (files["strain"][0], "Other_a.h5")
            o["filepath"] = d + "/Other_a.h5"
            exp.update(values=False, bad="name")
    elif s == "EMRI":
        files = {"strain": (w["dir"] + "/emri.h5", "wave_e0.150.h5"), "circular": (w["dir"] + "/emri0.h5", "wave_e0.000.h5"), "geodesic": (w["dir"] + "/geo.h5", "wave_e0.150_ecc.h5")}
        o["filepath"] = d + "/wave_e0.150.h5"
        if x["zero"] and rng.random() < 0.5:
            o["filepath_zero_ecc"] = d + "/wave_e0.000.h5"
        if x["geodesic"]:
            o["include_geodesic_ecc"] = True
        if rng.random() < 0.7:
            o["deltaT"] = exp["dt"] = rng.choice([0.5, 0.8, 1.0])
        if rng.random() < 0.4:
            o["start_time"] = exp["start"] = -rng.uniform(1200, 1500)
        if rng.random() < 0.4:
            o["end_time"] = exp["end"] = rng.choice([30.0, 50.0])
    if s.startswith(("SXS", "LVCNR")):
        if rng.random() < 0.6:
            o["deltaTOverM"] = rng.choice([0.1, 0.25, 0.5])
        exp["dt"] = o.get("deltaTOverM", 0.1)
        if rng.random() < 0.6:
            o["num_orbits_to_remove_as_junk"] = rng.choice([0, 1, 2, 3, 1.5])
        exp["junk"] = o.get("num_orbits_to_remove_as_junk", 2)
        if x["params"]:
            o["include_params_dict"] = True
    if x["zero"]:
        o["include_zero_ecc"] = True
    for k, (a, b) in files.items():
        if fault != "no-" + k:
            link(a, os.path.join(d, b))
            present.add(k)
    if fault.startswith("not-"):
        k = fault[4:]
        o.pop(k)
        if rng.random() < 0.5:
            o[k] = None
    elif fault.startswith("foreign-"):
        o[fault[8:]] = FOREIGN[fault[8:]]
    elif fault == "option":
        o[rng.choice(["no_such_option", "filepaths", "ecc_", "Include_zero_ecc"])] = 1
    return o, present, exp


def total(h):
    return np.sqrt(sum(np.abs(v) ** 2 for v in h.values()))


def refined_peak(t, h):
    a = total(h)
    k = int(np.argmax(a))
    if 0 < k < len(a) - 1:
        y0, y1, y2 = a[k - 1:k + 2]
        return t[k] + 0.5 * (y0 - y2) / (y0 - 2 * y1 + y2) * (t[k + 1] - t[k])
    return t[k]


def merger_off(t, h):
    """distance of time zero from the peak of the total amplitude.  When the
    amplitude still grows at the end, the parabola through the last points
    counts as well: that is what the library uses (a known finding)."""
    p = abs(refined_peak(t, h))
    a = total(h)
    if np.argmax(a) >= len(a) - 2:
        x = t[-5:] - t[-3]
        c = np.polyfit(x / x[-1], a[-5:], 2)
        v = t[-3] - x[-1] * c[1] / (2 * c[0])
        if abs(v) < p:
            return abs(v), p
    return p, 0.0


def equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    return a == b


def back(t, h):
    """steps before the merger at which the (2, 2) phase does not grow"""
    p = -np.unwrap(np.angle(h))
    return int(np.sum(np.diff(p[t < -5 * (t[1] - t[0])]) <= 0))


def facts(r, d, x, w, exp, o):
    t, h = np.asarray(d["t"]), {k: np.asarray(v) for k, v in d["hlm"].items()}
    dt = float(np.median(np.diff(t)))
    scale = exp["dt"] / o["deltaTOverM"] if x["source"] == "LAL" and o.get("physicalUnits") else 1.0
    r.update(n=len(t), lens=[len(v) for v in h.values()], keys=sorted(d), modes=sorted(map(str, h)), falling=int(np.sum(np.diff(t) <= 0)))
    asfile = x["source"] == "EOB" or (x["source"] == "EMRI" and exp["dt"] is None)
    if not asfile:
        r["grid"] = int(1e6 * np.ptp(np.diff(t)) / dt)
        r["dt"] = int(1e6 * abs(dt / exp["dt"] - 1))
    off, grow = merger_off(t, h)
    r["grow"] = int(1000 * grow / dt)
    r["peak"] = int(1000 * off / max(dt, 1.9 if x["source"] in ("EMRI", "LVCNR_hack") else dt))
    r["back"] = back(t, h[2, 2])
    if x["source"] != "LAL":
        t0, a, p, i = w["raw"][x["source"]]
        best = 10 ** 9
        ks = list(h)
        sp = {k: (Spline(t0, a[k]), Spline(t0, p[k])) for k in ks}
        norm = np.max(np.abs(h[2, 2]))
        inner = (t > t[0]) & (t < t[-1])
        for de in np.linspace(-0.6, 0.6, 49):
            err = max(np.max(np.abs(h[k] - sp[k][0](t + i["t0"] + de) * np.exp(-1j * sp[k][1](t + i["t0"] + de)))[inner]) for k in ks) / norm
            best = min(best, err)
        r["err"] = int(1e6 * min(best, 100))
        if exp["junk"] is not None:
            orb = Spline(t0, i["orbit"])
            want = exp["junk"]
            r["junk"] = int(1000 * abs((orb(t[0] + i["t0"]) - orb(t0[0])) / (2 * np.pi) - want))
        if "start" in exp:
            r["junk"] = max(r["junk"], 0 if abs(t[0] - exp["start"]) < 2.0 else 10 ** 6)
        if "end" in exp:
            r["junk"] = max(r["junk"], 0 if abs(t[-1] - exp["end"]) < 3.5 else 10 ** 6)
        if "params_dict" in d:
            g = d["params_dict"]
            r["params"] = bool(abs(g["q"] - w["par"]["q"]) < 1e-9 and np.allclose(g["chi1"], w["chi1"], atol=1e-12) and np.allclose(g["chi2"], w["chi2"], atol=1e-12))
        if "e_geodesic" in d:
            g = np.asarray(d["e_geodesic"])
            if len(g) != len(t):
                r["lens"].append(len(g))
            else:
                r["params"] = bool(np.max(np.abs(g - np.interp(t, t0 - i["t0"], w["geodesic"]))) < 1e-3)
    else:
        r["err"] = int(1e6 * lal_error(o, t, h[2, 2]))
    if "t_zeroecc" in d:
        tz, hz = np.asarray(d["t_zeroecc"]), {k: np.asarray(v) for k, v in d["hlm_zeroecc"].items()}
        r.update(zn=len(tz), zlens=[len(v) for v in hz.values()], zback=back(tz, hz[2, 2]), zfirst=int(np.ceil(1000 * (tz[0] - t[0]) / dt)), zpeak=int(1000 * tz[-1] / dt))
        r["falling"] += int(np.sum(np.diff(tz) <= 0))
        off, grow = merger_off(tz, hz)
        r["grow"] = max(r["grow"], int(1000 * grow / dt))
        r["peak"] = max(r["peak"], int(1000 * off / max(np.median(np.diff(tz)), 1.9 if x["source"] == "EMRI" else 0)))
        if x["source"] not in ("EOB", "EMRI"):
            q = o["q"] if x["source"] == "LAL" else w["par"]["q"]
            eta = q / (1 + q) ** 2
            amp = np.abs(hz[2, 2])
            if scale != 1.0:
                amp = amp / (o["M"] * 1.988409870698051e30 * 6.6743e-11 / 299792458.0 ** 2 / (o["D"] * 3.0856775814913674e22))
            om = np.gradient(-np.unwrap(np.angle(hz[2, 2])), tz / scale)
            sel = slice(len(tz) // 20, max(len(tz) // 4, len(tz) // 20 + 2))
            ratio = amp[sel] / (8 * np.sqrt(np.pi / 5) * eta * (om[sel] / 2) ** (2 / 3))
            r["mass"] = int(1000 * abs(np.median(ratio) - 1))
            # quasicircular: the amplitude grows steadily
            tm = tz / scale
            body = amp[(tm > tm[0] + 50) & (tm < -150)]
            step = max(1, int(40 / (tm[1] - tm[0])))
            r["waves"] = int(np.sum(np.diff(body[::step]) < -2e-3 * body.max()))
    # and it can be measured
    if not (x["source"] == "EMRI" and exp["dt"] is None):
        who = "ResidualAmplitude" if "t_zeroecc" in d else "Amplitude"
        # enough orbits well before the end for several extrema
        p22 = -np.unwrap(np.angle(h[2, 2]))
        orbits = (p22[max(np.searchsorted(t, -50 * scale) - 1, 0)] - p22[0]) / (4 * np.pi)
        if x["source"] != "LAL" or (o["ecc"] >= 0.1 and orbits >= 9):
            # a stretch well inside, all pieces as loaded
            dd = {k: v for k, v in d.items() if k not in ("params_dict", "e_geodesic")}
            b = guarded(lambda: synth.methods()[who](dd, tref_in=t[:: max(1, len(t) // 40)], debug_level=-1).measure_ecc(), timeout=60)
            r["usable"] = bool(b["ok"])
            r["id"]["measure"] = str(b["msg"])[:150]


def lal_error(o, t, h):
    """against a call of the library with these parameters"""
    import lal
    import lalsimulation as lalsim
    phys = o.get("physicalUnits", False)
    M = o["M"] if phys else 50.0
    D = (o["D"] if phys else 1.0) * 1e6 * lal.PC_SI
    T = M * lal.MTSUN_SI
    q = o["q"]
    hp, hc = lalsim.SimInspiralChooseTDWaveform(q / (1 + q) * M * lal.MSUN_SI, M / (1 + q) * lal.MSUN_SI, 0.0, 0.0, float(o["chi1"][2]), 0.0, 0.0, float(o["chi2"][2]), D, 0.0, 0.0, 0.0,
                                                float(o["ecc"]), 0.0, o["deltaTOverM"] * T, o["Momega0"] / np.pi / T, o["Momega0"] / np.pi / T, None, lalsim.GetApproximantFromString(o["approximant"]))
    z = (hp.data.data - 1j * hc.data.data) * np.sqrt(4 * np.pi / 5)
    if not phys:
        z = z * D / (T * lal.C_SI)
    if abs(len(z) - len(h)) > 2:
        return 100.0
    # the sampling of the library may differ by rounding at the end
    k, j = int(np.argmax(np.abs(z))), int(np.argmax(np.abs(h)))
    if abs(k - j) > 2:
        return 100.0
    n = min(k, j) - 5
    a, b = z[:n], h[:n]
    e1 = np.max(np.abs(np.abs(a) - np.abs(b))) / np.max(np.abs(a))
    pa, pb = np.unwrap(np.angle(a)), np.unwrap(np.angle(b))
    return float(max(e1, np.max(np.abs((pa - pa[0]) - (pb - pb[0]))) / 10))


def one(job):
    x, k, i = job
    from gw_eccentricity import load_data as L
    rng = random.Random(f"{vlib.SEED}:{i}:{sorted(x.items())}")
    w = WORLDS[k]
    # a name with the pattern EMRI files use for eccentricities
    d = scratch("sources", rng.choice(["case0_", "c"]) + str(i))
    os.makedirs(d, exist_ok=True)
    o, present, exp = request(x, w, d, rng)
    before = copy.deepcopy(o)
    factor = rng.choice([0.6, 0.9, 1.0, 1.3, 2.2])
    source = x["source"]

    def load():
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            # the caller keeps its own dictionary and lists
            return L.load_waveform(source, **o) if not (source == "LAL" and i % 2) else L.load_waveform(**o)
    with Library(factor, rng.choice([1.0, 1.15, 1.35])):
        a = guarded(load, timeout=90)
        b = guarded(load, timeout=90) if a["ok"] else a
    want = [z for z in ("zero", "params", "geodesic") if x[z]]
    r = dict(source=source, approximant=o.get("approximant") or "", opts=sorted(o), given=[z for z in o if o[z] is not None], want=want, memory=x["memory"], present=sorted(present), values=exp["values"], got=a["ok"],
             keys=[], modes=[], asked=exp["modes"], lens=[], n=0, zlens=[], zn=0, grid=-1, dt=-1, falling=0, peak=0, grow=0, back=0, zback=0, zfirst=0, zpeak=0, mass=0, waves=0, err=0, junk=0,
             params=True, again=True, same=bool(equal(before, o)), usable=True, id=dict(i=i, world=k, fault=x["fault"], opt=str(before)[:300], factor=factor, msg=str(a["msg"])[:200], bad=exp.get("bad", "")))
    if a["ok"]:
        r["again"] = bool(b["ok"] and equal(a["value"], b["value"]))
        try:
            facts(r, a["value"], x, w, exp, o)
        except vlib.CaseTimeout:
            raise
        except Exception as ex:     # not even the shape is as documented
            import traceback
            r["keys"] = ["broken: " + repr(ex)[:100] + traceback.format_exc()[-300:]]
    return [r]


WORLDS = []


def check(c: Check):
    vlib.import_gwecc()
    c.tlc(vlib.tlc("Sources", defs=f"CONSTANTS Peak = {pick(40, 400)} Origins = {{0, 5, 17}} Junks = {{0, 3, 10, 20}} Guesses = {{0, 1, 2, 3, 5, 8, 20, 60}} Pad = 2 Emit = FALSE", workers=4))
    r, cases = tlc_emit("Sources", defs="CONSTANTS Peak = 4 Origins = {0} Junks = {0} Guesses = {1} Pad = 0 Emit = TRUE")
    c.tlc(r)
    rng = random.Random(vlib.SEED)
    WORLDS[:] = [z for z in pmap(world, range(pick(6, 24)))]
    plain = [x for x in cases if x["fault"] == "none"]
    faulty = [x for x in cases if x["fault"] != "none"]
    missing = [x for x in faulty if not x["fault"].startswith("foreign")]
    foreign = [x for x in faulty if x["fault"].startswith("foreign")]
    # slow: removing the memory needs a just-in-time compiler per process
    slow = [x for x in plain if not x["memory"]]
    fast = [x for x in plain if x["memory"]]
    rng.shuffle(foreign)
    cases = slow * pick(1, 8) + fast * pick(6, 60) + [x for x in fast if x["source"] == "LAL"] * pick(8, 60) + [x for x in fast if x["source"] == "LAL" and x["zero"]] * pick(16, 60) + missing * pick(1, 4) + foreign[:pick(120, len(foreign))]
    cases.append(dict(source="unknown", zero=False, params=False, geodesic=False, memory=True, fault="none"))
    cases.append(dict(source="lal", zero=False, params=False, geodesic=False, memory=True, fault="none"))
    recs = [z for y in pmap(one, [(x, i % len(WORLDS), i) for i, x in enumerate(cases)]) for z in (y or [])]
    c.note(worlds=len(WORLDS), requests=len(recs), loaded=sum(z["got"] for z in recs), refused=sum(not z["got"] for z in recs), companions=sum(z["zn"] > 0 for z in recs))
    c.sample(recs[0])

    def mod(pred, **kw):
        def f():
            z = dict(next(z for z in recs if pred(z)))
            z.update(kw)
            return z
        return f
    ok = lambda z: z["got"] and z["n"] > 0 and "zero" in z["want"] and z["source"] != "EOB"
    controls = [(mod(ok, got=False), "refuses-valid"), (mod(lambda z: not z["got"], got=True), "accepts-invalid"), (mod(ok, lens=[3]), "lengths-differ"),
                (mod(ok, grid=1000), "times-not-uniform"), (mod(ok, peak=5000), "merger-not-at-zero"), (mod(ok, back=1), "phase-not-increasing"),
                (mod(ok, zfirst=5), "companion-too-short"), (mod(ok, mass=400), "companion-of-another-system"), (mod(ok, err=10 ** 6), "other-data"), (mod(ok, junk=500), "junk-removed-wrongly"),
                (mod(ok, params=False), "other-parameters"), (mod(ok, again=False), "not-repeatable"), (mod(ok, same=False), "caller-changed"), (mod(ok, keys=["t"]), "other-pieces"),
                (mod(ok, modes=["(2, 1)"]), "other-modes"), (mod(ok, usable=False), "not-measurable")]
    vlib.judge(c, "JSources", recs, controls=controls, key=lambda i, cl: "LAL:EccentricTD:growing-amplitude" if set(cl) == {"growing-amplitude"} and recs[i]["approximant"] == "EccentricTD" else f"{recs[i]['source']}:{'+'.join(sorted(cl))}:{recs[i]['id']}"[:200],
               what=lambda i, cl: f"{sorted(cl)}: {recs[i]}")


if __name__ == "__main__":
    main(check, "P23")
