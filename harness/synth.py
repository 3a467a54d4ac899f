"""Synthetic waveforms and the controlled measurement used by the checks."""
import numpy as np
from vlib import import_gwecc

TWO_PI = 2 * np.pi
_cls = {}


def methods():
    import_gwecc()
    from gw_eccentricity.gw_eccentricity import get_available_methods
    return get_available_methods(return_dict=True)


def controlled_class(base="Amplitude"):
    """The documented extension point (wiki 'Adding new eccentricity
    definitions'): a definition that only supplies find_extrema."""
    if base not in _cls:
        B = methods()[base]

        class Controlled(B):
            given = None

            def find_extrema(self, extrema_type="pericenters"):
                p, a = self.given(self) if callable(self.given) else self.given
                x = p if extrema_type == "pericenters" else a
                return np.array(x, dtype=int)
        _cls[base] = Controlled
    return _cls[base]


def controlled_obj(dataDict, extrema, base="Amplitude", **kw):
    """construct the object with given extrema (indices into the analysed
    times); extrema may be a callable of the object."""
    C = controlled_class(base)

    class One(C):
        given = staticmethod(extrema) if callable(extrema) else extrema
    return One(dataDict, **kw)


def controlled_measure(dataDict, extrema, base="Amplitude", **kw):
    o = controlled_obj(dataDict, extrema, base, **kw)
    r = o.measure_ecc()
    r = dict(r)
    r["gwecc_object"] = o
    return r


def grid_wave(n_body, dt=1.0, t0=0.0, phase=None, omega=None, amp=None, tail=None,
              tail_phase=None):
    """A waveform on a uniform grid: n_body samples that stay in the analysed
    part followed by a tail of three orbits up to the merger and a bit after.
    phase/omega/amp: arrays of length n_body (phase must increase)."""
    T = 80
    n_tail = 4 * T if tail is None else tail
    n = n_body + n_tail
    t = t0 + dt * np.arange(n)
    k = np.arange(n)
    ph = np.empty(n)
    ph[:n_body] = phase
    step = (4 * np.pi) / T
    ph[n_body:] = ph[n_body - 1] + step * np.arange(1, n_tail + 1)
    om = np.empty(n)
    om[:n_body] = omega if omega is not None else np.gradient(ph[:n_body], dt)
    om[n_body:] = step / dt
    am = np.empty(n)
    am[:n_body] = amp if amp is not None else 1.0
    merger = n_body + int(2.5 * T)
    am[n_body:] = 1.0
    am = am + 5 * np.exp(-((k - merger) / 12.0) ** 2)
    return {"t": t, "amplm": {(2, 2): am}, "phaselm": {(2, 2): ph},
            "omegalm": {(2, 2): om}}


def interp_phase(n, knots, values):
    return np.interp(np.arange(n), knots, values)


def chirp(orbits=15, spo=200, e=0.1, al=0.01, ph0=0.0, dt=1.0, shift=0.0, tail=1.5,
          peak=5.0, drift=0.01, eaf=0.25):
    """A clean eccentric inspiral with a merger.

    radial phase l(t) = 2 pi (x + al x^2/2), pericenters where l = 0 mod 2 pi;
    amplitude and frequency oscillate in phase."""
    N = int((orbits + tail) * spo)
    t = np.arange(N, dtype=float)
    x = t / spo
    l = TWO_PI * (x + al * x * x / 2) + ph0
    ph = 2 * l + 2 * e * np.sin(l)
    ldot = TWO_PI / spo * (1 + al * x)
    om = 2 * ldot * (1 + e * np.cos(l))
    amp = (1 + drift * x) * (1 + eaf * e * 4 * np.cos(l))
    tm = orbits * spo
    amp = amp + peak * np.exp(-((t - tm) / (spo / 8.0)) ** 2)
    t = (t - tm) * dt + shift
    return {"t": t, "amplm": {(2, 2): amp}, "phaselm": {(2, 2): ph},
            "omegalm": {(2, 2): om / dt}}


def pn(q=1.0, e0=0.1, orbits=20.0, dt=1.0, f_end=0.02, zeroecc=True, ano0=0.3,
       ringdown=60, adv=0.0, truth=False):
    """Leading-order-like eccentric inspiral with decaying eccentricity and a
    smooth merger, plus its quasicircular counterpart.  adv: pericenter
    advance in orbits per radial period.  truth: also return the radial phase
    in orbits (pericenters at the integers)."""
    # orbital frequency n(tau) from the leading chirp, tau = time to merger
    eta = q / (1 + q) ** 2

    def freq(tau):
        return 0.125 * (eta * (tau + 15.0) / 5.0 + 5.0) ** (-3.0 / 8.0)
    # find start so that the number of orbits is as requested
    tau = np.arange(0, 400000, 1.0)
    nn = freq(tau)
    orb = np.cumsum(nn) / TWO_PI
    i0 = int(np.searchsorted(orb, orbits))

    def build(start_tau, ecc):
        t = np.arange(-start_tau, ringdown, dt)
        tau = np.maximum(-t, 0.0)
        n = freq(tau)
        l = np.concatenate([[0.0], np.cumsum(0.5 * (n[1:] + n[:-1]) * dt)])
        lm = np.interp(0.0, t, l)
        l = l - lm
        e = ecc * (n / freq(i0)) ** (-19.0 / 18.0 * 0.5)
        damp = 1 / (1 + np.exp((t + 60) / 15.0))
        e = e * damp
        la = l / (1 + adv) + ano0
        ph = 2 * l + 4 * e * np.sin(la)
        amp = eta * (n ** (2.0 / 3.0)) * (1 + 1.5 * e * np.cos(la))
        amp = amp * np.where(t > 0, np.exp(-(np.maximum(t, 0) / 12.0) ** 2 / 2), 1.0)
        amp = amp * (1 + 0.4 * np.exp(-(t / 25.0) ** 2))
        return t, amp, ph, la / TWO_PI
    t, a, p, radial = build(float(i0), e0)
    d = {"t": t, "amplm": {(2, 2): a}, "phaselm": {(2, 2): p}}
    if zeroecc:
        tz, az, pz, _ = build(float(i0) + 300, 0.0)
        d.update({"t_zeroecc": tz, "amplm_zeroecc": {(2, 2): az},
                  "phaselm_zeroecc": {(2, 2): pz}})
    return (d, radial) if truth else d


def to_hlm(d):
    out = {k: v for k, v in d.items() if not k.startswith(("amplm", "phaselm", "omegalm"))}
    for s in ["", "_zeroecc"]:
        if "amplm" + s in d:
            out["hlm" + s] = {m: d["amplm" + s][m] * np.exp(-1j * d["phaselm" + s][m])
                              for m in d["amplm" + s]}
    return out


def copy_dict(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out[k] = {m: np.array(x) for m, x in v.items()}
        elif isinstance(v, np.ndarray):
            out[k] = v.copy()
        else:
            out[k] = v
    return out


def precess(hlm, t, alpha=None, beta=None, R=None):
    """coprecessing l=2 modes -> inertial modes in a frame precessing with
    angles alpha(t), beta(t) (or quaternions R(t))."""
    import quaternion
    import scri
    ms = range(-2, 3)
    data = np.stack([np.asarray(hlm.get((2, m), np.zeros(len(t), complex)), dtype=complex) for m in ms], axis=1)
    if R is None:
        gam = -np.concatenate([[0.0], np.cumsum(0.5 * np.diff(alpha) * (np.cos(beta[1:]) + np.cos(beta[:-1])))])
        R = quaternion.from_euler_angles(alpha, beta, gam)
    w = scri.WaveformModes(dataType=scri.h, t=np.array(t, dtype=float), data=data, ell_min=2, ell_max=2, frame=R,
                           frameType=scri.Coprecessing, r_is_scaled_out=True, m_is_scaled_out=True)
    w = w.to_inertial_frame()
    return {(2, m): np.array(w.data[:, i]) for i, m in enumerate(ms)}


def rotate_fixed(hlm, t, q):
    """apply one fixed rotation to inertial modes"""
    import quaternion
    R = quaternion.as_quat_array(np.tile(np.array(q, dtype=float) / np.linalg.norm(q), (len(t), 1)))
    return precess(hlm, t, R=R)


def precessing_pair(e0=0.25, orbits=10.0, dt=1.0, eps=0.0, ncyc=3.0, beta0=0.3, zeroecc=False, ano0=0.3, m21=0.02, mult=0):
    """(coprecessing modes dict, inertial modes dict) of one system.
    eps: size of the amplitude/frequency asymmetry between (2,2) and (2,-2)."""
    d = pn(e0=e0, orbits=orbits, dt=dt, zeroecc=zeroecc, ano0=ano0)
    cop, ine = {}, {}
    for s in ["", "_zeroecc"] if zeroecc else [""]:
        t = d["t" + s]
        A, P = d["amplm" + s][(2, 2)], d["phaselm" + s][(2, 2)]
        osc = np.sin(P * 0.5 * 1.0 + 0.4) if not mult else np.sin(P * mult)
        f = eps * osc
        h = {(2, 2): A * (1 + f) * np.exp(-1j * P), (2, -2): A * (1 - f) * np.exp(1j * P),
             (2, 1): m21 * A * np.exp(-0.5j * P), (2, -1): m21 * A * np.exp(0.5j * P),
             (2, 0): 0.01 * A * np.cos(P / 3) + 0j}
        al = 2 * np.pi * ncyc * (t - t[0]) / (t[-1] - t[0])
        be = beta0 * (1 + 0.2 * np.sin(0.7 * al))
        cop["t" + s] = t
        cop["hlm" + s] = h
        ine["t" + s] = t
        ine["hlm" + s] = precess(h, t, al, be)
    return cop, ine


def to_ampphase(d):
    out = {k: v for k, v in d.items() if not k.startswith("hlm")}
    for s in ["", "_zeroecc"]:
        if "hlm" + s in d:
            out["amplm" + s] = {m: np.abs(h) for m, h in d["hlm" + s].items()}
            out["phaselm" + s] = {m: -np.unwrap(np.angle(h)) for m, h in d["hlm" + s].items()}
    return out


def asymmetric(e0, orbits, ra, rw, k, dt=1.0, ano0=0.3, adv=0.05, ringdown=60, spin=0.0):
    """Coprecessing modes of a precessing inspiral: the asymmetry between
    (2,2) and (2,-2) is ra (amplitude) and rw (frequency) times the
    oscillation due to eccentricity, k times its frequency.  spin: size of an
    oscillation of both modes alike, at twice the frequency of the asymmetry."""
    eta = 0.25

    def freq(tau):
        return 0.125 * (eta * (tau + 15.0) / 5.0 + 5.0) ** (-3.0 / 8.0)
    tau = np.arange(0, 400000, 1.0)
    T = float(np.searchsorted(np.cumsum(freq(tau)) / TWO_PI, orbits))
    t = np.arange(-T, ringdown, dt)
    n = freq(np.maximum(-t, 0))
    l = np.concatenate([[0.0], np.cumsum(0.5 * (n[1:] + n[:-1]) * dt)])
    l = l - np.interp(0.0, t, l)
    e = e0 * (n / freq(T)) ** -0.53 / (1 + np.exp((t + 60) / 15.0))
    la = l / (1 + adv) + ano0
    ph = 2 * l + 4 * e * np.sin(la)
    base = eta * n ** (2 / 3.0)
    amp = base * (1 + 1.5 * e * np.cos(la))
    amp = amp * np.where(t > 0, np.exp(-(np.maximum(t, 0) / 12.0) ** 2 / 2), 1.0)
    amp = amp * (1 + 0.4 * np.exp(-(t / 25.0) ** 2))
    aa = ra * base * 1.5 * e * np.sin(k * la + 0.4)
    dp = rw * 4 * e * np.sin(k * la + 1.1) / k
    amp = amp + spin * base * 1.5 * e * np.sin(2 * k * la + 0.4)
    ph = ph + spin * 4 * e * np.sin(2 * k * la + 1.1) / (2 * k)
    return {"t": t, "amplm": {(2, 2): amp + aa, (2, -2): amp - aa},
            "phaselm": {(2, 2): ph + dp, (2, -2): -(ph - dp)}}
