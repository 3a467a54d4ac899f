"""Synthetic waveform files in every format load_data reads."""
import json
import os
import numpy as np
import h5py


def inspiral(rng, e=0.1, orbits=12.0, adv=0.05, q=1.0, nonuniform=True, modes=((2, 2),), shift=0.0, dt=0.7, ringdown=80):
    """times (as a simulation writes them), amplitudes and phases per mode,
    h = A exp(-i phi); peak of the total amplitude at `shift`."""
    eta = q / (1 + q) ** 2

    def freq(tau):
        return 0.125 * (eta * (tau + 15.0) / 5.0 + 5.0) ** (-3.0 / 8.0)
    tau = np.arange(0, 60000, 1.0)
    i0 = int(np.searchsorted(np.cumsum(freq(tau)) / (2 * np.pi), orbits))
    if nonuniform:
        # steps follow the orbital period, as in simulations
        s = np.cumsum([0.6 + 1.2 * rng.random() for _ in range(3 * i0)])
        t = s[s < i0 + ringdown] - i0
    else:
        t = np.arange(-i0, ringdown, dt)
    tau = np.maximum(-t, 0.0)
    n = freq(tau)
    l = np.concatenate([[0.0], np.cumsum(0.5 * (n[1:] + n[:-1]) * np.diff(t))])
    l -= np.interp(0.0, t, l)
    ee = e * (n / freq(i0)) ** (-0.5) / (1 + np.exp((t + 60) / 15.0))
    la = l / (1 + adv) + 0.3
    orb = l + 2 * ee * np.sin(la)
    a = eta * n ** (2 / 3) * (1 + 1.5 * ee * np.cos(la)) * (1 + 0.5 * np.exp(-(t / 25.0) ** 2))
    a = a * np.where(t > 0, np.exp(-(np.maximum(t, 0) / 14.0) ** 2 / 2), 1.0)
    amp = {m: a * (1.0 if m == (2, 2) or m == (2, -2) else 0.03 * (abs(m[1]) + 1)) for m in modes}
    ph = {m: m[1] * orb + 0.1 * m[0] for m in modes}
    return t + shift, amp, ph, {"t0": shift, "orbit": orb}


def write_romspline(g, name, t, y):
    d = g.create_group(name)
    d.create_dataset("X", data=t)
    d.create_dataset("Y", data=y)
    d.create_dataset("deg", data=5)
    d.create_dataset("tol", data=1e-6)
    d.create_dataset("errors", data=np.zeros(1))


def lvcnr(path, t, amp, ph, q=1.0, chi1=(0, 0, 0.1), chi2=(0, 0, -0.2), ecc=0.1, mean_ano=0.3):
    with h5py.File(path, "w") as f:
        m1, m2 = q / (1 + q), 1 / (1 + q)
        k = int(len(t) * 0.1)
        om = np.gradient(ph[2, 2], t)[k] / 2
        f.attrs.update({"Format": 1, "mass1": m1, "mass2": m2, "eta": m1 * m2, "f_lower_at_1MSUN": float(np.gradient(ph[2, 2], t)[0] / (2 * np.pi) / 4.925490947e-6),
                        "spin1x": chi1[0], "spin1y": chi1[1], "spin1z": chi1[2], "spin2x": chi2[0], "spin2y": chi2[1], "spin2z": chi2[2],
                        "LNhatx": 0.0, "LNhaty": 0.0, "LNhatz": 1.0, "nhatx": 1.0, "nhaty": 0.0, "nhatz": 0.0, "coa_phase": 0.0, "Omega": om,
                        "eccentricity": ecc, "mean_anomaly": mean_ano, "NR-group": "synthetic", "name": "synthetic", "type": "NRinjection", "Lmax": 2})
        for m in amp:
            write_romspline(f, f"amp_l{m[0]}_m{m[1]}", t, amp[m])
            write_romspline(f, f"phase_l{m[0]}_m{m[1]}", t, -ph[m])


def metadata(d, q=1.0, chi1=(0, 0, 0.1), chi2=(0, 0, -0.2), t_relax=100.0, fmt="json"):
    m1, m2 = q / (1 + q), 1 / (1 + q)
    if fmt == "json":
        json.dump({"reference_dimensionless_spin1": list(chi1), "reference_dimensionless_spin2": list(chi2), "reference_mass1": m1, "reference_mass2": m2,
                   "relaxation_time": t_relax}, open(os.path.join(d, "metadata.json"), "w"))
    else:
        open(os.path.join(d, "metadata.txt"), "w").write("\n".join([
            "# synthetic", f"relaxation-time = {t_relax}", f"reference-mass1 = {m1!r}", f"reference-mass2 = {m2!r}",
            "reference-dimensionless-spin1 = " + ", ".join(map(repr, map(float, chi1))), "reference-dimensionless-spin2 = " + ", ".join(map(repr, map(float, chi2)))]) + "\n")


def horizons(d, t, orbit, start):
    with h5py.File(os.path.join(d, "Horizons.h5"), "w") as f:
        o = np.interp(t, t, orbit)
        x = np.stack([t, np.cos(o), np.sin(o), 0 * o], 1)
        y = np.stack([t, -np.cos(o), -np.sin(o), 0 * o], 1)
        f.create_dataset("AhA.dir/CoordCenterInertial.dat", data=x)
        f.create_dataset("AhB.dir/CoordCenterInertial.dat", data=y)


def sxs_old(d, t, amp, ph, orders=(2,)):
    with h5py.File(os.path.join(d, "rhOverM_Asymptotic_GeometricUnits_CoM.h5"), "w") as f:
        for n in orders:
            for m in amp:
                # other orders differ from the first one
                h = amp[m] * np.exp(-1j * ph[m]) * (1 + 0.1 * abs(n - orders[0]))
                f.create_dataset(f"Extrapolated_N{n}.dir/Y_l{m[0]}_m{m[1]}.dat", data=np.stack([t, h.real, h.imag], 1))


def sxs_new(d, t, amp, ph, order=2, ell_max=2):
    import sxs
    LM = [(l, m) for l in range(2, ell_max + 1) for m in range(-l, l + 1)]
    data = np.stack([amp[m] * np.exp(-1j * ph[m]) if m in amp else np.zeros(len(t), complex) for m in LM], 1)
    w = sxs.WaveformModes(data, time=t, time_axis=0, modes_axis=1, ell_min=2, ell_max=ell_max, spin_weight=-2, frame_type="inertial", data_type="h")
    from sxs.waveforms.format_handlers import rotating_paired_diff_multishuffle_bzip2 as rpdmb
    rpdmb.save(w, os.path.join(d, f"Strain_N{order}.h5"), L2norm_fractional_tolerance=1e-12)


def eob(path, t, amp, ph):
    with h5py.File(path, "w") as f:
        f.create_dataset("t", data=t)
        f.create_dataset("(2, 2)", data=amp[2, 2] * np.exp(-1j * ph[2, 2]))


def emri(path, t, amp, ph, ecc_path=None, ecc=None):
    with h5py.File(path, "w") as f:
        h = amp[2, 2] * np.exp(-1j * ph[2, 2])
        f.create_dataset("Dataset1", data=np.stack([t, h.real, h.imag], 1))
    if ecc_path:
        with h5py.File(ecc_path, "w") as f:
            f.create_dataset("Dataset1", data=np.stack([t, ecc], 1))
