import sys, warnings
import numpy as np
warnings.simplefilter("ignore")
from gw_eccentricity import measure_eccentricity
from gw_eccentricity.gw_eccentricity import get_available_methods


def wave(orbits=15, spo=200, e=0.1, al=0.01, eaf=0.25):
    N = int((orbits + 1.5) * spo)
    t = np.arange(N, dtype=float)
    x = t / spo
    l = 2 * np.pi * (x + al * x * x / 2)
    ph = 2 * l + 2 * e * np.sin(l)
    amp = (1 + 0.01 * x) * (1 + eaf * e * 4 * np.cos(l))
    tm = orbits * spo
    amp = amp + 5 * np.exp(-((t - tm) / (spo / 8.0)) ** 2)
    return {"t": t - tm, "amplm": {(2, 2): amp}, "phaselm": {(2, 2): ph}}


def given(dataDict, p, a, **kw):
    """the documented extension: a definition that only supplies the extrema"""
    class G(get_available_methods(return_dict=True)["Amplitude"]):
        def find_extrema(self, extrema_type="pericenters"):
            return np.array(p if extrema_type == "pericenters" else a)
    g = G(dataDict, **kw)
    return g, g.measure_ecc()


d = wave()
r = np.array([-700.0, -1200.0, -900.0, -1500.0])
o = measure_eccentricity(tref_in=r, method="Amplitude", dataDict=d)
sys.exit(0 if np.array_equal(o["tref_out"], r) else 1)
