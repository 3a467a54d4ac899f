import sys, warnings
import numpy as np
warnings.simplefilter("ignore")
from gw_eccentricity import measure_eccentricity
from gw_eccentricity.gw_eccentricity import get_available_methods


def wave(orbits=15, spo=200, e=0.1, al=0.01, eaf=0.25):
    N = int((orbits + 1.5) * spo)
    t = np.arange(N, dtype=float)
    x = t / spo
    l = 2 * np.pi * (x + al * x * x / 2)
    ph = 2 * l + 2 * e * np.sin(l)
    amp = (1 + 0.01 * x) * (1 + eaf * e * 4 * np.cos(l))
    tm = orbits * spo
    amp = amp + 5 * np.exp(-((t - tm) / (spo / 8.0)) ** 2)
    return {"t": t - tm, "amplm": {(2, 2): amp}, "phaselm": {(2, 2): ph}}


def given(dataDict, p, a, **kw):
    """the documented extension: a definition that only supplies the extrema"""
    class G(get_available_methods(return_dict=True)["Amplitude"]):
        def find_extrema(self, extrema_type="pericenters"):
            return np.array(p if extrema_type == "pericenters" else a)
    g = G(dataDict, **kw)
    return g, g.measure_ecc()


N = 1700
k = np.arange(N)
ph = 4 * np.pi * k / 95
d = {"t": k.astype(float) , "amplm": {(2, 2): 1 + 5 * np.exp(-((k - 1600) / 9.0) ** 2)}, "phaselm": {(2, 2): ph},
     "omegalm": {(2, 2): (0.12 + 0.02 * np.cos(2 * np.pi * (k - 20) / 100)) * (1 + 1e-5 * k)}}
p = [20, 110, 210, 300] + list(range(400, 1300, 100))
a = list(range(60, 1290, 98))
g, r = given(d, p, a, tref_in=d["t"])
sys.exit(0 if list(g.t_pericenters) == [300] + list(range(400, 1300, 100)) else 1)
