"""Process environment: import tatc from /repo/src with a stand-in for the absent ephemeris file."""
import os, sys
sys.dont_write_bytecode = True
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
import numpy as np


def install_ephemeris():
    """While de421.bsp is absent, Loader returns an analytic Sun/Earth stand-in for that name only."""
    from skyfield.iokit import Loader
    if getattr(Loader, "_vf_patched", False):
        return
    from skyfield.vectorlib import VectorFunction, VectorSum
    from skyfield.constants import AU_KM

    class _SunSeg(VectorFunction):
        """Earth -> Sun, low-precision mean solar longitude in the equatorial frame (au, au/day)."""
        center, target = 399, 10
        center_name, target_name = "399 EARTH", "10 SUN"
        vector_name = "stand-in"

        def _at(self, t):
            d = t.tdb - 2451545.0 if hasattr(t, "tdb") else t
            g = np.radians(357.529 + 0.98560028 * d)
            q = 280.459 + 0.98564736 * d
            L = np.radians(q + 1.915 * np.sin(g) + 0.020 * np.sin(2 * g))
            e = np.radians(23.439)
            R = 1.00014 - 0.01671 * np.cos(g)
            p = np.array([R * np.cos(L), R * np.cos(e) * np.sin(L), R * np.sin(e) * np.sin(L)])
            w = np.radians(0.9856)
            v = np.array([-R * np.sin(L), R * np.cos(e) * np.cos(L), R * np.sin(e) * np.cos(L)]) * w
            return p, v, None, None

    class _EarthSeg(VectorFunction):
        center, target = 0, 399
        center_name, target_name = "0 SSB", "399 EARTH"
        vector_name = "stand-in"

        def __init__(self, sun):
            self.s = sun

        def _at(self, t):
            p, v, _, _ = self.s._at(t)
            return -p, -v, None, None

    class _Zero(VectorFunction):
        center, target = 0, 10
        center_name, target_name = "0 SSB", "10 SUN"
        vector_name = "stand-in"

        def _at(self, t):
            z = np.zeros((3,) + np.shape(t.tdb))
            return z, z, None, None

    class _Far(VectorFunction):
        center, target = 0, 5
        center_name, target_name = "0 SSB", "5 JUPITER BARYCENTER"
        vector_name = "stand-in"

        def _at(self, t):
            z = np.zeros((3,) + np.shape(t.tdb))
            return (z.T + np.array([1e6, 1e6, 1e6])).T, z, None, None

    class Ephemeris(dict):
        _vf_ephemeris = True

        def __getitem__(self, k):
            k = str(k).lower()
            if k in ("earth", "399"):
                return self.earth
            if k in ("sun", "10"):
                return self.sun
            # bodies that only deflect light: fixed, far away
            if k in ("jupiter barycenter", "5", "saturn barycenter", "6", "599", "699", "jupiter", "saturn"):
                return self.far
            raise KeyError(k)

        def __contains__(self, k):
            try:
                self[k]
                return True
            except KeyError:
                return False

        def __bool__(self):
            return True

        def __hash__(self):
            return id(self)

    def make():
        s = _SunSeg()
        e = Ephemeris()
        e.earth = _EarthSeg(s)
        e.sun = _Zero()
        e.far = _Far()
        e.earth.ephemeris = e
        e.sun.ephemeris = e
        return e

    orig = Loader.__call__

    def call(self, filename, *a, **k):
        if filename == "de421.bsp" and not self.exists(filename):
            return make()
        return orig(self, filename, *a, **k)

    Loader.__call__ = call
    Loader._vf_patched = True


install_ephemeris()
import warnings
warnings.filterwarnings("ignore")
import tatc  # noqa: E402
