"""
Process bootstrap shared by every check: environment, import paths, and the
stand-in ephemeris.

tatc opens src/tatc/resources/de421.bsp at import and that file is not in this
copy of the repository.  When (and only when) it is absent, skyfield's Loader is
patched to return an analytic low-precision ephemeris with the same interface.
The checks never rely on its absolute accuracy: every oracle that involves the
Sun reads the Sun direction from the same object, by a different route.
"""

import os
import sys
import warnings

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
os.environ["TZ"] = "UTC"
for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = "/nonexistent-hypothesis"

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

# the code under test always comes from /repo's working tree
sys.path.insert(0, os.path.join(REPO, "src"))
if VERIF not in sys.path:
    sys.path.insert(1, VERIF)

try:
    import hypothesis  # noqa: F401
except ImportError:
    _vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    sys.path.append(_vt)  # appended: only supplies what /opt/venv lacks
    import hypothesis  # noqa: F401

warnings.filterwarnings("ignore")

import numpy as np  # noqa: E402
from skyfield.iokit import Loader  # noqa: E402
from skyfield.vectorlib import VectorFunction  # noqa: E402

_EPS = np.radians(23.439291)


class _Body(VectorFunction):
    center = 0

    def __init__(self, target, func, eph):
        self.target = target
        self._func = func
        self.ephemeris = eph

    def _at(self, t):
        d = np.asarray(t.tdb) - 2451545.0
        h = 1e-3
        p = self._func(d)
        v = (self._func(d + h) - self._func(d - h)) / (2 * h)
        return p, v, None, None


def _zero(d):
    z = np.zeros_like(d)
    return np.array([z, z, z])


def _earth(d):
    # low-precision solar position (Astronomical Almanac), negated
    g = np.radians(357.529 + 0.98560028 * d)
    q = 280.459 + 0.98564736 * d
    lam = np.radians(q + 1.915 * np.sin(g) + 0.020 * np.sin(2 * g))
    r = 1.00014 - 0.01671 * np.cos(g) - 0.00014 * np.cos(2 * g)
    return -np.array(
        [
            r * np.cos(lam),
            r * np.cos(_EPS) * np.sin(lam),
            r * np.sin(_EPS) * np.sin(lam),
        ]
    )


def _circ(a, period_d, phase):
    def f(d):
        th = 2 * np.pi * d / period_d + phase
        return np.array(
            [
                a * np.cos(th),
                a * np.cos(_EPS) * np.sin(th),
                a * np.sin(_EPS) * np.sin(th),
            ]
        )

    return f


class AnalyticEphemeris:
    """The subset of skyfield's SpiceKernel interface that tatc uses."""

    def __init__(self):
        names = {
            10: ("sun", _zero),
            399: ("earth", _earth),
            5: ("jupiter barycenter", _circ(5.2, 4332.6, 0.6)),
            6: ("saturn barycenter", _circ(9.55, 10759.2, 0.9)),
        }
        self._b = {}
        for code, (name, f) in names.items():
            body = _Body(code, f, self)
            self._b[code] = body
            self._b[name] = body
        self.filename = "de421.bsp"

    def __getitem__(self, k):
        if isinstance(k, str):
            k = k.lower()
        return self._b[k]

    def __contains__(self, k):
        return k in self._b


_call = Loader.__call__


def _deferred(self, filename, *args, **kwargs):
    if filename == "de421.bsp" and not self.exists(filename):
        return AnalyticEphemeris()
    return _call(self, filename, *args, **kwargs)


Loader.__call__ = _deferred


def load_tatc():
    """Import tatc from /repo/src (fails loudly if it comes from elsewhere)."""
    import tatc

    root = os.path.realpath(os.path.join(REPO, "src"))
    got = os.path.realpath(tatc.__file__)
    if not got.startswith(root + os.sep):
        raise RuntimeError(f"tatc imported from {got}, expected under {root}")
    return tatc
