"""Small machine used by the demonstrations."""
import os
import sys
sys.path.insert(0, os.getcwd())
os.environ.setdefault("MPLBACKEND", "Agg")
import logging
import numpy as np
import at
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.utils import at_wrapper, sc_tools
logging.disable(logging.CRITICAL)
PM = "StrMPoleSymplectic4Pass"


def lattice(ncells=10, corrector_length=0.1):
    def marker(name):
        return at.Marker(name, PassMethod="IdentityPass")
    qf = at.Quadrupole("QF", 0.5, 1.2, PassMethod=PM)
    qd = at.Quadrupole("QD", 0.5, -1.2, PassMethod=PM)
    sf = at.Sextupole("SF", 0.1, 6.0487, PassMethod=PM)
    sd = at.Sextupole("SD", 0.1, -9.5203, PassMethod=PM)
    bend = at.Bend("BEND", 1, 2 * np.pi / (2 * ncells), PassMethod="BndMPoleSymplectic4Pass")
    cm = at.Corrector("CM", 0.0, np.zeros(2), PassMethod="CorrectorPass", PolynomA=np.zeros(2), PolynomB=np.zeros(2), MaxOrder=1)
    d2, d3 = at.Drift("Drift", 0.25), at.Drift("Drift", 0.2)
    cell = [d2, marker("SectionStart"), marker("GirderStart"), bend, d3, sf, d3, marker("GirderEnd"), marker("GirderStart"),
            marker("BPM"), qf, d2, cm, d2, bend, d3, sd, d3, qd, d2, marker("BPM"), marker("GirderEnd"), marker("SectionEnd")]
    ring = at.Lattice([e.deepcopy() for _ in range(ncells) for e in cell], name="FODO", energy=2.5e9)
    ring.insert(0, at.RFCavity("RFCav", energy=2.5e9, voltage=2e6, frequency=1e8, harmonic_number=50, length=0))
    f0 = at.get_revolution_frequency(ring)
    ring[0].Frequency = 50 * f0
    ring.enable_6d()
    return ring


def machine(ncells=10):
    sc = SimulatedCommissioning(lattice(ncells))
    sc.register_bpms(ords(sc, "^BPM$"), Noise=np.zeros(2))
    q, s = ords(sc, "^Q[FD]$"), ords(sc, "^S[FD]$")
    sc.register_magnets(q, CalErrorB=np.array([0, 1e-3]))
    sc.register_magnets(s, HCM=1e-3, VCM=1e-3, CalErrorB=np.array([0, 0, 1e-3]))
    sc.register_cavities(ords(sc, "RFCav"), TimeLagOffset=0.01)
    return sc


def ords(sc, regex):
    return sc_tools.ords_from_regex(sc.RING, regex)


def snapshot(ring):
    return [{k: np.array(v, copy=True) if isinstance(v, np.ndarray) else v for k, v in vars(e).items()} for e in ring]


def changed(a, b):
    out = []
    for i, (x, y) in enumerate(zip(a, b)):
        for k in sorted(set(x) | set(y)):
            if k not in x or k not in y or not same(x[k], y[k]):
                out.append((i, k))
    return out


def same(p, q):
    try:
        return bool(np.array_equal(np.asarray(p), np.asarray(q)))
    except Exception:
        return p is q or p == q


def raises(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False


def check(cond, msg):
    if not cond:
        print("FAIL:", msg)
        sys.exit(1)
    print("ok:", msg)
