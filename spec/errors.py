"""Reference behaviour of applying errors (property C10)."""
import copy
import numpy as np
from pySC.utils import at_wrapper, sc_tools


def drawn(sigma, default):
    if isinstance(sigma, list):
        return sigma[0] * sc_tools.randnc(sigma[1], np.shape(sigma[0]))
    return sigma * sc_tools.randnc(default, np.shape(sigma))


def apply_errors(self, nsigmas):
    for i in self.ORD.RF:
        if i in self.SIG.RF:
            for field in self.SIG.RF[i]:
                setattr(self.RING[i], field, drawn(self.SIG.RF[i][field], nsigmas))
    for i in self.ORD.BPM:
        if i in self.SIG.BPM:
            for field in self.SIG.BPM[i]:
                setattr(self.RING[i], field, self.SIG.BPM[i][field] if 'Noise' in field else drawn(self.SIG.BPM[i][field], nsigmas))
    for i in self.ORD.Magnet:
        if i in self.SIG.Magnet:
            for field in self.SIG.Magnet[i]:
                setattr(self.RING[i], 'BendingAngleError' if field == 'BendingAngle' else field, drawn(self.SIG.Magnet[i][field], nsigmas))
    self.INJ.Z0 = self.INJ.Z0ideal + self.SIG.staticInjectionZ * sc_tools.randnc(nsigmas, (6,))
    self.INJ.randomInjectionZ = self.SIG.randomInjectionZ * 1
    if 'Circumference' in self.SIG.keys():
        self.RING = sc_tools.scale_circumference(self.RING, 1 + self.SIG.Circumference * sc_tools.randnc(nsigmas, ()), 'rel')
    supports(self, nsigmas)
    self.update_supports()
    if len(self.ORD.Magnet):
        self.update_magnets()
    if len(self.ORD.RF) and len(self.SIG.RF):
        self.update_cavities()


def supports(self, nsigmas):
    s = at_wrapper.findspos(self.RING)
    for kind in ('Section', 'Plinth', 'Girder'):
        for pair in self.ORD[kind].T:
            start, end = pair[0], pair[1]
            if start in self.SIG.Support.keys():
                for field, value in self.SIG.Support[start].items():
                    if kind in field:
                        setattr(self.RING[start], field, drawn(value, nsigmas))
                        if field in self.SIG.Support[end].keys():
                            setattr(self.RING[end], field, drawn(value, nsigmas))
                        else:
                            setattr(self.RING[end], field, getattr(self.RING[start], field))
                length = np.remainder(s[pair][1] - s[pair][0], s[-1])
                roll = copy.deepcopy(getattr(self.RING[start], f'{kind}Roll'))
                a = copy.deepcopy(getattr(self.RING[start], f'{kind}Offset'))
                b = copy.deepcopy(getattr(self.RING[end], f'{kind}Offset'))
                if roll[1] != 0:
                    if f'{kind}Offset' in self.SIG.Support[end].keys():
                        raise Exception
                    a[1] -= roll[1] * length / 2
                    b[1] += roll[1] * length / 2
                else:
                    roll[1] = (b[1] - a[1]) / length
                if roll[2] != 0:
                    if f'{kind}Offset' in self.SIG.Support[end].keys():
                        raise Exception
                    a[0] -= roll[2] * length / 2
                    b[0] += roll[2] * length / 2
                else:
                    roll[2] = (b[0] - a[0]) / length
                setattr(self.RING[start], f'{kind}Roll', roll)
                setattr(self.RING[start], f'{kind}Offset', a)
                setattr(self.RING[end], f'{kind}Offset', b)


def scale_circumference(RING, circ, mode='abs'):
    s = at_wrapper.findspos(RING)
    drifts = 0
    for ind in range(len(RING)):
        if RING[ind].PassMethod == 'DriftPass':
            drifts += RING[ind].Length
    change = (circ - 1) * s[-1] if mode == 'rel' else circ - s[-1]
    for ind in range(len(RING)):
        if RING[ind].PassMethod == 'DriftPass':
            RING[ind].Length = RING[ind].Length * (1 + change / drifts)
    return RING
