"""Reference behaviour of registration (property C09)."""
import numpy as np
from pySC.core.classes import DotDict
from pySC.utils import classdef_tools


def joined(old, new):
    return np.unique(np.concatenate((old, new)))


def register_bpms(self, ords, kwargs):
    self.ORD.BPM = joined(self.ORD.BPM, ords)
    for i in np.unique(ords):
        if i not in self.SIG.BPM:
            self.SIG.BPM[i] = DotDict()
        self.SIG.BPM[i].update(kwargs)
        e = self.RING[i]
        for name in ('Noise', 'NoiseCO', 'Offset', 'SupportOffset', 'CalError'):
            setattr(e, name, np.zeros(2))
        for name in ('Roll', 'SupportRoll', 'SumError'):
            setattr(e, name, 0)


def register_cavities(self, ords, kwargs):
    self.ORD.RF = joined(self.ORD.RF, ords)
    for i in np.unique(ords):
        if i not in self.SIG.RF:
            self.SIG.RF[i] = DotDict()
        self.SIG.RF[i].update(kwargs)
        e = self.RING[i]
        for name in ('Voltage', 'Frequency', 'TimeLag'):
            setattr(e, name + 'SetPoint', getattr(e, name))
            setattr(e, name + 'Offset', 0)
            setattr(e, name + 'CalError', 0)


def register_magnets(self, ords, kwargs):
    if 'MasterOf' in kwargs and len(np.unique(ords)) != len(ords):
        raise ValueError("repeated")
    self.ORD.Magnet = joined(self.ORD.Magnet, ords)
    for kind in ('SkewQuad', 'HCM', 'VCM'):
        if kind in kwargs:
            setattr(self.ORD, kind, joined(getattr(self.ORD, kind), ords))
    errors = {k: v for k, v in kwargs.items() if k not in ('HCM', 'VCM', 'CF', 'SkewQuad', 'MasterOf')}
    for i in ords:
        if i not in self.SIG.Magnet:
            self.SIG.Magnet[i] = DotDict()
        self.SIG.Magnet[i].update(errors)
        e = self.RING[i]
        for ab in ('A', 'B'):
            design = getattr(e, 'Polynom' + ab)
            setattr(e, 'NomPolynom' + ab, np.zeros(len(design)) + design)
            setattr(e, 'SetPoint' + ab, np.zeros(len(design)) + design)
            setattr(e, 'CalError' + ab, np.zeros(len(design)))
        for name in ('MagnetOffset', 'SupportOffset', 'MagnetRoll', 'SupportRoll'):
            setattr(e, name, np.zeros(3))
        for name in ('T1', 'T2'):
            setattr(e, name, np.zeros(6))
        if 'CF' in kwargs:
            e.CombinedFunction = True
        if ('HCM' in kwargs or 'VCM' in kwargs) and not hasattr(e, 'CMlimit'):
            e.CMlimit = np.zeros(2)
        if 'HCM' in kwargs:
            e.CMlimit[0] = kwargs['HCM']
        if 'VCM' in kwargs:
            e.CMlimit[1] = kwargs['VCM']
        if 'SkewQuad' in kwargs:
            e.SkewQuadLimit = kwargs['SkewQuad']
        if 'MasterOf' in kwargs:
            e.MasterOf = kwargs['MasterOf'][:, np.nonzero(ords == i)].ravel()


def register_supports(self, support_ords, support_type, kwargs):
    if not len(support_ords) or support_ords.shape[0] != 2:
        raise ValueError("shape")
    self.ORD[support_type] = classdef_tools.update_double_ordinates(self.ORD[support_type], support_ords)
    for i in np.ravel(support_ords):
        setattr(self.RING[i], support_type + 'Offset', np.zeros(3))
        setattr(self.RING[i], support_type + 'Roll', np.zeros(3))
        if i not in self.SIG.Support:
            self.SIG.Support[i] = DotDict()
        for key in list(self.SIG.Support[i]):
            if key.startswith(support_type):
                del self.SIG.Support[i][key]
    for pair in support_ords.T:
        for key, value in kwargs.items():
            field = support_type + key
            if isinstance(value, list):
                if value[0].ndim == 1:
                    self.SIG.Support[pair[0]][field] = value
                else:
                    self.SIG.Support[pair[0]][field] = [value[0][0, :], value[1]]
                    self.SIG.Support[pair[1]][field] = [value[0][1, :], value[1]]
            elif value.ndim == 1:
                self.SIG.Support[pair[0]][field] = value
            else:
                self.SIG.Support[pair[0]][field] = value[0, :]
                self.SIG.Support[pair[1]][field] = value[1, :]


def update_double_ordinates(ords1, ords2):
    both = np.concatenate((ords1, ords2), axis=1)
    both = both[:, np.lexsort((both[0, :], both[1, :]))]
    new = np.sum(np.abs(np.diff(both, axis=1)), axis=0)
    return both[:, np.concatenate((np.array([1]), new)) != 0]


def empty_indices(self):
    for name in ('BPM', 'RF', 'Magnet', 'SkewQuad', 'HCM', 'VCM'):
        setattr(self, name, np.array([], dtype=int))
    for name in ('Girder', 'Plinth', 'Section'):
        setattr(self, name, np.zeros((2, 0), dtype=int))


def empty_sigmas(self):
    for name in ('BPM', 'Magnet', 'RF', 'Support'):
        setattr(self, name, DotDict())
    self.randomInjectionZ = np.zeros(6)
    self.staticInjectionZ = np.zeros(6)
    self.Circumference = 0.0


def repeated(ords, kwargs):
    return len(np.unique(ords)) != len(ords)


def not_two_rows(support_ords, support_type, kwargs):
    return support_ords.shape[0] != 2
