"""Reference behaviour of the field updates (properties C07, C11)."""
import numpy as np
from pySC.utils import classdef_tools, sc_tools
from pySC.utils.classdef_tools import add_padded
from pySC.core.classes import DotDict


def update_cavities(self, ords):
    for i in (self.ORD.RF if ords is None else ords):
        el = self.RING[i]
        el.Voltage = el.VoltageSetPoint * (1 + el.VoltageCalError) + el.VoltageOffset
        el.Frequency = el.FrequencySetPoint * (1 + el.FrequencyCalError) + el.FrequencyOffset
        el.TimeLag = el.TimeLagSetPoint * (1 + el.TimeLagCalError) + el.TimeLagOffset


def update_magnets(self, ords):
    for m in (self.ORD.Magnet if ords is None else ords):
        compose(self.RING[m], self.RING[m])
        if hasattr(self.RING[m], 'MasterOf'):
            for c in self.RING[m].MasterOf:
                compose(self.RING[m], self.RING[c])


def compose(master, el):
    main_a = add_padded(master.SetPointA, master.SetPointA * master.CalErrorA)
    main_b = add_padded(master.SetPointB, master.SetPointB * master.CalErrorB)
    a, b = main_a, main_b
    if hasattr(el, 'PolynomAOffset'):
        a = add_padded(a, el.PolynomAOffset)
    if hasattr(el, 'SysPolAFromA'):
        for n in el.SysPolAFromA.keys():
            a = add_padded(a, main_a[n] * el.SysPolAFromA[n])
    if hasattr(el, 'SysPolAFromB'):
        for n in el.SysPolAFromB.keys():
            a = add_padded(a, main_b[n] * el.SysPolAFromB[n])
    if hasattr(el, 'PolynomBOffset'):
        b = add_padded(b, el.PolynomBOffset)
    if hasattr(el, 'SysPolBFromA'):
        for n in el.SysPolBFromA.keys():
            b = add_padded(b, main_a[n] * el.SysPolBFromA[n])
    if hasattr(el, 'SysPolBFromB'):
        for n in el.SysPolBFromB.keys():
            b = add_padded(b, main_b[n] * el.SysPolBFromB[n])
    el.PolynomA = a
    el.PolynomB = b
    if hasattr(master, 'BendingAngleError'):
        el.PolynomB[0] += master.BendingAngleError * el.BendingAngle / el.Length
    if hasattr(master, 'BendingAngle'):
        if hasattr(master, 'CombinedFunction') and master.CombinedFunction:
            ratio = master.SetPointB[1] * (1 + master.CalErrorB[1]) / master.NomPolynomB[1]
            el.PolynomB[0] += (ratio * el.BendingAngle - el.BendingAngle) / el.Length
    if master.PassMethod == 'CorrectorPass':
        el.KickAngle = np.array([el.PolynomB[0], el.PolynomA[0]])
    el.MaxOrder = len(el.PolynomB) - 1


def set_systematic_multipole_errors(self, ords, BA, order, skewness):
    table = BA.copy()
    table[order, 1 if skewness else 0] = 0
    source = 'A' if skewness else 'B'
    for i in ords:
        el = self.RING[i]
        b = getattr(el, 'SysPolBFrom' + source) if hasattr(el, 'SysPolBFrom' + source) else DotDict()
        b[order] = table[:, 0]
        setattr(el, 'SysPolBFrom' + source, b)
        a = getattr(el, 'SysPolAFrom' + source) if hasattr(el, 'SysPolAFrom' + source) else DotDict()
        a[order] = table[:, 1]
        setattr(el, 'SysPolAFrom' + source, a)


def set_random_multipole_errors(self, ords, BA):
    for i in ords:
        el = self.RING[i]
        r = sc_tools.randnc(2, BA.shape) * BA
        el.PolynomBOffset = add_padded(el.PolynomBOffset, r[:, 0]) if hasattr(el, 'PolynomBOffset') else r[:, 0]
        el.PolynomAOffset = add_padded(el.PolynomAOffset, r[:, 1]) if hasattr(el, 'PolynomAOffset') else r[:, 1]
