"""Reference behaviour of the setters (properties C05, C06, C07)."""
import numpy as np
from pySC.utils import classdef_tools


def set_cm_setpoints(self, ords, setpoints, skewness, method):
    o, sp = classdef_tools.check_input_and_setpoints(method, ords, setpoints)
    for i in range(len(o)):
        el = self.RING[o[i]]
        # kick = factor * strength; horizontal: -length * B0, vertical: +length * A0, thin: the kick itself
        factor = 1 if el.PassMethod == 'CorrectorPass' else (el.Length if skewness else -el.Length)
        stored = el.SetPointA if skewness else el.SetPointB
        limit_of = 1 if skewness else 0
        present = stored[0] * factor
        kick = sp[i] if method == 'abs' else (sp[i] * present if method == 'rel' else sp[i] + present)
        if hasattr(el, 'CMlimit'):
            limit = abs(el.CMlimit[limit_of])
            kick = min(max(kick, -limit), limit)
        stored[0] = kick / factor
    self.update_magnets(o)


def get_cm_setpoints(self, ords, skewness):
    o = np.ravel(np.array([ords], dtype=int))
    return [kick_of(self.RING[i], skewness) for i in o]


def kick_of(el, skewness):
    strength = el.SetPointA[0] if skewness else el.SetPointB[0]
    if el.PassMethod == 'CorrectorPass':
        return strength
    return strength * el.Length if skewness else -strength * el.Length


def set_magnet_setpoints(self, ords, setpoints, skewness, order, method, dipole_compensation):
    o, sp = classdef_tools.check_input_and_setpoints(method, ords, setpoints)
    for i in range(len(o)):
        el = self.RING[o[i]]
        stored = el.SetPointA if skewness else el.SetPointB
        design = el.NomPolynomA if skewness else el.NomPolynomB
        strength = sp[i] if method == 'abs' else (sp[i] * design[order] if method == 'rel' else sp[i] + stored[order])
        if skewness and order == 1 and hasattr(el, 'SkewQuadLimit'):
            strength = min(max(strength, -el.SkewQuadLimit), el.SkewQuadLimit)
        if dipole_compensation and order == 1:
            if getattr(el, 'BendingAngle', 0) != 0 and o[i] in self.ORD.HCM:
                # the horizontal corrector takes up the change of the bending angle
                self.set_cm_setpoints(o[i], (strength - el.SetPointB[1]) / el.NomPolynomB[1] * el.BendingAngle,
                                      skewness=False, method='add')
        stored[order] = strength
    self.update_magnets(o)


def set_cavity_setpoints(self, ords, setpoints, param, method):
    o, sp = classdef_tools.check_input_and_setpoints(method, ords, setpoints)
    for i in range(len(o)):
        el = self.RING[o[i]]
        present = getattr(el, param + 'SetPoint')
        setattr(el, param + 'SetPoint', sp[i] if method == 'abs' else (sp[i] * present if method == 'rel' else sp[i] + present))
    self.update_cavities(o)


def check_input_and_setpoints(method, ords, setpoints):
    if method not in ('abs', 'rel', 'add'):
        raise ValueError
    o = np.ravel(np.array([ords], dtype=int))
    s = np.ravel(np.array([setpoints], dtype=float))
    if len(s) != 1 and len(s) != len(o):
        raise ValueError
    return o, np.repeat(s, len(o)) if len(s) == 1 else s
