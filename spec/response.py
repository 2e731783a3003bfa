"""Reference behaviour of the model responses (properties C07, C20)."""
import numpy as np
from pySC.utils import at_wrapper
from pySC.lattice_properties.response_model import SCgetModelRING


def track(ring, Z0, nTurns, ords, trackMode):
    if trackMode == 'ORB':
        return np.transpose(at_wrapper.findorbit6(ring, ords)[1])[[0, 1, 2, 3], :].reshape(4, 1, len(ords), 1)
    return at_wrapper.lattice_track(ring, Z0, nTurns, ords)


def both_planes(T):
    return np.concatenate((np.ravel(np.transpose(T[0, :, :, :], axes=(2, 1, 0))), np.ravel(np.transpose(T[2, :, :, :], axes=(2, 1, 0)))))


def SCgetModelRM(SC, BPMords, CMords, trackMode, Z0, nTurns, dkick, useIdealRing):
    if trackMode not in ('TBT', 'ORB'):
        raise ValueError
    ring = SC.IDEALRING.deepcopy() if useIdealRing else SCgetModelRING(SC)
    n = 1 if trackMode == 'ORB' else nTurns
    RM = np.full((2 * len(BPMords) * n, len(CMords[0]) + len(CMords[1])), np.nan)
    Ta = track(ring, Z0, n, BPMords, trackMode)
    if np.any(np.isnan(Ta)):
        raise ValueError
    col = 0
    for i in CMords[0]:
        el = ring[i]
        if el.PassMethod == 'CorrectorPass':
            kick = el.KickAngle[0]
            el.KickAngle[0] = kick + dkick
            T = track(ring, Z0, n, BPMords, trackMode)
            el.KickAngle[0] = kick
        else:
            nominal = el.PolynomB
            new = nominal.copy()
            new[0] -= dkick / el.Length
            el.PolynomB = new
            T = track(ring, Z0, n, BPMords, trackMode)
            el.PolynomB = nominal
        RM[:, col] = both_planes((T - Ta) / dkick)
        col += 1
    for i in CMords[1]:
        el = ring[i]
        if el.PassMethod == 'CorrectorPass':
            kick = el.KickAngle[1]
            el.KickAngle[1] = kick + dkick
            T = track(ring, Z0, n, BPMords, trackMode)
            el.KickAngle[1] = kick
        else:
            nominal = el.PolynomA
            new = nominal.copy()
            new[0] += dkick / el.Length
            el.PolynomA = new
            T = track(ring, Z0, n, BPMords, trackMode)
            el.PolynomA = nominal
        RM[:, col] = both_planes((T - Ta) / dkick)
        col += 1
    return RM


def SCgetModelDispersion(SC, BPMords, CAVords, trackMode, Z0, nTurns, rfStep, useIdealRing):
    if trackMode not in ('TBT', 'ORB'):
        raise ValueError
    ring = SC.IDEALRING.deepcopy() if useIdealRing else SCgetModelRING(SC)
    n = 1 if trackMode == 'ORB' else nTurns
    Ta = track(ring, Z0, n, BPMords, trackMode)
    if np.any(np.isnan(Ta)):
        raise ValueError
    for i in CAVords:
        ring[i].Frequency = ring[i].Frequency + rfStep
    T = track(ring, Z0, n, BPMords, trackMode)
    return both_planes((T - Ta) / rfStep)


def model_ring(SC, includeAperture):
    ring = SC.IDEALRING.deepcopy()
    for i in range(len(SC.RING)):
        real = SC.RING[i]
        if hasattr(real, 'SetPointA') and hasattr(real, 'SetPointB'):
            a, b = real.SetPointA.copy(), real.SetPointB.copy()
            a[0] = 0.0
            b[0] = 0.0
            ring[i].PolynomA = a
            ring[i].PolynomB = b
        if includeAperture:
            if hasattr(real, 'EApertures'):
                ring[i].EApertures = real.EApertures
            if hasattr(real, 'RApertures'):
                ring[i].RApertures = real.RApertures
        if len(SC.ORD.RF) and hasattr(real, 'Frequency'):
            ring[i].Voltage = real.VoltageSetPoint
            ring[i].Frequency = real.FrequencySetPoint
            ring[i].TimeLag = real.TimeLagSetPoint
    return ring
