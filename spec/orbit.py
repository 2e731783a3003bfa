"""Reference definitions: when the trajectory corrections may return."""
import numpy as np
from pySC.core.beam import bpm_reading
from pySC.utils import sc_tools

REPEATS = 5


def normalised(SC, response_matrix, reference, bpm_ords, cm_ords):
    bpms = SC.ORD.BPM.copy() if bpm_ords is None else bpm_ords
    cms = SC.ORD.CM.copy() if cm_ords is None else cm_ords
    if response_matrix.shape[0] != 2 * len(bpms) * SC.INJ.nTurns:
        raise ValueError
    if response_matrix.shape[1] != len(cms[0]) + len(cms[1]):
        raise ValueError
    if reference is None:
        reference = np.zeros((response_matrix.shape[0], 1))
    elif reference.shape[0] != response_matrix.shape[0]:
        raise ValueError
    return bpms, cms, reference


def reading(SC, bpms, reached=None, spread=None):
    r = bpm_reading(SC, bpm_ords=bpms)[0]
    seen = ~np.isnan(r[0])
    if reached is None:
        reached, spread = [], []
    reached.append(np.sum(seen))
    spread.append(np.sqrt(np.mean(np.square(r[:, seen]), axis=1)))
    return r, reached, spread


def repeated(values, n):
    if len(values) < n:
        return False
    return np.max(np.abs(np.array(values[-n:]) - values[-1])) == 0


def stable(values, n, eps):
    if len(values) < n:
        return False
    return np.var(values[-n:]) / np.std(values[-n:]) < eps


def kick(SC, cms, dphi):
    SC.set_cm_setpoints(cms[0], -dphi[:len(cms[0])], skewness=False, method='add')
    SC.set_cm_setpoints(cms[1], -dphi[len(cms[0]):], skewness=True, method='add')


def last_cms(last_bpm, n, bpms, cms):
    if last_bpm >= len(bpms):
        return cms[-n:], range(len(cms) - n, len(cms))
    before = np.where(cms <= bpms[last_bpm])[0]
    if len(cms[before]) == 0:
        raise RuntimeError
    return cms[before[-n:]], before[-n:]


def first_turn(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, maxsteps=100, **pinv_params):
    bpms, cms, reference = normalised(SC, response_matrix, reference, bpm_ords, cm_ords)
    r, reached, spread = reading(SC, bpms)
    inverse = sc_tools.pinv(response_matrix, **pinv_params)
    for n in range(maxsteps):
        if reached[-1] == 0:
            raise RuntimeError
        m = r[:, :].reshape(reference.shape)
        m[np.isnan(m)] = 0
        dphi = np.dot(inverse, m - reference)
        h = last_cms(reached[-1] - 1, 1, bpms, cms[0])[1][0]
        v = last_cms(reached[-1] - 1, 1, bpms, cms[1])[1][0]
        SC.set_cm_setpoints(cms[0][:h + 1], -dphi[:h + 1], skewness=False, method='add')
        SC.set_cm_setpoints(cms[1][:v + 1], -dphi[len(cms[0]):len(cms[0]) + v + 1], skewness=True, method='add')
        r, reached, spread = reading(SC, bpms, reached, spread)
        if repeated(reached, REPEATS) and reached[-1] == r.shape[1]:
            return SC
        if repeated(reached, 20):
            SC = wiggling(SC, bpms, cms, reached[-1] + 1)
    raise RuntimeError


def stitch(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, n_bpms=4, maxsteps=30, **pinv_params):
    if SC.INJ.nTurns != 2:
        raise ValueError
    bpms, cms, reference = normalised(SC, response_matrix, reference, bpm_ords, cm_ords)
    r, reached, spread = reading(SC, bpms)
    limit = len(bpms) + n_bpms
    if reached[-1] < len(bpms):
        raise RuntimeError
    if reached[-1] < limit:
        SC = wiggling(SC, bpms, cms, limit)
        r, reached, spread = reading(SC, bpms, reached, spread)
        if reached[-1] < limit:
            raise RuntimeError
    goal = reference.reshape(2, len(r[0])).copy()
    goal[:, len(bpms):] = 0
    goal = goal.reshape(response_matrix.shape[0])
    inverse = sc_tools.pinv(response_matrix, **pinv_params)
    for n in range(maxsteps):
        step = np.zeros((2, len(bpms)))
        step[0][:n_bpms] = r[0][len(bpms):len(bpms) + n_bpms] - r[0][:n_bpms]
        step[1][:n_bpms] = r[1][len(bpms):len(bpms) + n_bpms] - r[1][:n_bpms]
        m = np.concatenate((r[:, :len(bpms)], step), axis=1).ravel()
        m[np.isnan(m)] = 0
        kick(SC, cms, np.dot(inverse, m - goal))
        r, reached, spread = reading(SC, bpms, reached, spread)
        if reached[-1] < reached[-2]:
            raise RuntimeError
        if repeated(reached, REPEATS) and reached[-1] == r.shape[1]:
            return SC
    raise RuntimeError


def balance(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, eps=1e-4, maxsteps=10, **pinv_params):
    if SC.INJ.nTurns != 2:
        raise ValueError
    bpms, cms, reference = normalised(SC, response_matrix, reference, bpm_ords, cm_ords)
    r, reached, spread = reading(SC, bpms)
    if reached[-1] < r.shape[1]:
        raise ValueError
    goal = reference.reshape(2, len(r[0])).copy()
    goal[:, len(bpms):] = 0
    goal = goal.reshape(response_matrix.shape[0])
    inverse = sc_tools.pinv(response_matrix, **pinv_params)
    for n in range(maxsteps):
        step = [r[0][len(bpms):] - r[0][:len(bpms)], r[1][len(bpms):] - r[1][:len(bpms)]]
        m = np.concatenate((r[:, :len(bpms)], step), axis=1).ravel()
        kick(SC, cms, np.dot(inverse, m - goal))
        r, reached, spread = reading(SC, bpms, reached, spread)
        if reached[-1] < r.shape[1]:
            raise RuntimeError
        if stable(spread, REPEATS, eps):
            return SC
    raise RuntimeError


def correct(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, eps=1e-4, target=0, maxsteps=30, scaleDisp=0, **pinv_params):
    bpms, cms, reference = normalised(SC, response_matrix[:, :-1] if scaleDisp else response_matrix, reference, bpm_ords, cm_ords)
    r, reached, spread = reading(SC, bpms)
    inverse = sc_tools.pinv(response_matrix, **pinv_params)
    for n in range(maxsteps):
        m = r[:, :].reshape(reference.shape)
        dphi = np.dot(inverse, m - reference)
        if scaleDisp != 0:
            SC.set_cavity_setpoints(SC.ORD.RF, -scaleDisp * dphi[-1], 'Frequency', method='add')
            dphi = dphi[:-1]
        kick(SC, cms, dphi)
        r, reached, spread = reading(SC, bpms, reached, spread)
        if np.any(np.isnan(r[0, :])):
            raise RuntimeError
        if max(spread[-1]) < target and stable(spread, min(REPEATS, maxsteps), eps):
            return SC
        if stable(spread, REPEATS, eps):
            return SC
    if stable(spread, min(REPEATS, maxsteps), eps) or maxsteps == 1:
        return SC
    raise RuntimeError


def donut(r0, r1, n):
    i = np.arange(n)
    phi = 2 * np.pi / ((1 + np.sqrt(5)) / 2)
    pos = np.sqrt(r0 ** 2 + (r1 ** 2 - r0 ** 2) * i / (n - 1)) * np.vstack((np.cos(i * phi), np.sin(i * phi)))
    return np.diff(np.hstack((np.zeros((2, 1)), pos)), axis=1)


def wiggling(SC, bpm_ords, cm_ords, transmission_limit, nums_correctors=range(1, 9)):
    points = donut(500e-6, 1000e-6, 32)
    r, reached, spread = reading(SC, bpm_ords)
    for n in nums_correctors:
        h = last_cms(reached[-1] - 1, n, bpm_ords, cm_ords[0])[0]
        v = last_cms(reached[-1] - 1, n, bpm_ords, cm_ords[1])[0]
        for i in range(points.shape[1]):
            SC.set_cm_setpoints(h, points[0, i], skewness=False, method='add')
            SC.set_cm_setpoints(v, points[1, i], skewness=True, method='add')
            r, reached, spread = reading(SC, bpm_ords, reached, spread)
            if reached[-1] >= transmission_limit:
                for _ in range(2):
                    r, reached, spread = reading(SC, bpm_ords, reached, spread)
                if repeated(reached, REPEATS):
                    return SC
    if not reached[-1] >= transmission_limit:
        raise RuntimeError
    return SC
