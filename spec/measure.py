"""Reference definitions: measured responses, beam-based alignment results, ramped errors."""
import numpy as np
from pySC.core.beam import bpm_reading
from pySC.core.constants import SUPPORT_TYPES, RF_PROPERTIES
from pySC.correction import orbit_trajectory
from pySC.correction.ramp_errors import SCrampUpErrors
from pySC.lattice_properties.response_model import SCgetModelRM
from pySC.utils import at_wrapper, sc_tools


# ------------------------------------------------------------------ responses
def kick_step(SC, before, bpm_ords, ord, amp, skewness, mode):
    start = SC.get_cm_setpoints(ord, skewness)
    step = amp
    tries, factor = dict(fixedOffset=(4, 0.5), fixedKick=(20, 0.9))[mode]
    for n in range(tries):
        SC.set_cm_setpoints(ord, start + step, skewness)
        if SC.get_cm_setpoints(ord, skewness) != start + step:
            step = step * -1
            SC.set_cm_setpoints(ord, start + step, skewness)
        r = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0])
        if np.sum(~np.isnan(before)) / 2 <= np.sum(~np.isnan(r)) / 2:
            if mode == "fixedOffset":
                step = step * amp / np.nanmax(np.abs(r - before))
            else:
                break
        else:
            step = step * factor
    made = (SC.get_cm_setpoints(ord, skewness) - start)[0]
    return made, np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - before


def response(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit_order=1):
    if not isinstance(amp, list) and np.size(amp) != 1 or isinstance(amp, list) and (len(amp[0]) != len(cm_ords[0]) or len(amp[1]) != len(cm_ords[1])):
        raise ValueError
    if not isinstance(amp, list):
        amp = [np.ones(len(cm_ords[0])) * amp, np.ones(len(cm_ords[1])) * amp]
    nh, nv = cm_ords[0].shape[0], cm_ords[1].shape[0]
    rm = np.full((2 * SC.INJ.nTurns * bpm_ords.shape[0], nh + nv), np.nan)
    error = np.full((2 * SC.INJ.nTurns * bpm_ords.shape[0], nh + nv), np.nan)
    steps = [np.zeros((n_steps, nh)), np.zeros((n_steps, nv))]
    before = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0])
    if SC.INJ.trackMode == 'ORB' and np.sum(np.isnan(before)):
        raise ValueError
    column = 0
    for plane in range(2):
        start = SC.get_cm_setpoints(cm_ords[plane], bool(plane))
        for k in range(len(cm_ords[plane])):
            step, change = kick_step(SC, before, bpm_ords, cm_ords[plane][k], amp[plane][k], bool(plane), mode)
            vector = np.linspace(-step, step, n_steps)
            if n_steps == 2:
                steps[plane][:, k] = step
                rm[:, column] = change / step
            else:
                setpoint = start[k] + vector
                change = np.vstack((np.zeros((n_steps - 1, len(before))), change.T))
                for n in range(n_steps):
                    if vector[n] != 0 and vector[n] != step:
                        SC.set_cm_setpoints(cm_ords[plane][k], start[k] + vector[n], skewness=bool(plane))
                        setpoint[n] = SC.get_cm_setpoints(cm_ords[plane][k], skewness=bool(plane))
                        change[n, :] = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - before
                made = setpoint - start[k]
                steps[plane][:, k] = made
                for b in range(change.shape[1]):
                    x = made[~np.isnan(change[:, b])]
                    y = change[~np.isnan(change[:, b]), b]
                    rm[b, column] = np.polyfit(x, y, fit_order)[fit_order - 1]
                    error[b, column] = np.sqrt(np.mean((rm[b, column] * x - y).T ** 2))
            column = column + 1
            SC.set_cm_setpoints(cm_ords[plane][k], start[k], skewness=bool(plane))
    rm[np.isnan(rm)] = 0
    return rm, error, steps


def dispersion(SC, rf_step, bpm_ords=None, cav_ords=None, n_steps=2):
    bpm_ords = SC.ORD.BPM if bpm_ords is None else bpm_ords
    cav_ords = SC.ORD.RF if cav_ords is None else cav_ords
    before = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0])
    if n_steps == 2:
        SC.set_cavity_setpoints(cav_ords, rf_step, 'Frequency', 'add')
        after = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0])
        SC.set_cavity_setpoints(cav_ords, -rf_step, 'Frequency', 'add')
        return (after - before) / rf_step
    setpoints = np.zeros((len(cav_ords), n_steps))
    for i, ord in enumerate(cav_ords):
        setpoints[i, :] = SC.RING[ord].FrequencySetPoint + np.linspace(-rf_step, rf_step, n_steps)
    change = np.zeros((n_steps, *np.shape(before)))
    start = at_wrapper.atgetfieldvalues(SC.RING, cav_ords, "FrequencySetPoint")
    for n in range(n_steps):
        SC.set_cavity_setpoints(cav_ords, setpoints[:, n], 'Frequency', 'abs')
        change[n, :] = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - before
    SC.set_cavity_setpoints(cav_ords, start, 'Frequency', 'abs')
    return np.linalg.lstsq(np.linspace(-rf_step, rf_step, n_steps)[:, np.newaxis], change, rcond=None)[0][0]


def orbit_response(SC, bpm_ords, cm_ords, dkick=1e-5):
    rm = np.full((2 * len(bpm_ords), len(cm_ords[0]) + len(cm_ords[1])), np.nan)
    mode, turns, particles = SC.INJ.trackMode, SC.INJ.nTurns, SC.INJ.nParticles
    SC.INJ.trackMode = 'ORB'
    before = bpm_reading(SC, bpm_ords=bpm_ords)[0]
    column = 0
    for plane in range(2):
        for ord in cm_ords[plane]:
            start = SC.get_cm_setpoints(ord, skewness=bool(plane))
            SC.set_cm_setpoints(ord, dkick, skewness=bool(plane), method='add')
            made = SC.get_cm_setpoints(ord, skewness=bool(plane)) - start
            after = bpm_reading(SC, bpm_ords=bpm_ords)[0]
            SC.set_cm_setpoints(ord, start, skewness=bool(plane))
            rm[:, column] = np.ravel((after - before) / made)
            column = column + 1
    SC.INJ.trackMode, SC.INJ.nTurns, SC.INJ.nParticles = mode, turns, particles
    return rm


# ------------------------------------------------------------------ beam-based alignment
def untrusted(bba_offsets, bba_offset_errors):
    return np.logical_or(np.logical_or(np.isnan(bba_offsets), np.abs(bba_offsets) > 1.5e-3), np.abs(bba_offsets) < 2.5 * bba_offset_errors)


def apply_offsets(SC, bpm_ords, bba_offsets, bba_offset_errors):
    bad = untrusted(bba_offsets, bba_offset_errors)
    for at in np.argwhere(~bad):
        SC.RING[bpm_ords[at[0], at[1]]].Offset[at[0]] += bba_offsets[at[0], at[1]]
    return SC


def distance_to_magnet(ring, bpm_ords, mag_ords):
    d = np.full(bpm_ords.shape, np.nan)
    for plane in range(bpm_ords.shape[0]):
        d[plane, :] = at_wrapper.atgetfieldvalues(ring, bpm_ords[plane, :], 'Offset', plane) \
            + at_wrapper.atgetfieldvalues(ring, bpm_ords[plane, :], 'SupportOffset', plane) \
            - at_wrapper.atgetfieldvalues(ring, mag_ords[plane, :], 'MagnetOffset', plane) \
            - at_wrapper.atgetfieldvalues(ring, mag_ords[plane, :], 'SupportOffset', plane)
    return d


def fake(SC, bpm_ords, mag_ords, errors=None, fake_offset=None):
    if errors is None and fake_offset is None:
        raise ValueError
    if errors is None:
        errors = np.ones(bpm_ords.shape, dtype=bool)
    if fake_offset is None:
        d = distance_to_magnet(SC.RING, bpm_ords, mag_ords)
        d[errors != 0] = np.nan
        fake_offset = np.sqrt(np.nanmean(d ** 2, axis=1))
    for at in np.argwhere(errors):
        bpm, mag = SC.RING[bpm_ords[at[0], at[1]]], SC.RING[mag_ords[at[0], at[1]]]
        new = mag.MagnetOffset[at[0]] + mag.SupportOffset[at[0]] - bpm.SupportOffset[at[0]] + fake_offset[at[0]] * sc_tools.randnc(2, ())
        if not np.isnan(new):
            bpm.Offset[at[0]] = new
    return SC


# ------------------------------------------------------------------ ramping
def scale_supports(SC, SC0, fields, scale):
    for type in SUPPORT_TYPES:
        if type in SC.ORD:
            for pair in SC.ORD[type].T:
                for field in fields:
                    for end in range(2):
                        if hasattr(SC.RING[pair[end]], f'{type}{field}'):
                            setattr(SC.RING[pair[end]], f'{type}{field}', scale * getattr(SC0.RING[pair[end]], f'{type}{field}'))
    return SC


def scale_magnets(SC, SC0, fields, scale):
    for ord in SC.ORD.Magnet:
        for field in fields:
            if hasattr(SC.RING[ord], field):
                setattr(SC.RING[ord], field, scale * getattr(SC0.RING[ord], field))
    SC.update_supports()
    SC.update_magnets()
    return SC


def scale_bpms(SC, SC0, fields, scale):
    for ord in SC.ORD.BPM:
        for field in fields:
            if hasattr(SC.RING[ord], field):
                setattr(SC.RING[ord], field, scale * getattr(SC0.RING[ord], field))
    return SC


def scale_rf(SC, SC0, fields, scale):
    for type in RF_PROPERTIES:
        for field in fields:
            for ord in SC.ORD.RF:
                setattr(SC.RING[ord], f'{type}{field}', scale * getattr(SC0.RING[ord], f'{type}{field}'))
    SC.update_cavities()
    return SC


def scale_injection(SC, SC0, scale):
    SC.INJ.Z0 = SC0.INJ.Z0ideal + scale * (SC0.INJ.Z0 - SC0.INJ.Z0ideal)
    SC.INJ.randomInjectionZ = scale * SC0.INJ.randomInjectionZ
    SC.INJ.beamSize = scale * SC0.INJ.beamSize
    return SC


def scale_circumference(SC, SC0, scale):
    now, ideal = 0, 0
    for i in range(len(SC0.RING)):
        now += SC0.RING[i].Length
        ideal += SC0.IDEALRING[i].Length
    SC.RING = sc_tools.scale_circumference(SC.RING, scale * (now - ideal) + ideal, 'abs')
    return SC


def ramp(SC, nStepsRamp=10, eps=1e-5, target=0, alpha=10, maxsteps=30):
    full = SC.very_deep_copy()
    M = SCgetModelRM(SC, SC.ORD.BPM, SC.ORD.CM, nTurns=SC.INJ.nTurns, trackMode=SC.INJ.trackMode)
    for scale in np.linspace(1 / nStepsRamp, 1, nStepsRamp):
        SC = scale_supports(SC, full, ['Roll', 'Offset'], scale)
        SC = scale_magnets(SC, full, ['CalErrorB', 'CalErrorA', 'PolynomAOffset', 'PolynomBOffset', 'MagnetOffset', 'MagnetRoll'], scale)
        SC = scale_bpms(SC, full, ['Noise', 'NoiseCO', 'Offset', 'SupportOffset', 'Roll', 'SupportRoll', 'CalError'], scale)
        SC = scale_rf(SC, full, ['Offset', 'CalError'], scale)
        SC = scale_injection(SC, full, scale)
        SC = scale_circumference(SC, full, scale)
        try:
            SC = orbit_trajectory.correct(SC, M, alpha=alpha, target=target, maxsteps=maxsteps, eps=eps)
        except RuntimeError:
            if 2 * nStepsRamp > 100:
                raise Exception
            return SCrampUpErrors(full, nStepsRamp=2 * nStepsRamp, eps=eps, target=target, alpha=alpha, maxsteps=maxsteps)
    return SC


# ------------------------------------------------------------------ LOCO
def included(which, lengths):
    quads, cors, bpms = lengths
    mask = np.zeros(quads + cors + bpms, dtype=bool)
    mask[:quads] = 'quads' in which
    mask[quads:quads + cors] = 'cor' in which
    mask[quads + cors:] = 'bpm' in which
    return mask
