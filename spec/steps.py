"""Reference definitions: what each correction measures and applies."""
import numpy as np
from scipy.optimize import curve_fit, fmin, fsolve
from pySC.core.beam import bpm_reading
from pySC.core.constants import SPEED_OF_LIGHT
from pySC.utils import at_wrapper
from pySC.utils.at_wrapper import atlinopt


# ------------------------------------------------------------------ RF
def cavities_and_bpms(SC, cav_ords, bpm_ords, n_steps):
    cav_ords = SC.ORD.RF if cav_ords is None else cav_ords
    bpm_ords = SC.ORD.BPM if bpm_ords is None else bpm_ords
    if SC.INJ.nTurns < 3 or SC.INJ.trackMode != 'TBT' or n_steps < 6:
        raise ValueError
    for ord in cav_ords:
        if not hasattr(SC.RING[ord], 'Frequency'):
            raise ValueError
        if SC.RING[ord].PassMethod not in ('CavityPass', 'RFCavityPass'):
            raise ValueError
    return cav_ords, bpm_ords


def drift_per_turn(SC, bpm_ords):
    """Slope over turns of the mean horizontal shift with respect to the first turn, and its error."""
    x = np.reshape(bpm_reading(SC, bpm_ords)[0][0, :], (SC.INJ.nTurns, len(bpm_ords)))
    mean = np.mean(x - x[0, :], axis=1)
    error = np.std(x, axis=1) / np.sqrt(x.shape[1])
    seen = ~np.isnan(mean)
    if np.sum(seen) < 3:
        return np.nan, np.nan
    fit = np.polyfit(np.arange(SC.INJ.nTurns)[seen], mean[seen], 1, w=1 / (error[seen] + 1E-9), cov='unscaled')
    return fit[0][0], np.sqrt(fit[1][0, 0])


def scan(SC, cav_ords, bpm_ords, steps, field, least):
    shift = np.full(len(steps), np.nan)
    error = np.full(len(steps), np.nan)
    return shift, error


def fold(value, period):
    r = np.remainder(value, period)
    if np.abs(r) > period / 2:
        return r - period * np.sign(r)
    return r


def rf_phase(SC, cav_ords=None, bpm_ords=None, n_steps=15, plot_results=False, plot_progress=False):
    def sine(x, a, b, c):
        return a * np.sin(2 * np.pi * x + b) + c

    cav_ords, bpm_ords = cavities_and_bpms(SC, cav_ords, bpm_ords, n_steps)
    period = SPEED_OF_LIGHT / SC.RING[cav_ords[0]].FrequencySetPoint
    shift, error = np.full(n_steps, np.nan), np.full(n_steps, np.nan)
    steps = period * np.linspace(-0.5, 0.5, n_steps)
    for i in range(n_steps):
        SC.set_cavity_setpoints(cav_ords, steps[i], 'TimeLag', 'add')
        shift[i], error[i] = drift_per_turn(SC, bpm_ords)
        SC.set_cavity_setpoints(cav_ords, -steps[i], 'TimeLag', 'add')
    seen = ~np.isnan(shift)
    if np.sum(seen) < 6:
        raise RuntimeError
    steps, shift, error = steps[seen], shift[seen], error[seen]
    p, cov = curve_fit(sine, steps / period, shift, sigma=error, absolute_sigma=True,
                       p0=np.array([max(shift) - np.mean(shift), np.pi, np.mean(shift)]))
    if np.abs(p[2]) > np.abs(p[0]):
        raise RuntimeError
    fit = lambda x: sine(x / period, p[0], p[1], p[2])
    change = fold(fsolve(fit, steps[np.argmax(fit(steps))] - abs(steps[0]) / 2)[0], period)
    if np.abs(p[0]) < 2 * np.sqrt(cov[0, 0]) or np.abs(p[2]) < 2 * np.sqrt(cov[2, 2]):
        change = 0.0
    if np.isnan(change):
        raise RuntimeError
    SC.set_cavity_setpoints(cav_ords, change, 'TimeLag', 'add')
    return SC


def rf_frequency(SC, cav_ords=None, bpm_ords=None, n_steps=15, f_range=(-1E3, 1E3), plot_results=False, plot_progress=False):
    cav_ords, bpm_ords = cavities_and_bpms(SC, cav_ords, bpm_ords, n_steps)
    shift, error = np.full(n_steps, np.nan), np.full(n_steps, np.nan)
    steps = np.linspace(f_range[0], f_range[1], n_steps)
    for i in range(n_steps):
        SC.set_cavity_setpoints(cav_ords, steps[i], 'Frequency', 'add')
        shift[i], error[i] = drift_per_turn(SC, bpm_ords)
        SC.set_cavity_setpoints(cav_ords, -steps[i], 'Frequency', 'add')
    seen = ~np.isnan(shift)
    if np.sum(seen) < 3:
        raise RuntimeError
    steps, shift, error = steps[seen], shift[seen], error[seen]
    p, cov = np.polyfit(steps, shift, 1, w=1 / error, cov='unscaled')
    change = -p[1] / p[0]
    if np.abs(p[0]) < 2 * np.sqrt(cov[0, 0]) or np.abs(p[1]) < 2 * np.sqrt(cov[1, 1]):
        change = 0.0
    if np.isnan(change):
        raise RuntimeError
    SC.set_cavity_setpoints(cav_ords, change, 'Frequency', 'add')
    return SC


# ------------------------------------------------------------------ injection
def injection_drift(SC, n_dims=np.array([0, 1]), plot=False):
    s = at_wrapper.findspos(SC.RING)
    pair = np.arange(2, dtype=int) + len(SC.ORD.BPM) - 1
    readings = bpm_reading(SC)[0][:, pair]
    at_bpm = np.array([s[SC.ORD.BPM[-1]] - s[-1], s[SC.ORD.BPM[0]]])
    line = np.polyfit(at_bpm, readings.T, 1)
    change = np.zeros(6)
    change[0:4] -= np.ravel(np.roll(line.T, 1, axis=1))
    if np.sum(np.isnan(change)):
        raise RuntimeError
    return change


def deviation(x, SC, readings, ords):
    t = at_wrapper.lattice_track(SC.IDEALRING, np.concatenate((x, np.zeros(2))), 1, ords, keep_lattice=False)
    return np.sqrt(np.mean((readings - t[[0, 2], 0, :, 0]) ** 2))


def injection_trajectory(SC, bpm_inds=np.array([0, 1, 2]), plot=False):
    readings = bpm_reading(SC)[0][:, bpm_inds]
    change = np.zeros(6)
    change[0:4] = -fmin(deviation, np.zeros(4), args=(SC, readings, SC.ORD.BPM[bpm_inds]))
    if np.sum(np.isnan(change)):
        raise RuntimeError
    SC.INJ.Z0 += change
    return change


# ------------------------------------------------------------------ tune and chromaticity
def tunes(SC, fit_integer=False, ideal=False):
    ring = SC.IDEALRING if ideal else SC.RING
    if fit_integer:
        data = atlinopt(ring, refpts=range(len(ring) + 1))[2]
        return data[-1].mu[0:2] / 2 / np.pi
    return atlinopt(ring)[1].tune[0:2]


def fit_tune(SC, q_ords, target_tune=None, xtol=1E-4, ftol=1E-3, fit_integer=True):
    if target_tune is None:
        target_tune = tunes(SC, fit_integer, ideal=True)
    start = np.zeros((len(q_ords), len(q_ords[0])))
    for i in range(len(q_ords)):
        for j in range(len(q_ords[i])):
            start[i][j] = SC.RING[q_ords[i][j]].SetPointB[1]

    def merit(x):
        SC.set_magnet_setpoints(q_ords, x[:, np.newaxis] + start, False, 1, method='abs', dipole_compensation=True)
        return np.sqrt(np.mean((tunes(SC, fit_integer) - target_tune) ** 2))

    best = fmin(merit, np.zeros(len(q_ords)), xtol=xtol, ftol=ftol)
    SC.set_magnet_setpoints(q_ords, best[:, np.newaxis] + start, False, 1, method='abs', dipole_compensation=True)
    return SC


def fit_chroma(SC, s_ords, target_chroma=None, init_step_size=np.array([2, 2]), xtol=1E-4, ftol=1E-3):
    if target_chroma is None:
        target_chroma = SC.IDEALRING.get_chrom()[0:2]
    if np.sum(np.isnan(target_chroma)):
        return SC
    start = []
    for i in range(len(s_ords)):
        start.append(np.zeros(len(s_ords[i])))
    for i in range(len(s_ords)):
        for j in range(len(s_ords[i])):
            start[i][j] = SC.RING[s_ords[i][j]].SetPointB[2]

    def merit(x):
        for i in range(len(s_ords)):
            SC.set_magnet_setpoints(s_ords[i], x[i] + start[i], False, 2, method='abs', dipole_compensation=True)
        return np.sqrt(np.mean((SC.RING.get_chrom()[0:2] - target_chroma) ** 2))

    best = fmin(merit, init_step_size, xtol=xtol, ftol=ftol)
    for i in range(len(s_ords)):
        SC.set_magnet_setpoints(s_ords[i], best[i] + start[i], False, 2, method='abs', dipole_compensation=True)
    return SC


# ------------------------------------------------------------------ LOCO
def loco_set(SC, r, elem_ind, individuals=True, skewness=False, order=1, method='add', dipole_compensation=True):
    if individuals:
        SC.set_magnet_setpoints(elem_ind, -r, skewness, order, method, dipole_compensation=dipole_compensation)
        return SC
    for i, family in enumerate(elem_ind):
        SC.set_magnet_setpoints(family, -r[i], skewness, order, method, dipole_compensation=dipole_compensation)
    return SC
