"""Conditions under which an option or argument is invalid (property C18)."""
import numpy as np
from pySC.utils import at_wrapper


def _bpms(SC, bpm_ords):
    return SC.ORD.BPM if bpm_ords is None else bpm_ords


def _cms(SC, cm_ords):
    return SC.ORD.CM if cm_ords is None else cm_ords


def rows(SC, response_matrix, bpm_ords):
    return response_matrix.shape[0] != 2 * len(_bpms(SC, bpm_ords)) * SC.INJ.nTurns


def columns(SC, response_matrix, cm_ords):
    c = _cms(SC, cm_ords)
    return response_matrix.shape[1] != len(c[0]) + len(c[1])


def reference_length(SC, response_matrix, reference):
    return reference.shape[0] != response_matrix.shape[0]


def not_two_turns(SC):
    return SC.INJ.nTurns != 2


def bba_shapes(bpm_ords, mag_ords):
    return bpm_ords.shape != mag_ords.shape


def not_tbt(SC):
    return SC.INJ.trackMode != 'TBT'


def is_tbt(SC):
    return SC.INJ.trackMode == 'TBT'


def few_turns(SC):
    return SC.INJ.nTurns < 3


def few_steps(n_steps):
    return n_steps < 6


def lengths(ords, setpoints):
    n, m = len(np.ravel(np.array([ords], dtype=int))), len(np.ravel(np.array([setpoints], dtype=float)))
    return m != 1 and m != n


def multipole_shape(BA):
    return BA.ndim != 2 or BA.shape[1] != 2


def amplitude_lengths(amp, cm_ords):
    if isinstance(amp, list):
        return len(amp[0]) != len(cm_ords[0]) or len(amp[1]) != len(cm_ords[1])
    return np.size(amp) != 1


def both_bunches(customBunch, nParticles):
    return customBunch is not None and nParticles is not None


# ---- relations that hold in every other respect
def columns_match(SC, response_matrix, cm_ords):
    c = _cms(SC, cm_ords)
    return ((response_matrix.shape[1], len(c[0]) + len(c[1])),)


def rows_match(SC, response_matrix, bpm_ords):
    return ((response_matrix.shape[0], 2 * len(_bpms(SC, bpm_ords)) * SC.INJ.nTurns),)


def two_turns(SC):
    return ((SC.INJ.nTurns, 2),)


def same_shapes(bpm_ords, mag_ords):
    return ((mag_ords.shape, bpm_ords.shape),)


def same_planes(bpm_ords, mag_ords):
    return ((mag_ords.shape[0], bpm_ords.shape[0]),)


def other_columns(bpm_ords, mag_ords):
    return mag_ords.shape[1] != bpm_ords.shape[1]


def tbt(SC):
    return ((SC.INJ.trackMode, 'TBT'),)


def enough_steps(n_steps):
    return ((n_steps, 15),)


def five_turns(SC):
    return ((SC.INJ.nTurns, 5),)


def first_plane_match(amp, cm_ords):
    return ((len(amp[0]), len(cm_ords[0])),)


def second_plane_match(amp, cm_ords):
    return ((len(amp[1]), len(cm_ords[1])),)


def other_first(amp, cm_ords):
    return len(amp[0]) != len(cm_ords[0]) and isinstance(amp, list)


def other_second(amp, cm_ords):
    return len(amp[1]) != len(cm_ords[1]) and isinstance(amp, list)


def more_setpoints(ords, setpoints):
    n, m = len(np.ravel(np.array([ords], dtype=int))), len(np.ravel(np.array([setpoints], dtype=float)))
    return m > n and m > 1


def few_setpoints(ords, setpoints):
    n, m = len(np.ravel(np.array([ords], dtype=int))), len(np.ravel(np.array([setpoints], dtype=float)))
    return m < n and m > 1


def table_of_vectors(BA):
    return BA.ndim != 2


def table_is_two_dimensional(BA):
    return ((BA.ndim, 2),)


def wide_table(BA):
    return BA.shape[1] != 2
