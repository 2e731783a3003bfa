"""Reference behaviour of beam readings and bunches (properties C13, C14)."""
import numpy as np
from pySC.utils import at_wrapper, sc_tools


def bpm_reading(SC, bpm_ords, calculate_errors):
    if bpm_ords is None:
        bpms = np.arange(len(SC.ORD.BPM), dtype=int)
    else:
        bpms = np.where(np.isin(SC.ORD.BPM, bpm_ords))[0]
        if not len(bpms):
            raise ValueError
    orbits = np.full((2, len(bpms), SC.INJ.nTurns, SC.INJ.nShots), np.nan)
    sums = np.full((2, len(bpms), SC.INJ.nTurns, SC.INJ.nShots), np.nan)
    for shot in range(SC.INJ.nShots):
        orbits[:, :, :, shot], sums[:, :, :, shot] = one_shot(SC, tracked(SC, SC.ORD.BPM[bpms]), SC.ORD.BPM[bpms])
    mean = np.ma.average(np.ma.array(orbits, mask=np.isnan(orbits)), weights=np.ma.array(sums, mask=np.isnan(sums)), axis=3).filled(np.nan)
    total = np.nansum(sums, axis=3) / SC.INJ.nShots
    if SC.INJ.trackMode == 'PORB':
        mean = np.average(np.ma.array(mean, mask=np.isnan(mean)), weights=np.ma.array(total, mask=np.isnan(total)), axis=2, keepdims=True).filled(np.nan)
        total = np.nansum(total, axis=2, keepdims=True) / SC.INJ.nTurns
    if calculate_errors and SC.INJ.trackMode == 'TBT':
        orbits[np.sum(np.isnan(orbits), axis=3) > 0, :] = np.nan
        squares = np.square(orbits - mean[:, :, :, np.newaxis])
        errors = np.sqrt(np.average(np.ma.array(squares, mask=np.isnan(orbits)), weights=np.ma.array(sums, mask=np.isnan(orbits)), axis=3)).filled(np.nan)
        return flat2(mean), flat2(total), flat2(errors)
    return flat2(mean), flat2(total)


def flat2(m):
    return np.transpose(m, axes=(0, 2, 1)).reshape((2, np.prod(m.shape[1:])))


def tracked(SC, refs):
    if SC.INJ.trackMode == 'ORB':
        pos = np.transpose(at_wrapper.findorbit6(SC.RING, refs, keep_lattice=False)[1])[[0, 2], :].reshape(2, 1, len(refs), 1)
    else:
        pos = at_wrapper.lattice_track(SC.RING, generate_bunches(SC, SC.INJ.nParticles), SC.INJ.nTurns, refs, keep_lattice=False)[[0, 2], :, :, :]
    pos[1, np.isnan(pos[0, :, :, :])] = np.nan
    return pos


def one_shot(SC, track, bpms):
    n, turns = track.shape[2:]
    level = at_wrapper.atgetfieldvalues(SC.RING, bpms, 'NoiseCO') if SC.INJ.trackMode == 'ORB' else at_wrapper.atgetfieldvalues(SC.RING, bpms, 'Noise')
    noise = np.transpose(level)[:, :, np.newaxis] * sc_tools.randnc(2, (2, n, turns))
    sum_error = np.transpose(at_wrapper.atgetfieldvalues(SC.RING, bpms, 'SumError'))[:, np.newaxis] * sc_tools.randnc(2, (n, turns))
    offset = np.transpose(at_wrapper.atgetfieldvalues(SC.RING, bpms, 'Offset') + at_wrapper.atgetfieldvalues(SC.RING, bpms, 'SupportOffset'))[:, :, np.newaxis]
    gain = 1 + np.transpose(at_wrapper.atgetfieldvalues(SC.RING, bpms, 'CalError'))[:, :, np.newaxis]
    a = np.ravel(at_wrapper.atgetfieldvalues(SC.RING, bpms, 'Roll')) + np.ravel(at_wrapper.atgetfieldvalues(SC.RING, bpms, 'SupportRoll'))
    centroid = np.nanmean(track, axis=1)
    intensity = np.mean(~np.isnan(track[0, :, :, :]), axis=0) * (1 + sum_error)
    lost = np.nonzero(intensity < 1 - SC.INJ.beamLostAt)
    centroid[:, lost[0], lost[1]] = np.nan
    intensity[lost[0], lost[1]] = np.nan
    rotation = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    return (np.einsum('ijk,jkl->ikl', rotation, centroid) - offset) * gain + noise / intensity, np.tile(intensity, (2, 1, 1))


def all_elements_reading(SC):
    n = len(SC.RING) + 1
    everything = np.full((2, SC.INJ.nParticles, n, SC.INJ.nTurns, SC.INJ.nShots), np.nan)
    bpm = np.full((2, len(SC.ORD.BPM), SC.INJ.nTurns, SC.INJ.nShots), np.nan)
    for shot in range(SC.INJ.nShots):
        track = tracked(SC, np.arange(n))
        bpm[:, :, :, shot] = one_shot(SC, track[:, :, SC.ORD.BPM, :], SC.ORD.BPM)[0]
        track[:, np.isnan(track[0, :])] = np.nan
        everything[:, :, :, :, shot] = track[:, :, :, :]
    return flat2(np.nanmean(bpm, axis=3)), everything


def beam_transmission(SC, nParticles, nTurns):
    particles = SC.INJ.nParticles if nParticles is None else nParticles
    turns = SC.INJ.nTurns if nTurns is None else nTurns
    T = at_wrapper.lattice_track(SC.RING, generate_bunches(SC, particles), turns, np.array([len(SC.RING)]), keep_lattice=False, use_mp=True)
    survived = np.mean(~np.isnan(T[0, :, :, :]), axis=(0, 1))
    return int(np.sum(survived > 1 - SC.INJ.beamLostAt)), survived


def generate_bunches(SC, nParticles):
    n = SC.INJ.nParticles if nParticles is None else nParticles
    Z = np.tile(np.transpose(SC.INJ.randomInjectionZ * sc_tools.randnc(2, (1, 6)) + SC.INJ.Z0), n)
    if n != 1:
        V, L = np.linalg.eig(SC.INJ.beamSize)
        Z = Z + L @ np.diag(np.sqrt(V)) @ sc_tools.randnc(3, (6, n))
    return SC.INJ.postFun(Z)


def trackMode(self, mode):
    if mode not in ('TBT', 'ORB', 'PORB'):
        raise AttributeError
    self._trackMode = mode
    if mode == 'ORB':
        self.nTurns = 1
        self.nParticles = 1
