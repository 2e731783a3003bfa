"""MATLAB-style names (property C17): which counterpart is called with what."""
import numpy as np
from pySC.core.beam import beam_transmission, bpm_reading, generate_bunches
from pySC.core.simulated_commissioning import SimulatedCommissioning
from pySC.core.lattice_setting import switch_cavity_and_radiation
from pySC.correction.bba import trajectory_bba, orbit_bba, fake_bba
from pySC.correction.injection_fit import fit_injection_trajectory, fit_injection_drift
from pySC.correction import orbit_trajectory
from pySC.correction.ramp_errors import SCrampUpErrors as ramp
from pySC.correction.rf import correct_rf_phase, correct_rf_frequency
from pySC.correction.tune import tune_scan
from pySC.lattice_properties.apertures import SCdynamicAperture as da, SCmomentumAperture as ma
from pySC.lattice_properties.magnet_orbit import SCgetCOD as cod
from pySC.lattice_properties.response_measurement import response_matrix, dispersion
from pySC.lattice_properties.response_model import SCgetModelRM as model_rm, SCgetModelDispersion as model_disp, SCgetModelRING as model_ring
from pySC.plotting.plot_lattice import plot_lattice, plot_cm_strengths
from pySC.plotting.plot_phase_space import plot_phase_space
from pySC.plotting.plot_support import plot_support
from pySC.utils import sc_tools


def SCapplyErrors(SC, nsigmas):
    SC.apply_errors(nsigmas)
    return SC


def SCBBA(SC, BPMords, magOrds, kwargs):
    if kwargs['mode'] == 'TBT':
        return trajectory_bba(SC, BPMords, magOrds, **kwargs)
    return orbit_bba(SC, BPMords, magOrds, **kwargs)


def SCcronoff(ring, args):
    return switch_cavity_and_radiation(ring, *args)


def SCdynamicAperture(RING, dE, bounds, nturns, thetas, accuracy, launchOnOrbit, centerOnOrbit, useOrbit6, auto, plot):
    return da(RING, dE, bounds=bounds, nturns=nturns, thetas=thetas, accuracy=accuracy, launchOnOrbit=launchOnOrbit, centerOnOrbit=centerOnOrbit, useOrbit6=useOrbit6, auto=auto, plot=plot)


def SCfeedbackBalance(SC, Mplus, R0, CMords, BPMords, eps, maxsteps):
    return orbit_trajectory.balance(SC, np.linalg.pinv(Mplus), reference=R0, cm_ords=CMords, bpm_ords=BPMords, eps=eps, maxsteps=maxsteps)


def SCfeedbackFirstTurn(SC, Mplus, R0, CMords, BPMords, maxsteps):
    return orbit_trajectory.first_turn(SC, np.linalg.pinv(Mplus), reference=R0, cm_ords=CMords, bpm_ords=BPMords, maxsteps=maxsteps)


def SCfeedbackRun(SC, Mplus, R0, CMords, BPMords, eps, target, maxsteps, scaleDisp):
    return orbit_trajectory.correct(SC, np.linalg.pinv(Mplus), reference=R0, cm_ords=CMords, bpm_ords=BPMords, eps=eps, target=target, maxsteps=maxsteps, scaleDisp=scaleDisp)


def SCfeedbackStitch(SC, Mplus, R0, CMords, BPMords, nBPMs, maxsteps):
    return orbit_trajectory.stitch(SC, np.linalg.pinv(Mplus), reference=R0, cm_ords=CMords, bpm_ords=BPMords, n_bpms=nBPMs, maxsteps=maxsteps)


def SCfitInjectionZ(SC, mode, nDims, nBPMs, plotFlag):
    if mode == 'fitTrajectory':
        return fit_injection_trajectory(SC, bpm_inds=nBPMs, plot=plotFlag)
    return fit_injection_drift(SC, n_dims=nDims, plot=plotFlag)


def SCgenBunches(SC):
    return generate_bunches(SC)


def SCgetBeamTransmission(SC, nParticles, nTurns, plotFlag):
    return beam_transmission(SC, nParticles=nParticles, nTurns=nTurns, plot=plotFlag)


def SCgetBPMreading(SC, BPMords):
    return bpm_reading(SC, bpm_ords=BPMords)[0]


def SCgetCMSetPoints(SC, CMords, nDim):
    return SC.get_cm_setpoints(CMords, nDim == 2)


def SCgetCOD(SC, ords, plot):
    return cod(SC, ords=ords, plot=plot)


def SCgetDispersion(SC, RFstep, BPMords, CAVords, nSteps):
    return dispersion(SC, RFstep, bpm_ords=BPMords, cav_ords=CAVords, n_steps=nSteps)


def SCgetModelDispersion(SC, BPMords, CAVords, trackMode, Z0, nTurns, rfStep, useIdealRing):
    return model_disp(SC, BPMords, CAVords, trackMode=trackMode, Z0=Z0, nTurns=nTurns, rfStep=rfStep, useIdealRing=useIdealRing)


def SCgetModelRING(SC, includeAperture):
    return model_ring(SC, includeAperture=includeAperture)


def SCgetModelRM(SC, BPMords, CMords, trackMode, Z0, nTurns, dkick, useIdealRing):
    return model_rm(SC, BPMords, CMords, trackMode=trackMode, Z0=Z0, nTurns=nTurns, dkick=dkick, useIdealRing=useIdealRing)


def SCgetOrds(ring, regex):
    return sc_tools.ords_from_regex(ring, regex)


def SCgetPinv(matrix, N, alpha, damping, plot):
    return sc_tools.pinv(matrix, num_removed=N, alpha=alpha, damping=damping, plot=plot)


def SCgetRespMat(SC, Amp, BPMords, CMords, mode, nSteps, fit):
    return response_matrix(SC, Amp, BPMords, CMords, mode=mode, n_steps=nSteps, fit_order=1 if fit == 'linear' else 2)


def SCgetSupportOffset(SC, s):
    return SC.support_offset_and_roll(s)[0]


def SCgetSupportRoll(SC, s):
    return SC.support_offset_and_roll(s)[1]


def SCinit(RING):
    return SimulatedCommissioning(RING)


def SCmomentumAperture(RING, REFPTS, inibounds, nturns, accuracy, stepsize, plot):
    return ma(RING, REFPTS, inibounds, nturns=nturns, accuracy=accuracy, stepsize=stepsize, plot=plot)


def SCmultipolesRead(fname):
    return sc_tools.read_multipoles(fname)


def SCplotBPMreading(SC):
    before = SC.plot
    SC.plot = True
    bpm_reading(SC)
    SC.plot = before
    return SC


def SCplotCMstrengths(SC):
    plot_cm_strengths(SC)


def SCplotLattice(SC, transferLine, nSectors, oList, plotIdealRing, sRange, plotMagNames, fontSize):
    return plot_lattice(SC, transfer_line=bool(transferLine), n_sectors=nSectors, indices=oList, ideal_ring=bool(plotIdealRing), s_range=sRange, plot_magnet_names=bool(plotMagNames), font_size=fontSize)


def SCplotPhaseSpace(SC, ord, customBunch, nParticles, nTurns, plotCO):
    plot_phase_space(SC, ords=ord, custom_bunch=customBunch, nParticles=nParticles, nTurns=nTurns, plotCO=plotCO)


def SCplotSupport(SC, fontSize, xLim):
    plot_support(SC, font_size=fontSize, x_lim=xLim)


def SCpseudoBBA(SC, BPMords, MagOrds, postBBAoffset):
    return fake_bba(SC, BPMords, MagOrds, fake_offset=postBBAoffset)


def SCrampUpErrors(SC, nStepsRamp, eps, target, alpha, maxsteps):
    return ramp(SC, nStepsRamp=nStepsRamp, eps=eps, target=target, alpha=alpha, maxsteps=maxsteps)


def SCrandnc(cut_off, shape):
    return sc_tools.randnc(cut_off, shape)


def SCregisterBPMs(SC, BPMords, kwargs):
    SC.register_bpms(BPMords, **kwargs)
    return SC


def SCregisterCAVs(SC, CAVords, kwargs):
    SC.register_cavities(CAVords, **kwargs)
    return SC


def SCregisterMagnets(SC, MAGords, kwargs):
    SC.register_magnets(MAGords, **kwargs)
    return SC


def SCregisterSupport(SC, support_type, support_ords, kwargs):
    SC.register_supports(support_ords, support_type, **kwargs)
    return SC


def SCSanityCheck(SC):
    SC.verify_structure()


def SCscaleCircumference(RING, circ, mode):
    return sc_tools.scale_circumference(RING, circ, mode=mode)


def SCsetCavs2SetPoints(SC, CAVords, type, setpoints, mode):
    SC.set_cavity_setpoints(CAVords, setpoints, type, method=mode)
    return SC


def SCsetCMs2SetPoints(SC, CMords, setpoints, nDim, mode):
    SC.set_cm_setpoints(CMords, setpoints, nDim == 2, method=mode)
    return SC, SC.get_cm_setpoints(CMords, nDim == 2)


def SCsetMags2SetPoints(SC, MAGords, type, order, setpoints, method, dipCompensation):
    SC.set_magnet_setpoints(MAGords, setpoints, type == 1, order - 1, method=method, dipole_compensation=dipCompensation)
    return SC


def SCsetMultipoles(SC, ords, AB, method, order, type):
    if method == 'rnd':
        SC.set_random_multipole_errors(ords, np.roll(AB, 1, axis=1))
    else:
        SC.set_systematic_multipole_errors(ords, np.roll(AB, 1, axis=1), order - 1, type == 1)
    return SC


def SCsynchEnergyCorrection(SC, cavOrd, f_range, nSteps, nTurns, plotResults, plotProgress):
    before = SC.INJ.nTurns
    SC.INJ.nTurns = nTurns
    SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps, plot_results=plotResults, plot_progress=plotProgress)
    SC.INJ.nTurns = before
    return SC


def SCsynchPhaseCorrection(SC, cavOrd, nSteps, nTurns, plotResults, plotProgress):
    before = SC.INJ.nTurns
    SC.INJ.nTurns = nTurns
    SC = correct_rf_phase(SC, cav_ords=cavOrd, n_steps=nSteps, plot_results=plotResults, plot_progress=plotProgress)
    SC.INJ.nTurns = before
    return SC


def SCtuneScan(SC, qOrds, qSPvec, plotFlag, nParticles, nTurns, target, fullScan):
    return tune_scan(SC, qOrds, qSPvec, target=target, do_plot=plotFlag, nParticles=nParticles, nTurns=nTurns, full_scan=fullScan)


def SCupdateCAVs(SC, ords):
    SC.update_cavities(ords)
    return SC


def SCupdateMagnets(SC, ords):
    SC.update_magnets(ords)
    return SC


def SCupdateSupport(SC, BPMstructOffset, MAGstructOffset):
    SC.update_supports(BPMstructOffset, MAGstructOffset)
    return SC


def not_a_table(AB):
    return AB.ndim != 2
