"""Reference behaviour of the statistics helpers (property C22)."""
import numpy as np
from scipy.special import erf
from scipy.stats import t as student
from pySC.utils import stats

TWO_PI = 2 * np.pi


def masked(x, data):
    return None if x is None else np.ma.array(x, mask=np.isnan(data))


def valid(data):
    return np.ma.array(data, mask=np.isnan(data))


def circular_nanmean(data, period, errors, axis):
    return stats.circular_mean(valid(data), period, masked(errors, data), axis)


def circular_nanerror(data, period, errors, axis, t_value_corr):
    return stats.circular_error(valid(data), period, masked(errors, data), axis, t_value_corr)


def weighted_nanmean(data, errors, axis):
    return stats.weighted_mean(valid(data), masked(errors, data), axis)


def weighted_nanrms(data, errors, axis):
    return stats.weighted_rms(valid(data), masked(errors, data), axis)


def weights_from_errors(errors, period):
    if errors is None or np.any(np.isnan(errors)) or np.any(np.logical_not(errors)):
        return None
    return 1 / (errors * TWO_PI / period) ** 2


def weighted_mean(data, errors, axis):
    return np.average(data, axis=axis, weights=stats.weights_from_errors(errors))


def weighted_rms(data, errors, axis):
    return np.sqrt(np.average(data ** 2, axis=axis, weights=stats.weights_from_errors(errors)))


def rms(data, axis):
    return np.sqrt(np.average(data ** 2, axis=axis, weights=None))


def circular_mean(data, period, errors, axis):
    w = stats.weights_from_errors(errors, period)
    return np.angle(np.average(np.exp(2j * np.pi * data / period), axis=axis, weights=w)) * period / TWO_PI


def effective_sample_size(data, weights, axis):
    if weights is None:
        n = np.ma.count(data, axis=axis)
    else:
        n = np.sum(weights, axis=axis) ** 2 / np.sum(weights ** 2, axis=axis)
    return np.where(n > 2, n, 2)


def t_value_correction(sample_size):
    n = np.where(sample_size > 2, sample_size, 2)
    return student.ppf((1 + erf(1 / np.sqrt(2))) / 2, n - 1)


def weighted_error(data, errors, axis, t_value_corr):
    w = stats.weights_from_errors(errors)
    mean = np.average(data, axis=axis, weights=w).reshape(stats._get_shape(data.shape, axis))
    var, total = np.ma.average(np.square(np.abs(data - mean)), weights=w, axis=axis, returned=True)
    if w is not None:
        var = var + 1 / total
    err = np.nan_to_num(np.sqrt(var * stats.unbias_variance(data, w, axis=axis)))
    if t_value_corr:
        return err * stats.t_value_correction(stats.effective_sample_size(data, w, axis=axis))
    return err


def circular_error(data, period, errors, axis, t_value_corr):
    w = stats.weights_from_errors(errors, period)
    z = np.exp(2j * np.pi * data / period)
    mean = np.average(z, axis=axis, weights=w)
    var, total = np.average(np.square(np.abs(z - mean.reshape(stats._get_shape(z.shape, axis)))), weights=w, axis=axis, returned=True)
    if w is not None:
        var = var + 1 / total
    err = np.nan_to_num(np.sqrt(var * stats.unbias_variance(data, w, axis=axis)) / np.abs(mean))
    if t_value_corr:
        err = err * stats.t_value_correction(stats.effective_sample_size(data, w, axis=axis))
    return np.where(err > 0.25 * TWO_PI, 0.3 * period, err * period / TWO_PI)
