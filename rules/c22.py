from vsa.terms import TRUE, FALSE, NONE, num
TITLE = "NaN-aware statistics against the plain ones on masked data; weights and plain statistics against their definitions."
RULES = ["C22.nan: each NaN-ignoring statistic is the plain one on data and errors masked where the data is NaN, all other arguments passed on.",
         "C22.weights: weights are 1/(errors*2*pi/period)^2 and absent when there are no errors or any error is zero or NaN.",
         "C22.plain: averages, rms, effective sample size, t-value correction and errors equal their definitions."]
S = "utils.stats:"
W = (S + "weights_from_errors", S + "unbias_variance", S + "effective_sample_size", S + "t_value_correction", S + "_get_shape")


def check(ctx):
    for n in ("circular_nanmean", "circular_nanerror", "weighted_nanmean", "weighted_nanrms"):
        for lab, a in (("errors given", {}), ("no errors", {"errors": NONE})):
            ctx.same_return("C22.nan", S + n, ("stats", n), a, label=lab)
    ctx.same_return("C22.weights", S + "weights_from_errors", ("stats", "weights_from_errors"))
    for n in ("weighted_mean", "weighted_rms", "circular_mean"):
        ctx.same_return("C22.plain", S + n, ("stats", n))
    ctx.same_return("C22.plain", S + "rms", ("stats", "rms"))
    ctx.same_return("C22.plain", S + "t_value_correction", ("stats", "t_value_correction"))
    ctx.same_return("C22.plain", S + "effective_sample_size", ("stats", "effective_sample_size"))
    for c in (TRUE, FALSE):
        ctx.same_return("C22.plain", S + "weighted_error", ("stats", "weighted_error"), {"t_value_corr": c}, pure=W)
        ctx.same_return("C22.plain", S + "circular_error", ("stats", "circular_error"), {"t_value_corr": c}, pure=W)
    for a, b in (("circular_nanmean", "circular_mean"), ("circular_nanerror", "circular_error"), ("weighted_nanmean", "weighted_mean"), ("weighted_nanrms", "weighted_rms")):
        ctx.same_defaults("C22.nan", S + a, S + b, ("period", "errors", "axis", "t_value_corr"))
