import numpy as np
from . import flags as ngflags

MOMENTS_NAME_MAP = {"Mf": 5, "M00": 5, "MT": 4, "M11": 4, "M1": 2, "M2": 3}


def fwhm_to_sigma(fwhm):
    return fwhm/2.3548200450309493


def sigma_to_fwhm(sigma):
    return sigma*2.3548200450309493


def fwhm_to_T(fwhm):
    sigma = fwhm_to_sigma(fwhm)
    return 2*sigma**2


def T_to_fwhm(T):
    return sigma_to_fwhm(np.sqrt(T/2))


def r50_to_sigma(r):
    return r/1.1774100225154747


def get_Tround(T, g1, g2):
    gsq = g1**2 + g2**2
    return T*(1-gsq)/(1+gsq)


def make_mom_result(sums, sums_cov, sums_norm=None):
    """measured quantities of the moment sums; uses indices 5: flux, 4: T, 2/3: e"""
    res = {}
    res["flags"] = 0
    res["flagstr"] = ""
    res["sums"] = sums
    res["sums_cov"] = sums_cov
    res["sums_norm"] = np.nan if sums_norm is None else sums_norm
    sums_err = np.sqrt(np.diagonal(sums_cov).copy())
    res["sums_err"] = sums_err
    for n in ("flux", "flux_err", "T", "T_err", "s2n", "e1", "e2"):
        res[n] = np.nan
    res["T_flags"] = 0
    res["T_flagstr"] = ""
    res["flux_flagstr"] = ""
    res["flux_flags"] = 0
    res["e"] = np.array([np.nan, np.nan])
    res["e_err"] = np.array([np.nan, np.nan])
    res["e_cov"] = np.diag([np.nan, np.nan])
    for i in range(6):
        if not sums_cov[i, i] > 0:
            res["flags"] |= ngflags.NONPOS_VAR
    if sums_cov[5, 5] > 0:
        res["flux"] = sums[5]
        res["flux_err"] = np.sqrt(sums_cov[5, 5])
        res["s2n"] = res["flux"]/res["flux_err"]
    else:
        res["flux_flags"] |= ngflags.NONPOS_VAR
    if not sums[5] > 0:
        res["flags"] |= ngflags.NONPOS_FLUX
        res["T_flags"] |= ngflags.NONPOS_FLUX
    elif not sums[4] > 0:
        res["flags"] |= ngflags.NONPOS_SIZE
        res["T"] = sums[4]/sums[5]
    elif res["flags"] == 0:
        res["T"] = sums[4]/sums[5]
        res["T_err"] = np.sqrt(sums_cov[4, 4])/sums[5]
        res["e1"] = sums[2]/sums[4]
        res["e2"] = sums[3]/sums[4]
        res["e"] = np.array([res["e1"], res["e2"]])
        res["e_err"] = np.array([np.sqrt(sums_cov[2, 2])/sums[4],
                                 np.sqrt(sums_cov[3, 3])/sums[4]])
        res["e_cov"] = np.diag(res["e_err"]**2)
    res["pars"] = np.array([np.nan, np.nan, res["e1"], res["e2"], res["T"], res["flux"]])
    res["flagstr"] = ngflags.get_flags_str(res["flags"])
    return res
