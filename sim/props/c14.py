"""Library calls made from several threads do not interfere, and keep their arguments."""
import copy
import io
import pickle
import random

import numpy as np
from astropy.io import fits as pf

from sim import cmpf, data
from sim.simctx import Violation, lib

TOOLS = ["RMutils.util_RM", "RMutils.util_misc", "RMtools_1D.do_RMsynth_1D", "RMtools_1D.do_RMclean_1D", "RMtools_1D.clean_model",
         "RMtools_1D.rmtools_bwdepol", "RMtools_1D.rmtools_bwpredict", "RMtools_3D.do_RMsynth_3D", "RMtools_3D.do_RMclean_3D",
         "RMtools_3D.RMpeakfit_3D", "RMtools_3D.rescale_I_model_3D", "RMtools_3D.do_fitIcube", "RMtools_3D.make_freq_file",
         "RMtools_1D.do_QUfit_1D_mnest"]
C = 299792458.0


class Data:
    """What calls are made on: arrays that several calls share, as in a script."""

    def __init__(self, spec):
        r = np.random.RandomState(spec["seed"] % 2**31)
        I, Q, U, self.f = data.iqu(spec)
        n = len(self.f)
        self.I = data.iqu({k: v for k, v in spec.items() if not k.startswith("nan")})[0]
        self.Q, self.U = Q, U
        self.l2 = (C / self.f) ** 2
        self.e = [np.abs(r.normal(0.02, 0.004, n)) + 1e-3 for _ in range(3)]
        self.rms = self.e[1].copy()
        self.w = 1 / self.rms ** 2
        k = spec["nphi"]
        self.phi = np.linspace(-200, 200, k).astype("f4")
        d = self.phi[1] - self.phi[0]
        m = int(np.ceil(k / 2))
        self.phi2 = (self.phi[0] + d * (np.arange(2 * m + k) - m)).astype("f4")
        self.msk = ~(np.isfinite(Q) & np.isfinite(U))
        w = np.where(self.msk, 0, self.w[:, None, None])
        self.l0 = float((self.w * self.l2).sum() / self.w.sum())
        with np.errstate(all="ignore"):
            K = np.nan_to_num(1 / w.sum(0), posinf=0)
            P = np.where(self.msk, 0, Q + 1j * U)
            self.fdf = (np.einsum("pc,cyx->pyx", np.exp(-2j * np.outer(self.phi, self.l2 - self.l0)), P * w) * K).astype("c8")
            self.rmsf = (np.einsum("pc,cyx->pyx", np.exp(-2j * np.outer(self.phi2, self.l2 - self.l0)), w.astype("c16")) * K).astype("c8")
        self.fwhm = np.full(Q.shape[1:], 3.8 / (self.l2.max() - self.l2.min()), "f4") * r.uniform(0.9, 1.1, Q.shape[1:]).astype("f4")
        self.coef = np.zeros((6,) + Q.shape[1:])
        self.coef[5], self.coef[4] = r.uniform(0.5, 3, Q.shape[1:]), r.uniform(-1, 0.5, Q.shape[1:])
        A = r.normal(0, 0.01, Q.shape[1:] + (6, 6))
        self.cov = np.einsum("...ij,...kj->...ik", A, A)
        self.iparms = [0.0, 0.0, 0.0, 0.1, -0.7, 1.5]
        self.head = data.header(dict(spec, hdr=[k for k in spec.get("hdr", []) if k != "sum"]))
        self.head["BTYPE"] = "Intensity"
        self.fhead = self.head.copy()
        self.fhead.update(CTYPE3="FDEP", CUNIT3="rad/m^2", NAXIS3=k, CRVAL3=float(self.phi[0]), CDELT3=float(d))

    def arrays(self):
        for k, v in sorted(vars(self).items()):
            if isinstance(v, np.ndarray):
                yield k, v
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    yield f"{k}[{i}]", np.asarray(x)
            elif isinstance(v, pf.Header):
                yield k, cards(v)


def cards(h):
    return np.array([str(c) for c in h.cards])


def pix(D, r):
    return r.randrange(D.Q.shape[1]), r.randrange(D.Q.shape[2])


def spectrum(D, r, five=False):
    y, x = pix(D, r)
    return [D.f, D.I[:, y, x], D.Q[:, y, x], D.U[:, y, x]] + D.e if not five else [D.f, D.Q[:, y, x], D.U[:, y, x]] + D.e[:2]


def weights(D, r):
    return r.choice([None, D.w, D.w])


def c_synth1d(D, r):
    from RMtools_1D.do_RMsynth_1D import run_rmsynth

    return run_rmsynth, [spectrum(D, r, r.random() < 0.3)], dict(
        polyOrd=r.choice([0, 1, 2, 3, -3]), phiMax_radm2=r.choice([None, 200.0]), nSamples=r.choice([5.0, 10.0]), weightType=r.choice(["variance", "uniform"]),
        fitRMSF=r.random() < 0.4, noStokesI=r.random() < 0.2, fit_function=r.choice(["log", "linear"]), nBits=r.choice([32, 64]), super_resolution=r.random() < 0.2)


def c_clean1d(D, r):
    from RMtools_1D.do_RMclean_1D import run_rmclean

    y, x = pix(D, r)
    m = {"dFDFth": 0.004 + y * 0.001, "fwhmRMSF": float(D.fwhm[y, x]), "lam0Sq_m2": D.l0, "freq0_Hz": C / D.l0 ** 0.5, "Ifreq0": 1.0, "units": "Jy", "dQU": 0.02}
    a = {"phiArr_radm2": D.phi, "phi2Arr_radm2": D.phi2, "RMSFArr": D.rmsf[:, y, x], "freqArr_Hz": D.f, "weightArr": D.w, "dirtyFDF": D.fdf[:, y, x]}
    return run_rmclean, [m, a, r.choice([-3, -1, 0.05])], dict(maxIter=r.choice([20, 200]), gain=r.choice([0.1, 0.3]), window=r.choice([None, None, -0.5, 0.02]))


def c_planes(D, r):
    from RMutils.util_RM import do_rmsynth_planes

    if r.random() < 0.4:
        y, x = pix(D, r)
        q, u = D.Q[:, y, x], D.U[:, y, x]
    else:
        q, u = D.Q, D.U
    return do_rmsynth_planes, [q, u, D.l2, D.phi], dict(weightArr=weights(D, r), lam0Sq_m2=r.choice([None, None, 0.0, D.l0]), nBits=r.choice([32, 32, 64]))


def c_rmsf(D, r):
    from RMutils.util_RM import get_rmsf_planes

    y, x = pix(D, r)
    msk = r.choice([None, D.msk, D.msk[:, y, x], D.msk[:, y, :]])
    return get_rmsf_planes, [D.l2, D.phi], dict(weightArr=weights(D, r), mskArr=msk, lam0Sq_m2=r.choice([None, None, 0.0, D.l0]), double=r.random() < 0.8,
                                                fitRMSF=r.random() < 0.4, fitRMSFreal=r.random() < 0.3, nBits=r.choice([32, 64]))


def c_clean(D, r):
    from RMutils.util_RM import do_rmclean_hogbom

    y, x = pix(D, r)
    a = r.choice([(D.fdf, D.rmsf, D.fwhm), (D.fdf[:, y, x], D.rmsf[:, y, x], np.array(D.fwhm[y, x])), (D.fdf[:, y, :], D.rmsf[:, y, :], D.fwhm[y, :])])
    return do_rmclean_hogbom, [a[0], D.phi, a[1], D.phi2, a[2], r.choice([0.03, 0.1])], dict(
        maxIter=r.choice([15, 80]), gain=r.choice([0.1, 0.3]), window=r.choice([np.nan, 0.02]), mskArr=r.choice([None, None, np.isnan(D.fdf.real).all(0)]) if a[0].ndim == 3 else None)


def c_measure(D, r):
    from RMutils.util_RM import measure_FDF_parms

    y, x = pix(D, r)
    return measure_FDF_parms, [D.fdf[:, y, x], D.phi, D.fwhm[y, x]], dict(dFDF=r.choice([None, 0.01]), lamSqArr_m2=D.l2, lam0Sq=D.l0, snrDoBiasCorrect=r.choice([5.0, 0.0]))


def c_complex(D, r):
    from RMutils.util_RM import measure_fdf_complexity, measure_qu_complexity

    y, x = pix(D, r)
    if r.random() < 0.2:
        return measure_fdf_complexity, [D.phi, D.fdf[:, y, x]], {}
    with np.errstate(all="ignore"):
        return measure_qu_complexity, [D.f, D.Q[:, y, x] / D.I[:, y, x], D.U[:, y, x] / D.I[:, y, x], D.e[1], D.e[2], 0.2, 30.0 * y, 10.0 * x], {}


def c_frac(D, r):
    from RMutils.util_misc import create_frac_spectra

    f, I, Q, U, dI, dQ, dU = spectrum(D, r)
    return create_frac_spectra, [f, I, Q, U, dI, dQ, dU], dict(polyOrd=r.choice([0, 1, 2, 4, -2]), fit_function=r.choice(["log", "linear"]),
                                                               modStokesI=r.choice([None, None, I]))


def fit_chain(f, I, dI, order, fun, f1):
    from RMutils.util_misc import calculate_StokesI_model, fit_StokesI_model, renormalize_StokesI_model

    r = fit_StokesI_model(f, I, dI, order, fun)
    a = calculate_StokesI_model(r, f)
    s = renormalize_StokesI_model(r, f1)
    return r, a, s, calculate_StokesI_model(s, f)


def c_fit(D, r):
    y, x = pix(D, r)
    return fit_chain, [D.f, D.I[:, y, x].astype("f8"), D.e[0], r.choice([0, 1, 2, 3, -3]), r.choice(["log", "linear"]), D.f[len(D.f) // 3]], {}


def c_fit5(D, r):
    from RMutils.util_misc import fit_spec_poly5

    y, x = pix(D, r)
    return fit_spec_poly5, [D.f / 1e9, D.I[:, y, x].astype("f8"), D.e[0]], dict(order=r.choice([1, 2, 3]), fit_function=r.choice(["log", "linear"]))


def c_fitrmsf(D, r):
    from RMutils.util_RM import fit_rmsf

    y, x = pix(D, r)
    return (lambda a, b: [getattr(fit_rmsf(a, b), k) for k in ("params", "perror", "status")]), [D.phi2, np.abs(D.rmsf[:, y, x])], {}


def c_model(D, r):
    from RMtools_1D.clean_model import calculate_QU_model

    y, x = pix(D, r)
    return calculate_QU_model, [D.f, D.phi, D.fdf[:, y, x], D.l0], dict(Iparms=r.choice([None, D.iparms]))


def c_adjoint(D, r):
    from RMtools_1D.rmtools_bwdepol import run_adjoint_rmsynth

    d = np.array(spectrum(D, r, r.random() < 0.3))
    return run_adjoint_rmsynth, [d], dict(polyOrd=r.choice([1, 2]), phiMax_radm2=100.0, dPhi_radm2=20.0, weightType=r.choice(["variance", "uniform"]), fitRMSF=r.random() < 0.5)


def c_chanpol(D, r):
    from RMtools_1D.rmtools_bwdepol import analytical_chan_pol

    return analytical_chan_pol, [D.f, np.diff(D.f).mean(), 50.0 + r.randrange(3)], {}


def c_predict(D, r):
    from RMtools_1D.rmtools_bwpredict import bwdepol_compute_predictions

    return bwdepol_compute_predictions, [D.f], dict(phiMax_radm2=100.0, dPhi_radm2=r.choice([20.0, 25.0]))


def c_synth3d(D, r):
    from RMtools_3D.do_RMsynth_3D import run_rmsynth

    return run_rmsynth, [D.Q, D.U, D.f], dict(dataI=r.choice([None, None, D.I]), rmsArr=r.choice([None, D.rms]), weightType=r.choice(["uniform", "variance"]),
                                              phiMax_radm2=r.choice([None, 150.0]), nSamples=r.choice([3.0, 5.0]), fitRMSF=r.random() < 0.3, not_rmsf=r.random() < 0.2,
                                              super_resolution=r.random() < 0.15)


def c_peakmaps(D, r):
    from RMtools_3D.do_RMsynth_3D import create_peak_maps

    return create_peak_maps, [D.fdf, D.phi], dict(phi_axis=0)


def c_peakfit(D, r):
    from RMtools_3D.RMpeakfit_3D import pixelwise_peak_fitting

    return pixelwise_peak_fitting, [D.fdf, D.phi, D.fwhm, D.l2, D.l0, ["phiPeakPIfit_rm2", "ampPeakPIfit", "polAngle0Fit_deg", "dFDFcorMAD"]], dict(
        noiseArr=r.choice([None, D.rms]), stokesIcube=r.choice([None, D.I]), weightType=r.choice(["uniform", "variance"]))


def c_rescale(D, r):
    from RMtools_3D.rescale_I_model_3D import rescale_I_pixel

    y, x = pix(D, r)
    return rescale_I_pixel, [[D.cov[y, x], D.coef[:, y, x], 1.1e9, 1.0e9 + 1e7 * r.randrange(4)], r.choice(["log", "linear"])], {}


def c_burn(D, r):
    from RMutils import util_misc as m

    k = r.randrange(6)
    a, b, c = [0.2, 0.3], [10.0, 40.0 + r.randrange(3)], [20.0, -50.0]
    if k == 0:
        return m.create_pqu_spectra_burn, [D.f, a, b, c], dict(sigmaRMArr_radm2=r.choice([None, [3.0, 4.0]]))
    if k == 1:
        return m.create_IQU_spectra_burn, [D.f, 2.0, -0.7, a, b, c], {}
    if k == 2:
        return m.create_pqu_spectra_diff, [D.f, np.array(a), np.array(b), np.array(c)], {}
    if k == 3:
        return m.create_IQU_spectra_diff, [D.f, 2.0, -0.7, np.array(a), np.array(b), np.array(c)], {}
    if k == 4:
        return m.create_pqu_spectra_RMthin, [D.f, 0.2, 30.0, 15.0 + r.randrange(3)], {}
    return m.create_pqu_resid_RMthin, [D.Q[:, 0, 0], D.U[:, 0, 0], D.f, 0.2, 30.0, 15.0], {}


def c_old(D, r):
    from RMutils import util_RM as m

    y, x = pix(D, r)
    k = r.randrange(3)
    if k == 0:
        return m.do_rmsynth, [np.nan_to_num(D.Q), np.nan_to_num(D.U), D.l2, D.phi], dict(weight=weights(D, r))
    if k == 1:
        return m.get_RMSF, [D.l2, D.phi], dict(weightArr=weights(D, r))
    return m.do_rmclean, [D.fdf[:, y, x], D.phi, D.l2, 0.05], dict(maxIter=20, weight=weights(D, r), RMSFArr=D.rmsf[:, y, x], RMSFphiArr=D.phi2,
                                                                 fwhmRMSF=float(D.fwhm[y, x]), doPlots=False)


def c_noise3d(D, r):
    from RMutils.util_RM import threeDnoise_do_rmsynth_planes, threeDnoise_get_rmsf_planes

    w = np.broadcast_to(D.w[:, None, None], D.Q.shape).copy()
    if r.random() < 0.5:
        return threeDnoise_do_rmsynth_planes, [D.Q, D.U, D.l2, D.phi], dict(weightArr=r.choice([None, w]))
    return threeDnoise_get_rmsf_planes, [D.l2, D.phi], dict(weightArr=r.choice([D.w, w]), fitRMSF=r.random() < 0.3)


def c_stats(D, r):
    from RMutils import util_misc as m
    from RMutils import util_RM as u

    y, x = pix(D, r)
    k = r.randrange(7)
    q = D.Q[:, y, x]
    if k == 0:
        return m.calc_stats, [q], dict(maskzero=r.random() < 0.5)
    if k == 1:
        return m.MAD, [D.Q], dict(axis=r.choice([None, 0, 1]))
    if k == 2:
        return m.interp_images, [D.I[0], D.I[-1]], dict(f=0.3)
    if k == 3:
        return u.calc_sigma_add, [D.l2, np.nan_to_num(q), D.e[1]], dict(suffix="Q", yMed=0.0, noise=0.02)
    if k == 4:
        return u.calc_normal_tests, [np.nan_to_num(q)], {}
    if k == 5:
        return u.detect_peak, [np.abs(D.fdf[:, y, x])], {}
    return u.extrap, [np.arange(-2.0, len(D.phi) + 2), np.arange(len(D.phi)), D.phi], {}


def c_quchi(D, r):
    from RMtools_1D import do_QUfit_1D_mnest as q

    m = qumodel(r.choice([1, 2, 4, 7]))
    p = {k: 0.3 * v.minimum + 0.7 * v.maximum for k, v in m.priors.items() if v.__class__.__name__ != "Constraint"}
    with np.errstate(all="ignore"):
        a = D.Q[:, 0, 0] / D.I[:, 0, 0], D.U[:, 0, 0] / D.I[:, 0, 0]
    k = r.randrange(2)
    if k:
        return m.model, [p, D.l2], {}
    return q.chisq_model, [list(p), list(p.values()), D.l2, a[0], D.e[1], a[1], D.e[2], m.model], {}


def qumodel(n):
    import importlib.util
    import os

    import RMtools_1D

    f = os.path.join(os.path.dirname(RMtools_1D.__file__), "models_ns", f"m{n}.py")
    s = importlib.util.spec_from_file_location(f"m{n}", f)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def c_cubefit(D, r):
    from RMtools_3D import do_fitIcube as m

    y, x = pix(D, r)
    return m.fit_spectra_I, [D.I[:, y, x], D.f, D.rms, r.choice([1, 2, -2]), r.choice(["log", "linear"]), 4], {}


def c_noisecube(D, r):
    from RMtools_3D import do_fitIcube as m

    return m.cube_noise, [D.I, {"BITPIX": -32, "NAXIS1": D.I.shape[2], "NAXIS2": D.I.shape[1]}, D.f, r.choice([-5.0, -1.0, 0.8])], {}


def quiet(*a, **k):
    pass


def written(f, where):
    """A call that writes files, as a function of what it has written."""
    import os
    import shutil

    def g(*a, **k):
        d = f"w{where}/"
        os.makedirs(d)
        ret = f(d, *a, **k)
        out = {}
        for n in sorted(os.listdir(d)):
            b = open(d + n, "rb").read()
            if n.endswith(".fits"):
                for i, h in enumerate(pf.open(io.BytesIO(b))):
                    out[n, i] = [cards(h.header)[[not str(c).startswith("DATE ") for c in h.header.cards]], np.array(h.data)]
            else:
                out[n] = b.decode()
        shutil.rmtree(d)
        return ret if not isinstance(ret, (dict, tuple)) else None, out

    return g


def c_write3d(D, r):
    from RMtools_3D.do_RMsynth_3D import writefits

    fdf, rmsf, stat = D.fdf.copy(), D.rmsf.copy(), np.zeros(D.fwhm.shape)      # (writing swaps the bytes of an array and back again)
    part = r.choice(["", "", "fdf", "rmsf"])
    a = {"": [fdf, D.phi, rmsf, D.phi2, D.fwhm.copy(), stat, D.l0, D.l2], "fdf": [fdf, D.phi, D.l0, D.l2], "rmsf": [rmsf, D.phi2, D.fwhm.copy(), stat, D.l0]}[part]
    return written(lambda d, a, h, **k: writefits(a, h, outDir=d, **k), r.randrange(10**9)), [a, D.head], dict(
        prefixOut=r.choice(["", "p_"]), write_seperate_FDF=r.random() < 0.5, not_rmsynth=part == "rmsf", not_rmsf=part == "fdf", fitRMSF=r.random() < 0.5,
        do_peakmaps=r.random() < 0.7, verbose=r.random() < 0.3, log=quiet)


def c_writeclean(D, r):
    from RMtools_3D.do_RMclean_3D import writefits

    it = np.full(D.fwhm.shape, 7)
    return written(lambda d, *a, **k: writefits(*a, outDir=d, **k), r.randrange(10**9)), [D.fdf.copy(), D.fdf * 0.5, it, D.fdf * 0.1, D.fhead], dict(
        prefixOut=r.choice(["", "p_"]), write_separate_FDF=r.random() < 0.5, verbose=r.random() < 0.3, log=quiet)


def c_writepeaks(D, r):
    from RMtools_3D.RMpeakfit_3D import save_maps

    m = {k: D.fwhm.astype(t) * (j + 1) for j, (k, t) in enumerate((("phiPeakPIfit_rm2", "f8"), ("ampPeakPIfit", "f4"), ("polAngle0Fit_deg", "f8")))}
    return written(lambda d, m, h: save_maps(m, d + "x", h), r.randrange(10**9)), [m, D.fhead], {}


def c_writenew(D, r):
    from RMtools_3D.rescale_I_model_3D import write_new_parameters

    return written(lambda d, f, c, e, h: write_new_parameters(f, c, e, d, h), r.randrange(10**9)), [np.full(D.fwhm.shape, 1.1e9), D.coef.copy(), D.coef * 0.1, D.head], {}


def c_write1d(D, r):
    from RMtools_1D import do_RMclean_1D, do_RMsynth_1D

    y, x = pix(D, r)
    m = {"dFDFth": 0.004, "phiPeakPIfit_rm2": 12.25, "polyCoeffs": "1,2", "units": "Jy", "N_channels": len(D.f)}
    a = {"phiArr_radm2": D.phi, "phi2Arr_radm2": D.phi2, "RMSFArr": D.rmsf[:, y, x], "freqArr_Hz": D.f, "weightArr": D.w, "dirtyFDF": D.fdf[:, y, x]}
    if r.random() < 0.5:
        return written(lambda d, m, a: do_RMsynth_1D.saveOutput(m, a, d + "s", False), r.randrange(10**9)), [m, a], {}
    c = {"phiArr_radm2": D.phi, "freqArr_Hz": D.f, "cleanFDF": D.fdf[:, y, x], "ccArr": D.fdf[:, y, x] * 0.5, "iterCountArr": np.array(9), "residFDF": D.fdf[:, y, x] * 0.1}
    return written(lambda d, m, a: do_RMclean_1D.saveOutput(m, a, d + "s", False, quiet), r.randrange(10**9)), [m, c], {}


def c_modelI(D, r):
    from RMtools_3D.do_fitIcube import make_model_I

    h = D.head.copy()
    h["NAXIS3"] = len(D.f)
    return written(lambda d, *a, **k: make_model_I(*a, outDir=d, **k), r.randrange(10**9)), [D.I.copy(), h, D.f], dict(
        polyOrd=r.choice([0, 1, 2, -2]), fit_function=r.choice(["log", "linear"]), prefixOut=r.choice(["", "p_"]), apply_mask=r.random() < 0.3, threshold=r.choice([-1.0, 0.1]))


CALLS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_") and callable(v)}
HEAVY = {"adjoint", "predict"}
COMMON = ["synth1d", "clean1d", "planes", "rmsf", "clean", "frac", "fit", "synth3d", "peakfit", "measure"]


def gen(rng, i, tier):
    n, ny, nx = rng.randint(10, 30), rng.randint(1, 3), rng.randint(1, 3)
    specs = []
    for k in range(rng.choice([1, 2, 2, 3])):
        s = data.random_spec(rng, ny=(ny, ny), nx=(nx, nx), nchan=(n, n))
        s.pop("nanpix", None)
        s["nphi"] = 31
        if rng.random() < 0.3:
            s["nanvox"] = [[rng.randrange(n), rng.randrange(ny), rng.randrange(nx)] for _ in range(rng.randint(1, 4))]
        specs.append(s)
    focus = rng.choice([None, None, "same", "pair"])     # the same function in every thread, or two functions
    names = sorted(CALLS)
    pick = rng.choice(COMMON if rng.random() < 0.7 else names)
    pair = [pick, rng.choice(names)]
    threads = []
    for t in range(rng.choice([1, 2, 2, 2, 3, 3, 4])):
        calls = []
        for _ in range(rng.randint(1, 3)):
            nm = pick if focus == "same" else rng.choice(pair) if focus == "pair" else rng.choice(names + COMMON * 2)
            calls.append({"name": nm, "seed": rng.randrange(2**31), "data": rng.randrange(len(specs))})
        threads.append(calls)
    return {"specs": specs, "threads": threads, "mode": rng.choice(["line", "new", "new"]), "scribble": rng.random() < 0.4,
            "sched": [{"seed": rng.randrange(2**31)} for _ in range(2 if tier == "quick" else 4)]}


def shrink(sc):
    ts = sc["threads"]
    if len(sc["sched"]) > 1:
        for s in sc["sched"]:
            yield dict(sc, sched=[s])
    for k in range(len(ts)):
        if len(ts) > 1:
            yield dict(sc, threads=ts[:k] + ts[k + 1:])
    for k, c in enumerate(ts):
        for j in range(len(c)):
            if len(c) > 1:
                yield dict(sc, threads=ts[:k] + [c[:j] + c[j + 1:]] + ts[k + 1:])
    if sc["scribble"]:
        yield dict(sc, scribble=False)
    for k, s in enumerate(sc["specs"]):
        for a in ("nanchan", "nanvox", "irregular", "faint", "bright"):
            if s.get(a):
                c = dict(s)
                c.pop(a)
                yield dict(sc, specs=sc["specs"][:k] + [c] + sc["specs"][k + 1:])


def flat(v, path="", out=None):
    """A result as a list of (path, array or value), copied."""
    out = [] if out is None else out
    if isinstance(v, np.ndarray):
        out.append((path, np.array(v)))
    elif isinstance(v, dict):
        for k in v:
            flat(v[k], f"{path}[{k!r}]", out)
    elif isinstance(v, pf.Header):
        out.append((path, cards(v)))
    elif isinstance(v, tuple) and hasattr(v, "_fields"):
        for k in v._fields:
            flat(getattr(v, k), f"{path}.{k}", out)
    elif isinstance(v, (list, tuple)):
        for k, x in enumerate(v):
            flat(x, f"{path}[{k}]", out)
    elif isinstance(v, (np.generic, int, float, complex, str, bool)) or v is None:
        out.append((path, np.asarray(v) if v is not None and not isinstance(v, str) else v))
    else:
        out.append((path, type(v).__name__))
    return out


def arrays_in(v, out):
    if isinstance(v, np.ndarray):
        out.append(v)
    elif isinstance(v, dict):
        for x in v.values():
            arrays_in(x, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            arrays_in(x, out)
    return out


def one(call, D, do):
    try:
        f, a, k = CALLS[call["name"]](D, random.Random(f"call:{call['seed']}"))
    except (ImportError, AttributeError):            # a function that is no longer there (under this name)
        return ("raised", "absent"), flat([[], {}]), ([], {})
    before = flat([a, k])
    try:
        res = do(f, *a, **k)
    except SystemExit as e:
        res = ("exit", str(e.code))
    except Exception as e:
        res = ("raised", type(e).__name__, str(e)[:200])
    return res, before, (a, k)


def process():
    """What the caller's program has set in its process and a library has to leave as it is."""
    import gc
    import locale
    import os
    import signal
    import sys
    import warnings

    import multiprocessing
    import socket

    u = os.umask(0o22)
    os.umask(u)
    n = np.random.get_state()
    return {"np.geterr": np.geterr(), "np.printoptions": {k: v for k, v in np.get_printoptions().items() if k != "formatter"}, "np.random": (n[0], n[1].tobytes(), n[2:]),
            "random": hash(random.getstate()), "cwd": os.getcwd(), "umask": u, "environ": dict(os.environ), "stdout": id(sys.stdout), "stderr": id(sys.stderr),
            "signals": [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGPIPE)], "recursion": sys.getrecursionlimit(),
            "gc": gc.isenabled(), "locale": locale.setlocale(locale.LC_ALL), "excepthook": id(sys.excepthook), "argv": list(sys.argv), "path": list(sys.path),
            "start method": multiprocessing.get_start_method(allow_none=True) or "fork", "socket timeout": socket.getdefaulttimeout(),
            "warnings.filters": [(f[0], f[2].__name__) for f in warnings.filters if f[1] is None and f[2] in (Warning, RuntimeWarning) and f[3] is None]}


def alone(spec, call, out):
    changed = []

    def do(f, /, *a, **k):
        np.seterr(over="print", under="ignore", divide="ignore", invalid="warn")      # the caller's settings, not the defaults
        import warnings

        warnings.simplefilter("default")
        p = process()
        try:
            return f(*a, **k)
        finally:
            q = process()
            changed.extend(n for n in p if p[n] != q[n])

    res, before, args = one(call, Data(spec), do)
    with open(out, "wb") as f:
        pickle.dump((flat(res), changed), f)


def together(sc, out):
    from sim.threads import Threads

    Ds = [Data(s) for s in sc["specs"]]
    whole = [list((k, v.copy()) for k, v in D.arrays()) for D in Ds]
    log = []

    def body(t):
        def f(call_, i):
            for j, c in enumerate(sc["threads"][t]):
                res, before, args = one(c, Ds[c["data"]], lambda fn, /, *a, **k: call_(i, fn, *a, **k))
                log.append({"t": t, "j": j, "res": flat(res), "live": res, "before": before, "args": args})
                if sc["scribble"]:               # the caller may do with the results what it likes
                    mine = arrays_in(list(args), [])
                    for a in arrays_in(res, []):
                        if a.flags.writeable and not any(np.shares_memory(a, b) for b in mine):
                            a[...] = 7
                    log[-1]["live"] = None
        return f

    T = Threads([body(t) for t in range(len(sc["threads"]))], sc["mode"])
    n = T.run()
    rec = {"switches": n, "ticks": T.ticks, "order": [(e["t"], e["j"]) for e in log], "calls": {}, "after": {}, "later": {}, "data": []}
    for e in log:
        k = (e["t"], e["j"])
        rec["calls"][k] = e["res"]
        rec["after"][k] = diff(e["before"], flat(list(e["args"])))
        if e["live"] is not None:
            rec["later"][k] = diff(e["res"], flat(e["live"]))
    for D, w in zip(Ds, whole):
        rec["data"].append(diff(w, list(D.arrays())))
    with open(out, "wb") as f:
        pickle.dump(rec, f)


def diff(a, b, tol=0.0):
    """First difference between two flattened values, or None."""
    if [p for p, _ in a] != [p for p, _ in b]:
        return f"has other parts: {[p for p, _ in a]} and {[p for p, _ in b]}"
    for (p, x), (_, y) in zip(a, b):
        if isinstance(x, np.ndarray) != isinstance(y, np.ndarray):
            return f"{p}: {x!r} and {y!r}"
        if not isinstance(x, np.ndarray):
            if x != y:
                return f"{p}: {x!r} and {y!r}"
            continue
        if x.shape != y.shape or x.dtype != y.dtype:
            return f"{p}: {x.dtype} {x.shape} and {y.dtype} {y.shape}"
        if x.dtype.kind in "fc":
            with np.errstate(all="ignore"):
                s = np.nanmax(np.abs(np.where(np.isfinite(x), x, np.nan))) if x.size and np.isfinite(x).any() else 0
                ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= tol * s)
            if not ok.all():
                j = tuple(int(v) for v in np.argwhere(~ok)[0])
                return f"{p}{list(j) if j else ''}: {x[j]!r} and {y[j]!r} ({int((~ok).sum())} of {x.size} values)"
        elif not (x == y).all():
            return f"{p}: {x!r} and {y!r}"
    return None


def run(sc, sim):
    ref = {}
    for t, calls in enumerate(sc["threads"]):
        for j, c in enumerate(calls):
            r = sim.run({}, lib("sim.props.c14:alone", sc["specs"][c["data"]], c, "o.pkl"))
            cmpf.must_ok(r.p, f"call {c['name']} alone")
            ref[t, j], changed = pickle.loads(r.files["o.pkl"])
            if changed:
                raise Violation("process", f"call {c['name']} leaves the process with other {', '.join(changed)}", key="process:" + c["name"])
            if ref[t, j] and isinstance(ref[t, j][0][1], str) and ref[t, j][0][1] in ("raised", "exit"):
                sim.probe("refused:" + c["name"])
    for s in sc["sched"]:
        r = sim.run({}, lib("sim.props.c14:together", sc, "o.pkl"), choices=s)
        cmpf.must_ok(r.p, "calls in threads")
        rec = pickle.loads(r.files["o.pkl"])
        name = lambda k: f"{sc['threads'][k[0]][k[1]]['name']} (call {k[1] + 1} of thread {k[0] + 1} of {len(sc['threads'])})"
        for k in sorted(ref):
            if k not in rec["calls"]:
                raise Violation("stuck", f"{name(k)} never returned")
            a = rec["after"][k]
            if a:
                raise Violation("arguments", f"{name(k)} changed its arguments: {a}", key="arguments:" + sc["threads"][k[0]][k[1]]["name"])
            d = diff(ref[k], rec["calls"][k], 1e-6)
            if d:
                raise Violation("interference", f"{name(k)} alone and among the others: {d}", key="interference:" + sc["threads"][k[0]][k[1]]["name"])
            if rec["later"].get(k):
                raise Violation("returned", f"what {name(k)} had returned was changed by a later call: {rec['later'][k]}")
        for w in rec["data"]:
            if w:
                raise Violation("arguments", f"a shared input changed: {w}")
        sim.probe("calls", len(ref))
        sim.probe("preemptions", rec["switches"])
        sim.probe("lines", rec["ticks"])


def nontrivial(sc, st):
    return st["probes"].get("calls", 0) > 0 and (st["probes"].get("preemptions", 0) > 0 or len(sc["threads"]) == 1)
