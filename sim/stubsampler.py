"""The sampler seam of QU-fitting: a bilby Sampler that returns a drawn posterior.

bilby.run_sampler itself (parameter bookkeeping, likelihood checks, cached results,
posterior frames, the result file) runs for real; only the class that explores the
parameter space is replaced.  The stand-in checkpoints and resumes the way
bilby.core.sampler.dynesty does: {outdir}/{label}_resume.pickle, replaced atomically
while sampling, loaded without further questions if present, removed at the end.
"""
import os
import pickle

import numpy as np

SPEC = {}


def draw(spec, name, lo, hi, angle):
    """Posterior samples of one parameter (a pure function of the drawn specification)."""
    r = np.random.RandomState((spec["seed"] * 1000003 + sum(ord(c) * 31 ** i for i, c in enumerate(name))) % 2**32)
    n = spec["n"]
    if angle:
        kind = spec["angle"]
        c = {"any": r.uniform(0, 180), "wrap": r.choice([0.0, 0.3, 179.5, 2.0]), "quarter": r.choice([45.0, 44.0, 135.0, 134.5, 90.0]), "half": 0.0}[kind]
        s = r.uniform(1, 9)
        while True:
            x = np.clip(r.normal(0, s, n), -28, 28)
            if kind == "half":                  # as many samples on one side of the wrap as on the other
                x = np.concatenate([np.abs(x[: n // 2]) + 0.01, -np.abs(x[n // 2: 2 * (n // 2)]) - 0.01, [0.0] * (n % 2)])
            if abs(np.median(x)) < 8:
                break
        return np.mod(c + x, 180.0)
    w = (hi - lo) * r.choice([0.02, 0.1, 0.4])
    c = r.uniform(lo + w / 2, hi - w / 2)
    return np.clip(r.normal(c, w / 4, n), c - w / 2, c + w / 2) if r.rand() < 0.6 else c + w * (r.beta(2, 5, n) - 0.5)


def is_angle(prior):
    return prior.boundary == "periodic"


def setup(job):
    """Called in the simulated process before its run begins."""
    SPEC.clear()
    SPEC.update(job["sampler"])
    install()


def install():
    import bilby.core.result
    import bilby.core.sampler as S
    import matplotlib.pyplot as plt
    from bilby.core.sampler.base_sampler import Sampler, _initialize_global_variables

    class Stub(Sampler):
        sampler_name = "stub"
        abbreviation = "stub"
        default_kwargs = dict(nlive=100)
        npool_equiv_kwargs = ["npool"]

        def __init__(self, *a, resume=True, **k):
            self.resume = resume
            k.pop("skip_import_verification", None)
            super().__init__(*a, skip_import_verification=True, **k)

        def _verify_kwargs_against_default_kwargs(self):
            pass

        def _checkpoint(self, state, path):
            tmp = path + ".temp"
            with open(tmp, "wb") as f:
                pickle.dump(state, f)
            os.rename(tmp, path)

        def run_sampler(self):
            keys = list(self.search_parameter_keys)
            path = f"{self.outdir}/{self.label}_resume.pickle"
            os.makedirs(self.outdir, exist_ok=True)
            self._setup_pool()
            if self.resume and os.path.isfile(path):
                with open(path, "rb") as f:
                    X, L, done = pickle.load(f)
            else:
                spec = dict(SPEC["post"])
                X = np.stack([draw(spec, k, self.priors[k].minimum, self.priors[k].maximum, is_angle(self.priors[k])) for k in keys], 1)
                X = X[np.random.RandomState(spec["order"]).permutation(len(X))]
                L, done = [], 0
            step = max(1, len(X) // 3)
            while done < len(X):
                part = [X[i] for i in range(done, min(len(X), done + step))]
                L = list(L) + [float(v) for v in (self.pool.map(_eval, part) if self.pool is not None else map(_eval, part))]
                done += len(part)
                self._checkpoint((X, L, done), path)
            self._close_pool()
            r = self.result
            r.samples = X.copy()
            r.log_likelihood_evaluations = np.array(L)
            r.log_evidence, r.log_evidence_err = float(SPEC["post"]["lnZ"]), 0.25
            r.num_likelihood_evaluations = len(X)
            r.sampling_time = 1.0
            os.remove(path)
            return r

    S.env_package_list = lambda *a, **k: None
    if not SPEC.get("real"):
        fake = type("E", (), {"load": staticmethod(lambda: Stub)})
        S.ImplementedSamplers.__getitem__ = lambda self, key: fake
    if not SPEC.get("plots"):
        import RMtools_1D.do_QUfit_1D_mnest as q

        if hasattr(q, "plot_Ipqu_spectra_fig"):
            q.plot_Ipqu_spectra_fig = lambda *a, fig=None, **k: fig
        bilby.core.result.Result.plot_corner = lambda self, *a, **k: plt.figure()
    return Stub


def _eval(theta):
    from bilby.core.sampler.base_sampler import _sampling_convenience_dump as D

    D.likelihood.parameters.update({k: float(t) for k, t in zip(D.search_parameter_keys, theta)})
    return D.likelihood.log_likelihood()
