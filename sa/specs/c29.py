"""C29: a single-publisher curve shows the tail sums of the distribution it was fitted with."""
import numpy as np
import scipy.stats

from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.gamma_poisson_model import GammaPoissonModel
from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import KInflatedGammaPoissonModel, KInflatedGammaPoissonDistribution
from wfa_planning_evaluation_framework.models.dirac_mixture_single_publisher_model import DiracMixtureSinglePublisherModel, UnivariateMixedPoissonOptimizer


def tails(hist):
    """k-th entry: everything from the k-th on"""
    return np.cumsum(hist[::-1])[::-1]


def goerg_training__code(n: "posf", r: "posf", u: "nat"):
    return GoergModel([ReachPoint([n], [r], None, u)]).by_impressions([n], 1).reach()


def goerg_training__spec(n, r, u):
    return r


def goerg_kplus__code(n: "posf", r: "posf", u: "nat", i: "posf", f: "nat"):
    return list(GoergModel([ReachPoint([n], [r], None, u)]).by_impressions([i], f)._kplus_reaches)


def goerg_kplus__spec(n, r, u, i, f):
    rho = n * r / (n - r)
    return [rho * (i / (i + rho)) ** (k + 1) for k in range(f)]


def goerg_max__code(n: "posf", r: "posf", u: "nat"):
    return GoergModel([ReachPoint([n], [r], None, u)]).max_reach


def goerg_max__spec(n, r, u):
    return n * r / (n - r)


def gamma_hist(m, top, I, Imax, N, alpha, beta):
    """users seeing exactly k of the I impressions bought out of Imax, k = 1..top"""
    k = np.arange(1, top + 1)
    n = np.arange(1, 1001)
    users = np.exp(m.binom_dist.logpmf(k.reshape((-1, 1)), n.reshape((1, -1)), I / Imax) + scipy.stats.nbinom.logpmf(n - 1, alpha, 1 / (1 + beta)))
    return N * np.sum(np.triu(users), axis=-1)


def gamma_kplus__code(m: GammaPoissonModel, i: "posf", f: "pos"):
    return list(m.by_impressions([i], f)._kplus_reaches)


def gamma_kplus__spec(m, i, f):
    hist = gamma_hist(m, 1000, min(i, m._max_impressions - 1), m._max_impressions, m.max_reach, m._alpha, m._beta)
    return list(tails(hist)[:f])


def kinflated_kplus__code(m: KInflatedGammaPoissonModel, dist: KInflatedGammaPoissonDistribution, i: "posf", f: "pos"):
    m._dist = dist
    return list(m.by_impressions([i], f)._kplus_reaches)


def kinflated_kplus__spec(m, dist, i, f):
    p = min(i / m._max_impressions, 1.0)
    hist = list(m._max_reach * dist.kreach(np.arange(1, f), p)) + [m._max_reach * dist.kplusreach(f, p)]
    return list(tails(hist))


def kinflated_kreach__code(dist: KInflatedGammaPoissonDistribution, top: "pos", p: "posf"):
    return dist.kreach(np.arange(1, top + 1), p)


def kinflated_kreach__spec(dist, top, p):
    k = np.arange(1, top + 1)
    n = np.arange(1, len(dist._pmf))
    return np.sum(np.triu(dist.binom_dist.pmf(k.reshape(-1, 1), n.reshape(1, -1), p) * dist._pmf[n]), axis=-1)


def kinflated_kplusreach__code(dist: KInflatedGammaPoissonDistribution, k: "pos", p: "posf"):
    return dist.kplusreach(k, p)


def kinflated_kplusreach__spec(dist, k, p):
    return 1 - np.sum(dist.kreach(np.arange(k), p))


def kinflated_mean__code(dist: KInflatedGammaPoissonDistribution):
    return dist.expected_value()


def kinflated_mean__spec(dist):
    return sum(n * dist._pmf[n] for n in range(len(dist._pmf)))


def kinflated_objective__code(m: KInflatedGammaPoissonModel, dist: KInflatedGammaPoissonDistribution, h: "list", I: "posf", N: "posf"):
    return m._chi2_distance(h, I, N, dist)


def kinflated_objective__spec(m, dist, h, I, N):
    Imax = N * dist.expected_value()
    if Imax <= I:
        return np.sum(np.array(h) ** 2)
    hbar = np.array(list(N * dist.kreach(np.arange(1, len(h)), I / Imax)) + [N * dist.kplusreach(len(h), I / Imax)])
    return np.sum((hbar - h) ** 2 / (hbar + 1e-6))


def dirac_kplus__code(m: DiracMixtureSinglePublisherModel, opt: UnivariateMixedPoissonOptimizer, i: "posf", f: "nat"):
    m.optimizer = opt
    return list(m.by_impressions([i], f)._kplus_reaches)


def dirac_kplus__spec(m, opt, i, f):
    hist = opt.predict(i / m._reach_point.impressions[0], f)
    return list((m._reach_point.universe_size * tails(hist)[1:]).round(0).astype("int32"))


def dirac_predict__code(opt: UnivariateMixedPoissonOptimizer, scale: "posf", f: "pos"):
    return opt.predict(scale, f)


def dirac_predict__spec(opt, scale, f):
    return sum([w * opt.truncated_poisson_pmf_vec(c * scale, f) for w, c in zip(opt.ws, opt.components)])


def gamma_stored__code(m: GammaPoissonModel):
    m._max_reach = None
    m._fit()
    return [m._max_impressions, m._max_reach, m._alpha, m._beta]


def gamma_stored__spec(m):
    m._max_reach = None
    Imax, N, alpha, beta = m._fit_histogram_chi2_distance(m._reach_point)
    return [Imax, N, alpha, beta]


def gamma_stored_fixed__code(m: GammaPoissonModel, cap: "posf"):
    m._max_reach = cap
    m._fit()
    return [m._max_impressions, m._max_reach, m._alpha, m._beta]


def gamma_stored_fixed__spec(m, cap):
    m._max_reach = cap
    Imax, alpha, beta = m._fit_histogram_fixed_N(m._reach_point, cap)
    return [Imax, cap, alpha, beta]


def gamma_bucket__code(m: GammaPoissonModel, point: ReachPoint):
    return list(m._histogram_with_kplus_bucket(point))


def gamma_bucket__spec(m, point):
    return [point.frequency(k) for k in range(1, point.max_frequency)] + [point.reach(point.max_frequency)]


def gamma_objective__code(m: GammaPoissonModel, h: "list", I: "posf", N: "posf", alpha: "posf", beta: "posf"):
    return m._chi2_distance_with_one_plus_reach(h, I, N, alpha, beta)


def gamma_objective__spec(m, h, I, N, alpha, beta):
    Imax = N * (1 + scipy.stats.nbinom.mean(alpha, 1 / (1 + beta)))
    if Imax <= I:
        return np.sum(np.array(h) ** 2)
    hbar = list(N * m._kreach(np.arange(1, len(h)), I, Imax, alpha, beta))
    hbar.append((1 - np.sum(m._kreach(np.arange(0, len(h)), I, Imax, alpha, beta))) * N)
    hbar = np.array(hbar)
    beyond = (m._extrapolation_value - Imax) ** 2 if Imax < m._extrapolation_value else 0
    return np.sum((hbar - h) ** 2 / (hbar + 1e-6)) + (np.sum(h) - np.sum(hbar)) ** 2 + beyond


def kinflated_pmf__code(alpha: "posf", beta: "posf", a: "list"):
    return KInflatedGammaPoissonDistribution(alpha, beta, a)._pmf


def kinflated_pmf__spec(alpha, beta, a):
    if sum(a) > 1:
        a = [x / sum(a) for x in a]
    n = len(a)
    inside = np.sum(scipy.stats.nbinom.pmf(np.arange(1, n + 1) - 1, alpha, 1 / (1 + beta)))
    tail = scipy.stats.nbinom.pmf(np.arange(n + 1, 1000) - 1, alpha, 1 / (1 + beta))
    scale = 0.0 if inside >= 1 else (1 - np.sum(a)) / (1 - inside)
    pmf = np.array([0.0] + list(a) + list(scale * tail))
    pmf[-1] = 1 - np.sum(pmf[:-1])
    return pmf


def kinflated_stored__code(m: KInflatedGammaPoissonModel, dist: KInflatedGammaPoissonDistribution):
    m._fit_computed = False
    m._fit()
    return [m._max_reach, m._dist, m._max_impressions]


def kinflated_stored__spec(m, dist):
    N, d = m._fit_point(m._reach_point, m._extrapolation_value)
    return [N, d, N * d.expected_value()]


def dirac_poisson__code(mean: "posf", top: "pos"):
    return list(UnivariateMixedPoissonOptimizer.truncated_poisson_pmf_vec(mean, top))


def dirac_poisson__spec(mean, top):
    pmf = scipy.stats.poisson.pmf(range(top + 1), mean)
    pmf[-1] = scipy.stats.poisson.sf(top - 1, mean)
    return list(pmf)


def dirac_training__code(n: "posf", kplus: "list", u: "pos"):
    return DiracMixtureSinglePublisherModel([ReachPoint([n], kplus, None, u)]).hist


def dirac_training__spec(n, kplus, u):
    return np.array(ReachPoint([n], kplus, None, u).zero_included_histogram)


OPTS = {
    "kinflated_kplus": {"stop": ["models.kinflated_gamma_poisson_model.KInflatedGammaPoissonModel._fit", "models.kinflated_gamma_poisson_model.KInflatedGammaPoissonDistribution.kreach", "models.kinflated_gamma_poisson_model.KInflatedGammaPoissonDistribution.kplusreach"]},
    "kinflated_objective": {"stop": ["models.kinflated_gamma_poisson_model.KInflatedGammaPoissonDistribution.kreach", "models.kinflated_gamma_poisson_model.KInflatedGammaPoissonDistribution.kplusreach", "models.kinflated_gamma_poisson_model.KInflatedGammaPoissonDistribution.expected_value"]},
    "kinflated_kplusreach": {"stop": ["models.kinflated_gamma_poisson_model.KInflatedGammaPoissonDistribution.kreach"]},
    "gamma_stored": {"stop": ["models.gamma_poisson_model.GammaPoissonModel._fit_histogram_chi2_distance"]},
    "gamma_stored_fixed": {"stop": ["models.gamma_poisson_model.GammaPoissonModel._fit_histogram_fixed_N"]},
    "gamma_objective": {"stop": ["models.gamma_poisson_model.GammaPoissonModel._kreach"]},
    "kinflated_stored": {"stop": ["models.kinflated_gamma_poisson_model.KInflatedGammaPoissonModel._fit_point"]},
    "dirac_kplus": {"stop": ["models.dirac_mixture_single_publisher_model.DiracMixtureSinglePublisherModel._fit", "models.dirac_mixture_single_publisher_model.UnivariateMixedPoissonOptimizer.predict"]},
    "dirac_predict": {"stop": ["models.dirac_mixture_single_publisher_model.UnivariateMixedPoissonOptimizer.fit", "models.dirac_mixture_single_publisher_model.UnivariateMixedPoissonOptimizer.truncated_poisson_pmf_vec"]},
}


def gamma_fixed(point: ReachPoint, cap: "posf", i: "posf"):
    m = GammaPoissonModel([point], max_reach=cap)
    m._fit()
    return m.by_impressions([i], 5)._kplus_reaches


def kinflated_fixed(m: KInflatedGammaPoissonModel, h: "list", I: "posf", least: "posf", N: "posf", alpha: "posf", beta: "posf", a: "list"):
    return m._fit_histogram_fixed_length_a(h, I, least, N, alpha, beta, a)


def gamma_free(m: GammaPoissonModel, point: ReachPoint, i: "posf"):
    Imax, N, alpha, beta = m._fit_histogram_chi2_distance(point, nstarting_points=1)
    return N * m._kreach(np.arange(1, 6), point.impressions[0], Imax, alpha, beta)
