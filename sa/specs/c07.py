"""C07: k+ reaches are exact capped tail counts; frequencies are their differences."""
from typing import List
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.reach_curve import ReachCurve


def kplus_from_counts__code(counts: "dict", f: "nat"):
    return ReachPoint.user_counts_to_kplus_reaches(counts, f)


def kplus_from_counts__spec(counts, f):
    exact = [0] * f
    for c in counts.values():
        exact[min(c, f) - 1] += 1
    for i in range(f - 2, -1, -1):
        exact[i] += exact[i + 1]
    return exact


def exact_from_counts__code(counts: "dict", f: "nat"):
    return ReachPoint.user_counts_to_frequencies(counts, f)


def exact_from_counts__spec(counts, f):
    exact = [0] * f
    for c in counts.values():
        exact[min(c, f) - 1] += 1
    return exact


def data_set_kplus__code(ds: DataSet, counts: "dict", f: "nat"):
    return ds._counts_to_histogram(counts, f)


def data_set_kplus__spec(ds, counts, f):
    exact = [0] * f
    for c in counts.values():
        exact[min(c, f) - 1] += 1
    for i in range(f - 2, -1, -1):
        exact[i] += exact[i + 1]
    return exact


def kplus_from_exact__code(freqs: "list"):
    return ReachPoint.frequencies_to_kplus_reaches(freqs)


def kplus_from_exact__spec(freqs):
    out = list(freqs)
    for k in range(len(freqs) - 2, -1, -1):
        out[k] += out[k + 1]
    return out


def reach__code(imps: "list", kplus: "list", k: "int"):
    return ReachPoint(imps, kplus).reach(k)


def reach__spec(imps, kplus, k):
    return kplus[k - 1]


def reach__raises(imps, kplus, k):
    return k < 1 or k > len(kplus)


def reach_default__code(imps: "list", kplus: "list"):
    return ReachPoint(imps, kplus).reach()


def reach_default__spec(imps, kplus):
    return kplus[0]


def frequency__code(imps: "list", kplus: "list", k: "int"):
    return ReachPoint(imps, kplus).frequency(k)


def frequency__spec(imps, kplus, k):
    return kplus[k - 1] - kplus[k]


def frequency__raises(imps, kplus, k):
    return k < 1 or k >= len(kplus)


def frequencies__code(imps: "list", kplus: "list"):
    return ReachPoint(imps, kplus).frequencies


def frequencies__spec(imps, kplus):
    return [kplus[i] - kplus[i + 1] for i in range(len(kplus) - 1)]


def with_last__code(imps: "list", kplus: "list"):
    return ReachPoint(imps, kplus).frequencies_with_kplus_bucket


def with_last__spec(imps, kplus):
    return [kplus[i] - kplus[i + 1] for i in range(len(kplus) - 1)] + [kplus[-1]]


def with_zero__code(imps: "list", kplus: "list", spends: "list", u: "nat"):
    return ReachPoint(imps, kplus, spends, u).zero_included_histogram


def with_zero__spec(imps, kplus, spends, u):
    return [u - kplus[0]] + [kplus[i] - kplus[i + 1] for i in range(len(kplus) - 1)] + [kplus[-1]]


def no_universe__code(imps: "list", kplus: "list"):
    return ReachPoint(imps, kplus).zero_included_histogram


def no_universe__raises(imps, kplus):
    return True


def no_universe_size__code(imps: "list", kplus: "list"):
    return ReachPoint(imps, kplus).universe_size


def no_universe_size__raises(imps, kplus):
    return True


def universe__code(imps: "list", kplus: "list", u: "nat"):
    return ReachPoint(imps, kplus, None, u).universe_size


def universe__spec(imps, kplus, u):
    return u


def max_frequency__code(imps: "list", kplus: "list"):
    return ReachPoint(imps, kplus).max_frequency


def max_frequency__spec(imps, kplus):
    return len(kplus)


def echo_impressions__code(imps: "list", kplus: "list", spends: "list"):
    return ReachPoint(imps, kplus, spends).impressions


def echo_impressions__spec(imps, kplus, spends):
    return imps


def echo_spends__code(imps: "list", kplus: "list", spends: "list"):
    return ReachPoint(imps, kplus, spends).spends


def echo_spends__spec(imps, kplus, spends):
    return spends if spends else None


def echo_spends__raises(imps, kplus, spends):
    return spends and len(imps) != len(spends)


def curve_tail_sums__code(curve: ReachCurve, hist: "list"):
    return curve._kplus_reaches_from_frequencies(hist)


def curve_tail_sums__spec(curve, hist):
    out = list(hist)
    for k in range(len(hist) - 2, -1, -1):
        out[k] += out[k + 1]
    return out
