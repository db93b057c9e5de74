"""C23: metrics compare fitted with true reach on the same points, relative to the truth.  (generated by tools/gen_c23.py)"""
from typing import List

import numpy as np

from wfa_planning_evaluation_framework.driver.test_point_aggregator import aggregate
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

OPTS = {"*": {"stop": ["models.reach_point.ReachPoint.reach", "models.reach_point.ReachPoint.frequency"]}}


def error(x, y, k=1):
    return [x[i].reach(k) - y[i].reach(k) for i in range(len(x))]


def relative(x, y, k=1):
    return [(x[i].reach(k) - y[i].reach(k)) / x[i].reach(k) for i in range(len(x))]


def abs_relative(x, y, k=1):
    return np.array([abs(x[i].reach(k) - y[i].reach(k)) / x[i].reach(k) for i in range(len(x))])


def mean(v):
    return sum(v) / len(v)


def mare(x, y, k):
    if any(p.max_frequency < k for p in x) or any(y[i].max_frequency < k for i in range(len(x))):
        return np.nan
    return mean(abs_relative(x, y, k))


def shuffle(p, q):
    if p.max_frequency <= 5 or q.max_frequency <= 5:
        return 1.0
    a = [p.frequency(k + 1) for k in range(5)]
    b = [q.frequency(k + 1) for k in range(5)]
    if sum(a) == 0 or sum(b) == 0:
        return 0.5
    return sum(abs(a[k] / sum(a) - b[k] / sum(b)) for k in range(5)) / 2


def npoints__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["npoints"][0]


def npoints__spec(x, y):
    return len(x)


def mean_error__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["mean_error"][0]


def mean_error__spec(x, y):
    return mean(error(x, y))


def mean_abs_error__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["mean_abs_error"][0]


def mean_abs_error__spec(x, y):
    return mean([abs(e) for e in error(x, y)])


def mean_squared_error__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["mean_squared_error"][0]


def mean_squared_error__spec(x, y):
    return mean([e * e for e in error(x, y)])


def mean_abs_relative_error__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["mean_abs_relative_error"][0]


def mean_abs_relative_error__spec(x, y):
    return mare(x, y, 1)


def mean_squared_relative_error__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["mean_squared_relative_error"][0]


def mean_squared_relative_error__spec(x, y):
    return mean([r * r for r in relative(x, y)])


def var_error__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["var_error"][0]


def var_error__spec(x, y):
    return np.var(np.array(error(x, y)))


def var_relative_error__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["var_relative_error"][0]


def var_relative_error__spec(x, y):
    return np.var(np.array(relative(x, y)))


def mean_shuffle_distance__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["mean_shuffle_distance"][0]


def mean_shuffle_distance__spec(x, y):
    return mean([shuffle(x[i], y[i]) for i in range(len(x))])


def mean_squared_shuffle_distance__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["mean_squared_shuffle_distance"][0]


def mean_squared_shuffle_distance__spec(x, y):
    return mean([shuffle(x[i], y[i]) ** 2 for i in range(len(x))])


def var_shuffle_distance__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["var_shuffle_distance"][0]


def var_shuffle_distance__spec(x, y):
    return np.var([shuffle(x[i], y[i]) for i in range(len(x))])


def model_succeeded__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["model_succeeded"][0]


def model_succeeded__spec(x, y):
    return 1


def mare_freq_at_least_2__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["mare_freq_at_least_2"][0]


def mare_freq_at_least_2__spec(x, y):
    return mare(x, y, 2)


def mare_freq_at_least_3__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["mare_freq_at_least_3"][0]


def mare_freq_at_least_3__spec(x, y):
    return mare(x, y, 3)


def mare_freq_at_least_4__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["mare_freq_at_least_4"][0]


def mare_freq_at_least_4__spec(x, y):
    return mare(x, y, 4)


def mare_freq_at_least_5__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["mare_freq_at_least_5"][0]


def mare_freq_at_least_5__spec(x, y):
    return mare(x, y, 5)


def mare_freq_at_least_6__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["mare_freq_at_least_6"][0]


def mare_freq_at_least_6__spec(x, y):
    return mare(x, y, 6)


def mare_freq_at_least_7__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["mare_freq_at_least_7"][0]


def mare_freq_at_least_7__spec(x, y):
    return mare(x, y, 7)


def mare_freq_at_least_8__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["mare_freq_at_least_8"][0]


def mare_freq_at_least_8__spec(x, y):
    return mare(x, y, 8)


def mare_freq_at_least_9__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["mare_freq_at_least_9"][0]


def mare_freq_at_least_9__spec(x, y):
    return mare(x, y, 9)


def relative_error_q10__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["relative_error_q10"][0]


def relative_error_q10__spec(x, y):
    return np.quantile(abs_relative(x, y), 0.1)


def relative_error_q20__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["relative_error_q20"][0]


def relative_error_q20__spec(x, y):
    return np.quantile(abs_relative(x, y), 0.2)


def relative_error_q30__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["relative_error_q30"][0]


def relative_error_q30__spec(x, y):
    return np.quantile(abs_relative(x, y), 0.3)


def relative_error_q40__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["relative_error_q40"][0]


def relative_error_q40__spec(x, y):
    return np.quantile(abs_relative(x, y), 0.4)


def relative_error_q50__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["relative_error_q50"][0]


def relative_error_q50__spec(x, y):
    return np.quantile(abs_relative(x, y), 0.5)


def relative_error_q60__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["relative_error_q60"][0]


def relative_error_q60__spec(x, y):
    return np.quantile(abs_relative(x, y), 0.6)


def relative_error_q70__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["relative_error_q70"][0]


def relative_error_q70__spec(x, y):
    return np.quantile(abs_relative(x, y), 0.7)


def relative_error_q80__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["relative_error_q80"][0]


def relative_error_q80__spec(x, y):
    return np.quantile(abs_relative(x, y), 0.8)


def relative_error_q90__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["relative_error_q90"][0]


def relative_error_q90__spec(x, y):
    return np.quantile(abs_relative(x, y), 0.9)
