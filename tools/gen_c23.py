"""Writes sa/specs/c23.py (one law per metric column)."""
import os
out = ['''"""C23: metrics compare fitted with true reach on the same points, relative to the truth.  (generated by tools/gen_c23.py)"""
from typing import List

import numpy as np

from wfa_planning_evaluation_framework.driver.test_point_aggregator import aggregate
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

OPTS = {"*": {"stop": ["models.reach_point.ReachPoint.reach", "models.reach_point.ReachPoint.frequency"]}}


def error(x, y, k=1):
    return [x[i].reach(k) - y[i].reach(k) for i in range(len(x))]


def relative(x, y, k=1):
    return [(x[i].reach(k) - y[i].reach(k)) / x[i].reach(k) for i in range(len(x))]


def abs_relative(x, y, k=1):
    return np.array([abs(x[i].reach(k) - y[i].reach(k)) / x[i].reach(k) for i in range(len(x))])


def mean(v):
    return sum(v) / len(v)


def mare(x, y, k):
    if any(p.max_frequency < k for p in x) or any(y[i].max_frequency < k for i in range(len(x))):
        return np.nan
    return mean(abs_relative(x, y, k))


def shuffle(p, q):
    if p.max_frequency <= 5 or q.max_frequency <= 5:
        return 1.0
    a = [p.frequency(k + 1) for k in range(5)]
    b = [q.frequency(k + 1) for k in range(5)]
    if sum(a) == 0 or sum(b) == 0:
        return 0.5
    return sum(abs(a[k] / sum(a) - b[k] / sum(b)) for k in range(5)) / 2
''']
cols = {
 "npoints": "len(x)",
 "mean_error": "mean(error(x, y))",
 "mean_abs_error": "mean([abs(e) for e in error(x, y)])",
 "mean_squared_error": "mean([e * e for e in error(x, y)])",
 "mean_abs_relative_error": "mare(x, y, 1)",
 "mean_squared_relative_error": "mean([r * r for r in relative(x, y)])",
 "var_error": "np.var(np.array(error(x, y)))",
 "var_relative_error": "np.var(np.array(relative(x, y)))",
 "mean_shuffle_distance": "mean([shuffle(x[i], y[i]) for i in range(len(x))])",
 "mean_squared_shuffle_distance": "mean([shuffle(x[i], y[i]) ** 2 for i in range(len(x))])",
 "var_shuffle_distance": "np.var([shuffle(x[i], y[i]) for i in range(len(x))])",
 "model_succeeded": "1",
}
for k in range(2, 10):
    cols["mare_freq_at_least_%d" % k] = "mare(x, y, %d)" % k
for q in range(1, 10):
    cols["relative_error_q%d0" % q] = "np.quantile(abs_relative(x, y), 0.%d)" % q
for c, e in cols.items():
    out.append('''

def {0}__code(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, [y[i] for i in range(len(x))])["{0}"][0]


def {0}__spec(x, y):
    return {1}
'''.format(c, e))
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), "c23_extra.py")
if os.path.exists(extra):
    out.append("\n\n" + open(extra).read())
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa/specs/c23.py"), "w").write("".join(out))
