"""C25: reported privacy consumption is the worst case over sampling buckets."""
from typing import List
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyTracker, NoisingEvent, PrivacyBudget, SamplingBucketIndices


def contains__code(start: "float", rate: "float", x: "float"):
    return SamplingBucketIndices(start, rate).contains(x)


def contains__spec(start, rate, x):
    if start <= x:
        return x < start + rate
    return x + 1 < start + rate


def charged(events):
    tr = PrivacyTracker()
    for e in events:
        tr.append(e)
    return tr


def total_epsilon(events, x):
    return sum(e.budget.epsilon for e in events if e.sampling_buckets.contains(x))


def total_delta(events, x):
    return sum(e.budget.delta for e in events if e.sampling_buckets.contains(x))


def bucket_epsilon__code(events: List[NoisingEvent], x: "float"):
    return charged(events).privacy_consumption_for_sampling_bucket(x).epsilon


def bucket_epsilon__spec(events, x):
    return total_epsilon(events, x)


def bucket_delta__code(events: List[NoisingEvent], x: "float"):
    return charged(events).privacy_consumption_for_sampling_bucket(x).delta


def bucket_delta__spec(events, x):
    return total_delta(events, x)


def fresh__code():
    return PrivacyTracker().privacy_consumption


def fresh__spec():
    return PrivacyBudget(0, 0)


def one_event__code(a: NoisingEvent, x: "float"):
    tr = PrivacyTracker()
    tr.append(a)
    return [tr.privacy_consumption_for_sampling_bucket(x).epsilon, tr.privacy_consumption_for_sampling_bucket(x).delta]


def one_event__spec(a, x):
    if a.sampling_buckets.contains(x):
        return [a.budget.epsilon, a.budget.delta]
    return [0, 0]


def two_events__code(a: NoisingEvent, b: NoisingEvent, x: "float"):
    tr = PrivacyTracker()
    tr.append(a)
    tr.append(b)
    return [tr.privacy_consumption_for_sampling_bucket(x).epsilon, tr.privacy_consumption_for_sampling_bucket(x).delta]


def two_events__spec(a, b, x):
    ea = a.budget.epsilon if a.sampling_buckets.contains(x) else 0
    eb = b.budget.epsilon if b.sampling_buckets.contains(x) else 0
    da = a.budget.delta if a.sampling_buckets.contains(x) else 0
    db = b.budget.delta if b.sampling_buckets.contains(x) else 0
    return [ea + eb, da + db]


def overall_epsilon__code(events: List[NoisingEvent]):
    return charged(events).privacy_consumption.epsilon


def overall_epsilon__spec(events):
    worst = 0.0
    for x in set([0] + [e.sampling_buckets.smallest_index for e in events]):
        worst = max(worst, total_epsilon(events, x))
    return worst


def overall_epsilon__spec2(events):
    return max([total_epsilon(events, x) for x in set([0] + [e.sampling_buckets.smallest_index for e in events])])


def overall_delta__code(events: List[NoisingEvent]):
    return charged(events).privacy_consumption.delta


def overall_delta__spec(events):
    worst = 0.0
    for x in set([0] + [e.sampling_buckets.smallest_index for e in events]):
        worst = max(worst, total_delta(events, x))
    return worst


def overall_delta__spec2(events):
    return max([total_delta(events, x) for x in set([0] + [e.sampling_buckets.smallest_index for e in events])])


def overall_two__code(a: NoisingEvent, b: NoisingEvent):
    tr = PrivacyTracker()
    tr.append(a)
    tr.append(b)
    return tr.privacy_consumption.epsilon


def overall_two__spec(a, b):
    return max(0.0, max(total_epsilon([a, b], x) for x in [0, a.sampling_buckets.smallest_index, b.sampling_buckets.smallest_index]))


def overall_two__spec2(a, b):
    return max(total_epsilon([a, b], x) for x in [0, a.sampling_buckets.smallest_index, b.sampling_buckets.smallest_index])


def mechanisms__code(events: List[NoisingEvent]):
    return charged(events).mechanisms


def mechanisms__spec(events):
    return [e.mechanism for e in events]


def default_buckets__code(budget: PrivacyBudget, mech: "str", params: "dict"):
    e = NoisingEvent(budget, mech, params)
    return [e.budget, e.mechanism, e.sampling_buckets.smallest_index, e.sampling_buckets.sampling_rate]


def default_buckets__spec(budget, mech, params):
    return [budget, mech, 0, 1]


def append_keeps__code(tr: PrivacyTracker, e: NoisingEvent):
    tr.append(e)
    return tr.mechanisms


def append_keeps__spec(tr, e):
    return tr.mechanisms + [e.mechanism]

