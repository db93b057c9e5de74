"""C06: cross-publisher reach counts each user once, with total frequency."""
from typing import List
from collections import Counter
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.models.ground_truth_reach_curve_model import GroundTruthReachCurveModel


def total_frequencies(per_publisher):
    total = Counter()
    for counts in per_publisher:
        for user, freq in counts.items():
            total[user] += freq
    return total


def tail_counts(total, max_frequency):
    at_least = [0] * max_frequency
    for c in total.values():
        at_least[min(c, max_frequency) - 1] += 1
    for i in range(max_frequency - 2, -1, -1):
        at_least[i] += at_least[i + 1]
    return at_least


def by_spend_counts__code(pubs: List[PublisherData], spends: "list", f: "nat"):
    return DataSet(pubs, "d").reach_by_spend(spends, f)._kplus_reaches


def by_spend_counts__spec(pubs, spends, f):
    return tail_counts(total_frequencies([p.user_counts_by_spend(s) for p, s in zip(pubs, spends)]), f)


def by_spend_counts__raises(pubs, spends, f):
    return len(spends) != len(pubs)


def by_spend_impressions__code(pubs: List[PublisherData], spends: "list", f: "nat"):
    return DataSet(pubs, "d").reach_by_spend(spends, f).impressions


def by_spend_impressions__spec(pubs, spends, f):
    return [sum(p.user_counts_by_spend(s).values()) for p, s in zip(pubs, spends)]


def by_spend_spends__code(pubs: List[PublisherData], spends: "list", f: "nat"):
    return DataSet(pubs, "d").reach_by_spend(spends, f).spends


def by_spend_spends__spec(pubs, spends, f):
    return spends if spends else None


def by_impressions_counts__code(pubs: List[PublisherData], imps: "list", f: "nat"):
    return DataSet(pubs, "d").reach_by_impressions(imps, f)._kplus_reaches


def by_impressions_counts__spec(pubs, imps, f):
    return tail_counts(total_frequencies([p.user_counts_by_impressions(n) for p, n in zip(pubs, imps)]), f)


def by_impressions_counts__raises(pubs, imps, f):
    return len(imps) != len(pubs)


def by_impressions_spends__code(pubs: List[PublisherData], imps: "list", f: "nat"):
    return DataSet(pubs, "d").reach_by_impressions(imps, f).spends


def by_impressions_spends__spec(pubs, imps, f):
    s = [p.spend_by_impressions(n) for p, n in zip(pubs, imps)]
    return s if s else None


def by_impressions_impressions__code(pubs: List[PublisherData], imps: "list", f: "nat"):
    return DataSet(pubs, "d").reach_by_impressions(imps, f).impressions


def by_impressions_impressions__spec(pubs, imps, f):
    return imps


def max_reach__code(pubs: List[PublisherData]):
    return DataSet(pubs, "d").maximum_reach


def max_reach__spec(pubs):
    everyone = set()
    for p in pubs:
        everyone.update(u for u, _ in p._data)
    return len(everyone)


def universe__code(pubs: List[PublisherData], u: "nat"):
    return DataSet(pubs, "d", u).universe_size


def universe__spec(pubs, u):
    return u


def universe_default__code(pubs: List[PublisherData]):
    return DataSet(pubs, "d").universe_size


def universe_default__spec(pubs):
    everyone = set()
    for p in pubs:
        everyone.update(u for u, _ in p._data)
    return 2 * len(everyone)


def point_universe__code(pubs: List[PublisherData], spends: "list", imps: "list", u: "nat"):
    d = DataSet(pubs, "d", u)
    return [d.reach_by_spend(spends)._universe_size, d.reach_by_impressions(imps)._universe_size]


def point_universe__spec(pubs, spends, imps, u):
    return [u, u]


def publisher_count__code(pubs: List[PublisherData]):
    return DataSet(pubs, "d").publisher_count


def publisher_count__spec(pubs):
    return len(pubs)


def vector_spends__code(ds: DataSet, imps: "list"):
    return ds.spend_by_impressions(imps)


def vector_spends__spec(ds, imps):
    return [ds._data[i].spend_by_impressions(imps[i]) for i in range(len(ds._data))]


def vector_impressions__code(ds: DataSet, spends: "list"):
    return ds.impressions_by_spend(spends)


def vector_impressions__spec(ds, spends):
    return [ds._data[i].impressions_by_spend(spends[i]) for i in range(len(ds._data))]


def curve_by_impressions__code(ds: DataSet, i: "nat", imps: "list", f: "nat"):
    return GroundTruthReachCurveModel(ds, i).by_impressions(imps, f)


def curve_by_impressions__spec(ds, i, imps, f):
    v = [0] * ds.publisher_count
    v[i] = imps[0]
    return ds.reach_by_impressions(v, f)


def curve_by_impressions__raises(ds, i, imps, f):
    return len(imps) != 1


def curve_by_spend__code(ds: DataSet, i: "nat", spends: "list", f: "nat"):
    return GroundTruthReachCurveModel(ds, i).by_spend(spends, f)


def curve_by_spend__spec(ds, i, spends, f):
    v = [0] * ds.publisher_count
    v[i] = spends[0]
    return ds.reach_by_spend(v, f)


def curve_by_spend__raises(ds, i, spends, f):
    return len(spends) != 1


def curve_max_reach__code(ds: DataSet, i: "nat"):
    return GroundTruthReachCurveModel(ds, i).max_reach


def curve_max_reach__spec(ds, i):
    return ds._data[i].max_reach


def curve_impressions_for_spend__code(ds: DataSet, i: "nat", s: "float"):
    return GroundTruthReachCurveModel(ds, i).impressions_for_spend(s)


def curve_impressions_for_spend__spec(ds, i, s):
    return ds._data[i].impressions_by_spend(s)
