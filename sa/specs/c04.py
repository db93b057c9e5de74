"""C04: sketches are mergeable, complete and never see spend beyond the campaign."""
from wfa_cardinality_estimation_evaluation_framework.estimators.same_key_aggregator import ExponentialSameKeyAggregator, StandardizedHistogramEstimator
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget, PrivacyTracker
from wfa_planning_evaluation_framework.simulator.publisher import Publisher
from wfa_planning_evaluation_framework.simulator.system_parameters import SystemParameters

OPTS = {
    "sketch": {"stop": ["data_generators.publisher_data.PublisherData.user_counts_by_spend"]},
    "merged": {"stop": ["simulator.publisher.Publisher.liquid_legions_sketch"]},
}
TRACE = {"sketch": {"add_ids": "list", "add": "each", "add_id": "each"}, "merged": {"estimate_cardinality": "each"}}


def campaign(pd, i, params):
    return params.campaign_spend_fractions[i] * pd.max_spend


def campaign_spend__code(pd: PublisherData, i: "nat", params: SystemParameters, tr: PrivacyTracker):
    return Publisher(pd, i, params, tr).campaign_spend


def campaign_spend__spec(pd, i, params, tr):
    return campaign(pd, i, params)


def max_spend__code(pd: PublisherData, i: "nat", params: SystemParameters, tr: PrivacyTracker):
    return Publisher(pd, i, params, tr).max_spend


def max_spend__spec(pd, i, params, tr):
    return pd.max_spend


def campaign_spends__code(ds: DataSet, params: SystemParameters, tr: PrivacyTracker):
    h = HaloSimulator(ds, params, tr)
    return [list(h.campaign_spends), list(h.max_spends), h.publisher_count]


def campaign_spends__spec(ds, params, tr):
    n = ds.publisher_count
    return [[campaign(ds._data[i], i, params) for i in range(n)], [ds._data[i].max_spend for i in range(n)], n]


def sketch__code(pd: PublisherData, i: "nat", params: SystemParameters, tr: PrivacyTracker, spend: "float"):
    return Publisher(pd, i, params, tr).liquid_legions_sketch(spend)


def sketch__spec(pd, i, params, tr, spend):
    return ExponentialSameKeyAggregator(length=int(params.liquid_legions.sketch_size), decay_rate=params.liquid_legions.decay_rate, random_seed=params.liquid_legions.random_seed)


def sketch__spec2(pd, i, params, tr, spend):
    return ExponentialSameKeyAggregator(length=params.liquid_legions.sketch_size, decay_rate=params.liquid_legions.decay_rate, random_seed=params.liquid_legions.random_seed)


def sketch__given(pd, i, params, tr, spend):
    s = sketch__spec(pd, i, params, tr, spend)
    for user, freq in pd.user_counts_by_spend(min(spend, campaign(pd, i, params))).items():
        s.add_ids([user] * freq)


def merged__code(ds: DataSet, params: SystemParameters, tr: PrivacyTracker, spends: "list", eps: "posf", delta: "posf", split: "posf", f: "nat"):
    return HaloSimulator(ds, params, tr).simulated_reach_by_spend(spends, PrivacyBudget(eps, delta), split, f)


def merged__given(ds, params, tr, spends, eps, delta, split, f, sink):
    total = Publisher(ds._data[0], 0, params, tr).liquid_legions_sketch(spends[0])
    for i in range(1, len(spends)):
        total = StandardizedHistogramEstimator.merge_two_sketches(total, Publisher(ds._data[i], i, params, tr).liquid_legions_sketch(spends[i]))
    sink.estimate_cardinality(total)


def merged__given2(ds, params, tr, spends, eps, delta, split, f, sink):
    sink.estimate_cardinality(sum(Publisher(ds._data[i], i, params, tr).liquid_legions_sketch(spends[i]) for i in range(len(spends))))


def merged__given3(ds, params, tr, spends, eps, delta, split, f, sink):
    sink.estimate_cardinality(sum(Publisher(d, i, params, tr).liquid_legions_sketch(spends[i]) for i, d in enumerate(ds._data)))
