"""C22: Venn regions partition the reached users and unions add the right regions."""
from collections import defaultdict
from itertools import chain, combinations
from typing import Dict, List

import numpy as np
from wfa_cardinality_estimation_evaluation_framework.estimators.estimator_noisers import GeometricEstimateNoiser
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator, MAX_ACTIVE_PUBLISHERS

OPTS = {"*": {"stop": ["data_generators.publisher_data.PublisherData.user_counts_by_spend", "models.reach_point.ReachPoint.frequencies_to_kplus_reaches", "data_generators.data_set.DataSet.impressions_by_spend"]}}


def active(spends):
    return [i for i in range(len(spends)) if spends[i]]


def subsets(pubs):
    return chain.from_iterable(combinations(pubs, r) for r in range(1, len(pubs) + 1))


def mask(pubs):
    return sum(1 << i for i in pubs)


def counts(sim, spends, i):
    return sim._publishers[i]._publisher_data.user_counts_by_spend(spends[i])


def region_keys__code(sim: HaloSimulator, spends: List[float], m: "pos"):
    return list(sim._form_venn_diagram_regions(spends, m).keys())


def region_keys__spec(sim, spends, m):
    return [mask(s) for s in subsets(active(spends))]


def regions__code(sim: HaloSimulator, spends: List[float], m: "pos"):
    return sim._form_venn_diagram_regions(spends, m)


def regions__spec(sim, spends, m):
    region = defaultdict(int)
    total = defaultdict(int)
    for i in active(spends):
        for user, n in counts(sim, spends, i).items():
            region[user] |= 1 << i
            total[user] += n
    table = {mask(s): [0] * (m + 1) for s in subsets(active(spends))}
    for user in region:
        table[region[user]][min(m, total[user])] += 1
    occupied = set(region.values())
    return {r: (ReachPoint.frequencies_to_kplus_reaches(table[r][1:]) if r in occupied else table[r][1:]) for r in table}


def regions__refuses(sim, spends, m):
    return len(active(spends)) > MAX_ACTIVE_PUBLISHERS


def union__code(sim: HaloSimulator, pubs: List[int], regions: Dict[int, int]):
    return sim._aggregate_reach_in_primitive_venn_diagram_regions(pubs, regions)


def union__spec(sim, pubs, regions):
    return sum(regions[r] for r in regions if r & mask(pubs))


def point_reach__code(sim: HaloSimulator, spends: List[float], regions: Dict[int, int]):
    return [p._kplus_reaches for p in sim._generate_reach_points_from_venn_diagram(spends, regions)]


def point_reach__spec(sim, spends, regions):
    return [[sum(regions[r] for r in regions if r & mask(s))] for s in subsets(active(spends))]


def point_spends__code(sim: HaloSimulator, spends: List[float], regions: Dict[int, int]):
    assert spends
    assert len(sim._data_set.impressions_by_spend(spends)) == len(spends)
    return [p._spends for p in sim._generate_reach_points_from_venn_diagram(spends, regions)]


def point_spends__spec(sim, spends, regions):
    assert spends
    return [[spends[i] * int(i in set(s)) for i in range(len(spends))] for s in subsets(active(spends))]


def point_impressions__code(sim: HaloSimulator, spends: List[float], regions: Dict[int, int]):
    assert spends
    assert len(sim._data_set.impressions_by_spend(spends)) == len(spends)
    return [p._impressions for p in sim._generate_reach_points_from_venn_diagram(spends, regions)]


def point_impressions__spec(sim, spends, regions):
    assert spends
    assert len(sim._data_set.impressions_by_spend(spends)) == len(spends)
    imps = sim._data_set.impressions_by_spend(spends)
    return [[imps[i] * int(i in set(s)) for i in range(len(spends))] for s in subsets(active(spends))]


def point_universe__code(sim: HaloSimulator, spends: List[float], regions: Dict[int, int]):
    return [p._universe_size for p in sim._generate_reach_points_from_venn_diagram(spends, regions)]


def point_universe__spec(sim, spends, regions):
    return [sim._data_set.universe_size for s in subsets(active(spends))]


def sampled__code(sim: HaloSimulator, regions: Dict[int, List[int]], n: "nat"):
    return sim._sample_venn_diagram(regions, n)


def sampled__spec(sim, regions, n):
    keys = list(regions.keys())
    drawn = sim._params.generator.multivariate_hypergeometric([regions[r][0] for r in keys], n)
    return {keys[j]: drawn[j] for j in range(len(keys))}


def sampled__spec2(sim, regions, n):
    keys = sorted(regions.keys())
    drawn = sim._params.generator.multivariate_hypergeometric([regions[r][0] for r in keys], n)
    return {keys[j]: drawn[j] for j in range(len(keys))}


def scaled__code(sim: HaloSimulator, regions: Dict[int, int], card: "nat", std: float, budget: PrivacyBudget, split: float):
    assert sum(regions.values())
    return sim._scale_up_reach_in_primitive_regions(regions, card, std, budget, split)


def scaled__spec(sim, regions, card, std, budget, split):
    assert sum(regions.values())
    noiser = GeometricEstimateNoiser(budget.epsilon * split, np.random.RandomState(seed=sim._params.generator.integers(low=0, high=1e9)))
    total = noiser(sim._params.generator.normal(card, std))
    return {r: regions[r] * total / sum(regions.values()) for r in regions}


def noised__code(sim: HaloSimulator, regions: Dict[int, int], budget: PrivacyBudget, split: float):
    return sim._add_dp_noise_to_primitive_regions(regions, budget, split)


def noised__spec(sim, regions, budget, split):
    noiser = GeometricEstimateNoiser(budget.epsilon * split, np.random.RandomState(seed=sim._params.generator.integers(low=0, high=1e9)))
    return {r: max(0, noiser(regions[r])) for r in regions}
