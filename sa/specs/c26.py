"""C26: synthetic data has the users, prices and overlaps it was asked for."""
import math

import numpy as np
from numpy.random import RandomState
from wfa_cardinality_estimation_evaluation_framework.simulations.set_generator import IndependentSetGenerator, SequentiallyCorrelatedSetGenerator

from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.data_set_parameters import DataSetParameters
from wfa_planning_evaluation_framework.data_generators.fixed_price_generator import FixedPriceGenerator
from wfa_planning_evaluation_framework.data_generators.heavy_tailed_impression_generator import HeavyTailedImpressionGenerator
from wfa_planning_evaluation_framework.data_generators.heterogeneous_impression_generator import HeterogeneousImpressionGenerator
from wfa_planning_evaluation_framework.data_generators.homogeneous_impression_generator import HomogeneousImpressionGenerator
from wfa_planning_evaluation_framework.data_generators.independent_overlap_data_set import IndependentOverlapDataSet
from wfa_planning_evaluation_framework.data_generators.overlap_data_set import OverlapDataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.data_generators.sequentially_correlated_overlap_data_set import SequentiallyCorrelatedOverlapDataSet
from wfa_planning_evaluation_framework.data_generators.synthetic_data_design_generator import SyntheticDataDesignGenerator


OPTS = {
    "homogeneous": {"nodep": True}, "heterogeneous": {"nodep": True}, "heavy_tailed": {"nodep": True},
    "homogeneous_again": {"nodep": True}, "heterogeneous_again": {"nodep": True}, "heavy_tailed_again": {"nodep": True},
}


EXC = {"wrong_sizes": ["AssertionError", "ValueError"]}


def homogeneous__code(n: "nat", lam: "posf", rng: np.random.Generator):
    return set(HomogeneousImpressionGenerator(n, lam, rng)())


def homogeneous__spec(n, lam, rng):
    return set(range(n))


def heterogeneous__code(n: "nat", shape: "posf", scale: "posf", rng: np.random.Generator):
    return set(HeterogeneousImpressionGenerator(n, shape, scale, rng)())


def heterogeneous__spec(n, shape, scale, rng):
    return set(range(n))


def heavy_tailed__code(n: "nat", s: "posf", rng: np.random.Generator):
    return set(HeavyTailedImpressionGenerator(n, s, rng)())


def heavy_tailed__spec(n, s, rng):
    return set(range(n))


def homogeneous_again__code(n: "nat", lam: "posf", rng: np.random.Generator):
    g = HomogeneousImpressionGenerator(n, lam, random_generator=rng)
    g()
    return set(g())


def homogeneous_again__spec(n, lam, rng):
    return set(range(n))


def heterogeneous_again__code(n: "nat", shape: "posf", scale: "posf", rng: np.random.Generator):
    g = HeterogeneousImpressionGenerator(n, gamma_shape=shape, gamma_scale=scale, random_generator=rng)
    g()
    return set(g())


def heterogeneous_again__spec(n, shape, scale, rng):
    return set(range(n))


def heavy_tailed_again__code(n: "nat", s: "posf", rng: np.random.Generator):
    g = HeavyTailedImpressionGenerator(n, zeta_s=s, random_generator=rng)
    g()
    return set(g())


def heavy_tailed_again__spec(n, s, rng):
    return set(range(n))


def prices__code(cpi: "float", impressions: "list"):
    return FixedPriceGenerator(cpi)(impressions)


def prices__spec(cpi, impressions):
    return [(impressions[i], (i + 1) * cpi) for i in range(len(impressions))]


def prices_again__code(cpi: "float", first: "list", impressions: "list"):
    g = FixedPriceGenerator(cost_per_impression=cpi)
    g(first)
    return g(impressions)


def prices_again__spec(cpi, first, impressions):
    return [(impressions[i], (i + 1) * cpi) for i in range(len(impressions))]


def generated__code(users: "any", prices: "any", name: "str"):
    d = PublisherData.generate_publisher_data(users, prices, name)
    return d._data, d.name


def generated__spec(users, prices, name):
    d = PublisherData(prices(users()), name)
    return d._data, d.name


def relabelled__code(ids: "list", pubs: "list[PublisherData]"):
    new = OverlapDataSet._label_ids(ids, pubs)
    return [(new[i]._data, new[i].name if pubs[i].name else "", len(new[i]._data)) for i in range(len(new))]


def relabelled_by(ids, pubs, order):
    out = []
    for i in range(min(len(ids), len(pubs))):
        new = dict(zip(order([u for u, _ in pubs[i]._data]), ids[i]))
        p = PublisherData([(new[u], x) for u, x in pubs[i]._data], pubs[i].name)
        out.append((p._data, p.name if pubs[i].name else "", len(p._data)))
    return out


def relabelled__spec(ids, pubs):
    return relabelled_by(ids, pubs, set)


def relabelled_names__code(ids: "list", pubs: "list[PublisherData]"):
    new = OverlapDataSet._label_ids(ids, pubs)
    return [new[i].name if pubs[i].name else "" for i in range(len(new))]


def relabelled_names__spec(ids, pubs):
    return [pubs[i].name if pubs[i].name else "" for i in range(min(len(ids), len(pubs)))]


def relabelled_spends__code(ids: "list", pubs: "list[PublisherData]"):
    return [len(p._data) for p in OverlapDataSet._label_ids(ids, pubs)]


def relabelled_spends__spec(ids, pubs):
    return [len(pubs[i]._data) for i in range(min(len(ids), len(pubs)))]


def wrong_sizes__code(ids: "list", pubs: "list[PublisherData]"):
    return OverlapDataSet._label_ids([ids], [pubs[0]])


def wrong_sizes__refuses(ids, pubs):
    return len(ids) != pubs[0].max_reach


def overlap__code(pubs: "list[PublisherData]", generator: "any", kwargs: "dict", name: "str"):
    d = OverlapDataSet(pubs, generator, kwargs, name)
    return d._data, d.name


def overlap__spec(pubs, generator, kwargs, name):
    ids = generator(set_sizes=[p.max_reach for p in pubs], **kwargs)
    d = DataSet(OverlapDataSet._label_ids(ids, pubs), name)
    return d._data, d.name


def independent__code(pubs: "list[PublisherData]", universe: "nat", rng: np.random.Generator, name: "str"):
    d = IndependentOverlapDataSet(pubs, universe, rng, name=name)
    return d._data, d.name


def independent__spec(pubs, universe, rng, name):
    kw = {"universe_size": universe, "random_state": RandomState(seed=rng.integers(100000, size=1)[0])}
    d = OverlapDataSet(pubs, IndependentSetGenerator, kw, name=name)
    return d._data, d.name


def sequential__code(pubs: "list[PublisherData]", order: "str", sets: "str", shared: "posf", rng: np.random.Generator, name: "str"):
    d = SequentiallyCorrelatedOverlapDataSet(pubs, order, sets, shared, rng, name=name)
    return d._data, d.name


def sequential__spec(pubs, order, sets, shared, rng, name):
    seed = rng.integers(low=0, high=1000000000.0) if rng else 1
    kw = {"order": order, "correlated_sets": sets, "shared_prop": shared, "random_state": np.random.RandomState(seed=seed)}
    d = OverlapDataSet(pubs, SequentiallyCorrelatedSetGenerator, kw, name=name)
    return d._data, d.name


def designed__code(g: SyntheticDataDesignGenerator, params: DataSetParameters):
    return g._generate_data_set(params)


def designed__spec(g, params):
    publishers = []
    size = params.largest_publisher_size
    n = params.num_publishers
    rate = 1 if n == 1 else params.largest_to_smallest_publisher_ratio ** (1 / float(n - 1))
    for i in range(n):
        users = params.impression_generator_params.generator(
            **{"n": size, "random_generator": g._random_generator, **params.impression_generator_params.params})
        prices = params.pricing_generator_params.generator(**params.pricing_generator_params.params)
        publishers.append(PublisherData.generate_publisher_data(users, prices, str(i + 1)))
        size = math.floor(size * rate)
    kw = {**params.overlap_generator_params.params}
    if "random_generator" in kw:
        kw["random_generator"] = g._random_generator
    return params.overlap_generator_params.generator(publishers, name=str(params), **kw)
