"""C18: test points lie inside each publisher's spend range, in the promised number."""
import itertools

import numpy as np
import pyDOE

from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.driver.grid_test_point_generator import GridTestPointGenerator
from wfa_planning_evaluation_framework.driver.latin_hypercube_random_test_point_generator import LatinHypercubeRandomTestPointGenerator
from wfa_planning_evaluation_framework.driver.uniformly_random_test_point_generator import UniformlyRandomTestPointGenerator


def max_spends(ds):
    return [ds._data[i].max_spend for i in range(ds.publisher_count)]


def grid__code(ds: DataSet, rng: "any", n: "pos"):
    return [list(p) for p in GridTestPointGenerator(ds, rng, n).test_points()]


def grid__spec(ds, rng, n):
    return [list(p) for p in itertools.product(*[[m * (k + 1) / (n + 1) for k in range(n)] for m in max_spends(ds)])]


def grid_kw__code(ds: DataSet, rng: "any", n: "pos"):
    return [list(p) for p in GridTestPointGenerator(dataset=ds, rng=rng, grid_size=n).test_points()]


def grid_kw__spec(ds, rng, n):
    return [list(p) for p in itertools.product(*[[m * (k + 1) / (n + 1) for k in range(n)] for m in max_spends(ds)])]


def uniform_count__code(ds: DataSet, rng: np.random.Generator, npoints: "nat", npub: "nat", least: "nat"):
    return len(list(UniformlyRandomTestPointGenerator(ds, rng, npoints=npoints, npublishers=npub, minimum_points_per_publisher=least).test_points()))


def uniform_count__spec(ds, rng, npoints, npub, least):
    return max(npoints, npub * least, 100)


def uniform__code(ds: DataSet, rng: np.random.Generator, npoints: "nat", npub: "nat", least: "nat"):
    return list(UniformlyRandomTestPointGenerator(ds, rng, npoints=npoints, npublishers=npub, minimum_points_per_publisher=least).test_points())


def uniform__spec(ds, rng, npoints, npub, least):
    out = []
    for _ in range(max(npoints, npub * least, 100)):
        u = rng.random(size=ds.publisher_count)
        out.append([max_spends(ds)[i] * u[i] for i in range(ds.publisher_count)])
    return out


def uniform_default__code(ds: DataSet, rng: np.random.Generator):
    return len(list(UniformlyRandomTestPointGenerator(ds, rng).test_points()))


def uniform_default__spec(ds, rng):
    return 100


def lhs_count__code(ds: DataSet, rng: np.random.Generator, npoints: "nat", npub: "nat", least: "nat"):
    return len(list(LatinHypercubeRandomTestPointGenerator(ds, rng, npoints=npoints, npublishers=npub, minimum_points_per_publisher=least).test_points()))


def lhs_count__spec(ds, rng, npoints, npub, least):
    return min(max(npoints, npub * least, 100), 2000)


def lhs__code(ds: DataSet, rng: np.random.Generator, npoints: "nat", npub: "nat", least: "nat"):
    return list(LatinHypercubeRandomTestPointGenerator(ds, rng, npoints=npoints, npublishers=npub, minimum_points_per_publisher=least).test_points())


def lhs__spec(ds, rng, npoints, npub, least):
    n = min(max(npoints, npub * least, 100), 2000)
    design = pyDOE.lhs(n=ds.publisher_count, samples=n, criterion="maximin")
    rows = rng.permutation(n)
    cols = rng.permutation(ds.publisher_count)
    return [[max_spends(ds)[i] * design[rows[j]][cols[i]] for i in range(ds.publisher_count)] for j in range(n)]
