"""C28: a modelling strategy trains on the measurements it says it takes."""
from wfa_planning_evaluation_framework.models.ground_truth_reach_curve_model import GroundTruthReachCurveModel
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
from wfa_planning_evaluation_framework.simulator.m3_strategy import M3Strategy
from wfa_planning_evaluation_framework.simulator.single_publisher_strategy import SinglePublisherStrategy
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget, PrivacyTracker
from wfa_planning_evaluation_framework.simulator.system_parameters import SystemParameters

OPTS = {"*": {"stop": [
    "wfa_planning_evaluation_framework.simulator.halo_simulator.HaloSimulator.simulated_reach_by_spend",
    "wfa_planning_evaluation_framework.models.ground_truth_reach_curve_model.GroundTruthReachCurveModel.__init__"]}}


# how much each request may spend is C02's concern: here any share of nothing is nothing
NOTHING = PrivacyBudget(0, 0)


def share(halo, eps, delta):
    return NOTHING


def alone(halo, b, i):
    spends = [halo.campaign_spends[i] if j == i else 0.0 for j in range(halo.publisher_count)]
    return halo.simulated_reach_by_spend(spends, b, max_frequency=10)


def all_but(halo, b, i):
    spends = [0.0 if j == i else halo.campaign_spends[j] for j in range(len(halo.campaign_spends))]
    return halo.simulated_reach_by_spend(spends, b)


def together(halo, b):
    return halo.simulated_reach_by_spend(halo.campaign_spends, b)


def own_point(point, i):
    return ReachPoint([point.impressions[i]], [point.reach(k) for k in range(1, point.max_frequency + 1)], [point.spends[i]])


def rest(halo, b):
    if halo.publisher_count > 2:
        return [all_but(halo, b, i) for i in range(halo.publisher_count)]
    return []


def m3__code(data: DataSet, params: SystemParameters, curve: "any", ckw: "dict", surface: "any", skw: "dict", eps: "posf", delta: "posf"):
    halo = HaloSimulator(data, params, PrivacyTracker())
    return M3Strategy(curve, ckw, surface, skw).fit(halo, params, NOTHING)


def m3__spec(data, params, curve, ckw, surface, skw, eps, delta):
    halo = HaloSimulator(data, params, PrivacyTracker())
    b = share(halo, eps, delta)
    curves = [curve([own_point(alone(halo, b, i), i)], **ckw) for i in range(halo.publisher_count)]
    if halo.publisher_count == 1:
        return curves[0]
    return surface(curves, rest(halo, b) + [together(halo, b)], **skw)


def m3__spec2(data, params, curve, ckw, surface, skw, eps, delta):
    halo = HaloSimulator(data, params, PrivacyTracker())
    b = share(halo, eps, delta)
    curves = [curve([own_point(alone(halo, b, i), i)], **ckw) for i in range(halo.publisher_count)]
    if halo.publisher_count == 1:
        return curves[0]
    return surface(curves, [together(halo, b)] + rest(halo, b), **skw)


def m3_truth__code(data: DataSet, params: SystemParameters, curve: "any", ckw: "dict", surface: "any", skw: "dict", eps: "posf", delta: "posf"):
    halo = HaloSimulator(data, params, PrivacyTracker())
    return M3Strategy(curve, ckw, surface, skw, True).fit(halo, params, NOTHING)


def m3_truth__spec(data, params, curve, ckw, surface, skw, eps, delta):
    halo = HaloSimulator(data, params, PrivacyTracker())
    b = share(halo, eps, delta)
    curves = [GroundTruthReachCurveModel(halo._data_set, i) for i in range(halo.publisher_count)]
    if halo.publisher_count == 1:
        return curves[0]
    return surface(curves, rest(halo, b) + [together(halo, b)], **skw)


def single__code(data: DataSet, params: SystemParameters, curve: "any", ckw: "dict", surface: "any", skw: "dict", eps: "posf", delta: "posf"):
    halo = HaloSimulator(data, params, PrivacyTracker())
    return SinglePublisherStrategy(curve, ckw, surface, skw).fit(halo, params, NOTHING)


def single__spec(data, params, curve, ckw, surface, skw, eps, delta):
    halo = HaloSimulator(data, params, PrivacyTracker())
    return curve([halo.simulated_reach_by_spend(halo.campaign_spends, NOTHING, max_frequency=20)], **ckw)


def single__raises(data, params, curve, ckw, surface, skw, eps, delta):
    halo = HaloSimulator(data, params, PrivacyTracker())
    return halo.publisher_count != 1
