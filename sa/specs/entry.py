"""Entry points evaluated by the effect rules (not laws)."""
from typing import List
from wfa_planning_evaluation_framework.driver.test_point_aggregator import aggregate, aggregate_on_exception
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.driver.experimental_trial import ExperimentalTrial
from wfa_planning_evaluation_framework.driver.trial_descriptor import TrialDescriptor
from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_wrapper_base import FilesystemWrapperBase
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.data_set_parameters import DataSetParameters
from wfa_planning_evaluation_framework.data_generators.synthetic_data_design_generator import SyntheticDataDesignGenerator
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
from wfa_planning_evaluation_framework.simulator.m3_strategy import M3Strategy
from wfa_planning_evaluation_framework.simulator.single_publisher_strategy import SinglePublisherStrategy
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget, PrivacyTracker
from wfa_planning_evaluation_framework.simulator.system_parameters import SystemParameters


def reach_request(ds: DataSet, params: SystemParameters, tr: PrivacyTracker, spends: "list", eps: "posf", delta: "posf", split: "posf", f: "nat"):
    return HaloSimulator(ds, params, tr).simulated_reach_by_spend(spends, PrivacyBudget(eps, delta), split, f)


def venn_request(ds: DataSet, params: SystemParameters, tr: PrivacyTracker, spends: "list", eps: "posf", delta: "posf", split: "posf"):
    return HaloSimulator(ds, params, tr).simulated_venn_diagram_reach_by_spend(spends, PrivacyBudget(eps, delta), split)


def m3_fit(halo: HaloSimulator, params: SystemParameters, curve: "any", ckw: "dict", surface: "any", skw: "dict", eps: "posf", delta: "posf"):
    return M3Strategy(curve, ckw, surface, skw).fit(halo, params, PrivacyBudget(eps, delta))


def m3_fit_truth(halo: HaloSimulator, params: SystemParameters, curve: "any", ckw: "dict", surface: "any", skw: "dict", eps: "posf", delta: "posf"):
    return M3Strategy(curve, ckw, surface, skw, True).fit(halo, params, PrivacyBudget(eps, delta))


def single_fit(halo: HaloSimulator, params: SystemParameters, curve: "any", ckw: "dict", surface: "any", skw: "dict", eps: "posf", delta: "posf"):
    return SinglePublisherStrategy(curve, ckw, surface, skw).fit(halo, params, PrivacyBudget(eps, delta))


def m3_fit_default(halo: HaloSimulator, params: SystemParameters, curve: "any", ckw: "dict", surface: "any", skw: "dict", eps: "posf", delta: "posf"):
    return M3Strategy(single_pub_model=curve, single_pub_model_kwargs=ckw, multi_pub_model=surface, multi_pub_model_kwargs=skw, use_ground_truth_for_reach_curves=False).fit(halo, params, PrivacyBudget(eps, delta))


def trial(d: "str", design: DataDesign, name: "str", td: TrialDescriptor, analysis: "str", seed: "int", fs: FilesystemWrapperBase):
    return ExperimentalTrial(d, design, name, td, analysis).evaluate(seed, fs)


def row_success(x: List[ReachPoint], y: List[ReachPoint]):
    return aggregate(x, y)


def row_failure(msg: "str"):
    return aggregate_on_exception(msg)


def synth(out: "str", config: "str", seed: "int", verbose: "bool"):
    return SyntheticDataDesignGenerator(out, config, seed, verbose)()


def load(design: DataDesign, name: "str"):
    return design.by_name(name)
