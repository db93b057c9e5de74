"""C24: how the framework consumes a descriptor (evaluated by the rule with the descriptors of the shipped designs)."""
import numpy as np
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.data_set_parameters import DataSetParameters
from wfa_planning_evaluation_framework.data_generators.synthetic_data_design_generator import SyntheticDataDesignGenerator
from wfa_planning_evaluation_framework.driver.experiment_parameters import ExperimentParameters
from wfa_planning_evaluation_framework.driver.modeling_strategy_descriptor import ModelingStrategyDescriptor
from wfa_planning_evaluation_framework.driver.modeling_strategy_descriptor import MODELING_STRATEGIES, SINGLE_PUB_MODELS, MULTI_PUB_MODELS
from wfa_planning_evaluation_framework.driver.experiment_parameters import TEST_POINT_STRATEGIES
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget
from wfa_planning_evaluation_framework.simulator.system_parameters import SystemParameters


def strategy(msd: ModelingStrategyDescriptor, halo: HaloSimulator, params: SystemParameters, budget: PrivacyBudget):
    return msd.instantiate_strategy().fit(halo, params, budget)


def points(ep: ExperimentParameters, ds: DataSet, rng: "any"):
    return ep.generate_test_points(ds, rng)


def data_set(p: DataSetParameters, g: SyntheticDataDesignGenerator):
    return g._generate_data_set(p)


def registries():
    return [MODELING_STRATEGIES, SINGLE_PUB_MODELS, MULTI_PUB_MODELS, TEST_POINT_STRATEGIES]
