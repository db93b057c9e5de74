"""C12: distinct trial configurations have distinct names and are never merged."""
from wfa_planning_evaluation_framework.driver.trial_descriptor import TrialDescriptor
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.data_generators.data_set_parameters import DataSetParameters
from wfa_planning_evaluation_framework.driver.experimental_design import ExperimentalDesign
from wfa_planning_evaluation_framework.driver.experimental_trial import ExperimentalTrial


def trial_name(x: TrialDescriptor):
    return str(x)


def data_set_name(x: DataSetParameters):
    return str(x)


def result_path(td: TrialDescriptor, experiment_dir: "str", data_set_name: "str", data_design: DataDesign):
    return ExperimentalTrial(experiment_dir, data_design, data_set_name, td)._compute_trial_results_path()


def design_trials(d: ExperimentalDesign):
    return d.generate_trials()
