"""C17: every execution mode evaluates the same trials the same way."""
import pandas as pd
import sys
import importlib.util
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.driver.trial_descriptor import TrialDescriptor
from wfa_planning_evaluation_framework.driver.experimental_design import ExperimentalDesign, EvaluateTrialDoFn, CombineDataFrameFn
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.driver.experiment import Experiment
from wfa_planning_evaluation_framework.driver.experimental_trial import ExperimentalTrial
from wfa_planning_evaluation_framework.driver.experiment_parameters import ExperimentParameters
from wfa_planning_evaluation_framework.driver.experiment_driver import ExperimentDriver
from wfa_planning_evaluation_framework.driver.experiment_driver import main as driver_main
from wfa_planning_evaluation_framework.simulator.system_parameters import SystemParameters
from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_wrapper_base import FilesystemWrapperBase


OPTS = {
    "trials_of": {"stop": ["driver.trial_descriptor.TrialDescriptor.update_from_dataset", "data_generators.data_design.DataDesign.by_name"]},
    "distributed": {"stop": ["driver.experimental_trial.ExperimentalTrial.evaluate"]},
}


# ---- the trials of one experiment: every descriptor on its data set
def trials_of__code(where: "str", data: DataDesign, name: "str", tds: "list[TrialDescriptor]", kind: "str"):
    return Experiment(where, data, name, tds, kind).generate_trials()


def trials_of__spec(where, data, name, tds, kind):
    return [ExperimentalTrial(where, data, name, td.update_from_dataset(data.by_name(name)), kind) for td in tds]


# ---- the descriptor of a trial is the one of the design, apart from what the data set fills in
def descriptor__code(td: TrialDescriptor, ds: DataSet):
    return td.update_from_dataset(ds)


def descriptor__spec(td, ds):
    return TrialDescriptor(td.modeling_strategy, td.system_params.update_from_dataset(ds), td.experiment_params.update_from_dataset(ds))


def spends__code(p: SystemParameters, ds: DataSet):
    return p.update_from_dataset(ds).campaign_spend_fractions


def spends__spec(p, ds):
    return p.campaign_spend_fractions_generator(ds) if p.campaign_spend_fractions_generator else p.campaign_spend_fractions


def spends__spec2(p, ds):
    return p.campaign_spend_fractions_generator(ds) if p.campaign_spend_fractions_generator is not None else p.campaign_spend_fractions


def system__code(p: SystemParameters, ds: DataSet):
    u = p.update_from_dataset(ds)
    return [u.liquid_legions, u.generator]


def system__spec(p, ds):
    return [p.liquid_legions, p.generator]


def experiment__code(p: ExperimentParameters, ds: DataSet):
    u = p.update_from_dataset(ds)
    return [u.privacy_budget, u.replica_id, u.max_frequency, u.test_point_strategy]


def experiment__spec(p, ds):
    return [p.privacy_budget, p.replica_id, p.max_frequency, p.test_point_strategy]


def options__code(p: ExperimentParameters, ds: DataSet):
    return p.update_from_dataset(ds).test_point_strategy_kwargs


def options__spec(p, ds):
    kw = dict(p.test_point_strategy_kwargs)
    if "npublishers" in kw:
        kw["npublishers"] = ds.publisher_count
    return kw


def publishers__code(p: ExperimentParameters, ds: DataSet):
    kw = p.update_from_dataset(ds).test_point_strategy_kwargs
    return kw["npublishers"] if "npublishers" in p.test_point_strategy_kwargs else 0


def publishers__spec(p, ds):
    return ds.publisher_count if "npublishers" in p.test_point_strategy_kwargs else 0


# ---- the distributed pieces: one frame per trial, all of them combined
def distributed__code(x: ExperimentalTrial, seed: "int", fs: FilesystemWrapperBase):
    return list(EvaluateTrialDoFn().process(x, seed, fs))


def distributed__spec(x, seed, fs):
    return [x.evaluate(seed, fs)]


def combined__code(xs: "list", ys: "list"):
    c = CombineDataFrameFn()
    a = c.create_accumulator()
    for x in xs:
        a = c.add_input(a, x)
    b = c.create_accumulator()
    for y in ys:
        b = c.add_input(b, y)
    return c.extract_output(c.merge_accumulators([a, b]))


def combined__spec(xs, ys):
    return pd.concat(xs + ys)


# ---- evaluated by the rule
def load(where: "str", data: DataDesign, tds: "list[TrialDescriptor]", seed: "int", cores: "int", kind: "str", fs: FilesystemWrapperBase, use_beam: "bool", options: "any"):
    return ExperimentalDesign(where, data, tds, seed, cores, kind, fs).load(use_beam, options)


def frames(where: "str", data: DataDesign, tds: "list[TrialDescriptor]", seed: "int", cores: "int", kind: "str", fs: FilesystemWrapperBase, use_beam: "bool", options: "any"):
    return [x.evaluate(seed, fs) for name in data.names for x in Experiment(where, data, name, tds, kind).generate_trials()]


def trials(where: "str", data: DataDesign, tds: "list[TrialDescriptor]", seed: "int", cores: "int", kind: "str", fs: FilesystemWrapperBase, use_beam: "bool", options: "any"):
    return [x for name in data.names for x in Experiment(where, data, name, tds, kind).generate_trials()]


def drive(data_dir: "str", design: "str", out: "str", inter: "str", seed: "int", cores: "int", kind: "str", use_beam: "bool", options: "any", fs: FilesystemWrapperBase):
    return ExperimentDriver(data_dir, design, out, inter, seed, cores, kind).execute(use_beam, options, fs)


def command(argv: "list"):
    return driver_main(argv)
