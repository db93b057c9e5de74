"""Abstract evaluation of one trial (ExperimentalTrial.evaluate), shared by several rules."""
from .. import law, terms as t
from ..terms import TRUE, FALSE, NONE, mk
from ..flow import Interp

FS = "filesystem_wrappers.filesystem_wrapper_base.FilesystemWrapperBase."
STOP = [
    "driver.test_point_aggregator.aggregate", "driver.test_point_aggregator.aggregate_on_exception",
    "driver.experiment_parameters.ExperimentParameters.generate_test_points",
    "simulator.halo_simulator.HaloSimulator.true_reach_by_spend", "simulator.halo_simulator.HaloSimulator.__init__",
    "simulator.privacy_tracker.PrivacyTracker.privacy_consumption", "simulator.privacy_tracker.PrivacyTracker.mechanisms",
    "driver.modeling_strategy_descriptor.ModelingStrategyDescriptor.instantiate_strategy",
    "data_generators.data_design.DataDesign.by_name", "driver.trial_descriptor.TrialDescriptor.__str__",
    "simulator.halo_simulator.HaloSimulator.campaign_spends", "models.reach_point.ReachPoint.reach",
    "data_generators.data_set.DataSet.maximum_reach", "data_generators.data_set.DataSet.publisher_count",
]


class Trial:
    def __init__(self, prog, unstop=(), entry="trial"):
        sf = law.SpecFile(prog, "entry")
        f = sf.module.functions[entry]
        t.reset_vars()
        self.args = law.argvars(Interp(prog), f)
        self.ip, self.value, self.facts = law.evaluate(prog, f, {"stop": [s for s in STOP if s not in unstop]}, self.args)
        self.effects = self.ip.effects
        self.fs = self.args["fs"]
        self.td = self.args["td"]

    def visited(self):
        return [q for q in self.ip.visited if not q.startswith("$spec")]

    def calls(self, last):
        return [e for e in self.effects if e.kind in ("call", "inline", "unknown", "new") and e.name and str(e.name).rsplit(".", 1)[-1] == last]

    def fs_calls(self):
        """(operation, effect) of every filesystem operation on the trial's own filesystem"""
        out = []
        for e in self.effects:
            if e.kind == "call" and str(e.name).startswith(FS):
                if self_of(e) is self.fs:
                    out.append((e.name[len(FS):], e))
            elif e.kind in ("call", "unknown") and e.base is self.fs:
                out.append((str(e.name), e))
        return out


def kwarg(e, name, pos=None):
    d = dict(e.kw)
    if name in d:
        return d[name]
    if pos is not None and pos < len(e.args):
        return e.args[pos]
    return None


def self_of(e):
    d = dict(e.kw)
    return d.get("self", e.args[0] if e.args else e.base)


def path_of(e):
    return kwarg(e, "path", 1)


def region(e, prog_types=("Exception", "BaseException")):
    """ids of try statements whose body holds the effect and that catch every Exception"""
    return [eid for eid, where, types in e.tries if where == "body" and any(any(x in prog_types for x in ts) for ts in types)]


def in_handler(e):
    return any(w == "handler" for _, w, _ in e.tries)
