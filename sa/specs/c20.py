"""C20: a data design never overwrites a data set and lists exactly what it stores."""
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_wrapper_base import FilesystemWrapperBase
from os.path import join

OPTS = {"*": {"stop": ["data_generators.data_set.DataSet.read_data_set", "data_generators.data_set.DataSet.write_data_set"]}}


def opened_names__code(d: "str", fs: FilesystemWrapperBase):
    return DataDesign(d, fs).names


def opened_names__spec(d, fs):
    return sorted({fs.name(p) for p in fs.glob(d, "*") if fs.is_dir(p)})


def opened_count__code(d: "str", fs: FilesystemWrapperBase):
    return DataDesign(d, fs).count


def opened_count__spec(d, fs):
    return len({fs.name(p) for p in fs.glob(d, "*") if fs.is_dir(p)})


def by_name__code(d: "str", fs: FilesystemWrapperBase, name: "str"):
    return DataDesign(d, fs).by_name(name)


def by_name__spec(d, fs, name):
    return DataSet.read_data_set(join(d, name), fs)


def by_name__spec2(d, fs, name):
    return DataSet.read_data_set(fs.joinpath(d, name), fs)


def added_names__code(d: "str", fs: FilesystemWrapperBase, ds: DataSet):
    design = DataDesign(d, fs)
    design.add(ds)
    return design.names


def added_names__spec(d, fs, ds):
    return sorted({fs.name(p) for p in fs.glob(d, "*") if fs.is_dir(p)} | {ds.name})


def added_count__code(d: "str", fs: FilesystemWrapperBase, ds: DataSet):
    design = DataDesign(d, fs)
    design.add(ds)
    return design.count


def added_count__spec(d, fs, ds):
    return len({fs.name(p) for p in fs.glob(d, "*") if fs.is_dir(p)} | {ds.name})


def entry_add(d: "str", fs: FilesystemWrapperBase, ds: DataSet):
    design = DataDesign(d, fs)
    return design.add(ds)
