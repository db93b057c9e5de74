"""C21: writing a data set and reading it back loses nothing."""
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_wrapper_base import FilesystemWrapperBase

FSB = "filesystem_wrappers.filesystem_wrapper_base.FilesystemWrapperBase."
TRACE = {"write_paths": {"filesystem_wrappers.filesystem_wrapper_base.FilesystemWrapperBase.open": "each"},
         "write_named": {"filesystem_wrappers.filesystem_wrapper_base.FilesystemWrapperBase.open": "each"},
         "write_lines": {"write": "each", "writelines": "list"}}
OPTS = {"write_paths": {"stop": ["data_generators.publisher_data.PublisherData.write_publisher_data"]},
        "write_named": {"stop": ["data_generators.publisher_data.PublisherData.write_publisher_data"]},
        "write_handles": {"stop": ["data_generators.publisher_data.PublisherData.write_publisher_data"]}}
EXC = {"*": ["RuntimeError", "ValueError"]}


def rows(lines):
    return [(int(line.split(",")[0]), float(line.split(",")[1])) for line in lines]


def read_names__code(d: "str", fs: FilesystemWrapperBase):
    return [p.name for p in DataSet.read_data_set(d, fs)._data]


def read_names__spec(d, fs):
    return [fs.name(p) for p in sorted(fs.glob(d, "*")) if fs.is_file(p)]


def read_logs__code(d: "str", fs: FilesystemWrapperBase):
    return [p._data for p in DataSet.read_data_set(d, fs)._data]


def read_logs__spec(d, fs):
    return [PublisherData(rows(fs.open(p)), "x")._data for p in sorted(fs.glob(d, "*")) if fs.is_file(p)]


def read_name__code(d: "str", fs: FilesystemWrapperBase):
    assert fs.name(d)
    return DataSet.read_data_set(d, fs).name


def read_name__spec(d, fs):
    assert fs.name(d)
    return fs.name(d)


def read_log__code(lines: "list"):
    return PublisherData.read_publisher_data(lines)._data


def read_log__spec(lines):
    return sorted(rows(lines), key=lambda x: x[1])


def write_paths__code(ds: DataSet, parent: "str", fs: FilesystemWrapperBase):
    return ds.write_data_set(parent, None, fs)


def write_paths__trace(ds, parent, fs):
    d = fs.joinpath(parent, ds.name)
    for p in ds._data:
        fs.open(fs.joinpath(d, p.name), "w")


def write_named__code(ds: DataSet, parent: "str", sub: "str", fs: FilesystemWrapperBase):
    assert sub
    return ds.write_data_set(parent, sub, fs)


def write_named__trace(ds, parent, sub, fs):
    assert sub
    d = fs.joinpath(parent, sub)
    for p in ds._data:
        fs.open(fs.joinpath(d, p.name), "w")


def write_lines__code(p: PublisherData, f: "any"):
    return p.write_publisher_data(f)


def write_lines__given(p, f):
    for user, spend in p._data:
        f.write("{},{}\n".format(user, spend))


def entry_lines(lines: "list"):
    return PublisherData.read_publisher_data(lines)


def entry_read(d: "str", fs: FilesystemWrapperBase):
    return DataSet.read_data_set(d, fs)
