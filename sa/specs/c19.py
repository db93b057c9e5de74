"""C19: the two filesystems act on exactly the path given and return plain strings."""
import pathlib
import cloudpathlib
from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_pathlib_wrapper import FilesystemPathlibWrapper
from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_cloudpath_wrapper import FilesystemCloudpathWrapper


def local_name__code(p: "str"):
    return FilesystemPathlibWrapper().name(p)


def local_name__spec(p):
    return str(pathlib.Path(p).name)


def local_name__spec2(p):
    return pathlib.Path(p).name


def local_parent__code(p: "str"):
    return FilesystemPathlibWrapper().parent(p)


def local_parent__spec(p):
    return str(pathlib.Path(p).parent)


def local_glob__code(p: "str", pat: "str"):
    return FilesystemPathlibWrapper().glob(p, pat)


def local_glob__spec(p, pat):
    return [str(x) for x in pathlib.Path(p).glob(pat)]


def local_exists__code(p: "str"):
    return FilesystemPathlibWrapper().exists(p)


def local_exists__spec(p):
    return pathlib.Path(p).exists()


def local_is_dir__code(p: "str"):
    return FilesystemPathlibWrapper().is_dir(p)


def local_is_dir__spec(p):
    return pathlib.Path(p).is_dir()


def local_is_file__code(p: "str"):
    return FilesystemPathlibWrapper().is_file(p)


def local_is_file__spec(p):
    return pathlib.Path(p).is_file()


def cloud_name__code(p: "str"):
    return FilesystemCloudpathWrapper().name(p)


def cloud_name__spec(p):
    return str(cloudpathlib.CloudPath(p).name)


def cloud_name__spec2(p):
    return cloudpathlib.CloudPath(p).name


def cloud_parent__code(p: "str"):
    return FilesystemCloudpathWrapper().parent(p)


def cloud_parent__spec(p):
    return str(cloudpathlib.CloudPath(p).parent)


def cloud_glob__code(p: "str", pat: "str"):
    return FilesystemCloudpathWrapper().glob(p, pat)


def cloud_glob__spec(p, pat):
    return [str(x) for x in cloudpathlib.CloudPath(p).glob(pat)]


def cloud_exists__code(p: "str"):
    return FilesystemCloudpathWrapper().exists(p)


def cloud_exists__spec(p):
    return cloudpathlib.CloudPath(p).exists()


def cloud_is_dir__code(p: "str"):
    return FilesystemCloudpathWrapper().is_dir(p)


def cloud_is_dir__spec(p):
    return cloudpathlib.CloudPath(p).is_dir()


def cloud_is_file__code(p: "str"):
    return FilesystemCloudpathWrapper().is_file(p)


def cloud_is_file__spec(p):
    return cloudpathlib.CloudPath(p).is_file()


def local_join__code(p: "str", q: "str"):
    return FilesystemPathlibWrapper().joinpath(p, q)


def local_join__spec(p, q):
    return str(pathlib.Path(p, q))


def local_join__spec2(p, q):
    return str(pathlib.Path(p).joinpath(q))


def cloud_join__code(p: "str", q: "str"):
    return FilesystemCloudpathWrapper().joinpath(p, q)


def cloud_join__spec(p, q):
    parts = p.split("://")
    return str(cloudpathlib.CloudPath(f"{parts[0]}://").joinpath(parts[1], q))


def cloud_join__spec2(p, q):
    return str(cloudpathlib.CloudPath(p).joinpath(q))


def cloud_join__spec3(p, q):
    return str(cloudpathlib.CloudPath(p, q))
