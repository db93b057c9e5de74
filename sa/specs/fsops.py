"""Entry points of C19: effects of the filesystem operations."""
from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_pathlib_wrapper import FilesystemPathlibWrapper
from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_cloudpath_wrapper import FilesystemCloudpathWrapper


def local_open(p: "str", mode: "str", buffering: "int", encoding: "any", errors: "any", newline: "any"):
    return FilesystemPathlibWrapper().open(p, mode, buffering, encoding, errors, newline)


def local_write_text(p: "str", data: "str", encoding: "any", errors: "any"):
    return FilesystemPathlibWrapper().write_text(p, data, encoding, errors)


def local_mkdir(p: "str", mode: "int", parents: "bool", exist_ok: "bool"):
    return FilesystemPathlibWrapper().mkdir(p, mode, parents, exist_ok)


def local_unlink(p: "str", missing_ok: "bool"):
    return FilesystemPathlibWrapper().unlink(p, missing_ok)


def cloud_open(p: "str", mode: "str", buffering: "int", encoding: "any", errors: "any", newline: "any"):
    return FilesystemCloudpathWrapper().open(p, mode, buffering, encoding, errors, newline)


def cloud_write_text(p: "str", data: "str", encoding: "any", errors: "any"):
    return FilesystemCloudpathWrapper().write_text(p, data, encoding, errors)


def cloud_mkdir(p: "str", mode: "int", parents: "bool", exist_ok: "bool"):
    return FilesystemCloudpathWrapper().mkdir(p, mode, parents, exist_ok)


def cloud_unlink(p: "str", missing_ok: "bool"):
    return FilesystemCloudpathWrapper().unlink(p, missing_ok)
