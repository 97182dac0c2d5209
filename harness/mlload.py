"""Import hook: load /repo's modules on the interpreter this sandbox has.

/repo targets Python >= 3.10 (``list[A | B]`` annotations); the only interpreter
here with llvmlite + mypy is PyPy 3.9.  Modules of the repository are compiled
with the ``annotations`` future flag so that annotations are not evaluated.
Nothing else about the code is changed.  Set ML_REPO to load another tree.
"""
import __future__
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("ML_REPO", "/repo")
PREFIXES = ("metalift", "llmlift_scripts", "tests")


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        return compile(
            data, path, "exec",
            flags=__future__.annotations.compiler_flag,
            dont_inherit=True, optimize=_optimize,
        )

    # never read or write .pyc of the repository
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname.split(".")[0] not in PREFIXES:
            return None
        rel = os.path.join(REPO, *fullname.split("."))
        init = os.path.join(rel, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_Loader(fullname, init),
                submodule_search_locations=[rel])
        if os.path.isfile(rel + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, rel + ".py", loader=_Loader(fullname, rel + ".py"))
        if os.path.isdir(rel):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [rel]
            return spec
        return None


def install():
    sys.dont_write_bytecode = True
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())


install()
