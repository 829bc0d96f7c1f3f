"""Load OpenNTN from the working tree as sionna.phy.channel.tr38811 (whatever is installed)."""
import importlib.machinery, importlib.util, os, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "OpenNTN")
NAME = "sionna.phy.channel.tr38811"
sys.dont_write_bytecode = True


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):           # always from source: /repo may hold stale .pyc files
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder:
    @staticmethod
    def find_spec(fullname, path=None, target=None):
        if fullname != NAME and not fullname.startswith(NAME + "."):
            return None
        base = os.path.join(PKG, *fullname[len(NAME):].split(".")[1:])
        if os.path.exists(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, f, loader=_Loader(fullname, f), submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=_Loader(fullname, base + ".py"))
        return None


_cache = {}


def load():
    if "m" not in _cache:
        for k, v in {"TF_CPP_MIN_LOG_LEVEL": "3", "CUDA_VISIBLE_DEVICES": "", "MPLBACKEND": "Agg"}.items():
            os.environ.setdefault(k, v)
        sys.meta_path.insert(0, _Finder)
        import importlib
        m = importlib.import_module(NAME)
        assert os.path.realpath(m.__file__) == os.path.join(PKG, "__init__.py"), m.__file__
        _cache["m"] = m
        _cache["utils"] = importlib.import_module(NAME + ".utils")
    return _cache["m"]


def utils():
    load()
    return _cache["utils"]


def seed(s):
    """Seed every generator the code under test may use."""
    load()
    import tensorflow as tf, numpy as np
    import sionna
    tf.random.set_seed(int(s))
    sionna.phy.config.seed = int(s)
    import random
    random.seed(int(s)); np.random.seed(int(s) % (2**32))
