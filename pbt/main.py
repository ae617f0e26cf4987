"""Command line of the checks"""

import importlib
import os
import sys


def setup_path():
    repo = os.environ.get("PYOPTMAT_REPO", "/repo")
    sys.path.insert(0, repo)
    tools = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        # Only Hypothesis (pure Python) is taken from there: it comes last
        sys.path.append(tools)
        try:
            import hypothesis  # noqa: F401
        except ImportError:
            import glob

            for w in glob.glob("/opt/veriftools/wheels/hypothesis-*.whl") + glob.glob(
                "/opt/veriftools/wheels/sortedcontainers-*.whl"
            ):
                sys.path.append(w)


def main(argv):
    setup_path()
    import torch

    torch.set_default_dtype(torch.float64)
    torch.set_num_threads(1)
    import pyoptmat

    from pbt import core

    root = os.path.realpath(os.path.join(core.REPO, "pyoptmat"))
    where = os.path.realpath(os.path.dirname(pyoptmat.__file__ or list(pyoptmat.__path__)[0] + "/x"))
    if where != root:
        print(f"pyoptmat comes from {where}, not {root}")
        return 2

    from pbt.props import MODULES

    if argv[0] == "replay":
        import json

        prop = json.load(open(argv[1]))["property"]
        importlib.import_module("pbt.props." + MODULES[prop])
        return core.replay(argv[1])

    prop, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"))
    importlib.import_module("pbt.props." + MODULES[prop])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    kw = {}
    if os.environ.get("VERIF_MULT"):
        kw["mult"] = float(os.environ["VERIF_MULT"])
    if len(argv) > 2:
        kw["only"] = argv[2].split(",")
    return core.run_property(prop, tier, seed, **kw)


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
