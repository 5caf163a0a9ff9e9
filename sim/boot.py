"""Process start-up: import the code under test from the repository's working tree.

The repository is imported as the package ``UnarySim`` straight from its
directory (no copy, no installed package, no byte-code cache of its files).
"""
import os
import sys
import types
import warnings

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def boot():
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("MKL_NUM_THREADS", "1")
    sys.dont_write_bytecode = True
    warnings.filterwarnings("ignore")
    import torch
    import numpy  # noqa: F401
    torch.set_num_threads(1)
    try:
        import pylfsr  # noqa: F401
    except Exception:
        pass
    # lazy imports inside torch (autograd, copies, saving) are paid once, here
    a = torch.ones(2, requires_grad=True)
    (a * 2).sum().backward()
    torch.autograd.grad((a * 2).sum(), a)
    m = torch.nn.Linear(1, 1)
    torch.optim.SGD(m.parameters(), lr=0.1)
    import copy
    import io
    b = io.BytesIO()
    torch.save(copy.deepcopy(m), b)
    b.seek(0)
    torch.load(b, weights_only=False)
    # from here on no cached byte code is read: a stale .pyc of a repository
    # file must never stand in for the working tree
    sys.pycache_prefix = "/nonexistent-verif-pycache"
    pkg = types.ModuleType("UnarySim")
    pkg.__path__ = [REPO]
    sys.modules["UnarySim"] = pkg


def import_sut():
    """Import the code under test; any failure here is the tree's own."""
    import UnarySim.stream  # noqa: F401
    import UnarySim.kernel  # noqa: F401
    import UnarySim.metric.metric  # noqa: F401


def in_sut(filename):
    if not filename:
        return False
    f = os.path.realpath(filename) if filename.startswith("/") else filename
    return f.startswith(REPO + os.sep)
