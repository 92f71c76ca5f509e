"""Import the real decomon package from /repo/src with the dependency stand-ins."""
import importlib
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")


def load():
    from . import stubkeras

    stubkeras.install()
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    import decomon  # noqa

    assert os.path.realpath(decomon.__file__).startswith(os.path.realpath(src)), decomon.__file__
    return decomon
