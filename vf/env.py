"""Environment: import the code under test from /repo's working tree, hypothesis from the tool venv."""
import os
import sys
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def bootstrap_hypothesis():
    if HYP not in sys.path:
        sys.path.append(HYP)
    import hypothesis  # noqa: F401


_done = False


def bootstrap_fora():
    """Makes `import fora` resolve to the working tree, whatever is installed."""
    global _done
    if _done:
        return
    if SRC in sys.path:
        sys.path.remove(SRC)
    sys.path.insert(0, SRC)
    # the editable install uses a path hook or a finder: the first sys.path entry wins over a .pth entry,
    # but a meta path finder would win over us; drop any finder that is not the interpreter's own.
    sys.meta_path[:] = [f for f in sys.meta_path if "__editable__" not in getattr(f, "__module__", "") and "editable" not in repr(f).lower()]
    import fora
    if os.path.realpath(os.path.dirname(fora.__file__)) != os.path.realpath(os.path.join(SRC, "fora")):
        raise RuntimeError(f"fora imported from {fora.__file__}, not from {SRC}")
    if not os.path.exists(os.path.join(SRC, "fora", "version.py")):
        # generated file (git-ignored): stand in for it
        mod = types.ModuleType("fora.version")
        mod.version = "1.0.0"
        sys.modules["fora.version"] = mod
    _done = True


def make_args(**kw):
    import argparse
    base = dict(hosts=None, dry=False, verbose=0, changes=True, diff=False, debug=False, no_color=True,
                inventory="", script="")
    base.update(kw)
    return argparse.Namespace(**base)


def reset_globals(**kw):
    """Puts fora's process-wide state back to what a freshly started process has."""
    bootstrap_fora()
    import fora
    from fora import loader, logger
    import fora.operations  # noqa: F401  registers connectors and package managers
    import fora.connectors  # noqa: F401
    fora.args = make_args(**kw)
    fora.inventory = None
    fora.group = None
    fora.host = None
    fora.script = None
    loader.script_stack.clear()
    logger.state.indentation_level = 0
