"""A host environment: inventory with one host, an open connection, and code run inside a fora script."""
import contextlib
import io
import os
import stat as pystat
import sys

from vf import env
from vf.core import HarnessError, Violation

_CURRENT = {}


def script_entry(module_globals):
    """Called from the generated script file: runs the function the harness wants to run inside a script."""
    fn = _CURRENT["fn"]
    _CURRENT["ret"] = fn()


class HostEnv:
    """One loaded inventory, one host, one open connection. `in_script` runs a callable as a fora script would."""

    def __init__(self, scratch, connector=None, name="vhost", args=None, url="local:vhost"):
        self.scratch = scratch
        env.reset_globals(**(args or {}))
        import fora
        from fora.connection import open_connection
        from fora.loader import load_inventory
        self.out = io.StringIO()
        self.script = os.path.join(scratch, "_vf_script.py")
        with open(self.script, "w") as f:
            f.write("import vf.hostenv as _h\n_h.script_entry(globals())\n")
        with self.quiet():
            load_inventory(url)
            self.inventory = fora.inventory
            self.host = next(iter(fora.inventory.loaded_hosts.values()))
            if connector is not None:
                self.host.connector = connector
            self.connection = open_connection(self.host)
            self.connection.__enter__()
        self.open = True

    @contextlib.contextmanager
    def quiet(self):
        self.out = io.StringIO()
        with contextlib.redirect_stdout(self.out):
            yield

    @property
    def connector(self):
        return self.connection.connector

    def in_script(self, fn, **args):
        """Runs fn as the body of a fora script on this host; returns its value, propagates its exceptions."""
        import inspect
        import fora
        from fora import loader, logger
        fora.args = env.make_args(**args)
        fora.inventory = self.inventory
        fora.host = self.host
        fora.script = None
        loader.script_stack.clear()
        logger.state.indentation_level = 0
        _CURRENT["fn"], _CURRENT["ret"] = fn, None
        cwd = os.getcwd()
        try:
            with self.quiet():
                loader.run_script(self.script, inspect.getouterframes(inspect.currentframe())[0], name="vf")
            return _CURRENT["ret"]
        finally:
            _CURRENT.clear()
            fora.host = None
            os.chdir(cwd)

    def close(self):
        if self.open:
            self.open = False
            with self.quiet():
                self.connection.__exit__(None, None, None)


# -- filesystem snapshots -------------------------------------------------------------------------

def describe(path, times=True):
    """Everything observable about one path (no following of links)."""
    try:
        s = os.lstat(path)
    except FileNotFoundError:
        return None
    d = {"mode": oct(pystat.S_IMODE(s.st_mode))[2:], "uid": s.st_uid, "gid": s.st_gid}
    if pystat.S_ISLNK(s.st_mode):
        d["type"] = "link"
        d["target"] = os.readlink(path)
        d.pop("mode")
    elif pystat.S_ISDIR(s.st_mode):
        d["type"] = "dir"
    elif pystat.S_ISREG(s.st_mode):
        d["type"] = "file"
        with open(path, "rb") as f:
            d["content"] = f.read()
    elif pystat.S_ISFIFO(s.st_mode):
        d["type"] = "fifo"
    else:
        d["type"] = "other"
    if times:
        d["ino"] = s.st_ino
        d["mtime"] = s.st_mtime_ns
        d["ctime"] = s.st_ctime_ns
    return d


def snapshot(root, times=True):
    """Maps every path under root (relative, '' = root) to its description."""
    out = {"": describe(root, times)}
    for d, subdirs, files in os.walk(root):
        for n in subdirs + files:
            p = os.path.join(d, n)
            out[os.path.relpath(p, root)] = describe(p, times)
    return out


def snap_diff(a, b, ignore=()):
    """Human-readable differences of two snapshots."""
    out = []
    for k in sorted(set(a) | set(b)):
        if k in ignore:
            continue
        x, y = a.get(k), b.get(k)
        if x != y:
            if x is None or y is None:
                out.append(f"{k!r}: {'appeared' if x is None else 'vanished'}")
            else:
                keys = [f for f in set(x) | set(y) if x.get(f) != y.get(f)]
                out.append(f"{k!r}: " + ", ".join(f"{f} {str(x.get(f))[:60]} -> {str(y.get(f))[:60]}" for f in sorted(keys)))
    return out


def wipe(path):
    """Empties a scratch directory."""
    import shutil
    for n in os.listdir(path):
        p = os.path.join(path, n)
        if os.path.isdir(p) and not os.path.islink(p):
            try:
                shutil.rmtree(p)
            except OSError as e:
                raise HarnessError(f"cannot clean scratch: {e}")
        else:
            os.unlink(p)
