"""Helpers around the documented TunnelConnector extension point (`command()`): recording and replaying remotes."""
import os
import subprocess

from vf import env
from vf.core import HarnessError, Violation
from vf.hostenv import HostEnv


def local_command():
    """The command line the product itself uses to start a dispatcher on this machine."""
    from fora.connectors.local import LocalConnector
    import fora
    if fora.args is None:
        env.reset_globals()
    return LocalConnector("local:x", _Host()).command()


class _Host:
    name = "x"
    url = "local:x"


def make_connector(cmd):
    """A TunnelConnector whose remote end is the given command."""
    from fora.connectors.tunnel_connector import TunnelConnector

    class ScriptedConnector(TunnelConnector):
        schema = "scripted"

        def command(self):
            return list(cmd)
    return ScriptedConnector("scripted:x", _Host())


RECORD = 'i="$1"; o="$2"; shift 2; tee "$i" | "$@" | tee "$o"'
REPLAY = 'cat "$1"; exec >&-; cat >/dev/null'


def record(scratch, op):
    """Runs op(connector) against a real dispatcher; returns (result or exception, request bytes, response bytes)."""
    fi, fo = os.path.join(scratch, "_rec_in"), os.path.join(scratch, "_rec_out")
    c = make_connector(["sh", "-c", RECORD, "sh", fi, fo] + local_command())
    c.open()
    res, exc = None, None
    try:
        res = op(c)
    except Exception as e:  # the operation's own failure is part of the recording
        exc = e
    c.close()
    with open(fi, "rb") as f:
        rin = f.read()
    with open(fo, "rb") as f:
        rout = f.read()
    os.unlink(fi)
    os.unlink(fo)
    return (res, exc), rin, rout


def replayed(scratch, data):
    """A connector whose remote answers with exactly these bytes and then closes."""
    f = os.path.join(scratch, "_replay")
    with open(f, "wb") as fh:
        fh.write(data)
    return make_connector(["sh", "-c", REPLAY, "sh", f])
