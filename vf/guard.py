"""A local connector that keeps the code under test inside a scratch directory, records requests and injects faults."""
import os
import re
import subprocess

from vf.core import HarnessError, Violation

DESTRUCTIVE = {"rm", "rmdir", "mv", "cp", "touch", "mkdir", "ln", "install", "unlink", "truncate", "tee", "dd", "shred", "mkfifo", "mknod", "tar", "rsync", "chmod", "chown", "chgrp", "setfacl"}
HARMLESS_ABS = ("/dev/null", "/bin/", "/usr/bin/", "/dev/stdin", "/dev/stdout", "/dev/stderr")


class Escape(Violation):
    """The code under test tried to touch something outside of the scratch directory."""


class Fault(Exception):
    pass


def make_guard(root, also=()):
    """Returns a connector class (created lazily, as fora must be imported from the tree under test first)."""
    from fora.connectors import tunnel_dispatcher as td
    from fora.connectors.connector import CompletedRemoteCommand
    from fora.connectors.local import LocalConnector
    roots = [os.path.realpath(root)] + [os.path.realpath(a) for a in also]

    def inside(path):
        if "\0" in path:
            return True      # cannot reach any file
        p = os.path.normpath(path)
        d = os.path.realpath(os.path.dirname(p))
        full = os.path.join(d, os.path.basename(p))
        return any(full == r or full.startswith(r + "/") for r in roots) and not any(full == r for r in roots)

    def vet(command, cwd):
        if not command:
            return
        exe = os.path.basename(command[0])
        args = list(command[1:])
        if exe in ("sh", "bash", "dash", "env", "xargs", "python3", "python"):
            for a in args:
                for w in re.findall(r"(?<![\w.&|$})])/[^\s'\";|&()]*", a):
                    if not w.startswith(HARMLESS_ABS) and w != "/" and not inside(w):
                        raise Escape(f"a shell command refers to {w!r}, which is outside of what the operation was given: {command!r}")
            return
        opts_done = False
        words = []
        for a in args:
            if a == "--" and not opts_done:
                opts_done = True
            elif not opts_done and a.startswith("-") and a != "-":
                continue
            else:
                words.append(a)
        if exe in ("chmod", "chown", "chgrp") and words:
            words = words[1:]
        if exe == "ln" and words:
            words = words[-1:]
        for w in words:
            if w.startswith("/"):
                if not inside(w) and not w.startswith(HARMLESS_ABS):
                    raise Escape(f"a command refers to {w!r}, which is outside of what the operation was given: {command!r}")
            elif exe in DESTRUCTIVE and not inside(os.path.join(cwd or "/tmp", w)):
                raise Escape(f"a command would modify the relative path {w!r}: {command!r}")

    class GuardConnector(LocalConnector):
        instances = []

        def __init__(self, url, host):
            super().__init__(url, host)
            self.calls = []
            self.fault = None
            self.broken = False
            self.vetting = True
            GuardConnector.instances.append(self)

        def reset(self, fault=None):
            self.calls.clear()
            self.fault = fault
            self.broken = False

        def _step(self, what, fn, check=True):
            """One request: kinds of fault are oserr, exit, io; `when` is before or after the request took effect."""
            i = len(self.calls)
            self.calls.append(what)
            if self.broken:
                raise OSError("Unexpected EOF in data stream")
            if self.fault is not None and self.fault[0] == i:
                _, kind, when = self.fault
                if when == "after":
                    try:
                        fn()
                    except Exception:
                        pass
                if kind == "io":
                    self.broken = True
                    raise OSError("Unexpected EOF in data stream")
                if kind == "exit" and what[0] == "run":
                    if check:
                        raise subprocess.CalledProcessError(returncode=7, cmd=what[1], output=b"injected", stderr=b"injected failure")
                    return CompletedRemoteCommand(stdout=b"", stderr=b"injected failure", returncode=7)
                raise td.RemoteOSError(errno=5, strerror="injected", msg="injected I/O error")
            return fn()

        def run(self, command, input=None, capture_output=True, check=True, user=None, group=None, umask=None, cwd=None):
            if self.vetting:
                vet(command, cwd)
            sup = super()
            return self._step(("run", list(command), cwd), lambda: sup.run(command, input=input, capture_output=capture_output, check=check, user=user, group=group, umask=umask, cwd=cwd), check)

        def upload(self, file, content, mode=None, owner=None, group=None):
            if self.vetting and not inside(file):
                raise Escape(f"an upload goes to {file!r}, which is outside of what the operation was given")
            sup = super()
            return self._step(("upload", file, len(content)), lambda: sup.upload(file, content, mode=mode, owner=owner, group=group))

        def download(self, file):
            sup = super()
            return self._step(("download", file), lambda: sup.download(file))

        def stat(self, path, follow_links=False, sha512sum=False):
            sup = super()
            return self._step(("stat", path), lambda: sup.stat(path, follow_links=follow_links, sha512sum=sha512sum))

        def resolve_user(self, user):
            sup = super()
            return self._step(("resolve_user", user), lambda: sup.resolve_user(user))

        def resolve_group(self, group):
            sup = super()
            return self._step(("resolve_group", group), lambda: sup.resolve_group(group))

        def query_user(self, user, query_password_hash=False):
            sup = super()
            return self._step(("query_user", user), lambda: sup.query_user(user, query_password_hash))

        def query_group(self, group):
            sup = super()
            return self._step(("query_group", group), lambda: sup.query_group(group))

        def getenv(self, key):
            sup = super()
            return self._step(("getenv", key), lambda: sup.getenv(key))

    return GuardConnector
