"""A connector that reaches nothing: it records what it is asked to do. Hosts use it with urls like `vfstub:host`."""
import os

from vf import trace

FAULTS = {}     # url -> where it fails: open, identity, close


def register():
    from fora.connectors.connector import CompletedRemoteCommand, Connector, StatResult, connector

    @connector(schema="vfstub")
    class StubConnector(Connector):
        def open(self):
            trace.hit("open", self.url)
            if FAULTS.get(self.url) == "open":
                raise IOError("vf: cannot open")
            self.is_open = True

        def close(self):
            trace.hit("close", self.url)
            self.is_open = False
            if FAULTS.get(self.url) == "close":
                raise IOError("vf: cannot close")

        def need_open(self):
            if not getattr(self, "is_open", False):
                trace.hit("request-while-closed", self.url)

        def run(self, command, input=None, capture_output=True, check=True, user=None, group=None, umask=None, cwd=None):
            self.need_open()
            trace.hit("run", self.url, list(command), user, group, umask, cwd)
            return CompletedRemoteCommand(stdout=b"", stderr=b"", returncode=0)

        def resolve_user(self, user):
            self.need_open()
            if FAULTS.get(self.url) == "identity":
                raise ValueError("vf: no such user")
            return user if user is not None else "u-" + self.url

        def resolve_group(self, group):
            self.need_open()
            return group if group is not None else "g-" + self.url

        def stat(self, path, follow_links=False, sha512sum=False):
            self.need_open()
            return StatResult(type="dir", mode="755", owner="root", group="root", size=0, mtime=0, ctime=0, sha512sum=None)

        def upload(self, file, content, mode=None, owner=None, group=None):
            self.need_open()
            trace.hit("upload", self.url, file)

        @classmethod
        def extract_hostname(cls, url):
            return url.split(":", 1)[1]
    return StubConnector
