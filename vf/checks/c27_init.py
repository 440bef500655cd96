"""C27: `fora --init` writes only what and when it may, and what it writes works."""
import contextlib
import hashlib
import io
import os
import pwd
import grp
import stat as pystat
import subprocess
import sys

from hypothesis import strategies as st

from vf import env
from vf.core import Check, HarnessError, Outcome, Violation
from vf.hostenv import snap_diff, snapshot, wipe
from vf.simhost import make_sim

LAYOUTS = ["minimal", "flat", "dotfiles", "modular", "staging_prod"]
YES = ["y", "Y", "yes", "YES", "Yes"]
NO = ["", "n", "N", "no", "yep", "yeah", "ja", "1", "ye", "yy", "y n", "maybe", "true", "yes!", None]
NAMES = ["notes.txt", ".hidden", "inventory", "my.py", "hosts.bak", "b" * 60, "ü", "deploy.py~"]
IN_DIRS = ["hosts", "groups", "tasks", "files", "templates", "inventories", "tasks/example_task"]
OVER = ["deploy.py", "inventory.py", "hosts/localhost.py", "groups/all.py", "tasks/example_task/install.py", "inventories/prod.py", "templates/template.j2", "files/staticfile"]


UNKNOWN = ["", "Flat", "flat ", "min", "staging-prod", "../flat", "none"]


def strategy():
    other = st.fixed_dictionaries({"n": st.sampled_from(NAMES + [f"{d}/mine.py" for d in IN_DIRS] + ["hosts/other.py"]), "k": st.sampled_from(["file", "file", "file", "dir", "link"])})
    over = st.fixed_dictionaries({"n": st.sampled_from(OVER), "k": st.just("file")})
    hidden = st.fixed_dictionaries({"n": st.sampled_from([".git/config", ".git", ".hidden", ".gitignore", "...", ".é"]), "k": st.sampled_from(["file", "dir", "link"])})
    return st.fixed_dictionaries({"layout": st.sampled_from(LAYOUTS), "unknown": st.sampled_from([None] * 19 + UNKNOWN), "pre": st.one_of(st.just([]), st.lists(hidden, min_size=1, max_size=1), st.lists(st.one_of(other, other, over), min_size=1, max_size=4, unique_by=lambda d: d["n"])), "reply": st.one_of(st.sampled_from(YES), st.sampled_from(NO)),
                                  "host": st.fixed_dictionaries({"installed": st.booleans(), "active": st.booleans(), "enabled": st.booleans(), "pm": st.sampled_from(["apt-get", "pacman", "emerge"])}),
                                  "flags": st.lists(st.sampled_from(["-v", "--diff", "--no-changes", "--no-color", "--debug"]), max_size=2, unique=True), "dry": st.booleans()})


def make_rooted(root, case):
    """A host whose file system is a scratch directory and whose package and service manager are simulated."""
    from fora.connectors import tunnel_dispatcher as td
    from fora.connectors.connector import CompletedRemoteCommand, Connector, StatResult
    base = make_sim()
    sims = {}

    def real(path):
        p = os.path.normpath(root + "/" + path.lstrip("/"))
        if p != root and not p.startswith(root + "/"):
            raise HarnessError(f"outside of the virtual host: {path}")
        return p

    class Rooted(base):
        schema = "vfrooted"

        def __init__(self, url, host):
            super().__init__(url, host)
            h = case["host"]
            if host.name in sims:
                self.__dict__.update({k: v for k, v in sims[host.name].__dict__.items() if k in ("acc", "pk", "units", "pm", "sm", "reloads", "log", "shim")})
            else:
                self.reset(pk={"nginx": "installed" if h["installed"] else "available"}, pm=h["pm"], sm="systemctl",
                           units={"system": {"nginx.service": {"active": "active" if h["active"] else "inactive", "file": "enabled" if h["enabled"] else "disabled"}}, "user": {}})
            self.shim = os.path.join(os.path.dirname(root), "shim")
            sims[host.name] = self
            self.vhost = os.path.join(root, host.name)

        def at(self, path):
            if not path.startswith("/"):
                raise Violation(f"the host was asked about the relative path {path!r}")
            return real("/" + os.path.basename(self.vhost) + os.path.normpath(path))

        def stat(self, path, follow_links=False, sha512sum=False):
            try:
                s = os.lstat(self.at(path))
            except (FileNotFoundError, NotADirectoryError):
                return None
            kind = "dir" if pystat.S_ISDIR(s.st_mode) else "file"
            data = open(self.at(path), "rb").read() if kind == "file" and sha512sum else None
            return StatResult(type=kind, mode=oct(pystat.S_IMODE(s.st_mode))[2:], owner=pwd.getpwuid(s.st_uid).pw_name, group=grp.getgrgid(s.st_gid).gr_name, size=s.st_size, mtime=s.st_mtime_ns, ctime=s.st_ctime_ns,
                              sha512sum=hashlib.sha512(data).digest() if data is not None else None)

        def upload(self, file, content, mode=None, owner=None, group=None):
            p = self.at(file)
            if not os.path.isdir(os.path.dirname(p)):
                raise td.RemoteOSError(errno=2, strerror="No such file or directory", msg=file)
            with open(p, "wb") as f:
                f.write(content)
            os.chmod(p, int(mode or "600", 8))

        def download(self, file):
            try:
                return open(self.at(file), "rb").read()
            except FileNotFoundError:
                raise ValueError("not found")

        def run(self, command, input=None, capture_output=True, check=True, user=None, group=None, umask=None, cwd=None):
            if command[0] in ("mkdir", "chmod", "chown", "touch"):
                r = subprocess.run([self.at(a) if a.startswith("/") else a for a in command], capture_output=True, cwd=root, umask=int(umask or "077", 8))
                if check and r.returncode != 0:
                    raise subprocess.CalledProcessError(r.returncode, command, r.stdout, r.stderr)
                return CompletedRemoteCommand(stdout=r.stdout, stderr=r.stderr, returncode=r.returncode)
            return super().run(command, input, capture_output, check, user, group, umask, cwd)
    return Rooted, sims


def Ctx(scratch):
    env.reset_globals()
    os.makedirs(os.path.join(scratch, "shim"), exist_ok=True)
    return scratch


def main(argv, cwd, stdin):
    """Runs the program in this process; -> (exit status, output, how much of the input was read)."""
    from fora.main import main as m
    env.reset_globals()
    sys_in, here, hook, limit = sys.stdin, os.getcwd(), sys.excepthook, sys.getrecursionlimit()
    out, sys.stdin = io.StringIO(), io.StringIO(stdin)
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            m(argv)
        status = 0
    except SystemExit as e:
        status = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except EOFError:
        status = 1
    except Violation:
        raise
    except Exception as e:
        status = repr(e)
    finally:
        read = sys.stdin.tell()
        sys.stdin, sys.excepthook = sys_in, hook
        os.chdir(here)
    return status, out.getvalue(), read


def blank(layout, ctx):
    """What the layout consists of, in an empty directory."""
    d = os.path.join(ctx, "blank")
    os.makedirs(d, exist_ok=True)
    wipe(d)
    status, out, read = main(["--init", layout], d, "")
    if status != 0 or read:
        raise Violation(f"--init {layout} in an empty directory: status {status}, {out!r}")
    s = snapshot(d, False)
    if not any(n.endswith("deploy.py") for n in s):
        raise Violation(f"--init {layout} in an empty directory: no deploy script was created, only {sorted(s)}")
    return s


def run(case, ctx):
    from fora.connectors.connector import Connector
    layout = case["layout"]
    want = blank(layout, ctx)
    d = os.path.join(ctx, "dir")
    os.makedirs(d, exist_ok=True)
    wipe(d)
    for e in case["pre"]:
        p = os.path.join(d, e["n"])
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if e["k"] == "dir":
                os.makedirs(p)
            elif e["k"] == "link":
                os.symlink("nowhere", p)
            else:
                with open(p, "w") as f:
                    f.write("# precious " + e["n"])
                os.chmod(p, 0o640)
        except OSError:
            pass
    before = snapshot(d)
    empty = len(before) == 1
    stdin = "" if case["reply"] is None else case["reply"] + "\n"
    if case.get("unknown") is not None:
        status, out, read = main(["--init", case["unknown"]], d, "y\n")
        diff = snap_diff(before, snapshot(d))
        if diff or status == 0 or not (isinstance(status, str) or out.strip()):
            raise Violation(f"--init {case['unknown']!r}, which is no layout: status {status}, changed {diff}, printed {out[-200:]!r}")
        return Outcome(True, ["unknown-layout"])
    status, out, read = main(["--init", layout], d, stdin)
    after = snapshot(d)
    desc = f"--init {layout} in a directory with {sorted(k for k in before if k)}, answer {case['reply']!r}"
    labels = [layout]
    if not empty and case["reply"] not in YES:
        diff = snap_diff(before, after)
        if diff:
            raise Violation(f"{desc}: was not confirmed, yet it changed {diff}")
        if status == 0:
            raise Violation(f"{desc}: was not confirmed, yet it exited with 0")
        return Outcome(True, labels + ["declined"])
    if status != 0:
        raise Violation(f"{desc}: exited with {status}: {out[-300:]}")
    if empty and read:
        raise Violation(f"{desc}: asked for confirmation in an empty directory")
    labels.append("created" if empty else "confirmed")
    plain = snapshot(d, False)
    for k, v in want.items():
        got = plain.get(k)
        if got is None or got["type"] != v["type"] or got.get("content") != v.get("content"):
            raise Violation(f"{desc}: {k} is {got}, in an empty directory it becomes {v}")
    for k in before:
        if k not in want:
            if before[k]["type"] == "dir":
                before[k] = after[k] = {kk: vv for kk, vv in before[k].items() if kk not in ("mtime", "ctime")} if after.get(k, {}).get("type") == "dir" else before[k]
            if before[k] != after.get(k):
                raise Violation(f"{desc}: {k}, which is not part of the layout, changed from {before[k]} to {after.get(k)}")
    for k in after:
        if k not in before and k not in want:
            raise Violation(f"{desc}: {k} appeared")
    # what was created has to work as it is
    roots = os.path.join(ctx, "hosts")
    os.makedirs(roots, exist_ok=True)
    wipe(roots)
    Rooted, sims = make_rooted(roots, case)
    saved = dict(Connector.registered_connectors)
    for k in ("local", "ssh"):
        Connector.registered_connectors[k] = type("Rooted_" + k, (Rooted,), {"schema": k, "extract_hostname": classmethod(lambda cls, url, c=saved[k]: c.extract_hostname(url))})
    try:
        inventories = {"dotfiles": ["local:"], "staging_prod": ["inventories/staging.py", "inventories/prod.py"]}.get(layout, ["inventory.py"])
        if layout == "dotfiles":
            for n in ("zsh/zshrc", "kitty/kitty.conf", "neovim/init.lua"):
                os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
                with open(os.path.join(d, n), "w") as f:
                    f.write("# " + n)
        flags = case["flags"] + (["--dry"] if case["dry"] else [])
        for inv in inventories:
            for n in HOSTS[inv]:
                for sub in ("tmp", "etc/nginx/sites", "root/.config"):
                    os.makedirs(os.path.join(roots, n, sub), exist_ok=True)
                with open(os.path.join(roots, n, "etc/nginx/nginx.conf"), "w") as f:
                    f.write("# main\n")
            first = snapshot(roots)
            mine = snapshot(d)
            status, out, _ = main(flags + [inv, "deploy.py"], d, "")
            if status != 0:
                raise Violation(f"{desc}: running the created deploy on {inv} ({flags}) failed with {status}: {out[-400:]}")
            if {n for n in sims if n in HOSTS[inv]} != set(HOSTS[inv]):
                raise Violation(f"{desc}: running the created deploy on {inv} reached {sorted(sims)}")
            ran = snapshot(roots)
            if case["dry"]:
                diff = snap_diff(first, ran)
                if diff or any(s.mods for s in sims.values()):
                    raise Violation(f"{desc}: a dry run of the created deploy changed {diff}")
            else:
                for n in HOSTS[inv]:
                    for f in EXPECT[layout]:
                        if ran.get(n + "/" + f, {}).get("type") != "file":
                            raise Violation(f"{desc}: running the created deploy on {inv} did not create {f} on {n}")
                    if layout in ("modular", "staging_prod"):
                        u = sims[n].units["system"]["nginx.service"]
                        if sims[n].pk["nginx"] != "installed" or u["active"] != "active" or u["file"] != "enabled":
                            raise Violation(f"{desc}: the created deploy left {n} with nginx {sims[n].pk['nginx']}, {u}")
                status, out, _ = main(flags + [inv, "deploy.py"], d, "")
                again = snapshot(roots)
                if status != 0 or snap_diff(ran, again):
                    raise Violation(f"{desc}: running the created deploy again: status {status}, changed {snap_diff(ran, again)}")
            left = [x for x in snap_diff(mine, snapshot(d)) if "__pycache__" not in x]
            if left:
                raise Violation(f"{desc}: running the created deploy changed the deploy directory: {left}")
        labels.append("dry" if case["dry"] else "ran")
    finally:
        Connector.registered_connectors.clear()
        Connector.registered_connectors.update(saved)
    return Outcome(True, labels)


HOSTS = {"local:": ["localhost"], "inventory.py": ["localhost"], "inventories/staging.py": ["staging1.example.com", "staging2.example.com"], "inventories/prod.py": [f"prod{i}.example.com" for i in (1, 2, 3, 4)]}
EXPECT = {"minimal": ["tmp/hello_world"], "flat": ["tmp/hello_world", "tmp/paramtest.txt"], "dotfiles": ["root/.zshrc", "root/.config/kitty/kitty.conf"], "modular": ["etc/nginx/sites/site1", "etc/nginx/sites/site2"],
          "staging_prod": ["etc/nginx/sites/site1", "etc/nginx/sites/site2"]}


CHECK = Check(id="C27", strategy=strategy, run=run, quick=500, thorough=12000, context=Ctx, batch=100, case_limit=60,
              rule="generated directories (empty, unrelated files, directories and links, files of the layout), answers to the confirmation and layouts; directory compared before and after; the created deploy is then run, dry or real and repeated, on "
                   "simulated hosts in generated states; non-trivial: every case")
