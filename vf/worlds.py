"""Hosts in generated states with one operation to perform on them: used to compare dry and real runs and to inject faults.

A world offers: reset() puts the host into the generated state, call(**extra) performs the operation (inside a script), state(times) is everything observable,
and con is the connector that records requests and injects faults."""
import copy
import os
import shutil

from hypothesis import strategies as st

from vf import env, fileops
from vf.checks import c15_line, c16_upload_dir, c17_accounts, c18_packages, c19_git
from vf.core import HarnessError, Violation
from vf.guard import make_guard
from vf.hostenv import HostEnv, snapshot, wipe
from vf.simhost import make_sim


def strategy(git_weight=1):
    aim = st.one_of(st.none(), st.integers(0, 5))
    tmpl = st.fixed_dictionaries({"op": st.just("template"), "inline": st.booleans(), "p": fileops.paths(), "aim": aim, "form": st.just("plain"), "value": st.sampled_from(["", "x", "abc", "é\n"]), **fileops.attrs(fileops.gens.MODES_FILE)})
    line = st.fixed_dictionaries({"op": st.just("line"), "p": fileops.paths(), "aim": aim, "line": st.sampled_from(["abc", "x", "new line", "é"]), "present": st.booleans(), "regex": st.sampled_from([None, None, "^a", "x"]), "iw": st.booleans(), "backup": st.sampled_from([False, False, "saved.bak"])})
    files = st.fixed_dictionaries({"world": st.just("files"), "tree": fileops.trees(), "pre": st.lists(fileops.ops(), max_size=2), "op": st.one_of(fileops.ops(), fileops.ops(), fileops.ops(), line, tmpl), "same": st.booleans()})
    updir = c16_upload_dir.strategy().map(lambda c: {"world": "upload_dir", "case": c})
    acc = c17_accounts.strategy().map(lambda c: {"world": "accounts", "case": {**c, "ops": c["ops"][:3]}})
    pk = c18_packages.strategy().map(lambda c: {"world": "packages", "case": {**c, "ops": c["ops"][:3]}})
    git = st.fixed_dictionaries({"world": st.just("git"), "case": c19_git.strategy(), "push": st.integers(0, 2), "second": st.booleans(), "subs": st.booleans()})
    kinds = {"files": files, "upload_dir": updir, "accounts": acc, "packages": pk, "git": git}
    return st.sampled_from(["files"] * 12 + ["upload_dir"] * 3 + ["accounts"] * 5 + ["packages"] * 5 + ["git"] * git_weight).flatmap(lambda k: kinds[k])


def file_steps():
    """A tree, and operations that between them take every kind of step of every file operation."""
    at = {"mode": "750", "uid": 1, "gid": 1}
    tree = {"pool": ["a", "b", "c", "d", "e"], "rootmode": "755", "entries": [{"t": "dir", "p": [0], **at}, {"t": "file", "p": [1], "content": b"abc\nx\n", **at}, {"t": "link", "p": [2], "uid": 1, "gid": 1, "target": "@ext/f"}, {"t": "file", "p": [0, 1], "content": b"", **at}]}
    base = {"form": "plain", "terse": False, "aim": None, "present": True, "touch": False, "mode": None, "owner": None, "group": None}
    change = {"mode": "2711", "owner": "nobody", "group": "daemon"}
    ops = []
    for o, p in (("directory", 0), ("file", 1), ("link", 2)):
        extra = {"target": "@ext/d"} if o == "link" else {}
        same = {"target": "@ext/f"} if o == "link" else {}
        here = {"op": o, "p": [p], **base}
        ch = {k: v for k, v in change.items() if o != "link" or k != "mode"}
        if o == "link":
            del here["mode"]
        ops += [{**here, **extra, "present": False}, {**here, **extra, "p": [4]}, {**here, **extra, **ch, "p": [4], "touch": True}, {**here, **extra, **ch}, {**here, **same, "owner": "daemon", "group": "daemon", "touch": True}, {**here, **same, "owner": "daemon", "group": "adm"}, {**here, **same, "owner": "nobody", "group": "daemon"}]
        if o != "link":
            ops += [{**here, "mode": "700", "owner": "daemon", "group": "daemon"}]
    for p in (1, 4):
        up = {k: v for k, v in base.items() if k not in ("present", "touch")}
        ops += [{"op": "upload_content", "p": [p], **up, "content": b"new", "str": False}, {"op": "upload", "p": [p], **up, "content": b"new", "into": False, "srcname": "s"},
                {"op": "upload_content", "p": [p], **up, **change, "content": b"abc\nx\n", "str": True}, {"op": "template", "p": [p], "aim": None, "form": "plain", "inline": True, "value": "x", "mode": "640", "owner": None, "group": None}]
        for present in (True, False):
            ops += [{"op": "line", "p": [p], "aim": None, "line": "abc" if not present else "new", "present": present, "regex": None, "iw": True, "backup": b} for b in (False, "saved.bak")]
    return tree, ops


def git_steps():
    """Git operations that between them take every kind of step: cloning and updating, with and without submodules."""
    first = {"do": "repo", "path": "p", "url": "A", "ref": None, "update": True, "depth": None, "rebase": True, "ff_only": False, "sub": False, "rec": False, "shsub": False, "dry": False, "terse": False}
    case = {"start": ["dev"], "tags": [["v1", "main", True]], "block": None, "subs": None, "steps": []}
    sub = {"sub": True, "rec": True}
    for second, change, subs in ((False, {}, False), (False, {"ref": "v1", "depth": 1}, False), (False, sub, True), (True, {}, False), (True, {"ref": "dev", "rebase": False, "ff_only": True}, False), (True, {"depth": 1}, False), (True, sub, True)):
        yield {"world": "git", "case": {**case, "first": {**first, **change}}, "push": int(second), "second": second, "subs": subs}


class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        self.root, self.ext, self.src, self.rem = (os.path.join(scratch, n) for n in ("r", "ext", "s", "rem"))
        for d in (self.root, self.ext, self.src, self.rem):
            os.makedirs(d, exist_ok=True)
        c19_git.git_environment(scratch)
        env.reset_globals()
        self.he = self.files = HostEnv(scratch, connector=make_guard(self.root, also=(self.ext, self.rem)))
        self.sim = HostEnv(scratch, connector=make_sim(), url="local:simulated")
        self.sim.connector.shim = os.path.join(scratch, "shim")
        os.makedirs(self.sim.connector.shim, exist_ok=True)

    def close(self):
        self.files.close()
        self.sim.close()


class World:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.he = ctx.files
        self.saved = None

    @property
    def con(self):
        return self.he.connector

    def arm(self, fault=None):
        self.con.reset(fault)

    def perform(self, fault=None, dry=False, diff=False, check=True, extra=None, **flags):
        """Runs the operation; -> (kind, result or exception, requests); kind is ok, failed or raised."""
        con = self.con

        def body():
            try:
                self.arm(fault)
                call = self.bound()
                con.calls.clear()
                try:
                    return "ok", call(**({} if check else {"check": False}), **(extra or {}))
                except Violation:
                    raise
                except Exception as e:
                    return "raised", e
            finally:
                self.requests = list(con.calls)
                self.fired = fault is not None and len(con.calls) > fault[0]
                con.fault, con.broken = None, False
        kind, r = self.he.in_script(body, dry=dry, diff=diff, **flags)
        if kind == "ok":
            if r is None or not hasattr(r, "success"):
                raise Violation(f"{self.describe()}: no result was returned: {r!r}")
            if not r.success:
                kind = "failed"
                if check:
                    raise Violation(f"{self.describe()}: an unsuccessful result was returned although checking is on")
        return kind, r, self.requests

    def converging(self):
        """Whether repeating the operation has to be without effect."""
        return True


class Files(World):
    name = "files"

    def __init__(self, case, ctx):
        super().__init__(case, ctx)
        self.op = dict(case["op"])
        if case["same"] and case["pre"] and self.op["op"] not in ("line", "template"):
            # the same path as an earlier operation, so that there is something to modify
            self.op["p"] = case["pre"][-1]["p"]
            self.op["aim"] = None

    def describe(self):
        return f"{self.op}"

    def reset(self):
        c = self.ctx
        for d in (c.root, c.ext, c.src):
            wipe(d)
        os.chmod(c.root, 0o755)
        os.chown(c.root, 0, 0)
        fileops.build(self.case["tree"], c.root, c.ext)

        def body():
            for o in self.case["pre"]:
                try:
                    fileops.Job(o, self.case["tree"], c.root, c.ext, c.src).call()
                except Violation:
                    raise
                except Exception:
                    pass
        self.con.reset()
        if self.case["pre"]:
            self.he.in_script(body)

    def bound(self):
        from fora.operations import files
        o, c = self.op, self.ctx
        if o["op"] not in ("line", "template"):
            return fileops.Job(o, self.case["tree"], c.root, c.ext, c.src).call
        path = os.path.join(c.root, *fileops.components(o, self.case["tree"]))
        if o["op"] == "line":
            return lambda **x: files.line(path, o["line"], present=o["present"], regex=o["regex"], ignore_whitespace=o["iw"], backup=o["backup"], **x)
        kw = {k: o[k] for k in ("mode", "owner", "group") if o[k] is not None}
        text = "{{ vf_value }} on {{ host.name }}\n"
        if o["inline"]:
            return lambda **x: files.template_content(text, path, context={"vf_value": o["value"]}, **kw, **x)
        src = os.path.join(c.src, "template.j2")
        with open(src, "w") as f:
            f.write(text)
        return lambda **x: files.template(src, path, context={"vf_value": o["value"]}, **kw, **x)

    def state(self, times=True):
        return {base: snapshot(os.path.join(self.ctx.scratch, base), times) for base in ("r", "ext")}

    def converging(self):
        o = self.op
        if o["op"] == "line" and o["present"] and o["regex"] is not None:
            import re
            return re.search(o["regex"], o["line"]) is not None
        return not o.get("touch")


class UploadDir(World):
    name = "upload_dir"

    def describe(self):
        return f"upload_dir {({k: v for k, v in self.case['case'].items() if k not in ('src', 'pre', 'pool')})}"

    def reset(self):
        self.con.reset()
        _, dest, _, arg, _, self.body = c16_upload_dir.prepare(self.case["case"], self.ctx)
        self.dest = (dest, arg)

    def bound(self):
        return self.body

    def state(self, times=True):
        return snapshot(self.ctx.root, times)


class Sim(World):
    def __init__(self, case, ctx):
        super().__init__(case, ctx)
        self.he = ctx.sim

    def arm(self, fault=None):
        self.con.fault, self.con.broken = fault, False
        self.con.calls.clear()

    def describe(self):
        return f"{self.case['case']['ops'][-1]}"

    def state(self, times=True):
        s = self.con.state()
        if not times:
            s.pop("log")
            s.pop("reloads")
        return s


class Accounts(Sim):
    name = "accounts"

    def reset(self):
        self.con.reset(c17_accounts.setup(self.case["case"]))

        def body():
            for o in self.case["case"]["ops"][:-1]:
                try:
                    self.one(o)()
                except Violation:
                    raise
                except Exception:
                    pass
        self.he.in_script(body)

    def one(self, o):
        fn = (c17_accounts.call_user if o["k"] == "user" else c17_accounts.call_group)
        return lambda **x: fn({**o, **x})()

    def bound(self):
        return self.one(self.case["case"]["ops"][-1])


class Packages(Sim):
    name = "packages"

    def reset(self):
        c18_packages.setup(self.case["case"], self.con)

        def body():
            for o in self.case["case"]["ops"][:-1]:
                try:
                    self.one({**o, "check": True})()
                except Violation:
                    raise
                except Exception:
                    pass
        self.he.in_script(body)

    def one(self, o):
        from fora.operations import systemd

        def call(**x):
            p = {**o, "check": True, **x}
            if o["k"] == "package":
                return c18_packages.call_package(p, self.con)[1]()
            if o["k"] == "service":
                return c18_packages.call_service(p)[2]()
            return systemd.daemon_reload(user_mode=o["user_mode"], **x)
        return call

    def bound(self):
        return self.one(self.case["case"]["ops"][-1])

    def converging(self):
        o = self.case["case"]["ops"][-1]
        return o["k"] == "package" or o["k"] == "service" and o["state"] not in ("restarted", "reloaded")


class Git(World):
    name = "git"

    def __init__(self, case, ctx):
        super().__init__(case, ctx)
        self.rem = None
        self.base = os.path.join(ctx.scratch, "gitbase")

    def describe(self):
        return f"git.repo {self.spec}"

    @property
    def spec(self):
        s = dict(self.case["case"]["first"], dry=False)
        if self.case["subs"]:
            s["sub"] = True
        return s

    def reset(self):
        self.con.reset()
        c = self.ctx
        if self.rem is None:
            shutil.rmtree(self.base, ignore_errors=True)
            self.rem = c19_git.remotes(self.case["case"], c)
            if self.case["subs"]:
                self.rem["A"].commit("main", sub=True)
            if self.case["second"]:
                _, _, _, body = c19_git.call(self.spec, c, self.rem)
                try:
                    self.he.in_script(body)
                except Violation:
                    raise
                except Exception:
                    pass
                for _ in range(self.case["push"]):
                    ref = self.spec["ref"]
                    self.rem["A"].commit(ref if ref in c19_git.BRANCHES else "main", sub=self.case["subs"])
            os.makedirs(self.base)
            for n in ("r", "rem"):
                shutil.copytree(os.path.join(c.scratch, n), os.path.join(self.base, n), symlinks=True)
        else:
            for n in ("r", "rem"):
                shutil.rmtree(os.path.join(c.scratch, n), ignore_errors=True)
                shutil.copytree(os.path.join(self.base, n), os.path.join(c.scratch, n), symlinks=True)
        self.con.reset()

    def bound(self):
        return c19_git.call(self.spec, self.ctx, self.rem)[3]

    def state(self, times=True):
        c = self.ctx
        if times:
            return {"r": snapshot(c.root, times), "refs": {k: v.refs() for k, v in self.rem.items()}}
        path = os.path.join(c.root, self.spec["path"])
        out = {"exists": os.path.lexists(path), "head": c19_git.head(path)}
        if out["head"]:
            g = lambda *a: c19_git.git("-C", path, *a, ok=False)
            out.update(branch=g("symbolic-ref", "-q", "HEAD"), dirty=g("status", "--porcelain", "--ignore-submodules=all"), url=g("config", "--get", "remote.origin.url"), sub=None)
            if self.spec["sub"]:
                s = os.path.join(path, "s")
                out["sub"] = c19_git.git("-C", s, "rev-parse", "HEAD", ok=False) if os.path.exists(os.path.join(s, ".git")) else None
        return out


def make(case, ctx):
    w = {"files": Files, "upload_dir": UploadDir, "accounts": Accounts, "packages": Packages, "git": Git}[case["world"]](case, ctx)
    # kept for the requests of a shell to the simulated host
    return w
