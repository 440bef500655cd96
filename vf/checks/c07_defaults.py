"""C07: nested execution defaults."""
import os
import stat as pystat

from hypothesis import strategies as st

from vf import env, gens, oracle
from vf.core import Check, HarnessError, Outcome, Violation
from vf.guard import make_guard
from vf.hostenv import HostEnv, wipe

KEYS = ["as_user", "as_group", "owner", "group", "file_mode", "dir_mode", "umask", "cwd"]
USERS = ["root", "nobody", "daemon", "0", "65534", "1", "bin"]
GROUPS = ["root", "nogroup", "daemon", "adm", "0", "65534", "4"]
FM = ["600", "644", "0644", "755", "4755", "00640", "0", "777", "2640", "7"]
UM = ["077", "022", "0", "027", "0077", "007", "77"]
CWD = ["w", "w/x y", "w/-n", "wl", "w/../w", "w/", "gone", "gone"]
BAD = {"as_user": ["no-such", "", "-7", "9x"], "as_group": ["no-such", ""], "owner": ["no-such", "Root"], "group": ["no-such", "99999999"], "file_mode": ["9", "rw-", "", "0o9", "0x1"], "dir_mode": ["888", "u+x", " "], "umask": ["abc", "", "8"], "cwd": ["missing", "file", "file/x", "filelink", "dangling", "fifo", "/dev/null", "missing/.."]}


class Boom(Exception):
    pass


def layer():
    def some(s):
        return st.one_of(st.none(), s)
    return st.fixed_dictionaries({"as_user": some(st.sampled_from(USERS)), "as_group": some(st.sampled_from(GROUPS)), "owner": some(st.sampled_from(USERS)), "group": some(st.sampled_from(GROUPS)), "file_mode": some(st.sampled_from(FM)),
                                  "dir_mode": some(st.sampled_from(FM)), "umask": some(st.sampled_from(UM)), "cwd": some(st.sampled_from(CWD))})


def strategy():
    probe = st.fixed_dictionaries({"n": st.just("probe"), "what": st.sampled_from(["look", "run", "upload", "file", "dir", "look"])})
    over = st.fixed_dictionaries({"n": st.just("probe"), "what": st.sampled_from(["upload", "dir", "file"]), "mode": st.none() | st.sampled_from(FM), "owner": st.none() | st.sampled_from(USERS), "group": st.none() | st.sampled_from(GROUPS)})
    special = st.one_of(st.just({"n": "vanish"}), st.fixed_dictionaries({"n": st.just("probe"), "what": st.just("link"), "owner": st.none() | st.sampled_from(USERS), "group": st.none() | st.sampled_from(GROUPS)}),
                        st.fixed_dictionaries({"n": st.just("probe"), "what": st.just("run"), "user": st.none() | st.sampled_from(USERS), "rgroup": st.none() | st.sampled_from(GROUPS), "umask": st.none() | st.sampled_from(UM),
                                               "cwd": st.none() | st.sampled_from(CWD)}))
    # duplicates in one_of have no weight
    node = st.deferred(lambda: st.sampled_from("bbbbposs").flatmap({"b": block, "p": probe, "o": over, "s": special}.get))
    bads = [[k, v] for k, vs in BAD.items() for v in vs]
    bad = st.sampled_from([None] * (7 * len(bads)) + bads)
    block = st.fixed_dictionaries({"n": st.just("block"), "set": layer(), "bad": bad, "body": st.lists(node, min_size=1, max_size=4), "exit": st.sampled_from(["ok", "ok", "ok", "raise", "raise-op", "base"]),
                                   "catch": st.booleans()})
    return st.fixed_dictionaries({"body": st.lists(node, min_size=1, max_size=4), "base": st.sampled_from(["std", "std", "custom"]), "failed_op": st.booleans()})


class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        self.root = os.path.join(scratch, "r")
        os.makedirs(os.path.join(self.root, "w", "x y"), exist_ok=True)
        os.makedirs(os.path.join(self.root, "w", "-n"), exist_ok=True)
        os.makedirs(os.path.join(self.root, "out"), exist_ok=True)
        os.chmod(os.path.join(self.root, "out"), 0o1777)
        for d in ("", "w", "w/x y", "w/-n"):
            os.chmod(os.path.join(self.root, d), 0o755)
        if not os.path.islink(os.path.join(self.root, "wl")):
            os.symlink("w", os.path.join(self.root, "wl"))
        for n, t in (("filelink", "file"), ("dangling", "nowhere")):
            if not os.path.islink(os.path.join(self.root, n)):
                os.symlink(t, os.path.join(self.root, n))
        if not os.path.exists(os.path.join(self.root, "fifo")):
            os.mkfifo(os.path.join(self.root, "fifo"))
        with open(os.path.join(self.root, "file"), "w") as f:
            f.write("x")
        self.envs = {}

    def get(self, base):
        if base not in self.envs:
            d = os.path.join(self.scratch, "env-" + base)
            os.makedirs(d, exist_ok=True)
            env.reset_globals()
            g = make_guard(os.path.join(self.root))
            url = "local:vhost"
            if base == "custom":
                url = os.path.join(d, "inventory.py")
                with open(url, "w") as f:
                    f.write("from fora.remote_settings import RemoteSettings as _R\nhosts = ['local:vhost']\n"
                            f"def base_remote_settings():\n    return _R(as_user='nobody', as_group='nogroup', owner='daemon', group='daemon', file_mode='640', dir_mode='751', umask='027', cwd={os.path.join(self.root, 'w')!r})\n")
            self.envs[base] = HostEnv(d, connector=g, url=url)
        return self.envs[base]

    def close(self):
        envs, self.envs = self.envs, {}
        for e in envs.values():
            try:
                e.close()
            except Exception:
                pass


def canon(k, v):
    if k in ("as_user", "owner"):
        return oracle.find_user(v).pw_name
    if k in ("as_group", "group"):
        return oracle.find_group(v).gr_name
    if k == "cwd":
        return v
    return oct(int(v, 8))[2:]


def run(case, ctx):
    he = ctx.get(case["base"])
    wipe(os.path.join(ctx.root, "out"))
    os.makedirs(os.path.join(ctx.root, "gone"), mode=0o755, exist_ok=True)
    os.chmod(os.path.join(ctx.root, "gone"), 0o755)
    labels = set()
    model = {"as_user": "root", "as_group": "root", "owner": "root", "group": "root", "file_mode": "600", "dir_mode": "700", "umask": "77", "cwd": "/tmp"}
    if case["base"] == "custom":
        model.update(file_mode="640", dir_mode="751", umask="27", cwd=os.path.join(ctx.root, "w"))

    def body():
        import fora
        st_ = State(ctx, fora, labels)
        try:
            st_.seq(case["body"], dict(model), 0)
        except Boom:
            pass
        st_.look(model)
    he.in_script(body)
    return Outcome(bool(labels & {"nested", "raised", "invalid"}), sorted(labels))


class State:
    def __init__(self, ctx, fora, labels):
        self.ctx, self.fora, self.labels = ctx, fora, labels
        self.k = 0

    def look(self, m, d=None):
        cur = d if d is not None else self.fora.script.current_defaults()
        for k in KEYS:
            a, b = getattr(cur, k), m[k]
            if k in ("file_mode", "dir_mode", "umask") and d is None and a is not None:
                a = oct(int(a, 8))[2:]       # the base settings are written with a leading zero
            elif k == "umask" and a is not None and d is not None:
                a = oct(int(a, 8))[2:]
            if a != b:
                raise Violation(f"effective {k} is {a!r}, expected {b!r}")

    def seq(self, nodes, m, depth):
        for n in nodes:
            if n["n"] == "vanish":
                # somebody removes a directory that may be the working directory of a surrounding block
                if os.path.isdir(os.path.join(self.ctx.root, "gone")):
                    os.rmdir(os.path.join(self.ctx.root, "gone"))
            elif n["n"] == "probe":
                self.probe(n, m)
            else:
                self.block(n, m, depth)

    def block(self, n, m, depth):
        from fora.connectors.tunnel_dispatcher import RemoteOSError
        from fora.operations.api import OperationError
        kw = {k: v for k, v in n["set"].items() if v is not None}
        if "cwd" in kw:
            kw["cwd"] = os.path.join(self.ctx.root, kw["cwd"])
        if n["bad"]:
            k, v = n["bad"]
            kw[k] = os.path.join(self.ctx.root, v) if k == "cwd" else v
            entered = False
            try:
                with self.fora.script.defaults(**kw):
                    entered = True
            except (ValueError, OSError, RemoteOSError):
                pass
            if entered:
                raise Violation(f"a defaults block with the invalid value {n['bad']} was entered")
            self.labels.add("invalid")
            self.look(m)
            return
        inner = dict(m)
        for k, v in kw.items():
            inner[k] = canon(k, v)
        if not os.path.isdir(inner["cwd"]):
            try:
                with self.fora.script.defaults(**kw):
                    entered = True
            except (ValueError, OSError, RemoteOSError):
                entered = False
            if entered:
                raise Violation(f"a defaults block was entered although its working directory {inner['cwd']} does not exist")
            self.labels.add("vanished")
            self.look(m)
            return
        if depth:
            self.labels.add("nested")

        class Base(BaseException):
            pass
        try:
            with self.fora.script.defaults(**kw) as d:
                self.look(inner, d)
                self.look(inner)
                self.seq(n["body"], inner, depth + 1)
                self.look(inner)
                if n["exit"] == "raise" or n["exit"] == "raise-op" and not os.path.isdir(inner["cwd"]):
                    raise Boom()
                if n["exit"] == "base":
                    raise Base()
                if n["exit"] == "raise-op":
                    from fora.operations import files
                    files.directory(os.path.join(self.ctx.root, "file"))     # wrong type: raises
                    raise Violation("directory() on a file did not raise")
        except (Boom, OperationError, Base) as e:
            self.labels.add("raised")
            self.look(m)
            if isinstance(e, Boom) and not n["catch"]:
                raise
        self.look(m)

    def probe(self, n, m):
        from fora.operations import files
        conn = self.fora.host.connection
        self.k += 1
        w = n["what"]
        p = os.path.join(self.ctx.root, "out", f"p{self.k}")
        if w == "look":
            self.look(m)
            return
        from fora.connectors.tunnel_dispatcher import RemoteOSError
        here = os.path.join(self.ctx.root, n["cwd"]) if n.get("cwd") else m["cwd"]
        if not os.path.isdir(here if w == "run" else m["cwd"]):
            try:
                conn.run(["true"], **({"cwd": here} if n.get("cwd") else {})) if w == "run" else files.upload_content(b"x", p)
            except (ValueError, OSError, RemoteOSError):
                self.look(m)
                return
            raise Violation(f"{w} succeeded although the working directory {here} does not exist")
        if w == "run":
            m = {**m, "cwd": here, **{a: canon(a, n[b]) for a, b in (("as_user", "user"), ("as_group", "rgroup"), ("umask", "umask")) if n.get(b) is not None}}
            given = {a: here if a == "cwd" else n[b] for a, b in (("user", "user"), ("group", "rgroup"), ("umask", "umask"), ("cwd", "cwd")) if n.get(b) is not None}
            out = conn.run(["sh", "-c", "id -u; id -g; umask; pwd -P"], **given).stdout.decode().split("\n")
            want = [str(oracle.find_user(m["as_user"]).pw_uid), str(oracle.find_group(m["as_group"]).gr_gid), m["umask"], os.path.realpath(m["cwd"])]
            out[2] = oct(int(out[2], 8))[2:]
            if out[:4] != want:
                raise Violation(f"a command ran with (uid, gid, umask, cwd) = {out[:4]}, the defaults in effect are {want}")
            self.labels.add("ran")
            return
        over = {k: n.get(k) for k in ("mode", "owner", "group") if n.get(k) is not None}
        if w == "link" and m["as_user"] == "root":
            files.link(p, target="/nowhere", **over)
            s = os.lstat(p)
            want = (oracle.find_user(over.get("owner", m["owner"])).pw_uid, oracle.find_group(over.get("group", m["group"])).gr_gid)
            if (s.st_uid, s.st_gid) != want:
                raise Violation(f"link with {over} belongs to {s.st_uid}:{s.st_gid}, expected {want}")
            self.labels.add("linked")
            self.look(m)
            return
        if w == "link" or w != "upload" and m["as_user"] != "root":
            return       # running chown needs root
        if w == "upload":
            files.upload_content(b"x", p, **over)
        elif w == "file":
            files.file(p, **over)
        else:
            files.directory(p, **over)
        s = os.lstat(p)
        mk = "dir_mode" if w == "dir" else "file_mode"
        want = (oct(int(over.get("mode", m[mk]), 8))[2:], oracle.find_user(over.get("owner", m["owner"])).pw_uid, oracle.find_group(over.get("group", m["group"])).gr_gid)
        got = (oct(pystat.S_IMODE(s.st_mode))[2:], s.st_uid, s.st_gid)
        if got != want:
            raise Violation(f"{w} with {over} created (mode, uid, gid) = {got}, expected {want}")
        self.labels.add("created")
        self.look(m)


CHECK = Check(
    id="C07", strategy=strategy, run=run, quick=1500, thorough=30000, batch=80, context=Ctx, case_limit=90,
    rule="generated trees of nested defaults blocks with arbitrary values (names, ids, octal forms, link directories), some invalid, left normally or by exceptions at any level, with two sets of base settings; inside, the effective defaults are read and "
         "commands and files are created; non-trivial: nesting, an exceptional exit or an invalid block occurs",
)
