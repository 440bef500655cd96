"""C03: histories of requests over one connection."""
import grp
import json
import os
import pwd
import shutil
import subprocess
import tempfile

from hypothesis import strategies as st

from vf import env, fakedb, gens, oracle, tunnel
from vf.core import Check, HarnessError, Outcome, Violation, blob
from vf.hostenv import HostEnv, wipe

USERS = ["root", "nobody", "daemon", "0", "65534", "1", "no-such-user", "", "99999999", "-1", "root ", "99999999999999999999999"]
GROUPS = ["root", "nogroup", "daemon", "0", "65534", "1", "no-such-group", "", "99999999", "12x"]
PATHS = ["f", "f", "d", "d/g", "l", "dangling", "loop", "missing", "f/under", "d/", "f/", "missing/x", "", ".", "d/../f", "nul\0x", "a\udc80b", "\ud83dx", "x" * 300, "utf-é日"]


# accounts that only the "accounts" connection knows: complete, without a shadow entry, without a primary group, and with neither
EXTRA = {"vf-full": (True, True), "vf-noshadow": (False, True), "vf-nogroup": (True, False), "vf-neither": (False, False)}


STATE = ["sh", "-c", "pwd -P; umask; id -u; id -g; id -G | tr ' ' '\\n' | sort | tr '\\n' ' '; ulimit -n; env | grep '^VF_\\|^HOME=\\|^PWD=' | sort"]


def path():
    return st.one_of(st.sampled_from(PATHS), gens.names())


def request():
    i = st.integers(0, 10**6)
    return st.one_of(
        st.fixed_dictionaries({"r": st.just("stat"), "path": path(), "follow": st.booleans(), "sha": st.booleans()}),
        st.fixed_dictionaries({"r": st.just("download"), "path": path()}),
        st.fixed_dictionaries({"r": st.just("upload"), "path": path(), "content": gens.blobs(150000, 20),
                               "mode": st.one_of(st.none(), st.sampled_from(["644", "4755", "0600", "abc", "8", "", "7777777777777777777777", "-1", "100000000"])),
                               "owner": st.one_of(st.none(), st.sampled_from(USERS)), "group": st.one_of(st.none(), st.sampled_from(GROUPS))}),
        st.fixed_dictionaries({"r": st.just("echo"), "token": i, "rc": st.sampled_from([0, 0, 1, 2, 127, 255]), "check": st.booleans(), "nout": gens.sizes(200000), "nerr": gens.sizes(200000),
                               "capture": st.sampled_from([True, True, True, False]), "input": st.none() | gens.blobs(150000, 20)}),
        st.fixed_dictionaries({"r": st.just("run"), "cmd": st.sampled_from(["cat", "cat-bg", "read-fd", "write-fd", "kill9", "close", "empty", "emptystr", "missing", "noexec", "isdir", "nularg", "bigarg", "surrogate",
                                                                            "stdinclosed", "badumask", "hugeumask", "baduser", "badgroup", "badcwd", "filecwd", "nulcwd", "nuluser", "ignoreinput"]), "token": i, "capture": st.booleans()}),
        st.fixed_dictionaries({"r": st.just("opts"), "cwd": st.sampled_from([None, "d", "", "nope"]), "umask": st.sampled_from([None, "027", "0", "777"]), "user": st.sampled_from([None, "nobody", "root", "1"]),
                               "group": st.sampled_from([None, "nogroup", "root", "1"]), "cmd": st.sampled_from(["state", "state", "missing", "fail"]), "capture": st.booleans()}),
        st.fixed_dictionaries({"r": st.just("state"), "which": st.sampled_from(["run", "run", "relative", "create"])}),
        st.fixed_dictionaries({"r": st.just("resolve_user"), "name": st.one_of(st.none(), st.sampled_from(USERS + ["nul\0", "\udcff"]), st.text(max_size=6))}),
        st.fixed_dictionaries({"r": st.just("resolve_group"), "name": st.one_of(st.none(), st.sampled_from(GROUPS + ["nul\0", "\udcff"]), st.text(max_size=6))}),
        st.fixed_dictionaries({"r": st.just("query_user"), "name": st.one_of(st.sampled_from(USERS + ["nul\0"]), st.sampled_from(sorted(EXTRA)), st.text(max_size=6)), "hash": st.booleans()}),
        st.fixed_dictionaries({"r": st.just("query_group"), "name": st.one_of(st.sampled_from(GROUPS + ["nul\0"]), st.text(max_size=6))}),
        st.fixed_dictionaries({"r": st.just("getenv"), "key": st.sampled_from(["PATH", "HOME", "VF_ENV_A", "VF_ENV_BIN", "VF_ENV_EMPTY", "VF_UNSET", "", "a=b", "nul\0", "é"])}),
    )


def strategy():
    return st.fixed_dictionaries({"via": st.sampled_from(["local", "accounts", "ssh"]), "reqs": st.lists(request(), min_size=1, max_size=10)})


class Ctx:
    """A local and an ssh-style connection, kept open over many cases, so that the history of a session spans them."""

    def __init__(self, scratch):
        self.root = os.path.join(scratch, "root")
        os.makedirs(self.root, exist_ok=True)
        self.bin = os.path.join(scratch, "bin")
        os.makedirs(self.bin, exist_ok=True)
        shim = os.path.join(self.bin, "ssh")
        with open(shim, "w") as f:
            # stands in for ssh: runs the remote command line (the last argument) with a shell, as sshd would
            f.write('#!/bin/bash\nexec sh -c "${@: -1}"\n')
        os.chmod(shim, 0o755)
        os.environ["PATH"] = self.bin + ":/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
        os.environ["VF_ENV_A"] = "value a"
        os.environ["VF_ENV_EMPTY"] = ""
        os.environb[b"VF_ENV_BIN"] = b"caf\xe9 \xff"
        self.scratch = scratch
        self.envs = {}

    def get(self, via):
        if via not in self.envs:
            d = os.path.join(self.scratch, "env-" + via)
            os.makedirs(d, exist_ok=True)
            connector = self.accounts() if via == "accounts" else None
            self.envs[via] = e = HostEnv(d, url="local:vhost" if via != "ssh" else "ssh://root@vhost:22", connector=connector)
            e.connector.vf_extra = EXTRA if via == "accounts" else {}
            e.baseline = e.connector.run(STATE).stdout.decode()
        return self.envs[via]

    def accounts(self):
        """The local dispatcher with an account database of the real accounts and some odd ones."""
        from fora.connectors.tunnel_connector import TunnelConnector
        db = os.path.join(self.scratch, "db.json")
        users = [{"name": e.pw_name, "uid": e.pw_uid, "gid": e.pw_gid, "gecos": e.pw_gecos, "home": e.pw_dir, "shell": e.pw_shell, "hash": "*" if e.pw_uid else "x"} for e in pwd.getpwall()]
        for i, (n, (shadow, group)) in enumerate(EXTRA.items()):
            users.append({"name": n, "uid": 771000 + i, "gid": 0 if group else 772000, "gecos": "", "home": "/", "shell": "/bin/sh", "hash": "*" if shadow else None})
        with open(db, "w") as f:
            json.dump({"users": users, "groups": [{"name": e.gr_name, "gid": e.gr_gid, "members": e.gr_mem} for e in grp.getgrall()]}, f)
        cmd = tunnel.local_command()
        i = next(i for i, a in enumerate(cmd) if a.endswith(".py"))

        class C(TunnelConnector):
            schema = "local"

            def command(self, _full=cmd[:i] + [fakedb.__file__, db] + cmd[i:]):
                return _full
        return C

    def close(self):
        envs, self.envs = self.envs, {}
        for e in envs.values():
            try:
                e.close()
            except Exception:
                pass


def prepare(root):
    wipe(root)
    with open(os.path.join(root, "f"), "wb") as f:
        f.write(b"content of f\n\xff")
    os.chmod(os.path.join(root, "f"), 0o640)
    os.utime(os.path.join(root, "f"), ns=(-5_000_000_001, -5_000_000_001))
    os.mkdir(os.path.join(root, "d"), 0o2750)
    with open(os.path.join(root, "d", "g"), "wb") as f:
        f.write(b"")
    os.symlink("f", os.path.join(root, "l"))
    os.symlink("nowhere", os.path.join(root, "dangling"))
    os.symlink("loop", os.path.join(root, "loop"))
    with open(os.path.join(root, "sentinel"), "wb") as f:
        f.write(b"sentinel")


def encodable(*xs):
    for x in xs:
        if x is None:
            continue
        if "\0" in x:
            return False
        try:
            x.encode("utf-8", "surrogateescape")
        except UnicodeError:
            return False
    return True


def outcome(td, fn):
    """('ok', v) | ('oserr', errno) | ('value',) | ('called', exc) | ('io', exc)"""
    try:
        return ("ok", fn())
    except td.RemoteOSError as e:
        return ("oserr", e.errno)
    except subprocess.CalledProcessError as e:
        return ("called", e)
    except ValueError as e:  # includes UnicodeError
        return ("value", str(e))
    except OSError as e:
        raise Violation(f"the connection broke: {type(e).__name__}: {e}")


def oct_ok(m):
    try:
        return 0 <= int(m, 8) <= 0o7777 and not m.startswith(("+", "-")) and "_" not in m
    except ValueError:
        return False


def step(con, td, root, q, labels, nr, baseline):
    r = q["r"]
    p = os.path.join(root, q["path"]) if "path" in q else None

    def bad(got, want):
        raise Violation(f"request {nr} {str(q)[:300]}: got {str(got)[:300]}, expected {str(want)[:300]}")

    if r == "stat":
        got = outcome(td, lambda: con.stat(p, follow_links=q["follow"], sha512sum=q["sha"]))
        if not encodable(p):
            labels.add("malformed")
            if got[0] == "ok" and got[1] is not None:
                bad(got, "an error or absence")
            return
        want = oracle.stat(p, q["follow"], q["sha"])
        if got[0] == "ok":
            got = ("ok", oracle.stat_dict(got[1]))
        if got[:2] != want:
            bad(got, want)
        labels.add("fail" if want[0] != "ok" else "stat")
    elif r == "download":
        got = outcome(td, lambda: con.download(p))
        if not encodable(p):
            labels.add("malformed")
            if got[0] == "ok":
                bad(got, "an error")
            return
        want = oracle.download(p)
        if got[0] != want[0] or (want[0] != "value" and got[1] != want[1]):
            bad(got, want)
        labels.add("fail" if want[0] != "ok" else "download")
    elif r == "upload":
        content = blob(q["content"])
        before = oracle.download(p) if encodable(p) else None
        u = None if q["owner"] is None else oracle.find_user(q["owner"])
        g = None if q["group"] is None else oracle.find_group(q["group"])
        got = outcome(td, lambda: con.upload(p, content, mode=q["mode"], owner=q["owner"], group=q["group"]))
        if not encodable(p):
            labels.add("malformed")
            if got[0] == "ok":
                bad(got, "an error")
            return
        invalid = (q["owner"] is not None and u is None) or (q["group"] is not None and g is None)
        try:
            m = None if q["mode"] is None else int(q["mode"], 8)
        except ValueError:
            m, invalid = None, True
        if invalid:
            labels.add("invalid-param")
            if got[0] != "value":
                bad(got, "a ValueError")
            if oracle.download(p) != before:
                bad("file modified", "file untouched by a rejected upload")
            return
        after = oracle.download(p)
        if m is not None and not oct_ok(q["mode"]):
            labels.add("malformed")
            return      # out of range: either outcome, but the session must go on
        if got[0] == "ok":
            if after != ("ok", content):
                bad(f"{str(after)[:100]}", "the uploaded content")
            labels.add("upload")
        elif got[0] == "oserr":
            # must be for a reason: writing there ourselves fails in the same way
            try:
                fd = os.open(p, os.O_WRONLY | os.O_CREAT)
                os.close(fd)
            except OSError as e:
                if e.errno != got[1]:
                    bad(got, f"errno {e.errno}")
            else:
                bad(got, "success")
            labels.add("fail")
        else:
            bad(got, "success or a remote OS error")
    elif r == "echo":
        inp = None if q["input"] is None else blob(q["input"])
        script = 'printf "%s|" "$1"; head -c "$2" /dev/zero; printf "%s!" "$1" >&2; head -c "$3" /dev/zero | tr "\\0" e >&2; exit "$4"'
        got = outcome(td, lambda: con.run(["sh", "-c", script, "sh", str(q["token"]), str(q["nout"]), str(q["nerr"]), str(q["rc"])],
                                          input=inp, capture_output=q["capture"], check=q["check"]))
        out = b"%d|" % q["token"] + b"\0" * q["nout"] if q["capture"] else None
        err = b"%d!" % q["token"] + b"e" * q["nerr"] if q["capture"] else None
        check_result(got, q["rc"], out, err, q["check"], bad)
        labels.add("nocapture" if not q["capture"] else "echo")
    elif r == "opts":
        kw = {k: q[k] for k in ("umask", "user", "group")}
        if q["cwd"] is not None:
            kw["cwd"] = os.path.join(root, q["cwd"]).rstrip("/")
        argv = {"state": ["sh", "-c", "umask; id -u; id -g"], "missing": ["/nonexistent/cmd"], "fail": ["sh", "-c", "exit 3"]}[q["cmd"]]
        got = outcome(td, lambda: con.run(argv, capture_output=q["capture"], check=False, **kw))
        labels.add("options")
        if q["cwd"] == "nope":
            if got[0] != "value":
                bad(got, "a ValueError")
        elif q["cmd"] == "missing" and got[0] != "value":
            if got[:2] != ("oserr", 2):
                bad(got, ("oserr", 2))
        elif got[0] in ("oserr", "value") and q["user"] not in (None, "root"):
            pass        # that user cannot enter the directory
        elif got[0] != "ok" or got[1].returncode != (3 if q["cmd"] == "fail" else 0):
            bad(got, "a result")
    elif r == "state":
        labels.add("state")
        if q["which"] == "run":
            got = outcome(td, lambda: con.run(STATE))
            if got[0] != "ok" or got[1].stdout.decode() != baseline:
                bad((got[0], got[1].stdout if got[0] == "ok" else got[1]), f"what a plain command saw at the beginning of the session: {baseline!r}")
        elif q["which"] == "relative":
            base = baseline.split("\n")[0]
            rel = os.path.relpath(os.path.join(root, "sentinel"), base)
            for got, want in ((outcome(td, lambda: con.download(rel)), ("ok", b"sentinel")),
                              (outcome(td, lambda: con.stat("vf-nothing-here")), ("ok", None))):
                if got != want:
                    bad(got, want)
        else:
            p = os.path.join(root, "created")
            if os.path.lexists(p):
                os.unlink(p)
            mask = int(baseline.split("\n")[1], 8)
            got = outcome(td, lambda: con.upload(p, b"new"))
            s = os.lstat(p)
            if got[0] != "ok" or (s.st_uid, s.st_gid) != (os.getuid(), os.getgid()) or s.st_mode & 0o7777 & mask:
                bad((got, oct(s.st_mode), s.st_uid, s.st_gid), "a file created with the session's own umask and identity")
    elif r == "run":
        special(con, td, root, q, bad, labels)
    elif r in ("resolve_user", "resolve_group"):
        isu = r.endswith("user")
        name = q["name"]
        got = outcome(td, lambda: getattr(con, r)(name))
        if name is not None and not encodable(name):
            labels.add("malformed")
            if got[0] == "ok":
                bad(got, "an error")
            return
        if name is None:
            want = ("ok", oracle.user_name(os.getuid()) if isu else oracle.group_name(os.getgid()))
        else:
            e = oracle.find_user(name) if isu else oracle.find_group(name)
            want = ("value",) if e is None else ("ok", e[0])
        if got[0] != want[0] or (want[0] == "ok" and got[1] != want[1]):
            bad(got, want)
        labels.add("resolve" if want[0] == "ok" else "fail")
    elif r in ("query_user", "query_group"):
        isu = r.endswith("user")
        name = q["name"]
        more = {"query_password_hash": True} if q.get("hash") else {}
        got = outcome(td, lambda: getattr(con, r)(name, **more))
        if not encodable(name):
            labels.add("malformed")
            if got[0] == "ok":
                bad(got, "an error")
            return
        e = oracle.find_user(name) if isu else oracle.find_group(name)
        if isu and name in con.vf_extra:
            shadow, group = con.vf_extra[name]
            e = (name,) if group and (shadow or not more) else None
        elif more and e is not None and con.vf_extra == {} and e[0] not in oracle.shadowed():
            e = None
        if e is None:
            if got[0] != "value":
                bad(got, "a ValueError")
            labels.add("fail")
        else:
            if got[0] != "ok" or got[1].name != e[0]:
                bad(got, e)
            labels.add("query")
    elif r == "getenv":
        got = outcome(td, lambda: con.getenv(q["key"]))
        if not encodable(q["key"]) or q["key"] == "" or "=" in q["key"]:
            labels.add("malformed")
            if got[0] == "ok" and got[1] is not None:
                bad(got, "unset or an error")
            return
        if got != ("ok", os.environ.get(q["key"])):
            bad(got, os.environ.get(q["key"]))
        labels.add("getenv")


def check_result(got, rc, out, err, check, bad):
    if check and rc != 0:
        if got[0] != "called":
            bad(got, f"CalledProcessError({rc})")
        e = got[1]
        if (e.returncode, e.output, e.stderr) != (rc, out, err):
            bad((e.returncode, e.output, e.stderr), (rc, out, err))
    else:
        if got[0] != "ok":
            bad(got, "a result")
        e = got[1]
        if (e.returncode, e.stdout, e.stderr) != (rc, out, err):
            bad((e.returncode, e.stdout, e.stderr), (rc, out, err))


def special(con, td, root, q, bad, labels):
    c, tok = q["cmd"], str(q["token"])
    f = os.path.join(root, "f")
    cap = q["capture"]
    o = lambda fn: outcome(td, fn)
    labels.add("run-" + c)
    e = b"" if cap else None
    t = tok.encode() if cap else None
    if c == "cat":
        # no input given: the command must see an empty standard input, never the protocol stream
        check_result(o(lambda: con.run(["cat"], capture_output=cap)), 0, e, e, True, bad)
    elif c == "ignoreinput":
        check_result(o(lambda: con.run(["sh", "-c", 'printf %s "$1"', "sh", tok], input=b"z" * 300000, capture_output=cap)), 0, t, e, True, bad)
    elif c == "cat-bg":
        # a background child that outlives the command without holding its output open
        check_result(o(lambda: con.run(["sh", "-c", 'sleep 0.05 </dev/null >/dev/null 2>&1 & printf %s "$1"', "sh", tok], capture_output=cap)), 0, t, e, True, bad)
    elif c == "read-fd":
        check_result(o(lambda: con.run(["sh", "-c", 'head -c 5; printf %s "$1"', "sh", tok], input=b"12345rest", capture_output=cap)), 0, (b"12345" + tok.encode()) if cap else None, e, True, bad)
    elif c == "write-fd":
        check_result(o(lambda: con.run(["sh", "-c", 'printf %s "$1"; printf %s "$1" >&2', "sh", tok], capture_output=cap)), 0, t, t, True, bad)
    elif c == "kill9":
        check_result(o(lambda: con.run(["sh", "-c", "kill -9 $$"], check=False, capture_output=cap)), -9, e, e, False, bad)
    elif c == "close":
        check_result(o(lambda: con.run(["sh", "-c", "exec 0<&- 1>&- 2>&-; exit 7"], check=False, capture_output=cap)), 7, e, e, False, bad)
    elif c == "stdinclosed":
        check_result(o(lambda: con.run(["sh", "-c", "exec 0<&-; sleep 0.01; exit 4"], input=b"x" * 200000, check=False, capture_output=cap)), 4, e, e, False, bad)
    else:
        arg = {"empty": lambda: con.run([]), "emptystr": lambda: con.run([""]), "missing": lambda: con.run(["/nonexistent/cmd" + tok]), "noexec": lambda: con.run([f]),
               "isdir": lambda: con.run([root]), "nularg": lambda: con.run(["echo", "a\0b"]), "bigarg": lambda: con.run(["echo", "x" * 2_200_000]),
               "surrogate": lambda: con.run(["echo", "\ud800"]), "badumask": lambda: con.run(["echo"], umask="9x"), "hugeumask": lambda: con.run(["echo"], umask="7" * 40),
               "baduser": lambda: con.run(["echo"], user="no-such-" + tok), "badgroup": lambda: con.run(["echo"], group="no-such-" + tok), "badcwd": lambda: con.run(["echo"], cwd=os.path.join(root, "nope")),
               "filecwd": lambda: con.run(["echo"], cwd=f), "nulcwd": lambda: con.run(["echo"], cwd="/a\0b"), "nuluser": lambda: con.run(["echo"], user="a\0b")}[c]
        got = o(arg)
        if got[0] not in ("value", "oserr"):
            bad(got, "an error")
        if c in ("badumask", "baduser", "badgroup", "badcwd", "filecwd") and got[0] != "value":
            bad(got, "a ValueError")
        errnos = {"missing": 2, "noexec": 13, "isdir": 13, "bigarg": 7}
        if c in errnos and got != ("oserr", errnos[c]):
            bad(got, ("oserr", errnos[c]))


def run(case, ctx):
    from fora.connectors import tunnel_dispatcher as td
    import fora
    prepare(ctx.root)
    he = ctx.get(case["via"])
    fora.args = env.make_args()
    con = he.connector
    labels = {case["via"]}
    for nr, q in enumerate(case["reqs"]):
        step(con, td, ctx.root, q, labels, nr, he.baseline)
    # whatever happened, the session still answers correctly
    got = outcome(td, lambda: con.download(os.path.join(ctx.root, "sentinel")))
    if got != oracle.download(os.path.join(ctx.root, "sentinel")):
        raise Violation(f"after the history, a plain download returned {str(got)[:200]}")
    st_ = outcome(td, lambda: con.stat(os.path.join(ctx.root, "d")))
    if st_[0] != "ok" or oracle.stat_dict(st_[1]) != oracle.stat(os.path.join(ctx.root, "d"), False, False)[1]:
        raise Violation(f"after the history, a plain stat returned {str(st_)[:200]}")
    hard = labels & {"fail", "malformed", "invalid-param", "nocapture"} or any(x.startswith("run-") for x in labels)
    return Outcome(bool(hard) and len(case["reqs"]) > 1, sorted(labels))


def examples():
    cmds = ["cat", "cat-bg", "read-fd", "write-fd", "kill9", "close", "empty", "emptystr", "missing", "noexec", "isdir", "nularg", "bigarg", "surrogate", "stdinclosed", "badumask", "hugeumask", "baduser", "badgroup",
            "badcwd", "filecwd", "nulcwd", "nuluser", "ignoreinput"]
    return [{"via": v, "reqs": [{"r": "run", "cmd": c, "token": i, "capture": cap} for i, c in enumerate(cmds)]} for v in ("local", "ssh") for cap in (True, False)] + \
        [{"via": "local", "reqs": [{"r": "stat", "path": p, "follow": fl, "sha": True} for p in PATHS for fl in (True, False)]},
         {"via": "local", "reqs": [{"r": "state", "which": "run"}, {"r": "opts", "cwd": "d", "umask": "027", "user": "nobody", "group": "nogroup", "cmd": "state", "capture": True}]
          + [{"r": "state", "which": w} for w in ("run", "relative", "create")]
          + [{"r": "opts", "cwd": "", "umask": "777", "user": "1", "group": "1", "cmd": "missing", "capture": False}] + [{"r": "state", "which": w} for w in ("run", "relative", "create")]},
         {"via": "accounts", "reqs": [{"r": "query_user", "name": n, "hash": h} for h in (True, False) for n in [*EXTRA, "root", "0"]]},
         {"via": "ssh", "reqs": [{"r": "download", "path": p} for p in PATHS] + [{"r": "getenv", "key": k} for k in ("VF_ENV_BIN", "nul\0", "VF_ENV_EMPTY", "VF_ENV_A")]}]


CHECK = Check(
    id="C03", strategy=strategy, run=run, quick=2500, thorough=20000, batch=60, context=Ctx, examples=examples, case_limit=90,
    rule="histories of 1-10 requests of every kind, well-formed, failing and malformed, over connections that stay open across cases (local connector, and ssh connector through a stand-in ssh); each answer is compared with "
         "a direct OS call; non-trivial: at least two requests, one of which fails, is malformed, is not captured, or runs a command that handles its standard streams unusually",
    assumptions=["the stand-in for ssh runs the remote command line with sh, as sshd does"],
)
