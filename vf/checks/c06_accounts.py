"""C06: account, environment and home queries."""
import json
import os
import pwd
import grp

from hypothesis import strategies as st

from vf import env, fakedb, gens, oracle, tunnel
from vf.core import Check, HarnessError, Outcome, Violation
from vf.hostenv import HostEnv

PY = "/usr/bin/python3" if os.path.exists("/usr/bin/python3") else "/opt/venv/bin/python"
NAMES = ["root", "nobody", "daemon", "alice", "bob", "carol", "1000", "1001", "65534", "www-data", "x", "user.name", "Bob", "a" * 32, "ünï", "caf\udce9", "ssl-cert", "wheel", "bo", "bobby", "-", "two words", "admin,wheel", "7"]
CORE = ["root", "alice", "bob", "carol", "1000", "bo", "wheel", "100"]
IDS = [0, 1, 2, 7, 999, 1000, 1001, 1002, 65534, 65535, 2**31 - 1, 2**31, 2**32 - 2]
GIDS = [0, 100, 1000, 1001, 2**31 + 7]
TEXT = ["", "Bob,,,", "comment", "J\xfcrgen", "x" * 300, "a\nb", "caf\udce9", " ", "日本", "0", "None"]
HOMES = ["/root", "/home/bob", "/", "", "/nonexistent", "/home/a b", "/caf\udce9", "/home/bob/"]
HASHES = [None, "*", "!", "", "!!", "$6$salt$hash", "x", "!$6$a$b"]


def strategy():
    user = st.fixed_dictionaries({"name": st.sampled_from(CORE) | st.sampled_from(NAMES), "uid": st.sampled_from(IDS), "gid": st.sampled_from(GIDS), "gecos": st.sampled_from(TEXT), "home": st.sampled_from(HOMES), "shell": st.sampled_from(["/bin/sh", "", "/bin/bash", "/sbin/nologin", "/bin/\xe9"]),
                                  "hash": st.sampled_from(HASHES)})
    group = st.fixed_dictionaries({"name": st.sampled_from(CORE) | st.sampled_from(NAMES), "gid": st.sampled_from(GIDS), "members": st.lists(st.sampled_from(CORE) | st.sampled_from(NAMES), max_size=4)})
    q = st.sampled_from(CORE) | st.sampled_from(NAMES + [str(i) for i in IDS] + ["no-such", "", "x1", "12ab", "-1", "-5", "99999999999999999999", "0x0", "3.5", "root ", "1000 x", "ROOT", "nul\0"])
    query = st.one_of(
        st.tuples(st.sampled_from(["resolve_user", "resolve_group"]), st.none() | q),
        st.tuples(st.sampled_from(["resolve_user", "resolve_group"]), q),
        st.tuples(st.sampled_from(["query_user", "query_user", "query_user_hash", "query_group", "home_dir"]), q),
        st.tuples(st.just("home_dir"), st.none()),
    ).map(list)
    key = st.sampled_from(["A", "B", "PATH", "HOME", "LANG", "a b", "é", "UNSET", "X_1", "a", "USER"])
    val = st.sampled_from(["", "v", "a=b", "=", "x\ny", " lead", "é", "\udcff", "日本", "0", "None", "y" * 5000, "/root", "$A ${B} $HOME", "~", "%A% {A} %s", "trail ", "\\x41", "'q'", "a:b"])
    return st.one_of(
        st.fixed_dictionaries({"t": st.just("db"), "users": st.lists(user, min_size=1, max_size=7, unique_by=lambda u: u["name"]), "groups": st.lists(group, min_size=2, max_size=7, unique_by=lambda g: g["name"]), "qs": st.lists(query, min_size=1, max_size=12)}),
        st.fixed_dictionaries({"t": st.just("db"), "users": st.lists(user, min_size=1, max_size=7, unique_by=lambda u: u["name"]), "groups": st.lists(group, min_size=2, max_size=7, unique_by=lambda g: g["name"]), "qs": st.lists(query, min_size=1, max_size=12)}),
        st.fixed_dictionaries({"t": st.just("db"), "users": st.lists(user, min_size=1, max_size=7, unique_by=lambda u: u["name"]), "groups": st.lists(group, min_size=2, max_size=7, unique_by=lambda g: g["name"]), "qs": st.lists(query, min_size=1, max_size=12)}),
        st.fixed_dictionaries({"t": st.just("real"), "qs": st.lists(query, min_size=1, max_size=12)}),
        st.fixed_dictionaries({"t": st.just("env"), "env": st.lists(st.tuples(key, val), max_size=8, unique_by=lambda t: t[0]), "keys": st.lists(key, min_size=1, max_size=6), "default": st.sampled_from([None, "dflt", ""])}),
    )


class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        # as after su or sudo: who runs the dispatcher is not who logged in
        os.environ.update(LOGNAME="daemon", USER="daemon", LNAME="bin", USERNAME="bin", SUDO_USER="nobody", SUDO_UID="65534", SUDO_GID="65534", HOME="/vf-other-home")
        self.db = os.path.join(scratch, "db.json")
        self.write([], [])
        cmd = tunnel.local_command()
        i = next(i for i, a in enumerate(cmd) if a.endswith(".py"))
        full = cmd[:i] + [fakedb.__file__, self.db] + cmd[i:]
        from fora.connectors.tunnel_connector import TunnelConnector

        class C(TunnelConnector):
            schema = "local"

            def command(self):
                return full
        self.write([{"name": "root", "uid": 0, "gid": 0, "gecos": "", "home": "/root", "shell": "/bin/sh", "hash": None}], [{"name": "root", "gid": 0, "members": []}])
        d = os.path.join(scratch, "fake")
        os.makedirs(d, exist_ok=True)
        self.fake = HostEnv(d, connector=C)
        d = os.path.join(scratch, "real")
        os.makedirs(d, exist_ok=True)
        self.real = HostEnv(d)

    def write(self, users, groups):
        with open(self.db, "w") as f:
            json.dump({"users": users, "groups": groups}, f)

    def close(self):
        for e in (self.fake, self.real):
            try:
                e.close()
            except Exception:
                pass


def digits(s):
    return s.isascii() and s.isdigit() or (s[:1] == "-" and s[1:].isdigit())


def lookup(entries, q, idkey):
    for e in entries:
        if e["name"] == q:
            return e
    if digits(q):
        for e in entries:
            if e[idkey] == int(q):
                return e
    return None


def attempt(fn):
    from fora.connectors import tunnel_dispatcher as td
    try:
        return ("ok", fn())
    except td.RemoteOSError as e:
        return ("oserr", e.errno)
    except ValueError as e:
        return ("value", None)


def run(case, ctx):
    import fora
    labels = set()
    if case["t"] == "env":
        return run_env(case, ctx)
    if case["t"] == "db":
        users = [u for u in case["users"] if u["name"] != "0"]
        groups = [g for g in case["groups"] if g["name"] != "0"]
        ctx.write(users, groups)
        he = ctx.fake
    else:
        users = [{"name": p.pw_name, "uid": p.pw_uid, "gid": p.pw_gid, "gecos": p.pw_gecos, "home": p.pw_dir, "shell": p.pw_shell, "hash": "real"} for p in pwd.getpwall()]
        groups = [{"name": g.gr_name, "gid": g.gr_gid, "members": g.gr_mem} for g in grp.getgrall()]
        he = ctx.real
    con = he.connector
    cx = he.connection
    for kind, q in case["qs"]:
        hit = one(con, cx, kind, q, users, groups, case["t"] == "real")
        labels.add(kind + ("+" if hit else "-"))
        if hit and q is not None and digits(q):
            labels.add("by-id" if hit["name"] != q else "numeric-name")
    return Outcome(any(l.endswith("+") for l in labels), sorted(labels))


def one(con, cx, kind, q, users, groups, real):
    def bad(got, want):
        raise Violation(f"{kind}({q!r}): got {str(got)[:300]}, expected {str(want)[:300]}")

    if q is not None and "\0" in q:
        got = attempt(lambda: {"resolve_user": con.resolve_user, "resolve_group": con.resolve_group, "query_user": con.query_user, "query_user_hash": con.query_user, "query_group": con.query_group, "home_dir": cx.home_dir}[kind](q))
        if got[0] == "ok":
            bad(got, "an error")
        return None
    if kind in ("resolve_user", "resolve_group"):
        isu = kind.endswith("user")
        e = lookup(users if isu else groups, q if q is not None else str(os.getuid() if isu else os.getgid()), "uid" if isu else "gid")
        for c in (con, cx):
            got = attempt(lambda: getattr(c, kind)(q))
            if got != (("value", None) if e is None else ("ok", e["name"])):
                bad(got, e)
        return e
    if kind == "query_group":
        e = lookup(groups, q, "gid")
        got = attempt(lambda: con.query_group(q))
        dflt = object()
        got2 = cx.query_group(q, default=dflt)
        if e is None:
            if got[0] != "value":
                bad(got, "no such group")
            if got2 is not dflt or cx.query_group(q) is not None:
                bad(got2, "the default")
            return None
        for g in (got[1], got2):
            if got[0] != "ok" or (g.name, g.gid, list(g.members)) != (e["name"], e["gid"], list(e["members"])):
                bad(got, e)
        return e
    uq = q if q is not None else str(os.getuid())
    e = lookup(users, uq, "uid")
    pg = None if e is None else next((g for g in groups if g["gid"] == e["gid"]), None)
    found = e is not None and pg is not None
    if kind == "home_dir":
        got = attempt(lambda: cx.home_dir(q))
        if got != (("ok", e["home"]) if found else ("value", None)):
            bad(got, e if found else "no such user")
        return e if found else None
    want_hash = kind == "query_user_hash"
    if want_hash and real:
        want_hash = False
    if want_hash and found and e["hash"] is None:
        found = False
    dflt = object()
    got = attempt(lambda: con.query_user(q, query_password_hash=want_hash))
    got2 = cx.query_user(q, query_password_hash=want_hash, default=dflt)
    if not found:
        if got[0] != "value":
            bad(got, "no such user")
        if got2 is not dflt or cx.query_user(q, query_password_hash=want_hash) is not None:
            bad(got2, "the default")
        return None
    supp = sorted({g["name"] for g in groups if e["name"] in g["members"]})
    for g in (got[1], got2):
        if got[0] != "ok":
            bad(got, e)
        have = (g.name, g.uid, g.group, g.gid, sorted(set(g.groups)), g.password_hash, g.gecos, g.home, g.shell)
        want = (e["name"], e["uid"], pg["name"], e["gid"], supp, e["hash"] if want_hash else None, e["gecos"], e["home"], e["shell"])
        if have != want:
            bad(have, want)
    return e


def run_env(case, ctx):
    import fora
    pairs = dict((k, v) for k, v in case["env"])
    pairs.setdefault("PATH", "/usr/bin:/bin")
    full = [PY, "-c", "import os,sys,json; e=json.loads(sys.argv[1]); os.execve(sys.argv[2], sys.argv[2:], e)", json.dumps(pairs), PY] + [a for a in tunnel.local_command() if not a.startswith("python")]
    c = tunnel.make_connector(full)
    from fora import logger
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        c.open()
    try:
        cx = type("X", (), {})()
        from fora.connection import Connection
        cx = Connection.__new__(Connection)
        cx.connector = c
        for k in case["keys"]:
            got = attempt(lambda: c.getenv(k))
            want = pairs.get(k)
            if k in ("LANG", "LC_CTYPE"):
                continue        # the interpreter may adjust its own locale
            if got != ("ok", want):
                raise Violation(f"getenv({k!r}) = {got}, expected {want!r}")
            got = cx.getenv(k, default=case["default"])
            if got != (case["default"] if want is None else want):
                raise Violation(f"Connection.getenv({k!r}, default={case['default']!r}) = {got!r}, variable is {want!r}")
    finally:
        c.close()
    return Outcome(any(k in pairs for k in case["keys"]), ["env"])


CHECK = Check(
    id="C06", strategy=strategy, run=run, quick=3000, thorough=30000, batch=100, context=Ctx, case_limit=90,
    rule="generated account databases (numeric names, shared ids, users without primary group, shadow entries or members of many groups, non-ASCII fields) served to a real dispatcher in place of the C library, the real database, and generated "
         "environments; non-trivial: at least one query finds something",
    assumptions=["the dispatcher reads accounts through Python's pwd, grp and spwd modules"],
)
