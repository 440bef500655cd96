"""C05: uploads, downloads and stats."""
import json
import os
import socket
import stat as pystat

from hypothesis import strategies as st

from vf import env, fakedb, gens, oracle, tunnel
from vf.core import Check, HarnessError, Outcome, Violation, blob
from vf.hostenv import HostEnv, describe, snapshot, snap_diff, wipe

OWNERS = ["root", "nobody", "daemon", "0", "65534", "1", "2", "bin"]
GROUPS = ["root", "nogroup", "daemon", "adm", "0", "65534", "4"]
BADU = ["no-such-user", "", "1x", "4294967290", "root ", "-5", "99999999999999999999"]
BADM = ["9", "0x1ff", "rwx", "", "u+x", "6 4 4"]
KINDS = ["proc", "chr", "missing", "file", "dir", "fifo", "sock", "link-file", "link-dir", "dangling", "loop", "under-file", "missing-parent", "link-link"]
BIG = [70000, 1 << 20, (1 << 20) + 1, 3 * (1 << 20)]


def opt(s, n=1):
    return st.one_of(*([st.none()] * n), s)


def entry():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(KINDS), "name": gens.names(), "content": gens.blobs(200000, 40), "mode": st.integers(0, 0o7777), "uid": st.sampled_from([0, 0, 1, 65534, 54321]),
        "gid": st.sampled_from([0, 0, 1, 65534, 54321]), "mtime": st.one_of(st.sampled_from([0, -1, 1, 10**18, -10**18, 2**62]), st.integers(0, 2 * 10**18)), "sparse": st.sampled_from([None, None, None, None, 2**31 + 5, 2**32, 2**32 + 1]),
    })


def strategy():
    action = st.one_of(
        st.fixed_dictionaries({"a": st.just("upload"), "terse": st.booleans(), "i": st.integers(0, 3), "content": st.one_of(gens.blobs(300000, 40), gens.blobs(300000, 40), st.sampled_from(BIG).map(lambda n: ["fill", n, 3])),
                               "mode": opt(gens.modes(gens.MODES_FILE)), "owner": opt(st.sampled_from(OWNERS)), "group": opt(st.sampled_from(GROUPS)), "bad": st.one_of(*[st.none()] * 6, st.sampled_from(
                                   [["owner", b] for b in BADU] + [["group", b] for b in BADU] + [["mode", b] for b in BADM]))}),
        st.fixed_dictionaries({"a": st.just("download"), "i": st.integers(0, 3)}),
        st.fixed_dictionaries({"a": st.just("stat"), "i": st.integers(0, 3), "follow": st.booleans(), "sha": st.booleans(), "form": st.sampled_from(["", "", "/", "/.", "//"]), "terse": st.booleans()}),
    )
    files = st.fixed_dictionaries({"entries": st.lists(entry(), min_size=1, max_size=4), "actions": st.lists(action, min_size=1, max_size=6), "via": st.sampled_from(["connector", "connection"]), "umask": st.sampled_from([None, "022", "000"])})
    name = st.sampled_from(["root", "ann", "bob", "1001", "7"])
    number = st.sampled_from([0, 7, 1000, 1001])
    acc = st.fixed_dictionaries({"users": st.lists(st.tuples(name, number, number).map(list), max_size=4, unique_by=lambda t: t[0]), "groups": st.lists(st.tuples(name, number).map(list), max_size=4, unique_by=lambda t: t[0])})
    act = st.one_of(st.fixed_dictionaries({"a": st.just("stat"), "link": st.booleans(), "follow": st.booleans()}), st.fixed_dictionaries({"a": st.just("upload"), "owner": st.none() | name, "group": st.none() | name}))
    accounts = st.fixed_dictionaries({"mode": st.just("accounts"), "uid": number, "gid": number, "steps": st.lists(st.tuples(acc, st.lists(act, min_size=1, max_size=2)).map(list), min_size=2, max_size=4)})
    return st.sampled_from(["files"] * 5 + ["accounts"]).flatmap(lambda k: files if k == "files" else accounts)


class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        self.root = os.path.join(scratch, "r")
        os.makedirs(self.root, exist_ok=True)
        self.he = HostEnv(scratch)
        self.db = os.path.join(scratch, "db.json")
        self.accounts({"users": [["root", 0, 0]], "groups": [["root", 0]]})
        cmd = tunnel.local_command()
        i = next(i for i, a in enumerate(cmd) if a.endswith(".py"))
        full = cmd[:i] + [fakedb.__file__, self.db] + cmd[i:]
        from fora.connectors.tunnel_connector import TunnelConnector

        class C(TunnelConnector):
            schema = "local"

            def command(self):
                return full
        d = os.path.join(scratch, "fake")
        os.makedirs(d, exist_ok=True)
        self.fake = HostEnv(d, connector=C)

    def accounts(self, acc):
        with open(self.db, "w") as f:
            json.dump({"users": [{"name": n, "uid": u, "gid": g, "gecos": "", "home": "/", "shell": "/bin/sh", "hash": None} for n, u, g in acc["users"]],
                       "groups": [{"name": n, "gid": g, "members": []} for n, g in acc["groups"]]}, f)

    def close(self):
        self.he.close()
        self.fake.close()


def build(root, i, e):
    d = os.path.join(root, str(i))
    os.mkdir(d)
    p = os.path.join(d, e["name"])
    t = os.path.join(d, "target-of-link")
    k = e["kind"]
    real = None
    if k == "file":
        real = p
    elif k in ("link-file", "link-link"):
        real = t
        if k == "link-file":
            os.symlink("target-of-link", p)
        else:
            os.symlink("target-of-link", os.path.join(d, "mid-link"))
            os.symlink(os.path.join(d, "mid-link"), p)
    elif k == "dir":
        os.mkdir(p)
        os.chmod(p, e["mode"])
        os.chown(p, e["uid"], e["gid"])
    elif k == "link-dir":
        os.mkdir(t)
        os.symlink(t, p)
    elif k == "dangling":
        os.symlink("nowhere", p)
    elif k == "loop":
        os.symlink(e["name"], p)
    elif k == "fifo":
        os.mkfifo(p)
        os.chmod(p, e["mode"])
    elif k == "sock":
        s = socket.socket(socket.AF_UNIX)
        old = os.getcwd()
        os.chdir(d)
        try:
            s.bind("s")
        finally:
            os.chdir(old)
            s.close()
        os.rename(os.path.join(d, "s"), p)
    elif k == "under-file":
        with open(p, "wb") as f:
            f.write(b"x")
        p = os.path.join(p, "x")
    elif k == "proc":
        p = "/proc/version"        # holds data although its size is zero
    elif k == "chr":
        p = "/dev/zero"
    elif k == "missing-parent":
        p = os.path.join(d, "no-parent", e["name"])
    if real:
        with open(real, "wb") as f:
            f.write(blob(e["content"]))
            if e["sparse"]:
                f.truncate(e["sparse"])
        os.chown(real, e["uid"], e["gid"])
        os.chmod(real, e["mode"])
        os.utime(real, ns=(e["mtime"], e["mtime"]))
    return p


def run_accounts(case, ctx):
    """ Files and their owners on a host whose accounts change while the connection is open. """
    wipe(ctx.root)
    p, link = os.path.join(ctx.root, "f"), os.path.join(ctx.root, "l")
    with open(p, "wb") as f:
        f.write(b"x")
    os.symlink("f", link)
    os.chown(p, case["uid"], case["gid"])
    con = ctx.fake.connector
    labels = {"accounts"}
    for n, (acc, acts) in enumerate(case["steps"]):
        ctx.accounts(acc)
        where = f"with the accounts {acc}, after {[a for a, _ in case['steps'][:n]]}"
        for a in acts:
            if a["a"] == "stat":
                target = link if a["link"] else p
                s = os.stat(target, follow_symlinks=a["follow"])
                want = (next((u[0] for u in acc["users"] if u[1] == s.st_uid), str(s.st_uid)), next((g[0] for g in acc["groups"] if g[1] == s.st_gid), str(s.st_gid)))
                r = con.stat(target, follow_links=a["follow"])
                if r is None or (r.owner, r.group) != want:
                    raise Violation(f"stat of a file of {s.st_uid}:{s.st_gid} {where}: {None if r is None else (r.owner, r.group)}, expected {want}")
                labels.add("accounts-stat")
                continue
            before = os.stat(p)
            user = next((u for u in acc["users"] if u[0] == a["owner"]), None) or next((u for u in acc["users"] if str(u[1]) == a["owner"]), None)
            group = next((g for g in acc["groups"] if g[0] == a["group"]), None) or next((g for g in acc["groups"] if str(g[1]) == a["group"]), None)
            got = attempt(lambda: con.upload(p, b"y", owner=a["owner"], group=a["group"]))
            s = os.stat(p)
            if (a["owner"] is not None and user is None) or (a["group"] is not None and group is None):
                if got[0] != "value" or (s.st_uid, s.st_gid) != (before.st_uid, before.st_gid):
                    raise Violation(f"upload for {a['owner']}:{a['group']} {where}: {got}, the file belongs to {s.st_uid}:{s.st_gid}")
                continue
            uids = {user[1]} if user else {before.st_uid, 0} if group else {before.st_uid}
            gids = {group[1]} if group else {user[2]} if user else {before.st_gid}
            if got[0] != "ok" or s.st_uid not in uids or s.st_gid not in gids:
                raise Violation(f"upload for {a['owner']}:{a['group']} {where}: {got}, the file belongs to {s.st_uid}:{s.st_gid}, expected {uids}:{gids}")
            labels.add("accounts-upload")
    return Outcome(len(labels) > 1, sorted(labels))


def run(case, ctx):
    if case.get("mode") == "accounts":
        return run_accounts(case, ctx)
    wipe(ctx.root)
    paths = [build(ctx.root, i, e) for i, e in enumerate(case["entries"])]
    labels = set()

    def body():
        import fora
        con = ctx.he.connector if case["via"] == "connector" else fora.host.connection
        if case["umask"] is not None:
            with fora.script.defaults(umask=case["umask"]):
                steps(con)
        else:
            steps(con)

    def steps(con):
        for a in case["actions"]:
            i = a["i"] % len(paths)
            step(con, a, paths[i], case["entries"][i], ctx.root, labels)

    ctx.he.in_script(body)
    return Outcome(bool(labels - {"absent"}), sorted(labels))


def attempt(fn):
    from fora.connectors import tunnel_dispatcher as td
    try:
        return ("ok", fn())
    except td.RemoteOSError as e:
        return ("oserr", e.errno)
    except ValueError as e:
        return ("value", None)


def light(root):
    """A snapshot that does not read contents of huge sparse files."""
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            s = os.lstat(p)
            out[os.path.relpath(p, root)] = (s.st_mode, s.st_uid, s.st_gid, s.st_size, s.st_mtime_ns, s.st_ino)
    return out


def step(con, a, p, e, root, labels):
    if e["kind"] in ("proc", "chr") and (a["a"] not in {"proc": ("download", "stat"), "chr": ("stat",)}[e["kind"]] or a.get("form") in ("/", "/.", "//")):
        return          # nothing of the system is written or read endlessly
    terse = a.get("terse", False)
    if a["a"] == "stat":
        path = p + a["form"]
        sha = a["sha"] and not e["sparse"]
        got = attempt(lambda: con.stat(path, **{k: v for k, v in (("follow_links", a["follow"]), ("sha512sum", sha)) if v or not terse}))
        if got[0] == "ok":
            got = ("ok", oracle.stat_dict(got[1]))
        want = oracle.stat(path, a["follow"], sha)
        if e["kind"] == "proc":
            # these times are volatile
            got, want = [("ok", {k: v for k, v in r[1].items() if "time" not in k}) for r in (got, want)]
        if got != want:
            raise Violation(f"stat({os.path.relpath(p, root)!r}+{a['form']!r}, follow={a['follow']}, sha={sha}) of a {e['kind']} = {str(got)[:400]}, expected {str(want)[:400]}")
        labels.add("absent" if want == ("ok", None) else "stat-" + e["kind"])
        return
    if a["a"] == "download":
        if e["kind"] in ("fifo",) and os.path.lexists(p):
            return       # reading a fifo blocks, by definition
        if e["sparse"] and os.path.exists(p) and os.stat(p).st_size > 2**28:
            return
        want = oracle.download(p)
        got = attempt(lambda: con.download(p))
        if want[0] == "ok":
            if got != want:
                raise Violation(f"download of {e['kind']}: got {str(got)[:200]}, the file holds {str(want)[:200]}")
            labels.add("download")
        elif got[0] != want[0] or (want[0] == "oserr" and got != want):
            raise Violation(f"download of {e['kind']}: got {str(got)[:200]}, expected {want}")
        if hasattr(con, "download_or") and want[0] == "value":
            if con.download_or(p, b"dflt") != b"dflt" or con.download_or(p) is not None:
                raise Violation("download_or did not return the default for a missing file")
        return
    # upload
    if e["kind"] == "fifo" and os.path.lexists(p):
        return
    content = blob(a["content"])
    kw = {"mode": a["mode"], "owner": a["owner"], "group": a["group"]}
    if a["bad"]:
        kw[a["bad"][0]] = a["bad"][1]
    before = light(root)
    try:
        prev = os.stat(p)
    except OSError:
        prev = None
    writable = True
    try:
        if prev is None:
            par = os.path.dirname(os.path.realpath(p)) if e["kind"] != "loop" else None
            writable = par is not None and os.path.isdir(par)
        else:
            writable = pystat.S_ISREG(prev.st_mode)
    except OSError:
        writable = False
    got = attempt(lambda: con.upload(p, content, **{k: v for k, v in kw.items() if v is not None or not terse}))
    if a["bad"]:
        if got[0] != "value":
            raise Violation(f"an upload with invalid {a['bad']} gave {got}")
        if light(root) != before:
            raise Violation(f"a rejected upload (invalid {a['bad']}) changed the file system")
        labels.add("rejected")
        return
    if not writable:
        if got[0] == "ok":
            raise Violation(f"upload onto a {e['kind']} reported success")
        if light(root) != before:
            raise Violation(f"a failed upload onto a {e['kind']} changed the file system")
        labels.add("refused")
        return
    if got[0] != "ok":
        raise Violation(f"upload onto a {e['kind']} failed: {got}")
    s = os.stat(p)
    with open(p, "rb") as f:
        data = f.read()
    if data != content:
        raise Violation(f"stored content differs: {len(data)} bytes, uploaded {len(content)}")
    real = os.path.relpath(os.path.realpath(p), os.path.realpath(root))
    after = light(root)
    for k in set(before) | set(after):
        if k in (real, os.path.dirname(real)):
            continue
        if before.get(k) != after.get(k):
            raise Violation(f"uploading {os.path.relpath(p, root)!r} also touched {k!r}")
    if os.path.dirname(real) in before and before[os.path.dirname(real)][:3] != after[os.path.dirname(real)][:3]:
        raise Violation("uploading changed attributes of the containing directory")
    u = None if kw["owner"] is None else oracle.find_user(kw["owner"])
    g = None if kw["group"] is None else oracle.find_group(kw["group"])
    if u is not None:
        want_uid = {u.pw_uid}
    elif prev is None:
        want_uid = {0}
    else:
        want_uid = {prev.st_uid} | ({0} if g is not None else set())     # documented default root; an untouched owner is accepted
    if g is not None:
        want_gid = {g.gr_gid}
    elif u is not None:
        want_gid = {u.pw_gid}
    else:
        want_gid = {0 if prev is None else prev.st_gid}
    if s.st_uid not in want_uid or s.st_gid not in want_gid:
        raise Violation(f"uploaded with {kw}: owner {s.st_uid}:{s.st_gid}, expected {want_uid}:{want_gid}")
    m = pystat.S_IMODE(s.st_mode)
    if kw["mode"] is not None:
        if m != int(kw["mode"], 8):
            raise Violation(f"uploaded with {kw}: mode {oct(m)}")
    elif prev is None:
        if m != 0o600:
            raise Violation(f"a new file uploaded without a mode got {oct(m)}")
    elif m & 0o1777 != pystat.S_IMODE(prev.st_mode) & 0o1777:
        raise Violation(f"uploading without a mode changed the mode from {oct(pystat.S_IMODE(prev.st_mode))} to {oct(m)}")
    labels.add("upload-new" if prev is None else "upload-replace")
    if kw["mode"] is not None and int(kw["mode"], 8) & 0o6000 and (u or g):
        labels.add("setid+owner")
    e["sparse"] = None


CHECK = Check(
    id="C05", strategy=strategy, run=run, quick=4000, thorough=60000, batch=100, context=Ctx, case_limit=90,
    rule="1-4 generated paths (files, directories, links, fifos, sockets, missing, sparse files over 4 GB; nasty names, arbitrary modes, owners and times) and 1-6 uploads, downloads and stats on them, or stats and uploads of files on a host whose accounts change meanwhile; non-trivial: at least one action that does "
         "more than report absence",
    assumptions=["runs as root, so permissions never refuse an access"],
)
