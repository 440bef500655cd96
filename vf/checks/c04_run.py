"""C04: commands run exactly as requested."""
import json
import os
import signal
import subprocess

from hypothesis import strategies as st

from vf import env, gens, oracle, probe, tunnel
from vf.core import Check, HarnessError, Outcome, Violation, blob
from vf.hostenv import HostEnv

PY = "/usr/bin/python3" if os.path.exists("/usr/bin/python3") else "/opt/venv/bin/python"
EXTRA = [3, 4, 27]       # supplementary groups of the connecting process
USERS = ["root", "nobody", "daemon", "bin", "0", "65534", "2"]
GROUPS = ["root", "nogroup", "daemon", "adm", "0", "65534", "3"]
UMASKS = ["022", "077", "0", "27", "0007", "777", "000", "133"]
BAD = {"user": ["no-such-user", "", "4294967293", "root ", "1x", "Root", "-5", "99999999999999999999"], "group": ["no-such-group", "", "4294967293", "0x0", "roots", "-5", "99999999999999999999"], "umask": ["9", "0x12", "abc", "", "0 2 2x", "u=rwx"], "cwd": ["missing", "file", "file/x"]}


def arg():
    return st.one_of(
        st.sampled_from(["", " ", "a b", "'", '"', "\\", "$HOME", "$(id)", "`id`", "*", "?", "~", "-", "--", "-c", ";", "|", "&", "\n", "a\nb", "\t", "é", "日本語", "🐸", "\udcff", "caf\udce9", "%s", "{}", "\x01", "\x7f", "#", "!", "=", "a=b", "\r"]),
        st.text(alphabet=st.characters(blacklist_characters="\0", blacklist_categories=("Cs",)), max_size=20),
        gens.dict_strings(lambda s: "\0" not in s),
        st.tuples(st.just("rep"), gens.sizes(100000)).map(list),
    )


def opt(s, none=2):
    return st.one_of(*([st.none()] * none), s)


def strategy():
    layer = st.fixed_dictionaries({"user": opt(st.sampled_from(USERS)), "group": opt(st.sampled_from(GROUPS)), "umask": opt(st.sampled_from(UMASKS), 1), "cwd": opt(st.sampled_from(["d", "d/e e", "link", "secret", "deep", "deep/.."]), 1)})
    return st.fixed_dictionaries({
        "via": st.sampled_from(["connector", "connection", "defaults"]), "as": st.sampled_from(["root", "root", "root", "nobody"]),
        "args": st.lists(arg(), max_size=6),
        "input": st.one_of(st.none(), gens.blobs(400000, 30)), "read": st.sampled_from([True, True, True, False]), "early": st.booleans(), "order": st.booleans(),
        "out": gens.sizes(300000), "err": gens.sizes(300000),
        "end": st.one_of(st.sampled_from([0, 0, 1, 255, -9, -15, -6, -1]), st.integers(0, 255)), "check": st.booleans(), "terse": st.booleans(), "capture": st.sampled_from([True, True, True, False]),
        "run": layer, "defaults": layer, "relative": st.sampled_from([False, False, True]),
        "bad": opt(st.sampled_from([[k, v] for k, vs in BAD.items() for v in vs]), 5),
    })


class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        self.root = os.path.join(scratch, "r")
        os.makedirs(os.path.join(self.root, "d", "e e"), exist_ok=True)
        os.makedirs(os.path.join(self.root, "secret"), exist_ok=True)
        for d in ("", "d", "d/e e"):
            os.chmod(os.path.join(self.root, d), 0o755)
        os.chmod(os.path.join(self.root, "secret"), 0o700)
        if not os.path.islink(os.path.join(self.root, "link")):
            os.symlink("d", os.path.join(self.root, "link"))
            os.symlink("d/e e", os.path.join(self.root, "deep"))
        with open(os.path.join(self.root, "file"), "w") as f:
            f.write("x")
        self.rep = os.path.join(scratch, "rep")
        os.makedirs(self.rep, exist_ok=True)
        os.chmod(self.rep, 0o777)
        self.probe = os.path.join(scratch, "probe.py")
        with open(probe.__file__) as f, open(self.probe, "w") as g:
            g.write(f.read())
        os.chmod(self.probe, 0o644)
        # the dispatcher must be readable for the unprivileged connecting user
        self.dispatcher = os.path.join(scratch, "dispatcher.py")
        self.envs = {}

    def get(self, who):
        if who not in self.envs:
            from fora.connectors.tunnel_connector import TunnelConnector
            cmd = tunnel.local_command()
            if who == "nobody":
                src = next(a for a in cmd if a.endswith(".py"))
                with open(src) as f, open(self.dispatcher, "w") as g:
                    g.write(f.read())
                os.chmod(self.dispatcher, 0o644)
                cmd = [PY if a.startswith("python") or a.endswith("python3") else self.dispatcher if a == src else a for a in cmd]
                pre = "os.setgroups([65534]); os.setresgid(65534,65534,65534); os.setresuid(65534,65534,65534)"
            else:
                pre = f"os.setgroups({EXTRA})"
            full = [PY, "-c", f"import os,sys; os.chdir({self.root!r}); {pre}; os.execvp(sys.argv[1], sys.argv[1:])"] + cmd

            class C(TunnelConnector):
                schema = "local"

                def command(self):
                    return full
            d = os.path.join(self.scratch, "env-" + who)
            os.makedirs(d, exist_ok=True)
            self.envs[who] = HostEnv(d, connector=C)
        return self.envs[who]

    def close(self):
        envs, self.envs = self.envs, {}
        for e in envs.values():
            try:
                e.close()
            except Exception:
                pass


def spelled(case, inp):
    """ The common arguments; left out if they have their documented default and the case is terse. """
    given = {"input": inp, "check": case["check"], "capture_output": case["capture"]}
    return {k: v for k, v in given.items() if not case.get("terse") or v != {"input": None, "check": True, "capture_output": True}[k]}


def run(case, ctx):
    from fora.connectors import tunnel_dispatcher as td
    import fora
    he = ctx.get(case["as"])
    me = case["as"]
    base = os.path.join(ctx.rep, "x")
    for s in (".spec", ".report"):
        if os.path.exists(base + s):
            os.unlink(base + s)
    spec = {k: case[k] for k in ("out", "err", "end", "read", "early", "order")}
    if case["input"] is None:
        pass
    with open(base + ".spec", "w") as f:
        json.dump(spec, f)
    os.chmod(base + ".spec", 0o644)
    args = [("A" * a[1]) if isinstance(a, list) else a for a in case["args"]]
    cmd = [PY, "-SE", ctx.probe, base] + args
    inp = None if case["input"] is None else blob(case["input"])
    # what is asked for
    want = dict(case["run"])
    if case["bad"]:
        want[case["bad"][0]] = case["bad"][1]
    dfl = dict(case["defaults"]) if case["via"] == "defaults" else {"user": None, "group": None, "umask": None, "cwd": None}
    if me == "nobody":
        for k in ("user", "group"):
            dfl[k] = None     # resolving the defaults is not under test here
    if dfl["cwd"] == "link":
        dfl["cwd"] = "d"
    path = lambda d: None if d is None else d if case.get("relative") else os.path.join(ctx.root, d)
    kw = {"user": want["user"], "group": want["group"], "umask": want["umask"], "cwd": path(want["cwd"])}
    eff = {k: (want[k] if want[k] is not None else dfl[k]) for k in want}

    def call():
        if case["via"] == "connector":
            return he.connector.run(cmd, **spelled(case, inp), **kw)
        if case["via"] == "connection":
            return fora.host.connection.run(cmd, **spelled(case, inp), **kw)
        with fora.script.defaults(as_user=dfl["user"], as_group=dfl["group"], umask=dfl["umask"], cwd=path(dfl["cwd"])):
            return fora.host.connection.run(cmd, **spelled(case, inp), **kw)

    try:
        res = ("ok", he.in_script(call))
    except td.RemoteOSError as e:
        res = ("oserr", e)
    except subprocess.CalledProcessError as e:
        res = ("called", e)
    except ValueError as e:
        res = ("value", e)
    ran = os.path.exists(base + ".report")
    labels = [case["via"], "as-" + me]

    # expected identity
    ident = {"user": eff["user"], "group": eff["group"]}
    bad = bool(case["bad"])
    u = None if bad or ident["user"] is None else oracle.find_user(ident["user"])
    g = None if bad or ident["group"] is None else oracle.find_group(ident["group"])
    myuid, mygid = (0, 0) if me == "root" else (65534, 65534)
    uid = myuid if u is None else u.pw_uid
    gids = set()
    if g is not None:
        gids.add(g.gr_gid)
    elif u is not None:
        if case["via"] == "connector":
            gids.add(u.pw_gid)
        elif want["user"] is not None:
            gids |= {u.pw_gid, mygid}      # the user is given, the group comes from the defaults or from the user
        else:
            gids.add(mygid)                # defaults: the group stays what it was
    else:
        gids.add(mygid)
    denied = me == "nobody" and (uid != myuid or not gids <= {mygid})
    maybe = me == "nobody" and uid == myuid and mygid in gids and len(gids) > 1
    cwd = eff["cwd"]
    if cwd == "secret" and (uid != 0):
        denied = True      # chdir as that user is not permitted: refused rather than run elsewhere
    if bad:
        labels.append("bad-" + case["bad"][0])
        if res[0] != "value":
            raise Violation(f"invalid {case['bad']} was not rejected with a ValueError: {res[0]} {str(res[1])[:200]}")
        if ran:
            raise Violation(f"the command ran although {case['bad']} was rejected")
        return Outcome(True, labels)
    if denied or maybe:
        labels.append("denied")
        if res[0] in ("value", "oserr"):
            if ran:
                raise Violation("the command ran although the call failed")
            return Outcome(True, labels)
        if denied and cwd == "secret" and me == "root" and ran:
            pass           # entered before dropping privileges: fine if everything below holds
        elif denied:
            raise Violation(f"a command as {ident} was not refused for the unprivileged connection: {res}")
    out = probe.stream(case["out"], b"o") if case["capture"] else None
    err = probe.stream(case["err"], b"e") if case["capture"] else None
    if case["check"] and case["end"] != 0:
        if res[0] != "called":
            raise Violation(f"exit status {case['end']} with checking on gave {res[0]}: {str(res[1])[:300]}")
        got = (res[1].returncode, res[1].output, res[1].stderr)
        if list(res[1].cmd) != cmd:
            raise Violation("the raised error does not carry the command")
    else:
        if res[0] != "ok":
            raise Violation(f"the call failed: {res[0]} {type(res[1]).__name__}: {str(res[1])[:300]}")
        got = (res[1].returncode, res[1].stdout, res[1].stderr)
    for name, a, b in zip(("exit status", "stdout", "stderr"), got, (case["end"], out, err)):
        if a != b:
            raise Violation(f"{name}: got {str(a)[:120]} ({len(a) if isinstance(a, bytes) else '-'}), expected {str(b)[:120]} ({len(b) if isinstance(b, bytes) else '-'})")
    if not ran:
        raise Violation("the command never ran")
    with open(base + ".report") as f:
        rep = json.load(f)
    if rep["args"] != [os.fsencode(a).hex() for a in args]:
        raise Violation(f"argument vector differs: {[bytes.fromhex(a)[:60] for a in rep['args']]} expected {[a[:60] for a in args]}")
    if case["read"] and bytes.fromhex(rep["stdin"]) != (inp or b""):
        raise Violation(f"standard input differs: {len(rep['stdin']) // 2} bytes, expected {len(inp or b'')}")
    if cwd is not None and rep["cwd"] != os.path.realpath(os.path.join(ctx.root, cwd)):
        raise Violation(f"working directory {rep['cwd']}, requested {path(cwd)}")
    um = int(eff["umask"], 8) if eff["umask"] is not None else (0o077 if case["via"] == "connector" else int(base_umask(), 8))
    if rep["umask"] != um:
        raise Violation(f"umask {oct(rep['umask'])}, expected {oct(um)}")
    if rep["uids"] != [uid] * 3:
        raise Violation(f"ran with uids {rep['uids']}, expected {uid}")
    if len(set(rep["gids"])) != 1 or rep["gids"][0] not in gids:
        raise Violation(f"ran with gids {rep['gids']}, expected {sorted(gids)}")
    gs = set(rep["groups"])
    if me == "root" and uid != 0:
        allowed = set(os.getgrouplist(u.pw_name, rep["gids"][0]))
        if not gs <= allowed:
            raise Violation(f"ran as {ident} with supplementary groups {sorted(gs)}, that user only has {sorted(allowed)}")
        missing = set(os.getgrouplist(u.pw_name, u.pw_gid)) - {u.pw_gid} - gs
        if missing:
            raise Violation(f"ran as {ident} without the user's supplementary groups {sorted(missing)}")
    nt = bool(args) or inp is not None or u is not None or case["end"] != 0 or case["out"] > 4096
    return Outcome(nt, labels + (["identity"] if u or g else []) + (["signal"] if case["end"] < 0 else []) + (["large-io"] if max(case["out"], case["err"], len(inp or b"")) > 65536 else []))


_BASE = {}


def base_umask():
    """The umask that is in effect without any request for another: the inventory's base setting."""
    import fora
    return fora.inventory.base_remote_settings().umask if fora.inventory else "077"


CHECK = Check(
    id="C04", strategy=strategy, run=run, quick=2500, thorough=40000, batch=100, context=Ctx, case_limit=90,
    rule="generated argument vectors, inputs, outputs, exit statuses and signals, identities, umasks, directories (some invalid), through the connector, the connection and a defaults block, connected as root with foreign supplementary groups or as an "
         "unprivileged user; a probe program reports what it was given; non-trivial: has arguments or input, another identity, a failing exit, large output, or a request that must be refused",
)
