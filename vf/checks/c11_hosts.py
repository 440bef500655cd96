"""C11: naming, addressing and connecting hosts."""
import contextlib
import io
import os

from hypothesis import strategies as st

from vf import env, invgen, trace
from vf.core import Check, Outcome, Violation
from vf.hostenv import wipe

HOSTS = ["h", "host", "example.com", "a-b.c", "10.0.0.1", "UPPER", "ssh", "local", "localhost", "h_1", "x" * 60, "2", "sshhost", "ss", ""]
USERS = ["", "root", "u", "ssh", "a.b", "user-1", "local"]
SCHEMAS = ["", "", "ssh://", "ssh://", "ssh:", "local:", "local:", "", "ssh://", "local:", "ssh:", "", "ssh://", "foo:", "foo://", "sshx://", "SSH://", "loca:"]


def url():
    return st.fixed_dictionaries({"schema": st.sampled_from(SCHEMAS), "user": st.none() | st.sampled_from(USERS), "host": st.sampled_from(HOSTS), "port": st.none() | st.sampled_from(["22", "2222", "1", "65535"])})


def strategy():
    opts = st.lists(st.sampled_from(["-o", "Opt=1", "-v", "-i", "/k e y", "", "-p", "22", "--"]), max_size=4)
    host = st.fixed_dictionaries({
        "url": st.one_of(*[url()] * 6, st.none()), "name": st.one_of(st.none(), st.none(), st.sampled_from(["named", "n-1", "www.example.org", "with space"])),
        "module_url": st.one_of(*[st.none()] * 4, url(), st.just("naked"), st.just("none")),
        "connector": st.sampled_from([None, None, None, None, "ssh", "local", "custom", "lambda"]), "where": st.sampled_from(["host", "group", "vars"]),
        "opts": st.none() | opts, "ssh_host": st.sampled_from(["alt.example", "alt"]), "ssh_port": st.sampled_from([22, 2200, "23"]),
    })
    return st.fixed_dictionaries({"hosts": st.lists(host, min_size=1, max_size=3), "immediate": st.sampled_from([False, False, False, True])})


def hostpart(u):
    return u["host"] or ("" if u["schema"] == "local:" else "h0")


def text(u):
    s = u["schema"] + (u["user"] + "@" if u["user"] is not None and not u["schema"].startswith("local") else "") + hostpart(u)
    if u["port"] and u["schema"].startswith(("ssh", "foo", "SSH")):
        s += ":" + u["port"]
    return s


def qualified(u):
    t = text(u)
    return t if u["schema"] else "ssh://" + t


def run_boot(case, ctx):
    """Opens a connection through a stand-in for ssh to a host with a given login shell, no unversioned python and no home."""
    import subprocess
    from vf.hostenv import HostEnv
    remote, local = os.path.join(ctx, "remote"), os.path.join(ctx, "bin")
    if not os.path.isdir(remote):
        os.makedirs(remote)
        os.makedirs(local)
        for d in ("/bin", "/usr/bin", "/sbin", "/usr/sbin"):
            for n in os.listdir(d):
                if n != "python" and not n.startswith("python2") and not os.path.lexists(os.path.join(remote, n)):
                    os.symlink(os.path.join(d, n), os.path.join(remote, n))
    shim = os.path.join(local, "ssh")
    with open(shim, "w") as f:
        f.write(f"#!/bin/bash\nprintf '%s\\0' \"${{@:1:$#-1}}\" >{ctx}/argv\nexec /usr/bin/env -i PATH={remote} HOME=/nonexistent LOGNAME=root {case['boot']} -c \"${{@: -1}}\"\n")
    os.chmod(shim, 0o755)
    path = os.environ["PATH"]
    os.environ["PATH"] = local + ":" + path
    env.reset_globals()
    d = os.path.join(ctx, "boot")
    os.makedirs(d, exist_ok=True)
    try:
        try:
            he = HostEnv(d, url=case["url"])
        except Exception as e:
            raise Violation(f"connecting to {case['url']} (login shell {case['boot']}, no unversioned python) failed: {e!r}")
        try:
            r = he.connector.run(["sh", "-c", "cat; echo é $0", "a b"], input=b"in ", check=True)
            if r.stdout != "in é a b\n".encode():
                raise Violation(f"a command over ssh gave {r.stdout!r}")
            with open(os.path.join(ctx, "argv"), "rb") as f:
                got = f.read().decode().split("\0")[:-1]
            if got != [case["url"]]:
                raise Violation(f"ssh was called with {got}, expected {[case['url']]}")
        finally:
            he.close()
    finally:
        os.environ["PATH"] = path
    return Outcome(True, ["boot"])


def exhaustive(tier):
    return [{"boot": sh, "url": u} for sh in ("sh", "bash", "dash", "bash --posix") for u in ("ssh://root@vhost:22", "ssh://vhost")]


def run(case, ctx):
    if "boot" in case:
        return run_boot(case, ctx)
    root = os.path.join(ctx, "inv")
    os.makedirs(root, exist_ok=True)
    wipe(root)
    os.makedirs(os.path.join(root, "hosts"))
    os.makedirs(os.path.join(root, "groups"))
    env.reset_globals()
    import fora
    from fora.loader import load_inventory
    from fora.utils import FatalError
    from fora.connectors.connector import Connector
    known = {"ssh", "local"}
    hosts = case["hosts"][:1] if case["immediate"] else case["hosts"]
    exp, names, bad = [], set(), None
    decls = []
    for i, h in enumerate(hosts):
        u = h["url"]
        if case["immediate"] and u is None:
            u = {"schema": "", "user": None, "host": "h", "port": None}
        if u is None and h["name"] is None:
            bad = "neither url nor name"
        schema = None if u is None else ("ssh" if not u["schema"] else u["schema"].split(":")[0])
        name = h["name"] if not case["immediate"] else None
        if name is None and u is not None:
            if schema not in known:
                bad = "unknown schema"
            name = hostpart(u) or "localhost"
        if name in names:
            bad = "duplicate"
        names.add(name)
        exp.append((name, None if u is None else qualified(u)))
        d = {k: v for k, v in (("url", None if u is None else text(u)), ("name", h["name"]), ("groups", [f"g{i}"])) if v is not None}
        if not case["immediate"]:
            lines = []
            if h["connector"] in ("ssh", "local"):
                cls = "SshConnector" if h["connector"] == "ssh" else "LocalConnector"
                lines.append(f"from fora.connectors.{h['connector']} import {cls} as _C\nconnector = _C\n")
            elif h["connector"] in ("custom", "lambda"):
                lines.append(f"import vf.trace as _vt\nconnector = lambda url, host: _vt.hit('connector', url, host.name) or ('conn', url)\n")
            body = "".join(lines)
            if h["opts"] is not None and h["where"] != "vars":
                body += f"ssh_opts = {h['opts']!r}\n"
            if h["opts"] is not None and h["where"] == "vars":
                d.setdefault("vars", {})["ssh_opts"] = h["opts"]
            body += f"ssh_host = {h['ssh_host']!r}\nssh_port = {h['ssh_port']!r}\n"
            with open(os.path.join(root, "groups", f"g{i}.py"), "w") as f:
                f.write(body if h["where"] == "group" else "")
            if name is not None:
                with open(os.path.join(root, "hosts", name + ".py"), "w") as f:
                    f.write((body if h["where"] != "group" else "") + f"loaded_from = {name!r}\n" + (f"url = {mod_url(h)!r}\n" if h["module_url"] is not None else ""))
            decls.append(d)
    trace.reset()
    if case["immediate"]:
        path = text(u)
    else:
        path = os.path.join(root, "inventory.py")
        with open(path, "w") as f:
            f.write(f"hosts = {decls!r}\n")
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            load_inventory(path)
        except FatalError as e:
            if bad:
                return Outcome(True, ["rejected"])
            raise Violation(f"rejected: {e} for {decls or path}")
    if bad:
        raise Violation(f"accepted although: {bad} ({decls or path})")
    labels = set()
    got = [(n, h.url if hosts[i]["module_url"] is None or case["immediate"] else e[1]) for i, ((n, h), e) in enumerate(zip(fora.inventory.loaded_hosts.items(), exp))]
    if got != exp:
        raise Violation(f"hosts are {got}, declared {exp}")
    for h, (name, decl_url) in zip(hosts, exp):
        w = fora.inventory.loaded_hosts[name]
        final = decl_url
        if not case["immediate"]:
            if w.loaded_from != name:
                raise Violation(f"host {name} got the module of {w.loaded_from}")
            if h["module_url"] is not None:
                final = mod_url(h)
        if w.url != final or w.name != name:
            raise Violation(f"host {name}: url {w.url!r}, expected {final!r}")
        explicit = None if case["immediate"] else h["connector"]
        schema = None if final is None or ":" not in final else final.split(":")[0]
        opts = [] if case["immediate"] or h["opts"] is None else h["opts"]
        try:
            c = w.create_connector()
        except FatalError:
            if explicit is None and schema not in known:
                labels.add("no-connector")
                continue
            raise Violation(f"host {name} ({final!r}, connector {explicit}): no connector was found")
        if explicit is None and schema not in known:
            raise Violation(f"host {name} with url {final!r} silently uses {type(c).__name__}")
        if explicit in ("custom", "lambda"):
            if c != ("conn", final) or trace.events[-1] != ["connector", final, name]:
                raise Violation(f"explicit connector was called as {trace.events[-1]}, url is {final!r}")
            labels.add("explicit")
            continue
        kind = explicit or schema
        if c.schema != kind or type(c) is not Connector.registered_connectors[kind]:
            raise Violation(f"host {name} ({final!r}, connector {explicit}) uses {type(c).__name__}")
        if kind == "ssh":
            if schema == "ssh":
                want = final if final.startswith("ssh://") else "ssh://" + final[len("ssh:"):]
            else:
                want = f"ssh://{h['ssh_host']}:{h['ssh_port']}"
            cmd = c.command()
            if cmd[0] != "ssh" or cmd[1:-2] != opts or cmd[-2] != want:
                raise Violation(f"host {name}: ssh command {[a[:80] for a in cmd]}, expected options {opts} and url {want!r}")
            labels.add("ssh")
        else:
            if c.url != (final if schema == "local" else "local:localhost"):
                raise Violation(f"host {name}: local connector url {c.url!r} for {final!r}")
            labels.add("local")
    return Outcome(True, sorted(labels))


def mod_url(h):
    m = h["module_url"]
    if m == "naked":
        return "naked-host"
    if m == "none":
        return None
    return text(m)


CHECK = Check(
    id="C11", strategy=strategy, run=run, quick=5000, thorough=100000, batch=250, case_limit=60, exhaustive_examples=exhaustive,
    rule="1-3 host declarations (or a single url instead of an inventory) with urls assembled from schema, user, host and port, names, host modules, groups or declared variables that set url, connector and ssh options; the expected name, url, connector "
         "class and ssh command line follow from the parts; connections through a stand-in ssh with several login shells to a host without an unversioned python; non-trivial: every case",
    assumptions=["host:port without schema and IPv6 literals are not supported forms"],
)
