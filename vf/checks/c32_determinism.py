"""C32: what a deploy does depends on its inputs only, not on how and in which process it was started."""
import contextlib
import io
import json
import os
import re
import subprocess
import sys

from hypothesis import strategies as st

from vf import env, invgen, stubconn, trace, worlds
from vf.checks import c18_packages
from vf.core import Check, HarnessError, Outcome, Violation, dec, enc

# what the processes that do the same work differ in
STARTS = [
    {"PYTHONHASHSEED": "1", "umask": 0o022, "cwd": "/", "TZ": "UTC", "HOME": "/root", "USER": "root", "sigs": False},
    {"PYTHONHASHSEED": "2", "umask": 0o077, "cwd": "/tmp", "TZ": "Pacific/Auckland", "HOME": "/nonexistent", "USER": "someone", "sigs": True},
    {"PYTHONHASHSEED": "4242", "umask": 0, "cwd": "/usr/lib", "TZ": "America/New_York", "HOME": "", "USER": "", "sigs": False},
]


@st.composite
def conflict(draw):
    """Groups that all define the same variables, most without an order between them, and hosts that are in many of them."""
    inv = draw(invgen.inventories(max_groups=5, max_hosts=2, min_groups=2, mods=(True,)))
    for g in inv["groups"]:
        g["prog"] = g["prog"] + [["set", v, draw(st.integers(0, 3))] for v in draw(st.lists(st.sampled_from(invgen.VARS), min_size=2, unique=True))]
    for h in inv["hosts"]:
        h["groups"] = h["groups"] + [g["name"] for g in inv["groups"] if draw(st.integers(0, 3))]
        h["form"] = "dict"
    return inv


def strategy():
    inv = st.fixed_dictionaries({"mode": st.just("inventory"), "inv": st.one_of(invgen.inventories(), invgen.inventories(min_groups=3), conflict()), "valid": st.sampled_from([True, False]),
                                 "break": st.sampled_from([None] * 5 + ["cycle", "unknown", "missing", "raise"]), "how": st.sampled_from(["load", "inspect", "inspect", "run", "run"]),
                                 "select": st.none() | st.lists(st.integers(0, 5), min_size=1, max_size=7)})
    world = st.fixed_dictionaries({"mode": st.just("world"), "world": worlds.strategy(git_weight=0), "dry": st.booleans(), "check": st.booleans(), "verbose": st.sampled_from([0, 2]), "diff": st.booleans()})
    # several packages at once
    many = world.flatmap(lambda c: st.tuples(c18_packages.strategy(), st.lists(st.sampled_from(c18_packages.PKGS), min_size=2, max_size=8, unique=True), st.booleans()).map(
        lambda t: {**c, "world": {"world": "packages", "case": {**t[0], "pm": t[0]["pm"] or "pacman", "pk": {**t[0]["pk"], **{p: "available" if t[2] else "installed" for p in t[1][1:]}},
                                                               "ops": [{"k": "package", "packages": t[1], "present": t[2], "via": "system", "unknown": None, "opts": False, "check": True, "terse": False}]}}}))
    return st.one_of(inv, inv, inv, world, world, many)


SCRIPT = '''
from vf import invgen, trace
import fora
from fora.operations import files
trace.hit("script", fora.host.name, repr(fora.host.groups))
for v in invgen.ALL_VARS:
    trace.hit("var", v, repr(getattr(fora.host, v, "undefined")))
fora.host.connection.run(["vf", fora.host.name])
files.template_content("{{ host.name }} {{ host.groups }} {{ host.groups | join(' ') }}", dest="/vf-rendered")
'''


# -- the other processes -------------------------------------------------------------------------------

def serve(start, scratch):
    """Runs in each of the other processes: one case per line of input."""
    answers = os.fdopen(os.dup(1), "w", encoding="utf-8")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if start["sigs"]:
        import signal
        signal.signal(signal.SIGHUP, signal.SIG_IGN)
        signal.signal(signal.SIGQUIT, signal.SIG_IGN)
    os.chdir(start["cwd"])
    worker = Worker(start, scratch)
    try:
        for line in sys.stdin:
            try:
                out = {"ok": worker.run(dec(json.loads(line)))}
            except Violation as e:
                out = {"violation": str(e)}
            except Exception as e:
                import traceback
                out = {"error": f"{e!r}\n{traceback.format_exc()[-800:]}"}
            answers.write(json.dumps(out) + "\n")
            answers.flush()
    finally:
        worker.close()


class Worker:
    def __init__(self, start, scratch):
        self.scratch, self.umask, self.cwd = scratch, start["umask"], start["cwd"]
        self.inv = os.path.join(scratch, "inv")
        os.makedirs(self.inv, exist_ok=True)
        os.umask(0o022)
        wdir = os.path.join(scratch, "w")
        os.makedirs(wdir, exist_ok=True)
        os.umask(self.umask)
        self.ctx = worlds.Ctx(wdir)
        os.umask(0o022)
        from fora.connectors.connector import Connector
        self.script = os.path.join(scratch, "deploy.py")
        with open(self.script, "w") as f:
            f.write(SCRIPT)
        stub = stubconn.register()

        def upload(self, file, content, mode=None, owner=None, group=None):
            trace.hit("upload", self.url, file, repr(content), mode, owner, group)

        def stat(self, path, follow_links=False, sha512sum=False):
            trace.hit("stat", self.url, path)
            return None if "vf-rendered" in path else stub.stat(self, path)
        for n in ("ssh", "local"):
            Connector.registered_connectors[n] = type(f"Stub{n}", (stub,), {"schema": n, "upload": upload, "stat": stat, "extract_hostname": classmethod(Connector.registered_connectors[n].extract_hostname.__func__)})
        for d, names, _files in os.walk(wdir):
            for n in names:
                # directories of the harness, which it made with this umask
                os.chmod(os.path.join(d, n), 0o755)

    def close(self):
        self.ctx.close()

    def plain(self, x):
        s = x if isinstance(x, str) else repr(x)
        s = s.replace(self.scratch, "<scratch>").replace(os.path.relpath(self.scratch), "<scratch>")
        return re.sub(r"(\.\./)+tmp/", "/tmp/", s)

    def run(self, case):
        return self.inventory(case) if case["mode"] == "inventory" else self.world(case)

    def world(self, case):
        w = worlds.make(case["world"], self.ctx)
        os.umask(0o022)
        w.reset()
        os.umask(self.umask)
        try:
            kind, r, requests = w.perform(dry=case["dry"], check=case["check"], verbose=case["verbose"], diff=case["diff"])
        finally:
            os.umask(0o022)
        shown = {k: getattr(r, k, None) for k in ("success", "changed", "initial", "final", "failure_message")} if kind != "raised" else (type(r).__name__, str(r), getattr(r, "cmd", None))
        return {"kind": kind, "result": self.plain(shown), "requests": [self.plain(list(q)) for q in requests], "state": self.plain(canonical(w.state(times=False))), "printed": self.plain(w.he.out.getvalue())}

    def inventory(self, case):
        import fora
        from vf.hostenv import wipe
        inv = case["inv"]
        wipe(self.inv)
        path = invgen.write(inv, self.inv)
        with open(path, "a") as f:
            if case["break"] == "cycle":
                f.write("\ngroups = [{'name': n, 'after': [m]} for n, m in (('ka', 'kc'), ('kb', 'ka'), ('kc', 'kb'), ('kd', 'kc'))]\nhosts = ['x']\n")
            elif case["break"] == "unknown":
                f.write("\ngroups = ['known']\nhosts = [{'url': 'x', 'groups': ['unknown1', 'unknown2', 'known', 'unknown3']}]\n")
            elif case["break"] == "missing":
                f.write("\nhosts = [{'url': 'x', 'groups': ['g1', 'g2']}]\ngroups = [{'name': n, 'file': n + 'x.py', 'before': ['k1', 'k2', 'k3']} for n in ('g1', 'g2')]\n")
            elif case["break"] == "raise":
                f.write("\nraise RuntimeError('vf inventory error')\n")
        env.reset_globals()
        fora.args = None
        from fora.main import main
        trace.reset()
        # what is printed has paths relative to the working directory
        os.chdir(self.scratch if case["how"] != "load" or case["break"] else self.cwd)
        out, err = io.StringIO(), io.StringIO()
        hook = sys.excepthook
        kind = None
        os.umask(self.umask)
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    if case["how"] == "inspect":
                        main(["--inspect-inventory", path])
                    elif case["how"] == "run":
                        names = [n for n in map(invgen.host_name, inv["hosts"]) if n]
                        opts = ["-H", ",".join(names[i % len(names)] for i in case["select"])] if case["select"] and names else []
                        main(opts + [path, self.script])
                    else:
                        env.reset_globals()
                        from fora.loader import load_inventory
                        load_inventory(path)
                    kind = "returned"
                except SystemExit as e:
                    kind = f"exit {e.code}"
                except Exception as e:
                    kind = f"{type(e).__name__}: {e}"
                    sys.excepthook(type(e), e, e.__traceback__) if case["break"] == "raise" else None
        finally:
            os.chdir(self.cwd)
            os.umask(0o022)
            sys.excepthook = hook
        hosts = {}
        if fora.inventory is not None and fora.inventory.is_initialized():
            for n, h in fora.inventory.loaded_hosts.items():
                hosts[n] = [h.url, list(h.groups), {v: repr(getattr(h, v)) for v in invgen.ALL_VARS if hasattr(h, v)}]
        return {"kind": self.plain(kind), "load order": trace.events[:], "hosts": hosts, "host order": list(hosts), "printed": self.plain(out.getvalue()), "errors": self.plain(err.getvalue())}


def canonical(x):
    if isinstance(x, dict):
        return {k: canonical(x[k]) for k in sorted(x, key=repr)}
    if isinstance(x, (set, frozenset)):
        return sorted((canonical(i) for i in x), key=repr)
    return [canonical(i) for i in x] if isinstance(x, (list, tuple)) else x


class Ctx:
    def __init__(self, scratch):
        self.procs = []
        for i, s in enumerate(STARTS):
            d = os.path.join(scratch, f"p{i}")
            os.makedirs(d, exist_ok=True)
            d = os.path.realpath(d)
            e = {**os.environ, "PYTHONHASHSEED": s["PYTHONHASHSEED"], "TZ": s["TZ"], "HOME": s["HOME"], "USER": s["USER"], "LOGNAME": s["USER"], "NO_COLOR": "1", "COLUMNS": "100", "VF_NOISE": str(i),
                 "PYTHONPATH": env.VERIF + (os.pathsep + os.environ["PYTHONPATH"] if os.environ.get("PYTHONPATH") else "")}
            code = f"import sys; sys.path.insert(0, {env.VERIF!r})\nfrom vf import env; env.bootstrap_hypothesis(); env.bootstrap_fora()\nfrom vf.checks import c32_determinism as c\nc.serve({s!r}, {d!r})"
            self.procs.append(subprocess.Popen([sys.executable, "-c", code], cwd=d, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(os.path.join(d, "stderr"), "wb"), text=True, encoding="utf-8"))

    def ask(self, case):
        line = json.dumps(enc(case)) + "\n"
        for p in self.procs:
            try:
                p.stdin.write(line)
                p.stdin.flush()
            except OSError:
                pass
        out = []
        for p in self.procs:
            a = p.stdout.readline()
            if not a:
                raise HarnessError(f"a process that does the same work ended with {p.wait(10)}")
            out.append(json.loads(a))
        return out

    def close(self):
        for p in self.procs:
            try:
                p.stdin.close()
            except OSError:
                pass
        for p in self.procs:
            try:
                p.wait(20)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()


def prepared(case):
    if case["mode"] == "world":
        w = case["world"]
        if w["world"] == "files" and w["op"].get("op") == "line" and w["op"].get("backup") is True:
            # the name of the backup contains the time
            w = {**w, "op": {**w["op"], "backup": "backup"}}
        return {**case, "world": w}
    inv = invgen.clean(case["inv"])
    if case["valid"]:
        inv, _ = invgen.normalise(inv)
    inv = json_copy(inv)
    for g in inv["groups"] + [inv["all"]] + inv["hosts"]:
        # the text of such objects contains their address
        g["prog"] = [s for s in g["prog"] if s[0] not in ("obj", "private")]
    for h in inv["hosts"]:
        if h["form"] == "str" and (h["groups"] or h["vars"]):
            h["form"] = "dict"
    return {**case, "inv": inv}


def json_copy(x):
    import copy
    return copy.deepcopy(x)


def run(case, ctx):
    case = prepared(case)
    answers = ctx.ask(case)
    for a in answers:
        if "error" in a:
            raise HarnessError(a["error"])
    first = answers[0]
    for i, a in enumerate(answers[1:], 1):
        if a != first:
            if set(a) != set(first) or "violation" in a:
                raise Violation(f"process {STARTS[i]}: {str(a)[:300]}; process {STARTS[0]}: {str(first)[:300]}")
            x, y = first["ok"], a["ok"]
            k = next(k for k in x if x[k] != y[k])
            raise Violation(f"the same {'inventory' if case['mode'] == 'inventory' else 'operation'} gives different results: {k} is {str(x[k])[:600]} in a process started with {STARTS[0]} and {str(y[k])[:600]} in one started with {STARTS[i]}")
    if "violation" in first:
        return Outcome(False, ["refused"])
    r = first["ok"]
    if case["mode"] == "inventory":
        many = [h for h in r["hosts"].values() if len(h[1]) > 2]
        return Outcome(bool(many) or r["kind"] not in ("returned", "exit 0"), ["inventory"] + (["many-groups"] if many else []) + (["invalid"] if not r["hosts"] else []) + [case["how"]])
    return Outcome(len(r["requests"]) > 1, ["world-" + case["world"]["world"], r["kind"]])


CHECK = Check(id="C32", strategy=strategy, run=run, quick=1500, thorough=40000, batch=150, context=Ctx, case_limit=120,
              rule="generated inventories (valid, conflicting, broken) loaded and inspected, and generated operations on generated hosts performed, by three processes with different hash seeds, umasks, working directories, time zones, users and "
                   "signal settings; everything recorded must be equal; non-trivial: a host has several groups or the inventory is invalid, or the operation sent at least two requests",
              assumptions=["names of backups contain the time", "git operations are left out, as commits contain times"])
