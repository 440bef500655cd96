"""C33: requests and connections leave nothing behind: no processes, open files, temporary files or memory."""
import contextlib
import gc
import io
import os
import signal
import tempfile
import threading
import time

from hypothesis import strategies as st

from vf import env
from vf.checks import c03_session as c03
from vf.core import Check, HarnessError, Outcome, Violation
from vf.hostenv import HostEnv

BIG = ["download", "upload", "echo", "input", "stat"]


def strategy():
    reqs = st.fixed_dictionaries({"mode": st.just("requests"), "via": st.sampled_from(["local", "ssh"]), "reqs": st.lists(c03.request(), min_size=1, max_size=5)})
    conns = st.fixed_dictionaries({"mode": st.just("connections"), "via": st.lists(st.sampled_from(["local", "ssh", "local", "exit", "garbage", "nofile"]), min_size=1, max_size=4), "requests": st.integers(0, 2),
                                   "raises": st.sampled_from([False, False, True])})
    gone = st.fixed_dictionaries({"mode": st.just("gone"), "via": st.sampled_from(["local", "ssh"]), "requests": st.integers(0, 3), "during": st.sampled_from([None, "run", "upload", "half"]),
                                  "signal": st.sampled_from([int(signal.SIGKILL), int(signal.SIGTERM), 0])})
    return st.one_of(reqs, reqs, reqs, conns, gone)


def examples():
    return [{"mode": "repeat", "via": v, "what": w} for v in ("local", "ssh") for w in BIG] + \
        [{"mode": "gone", "via": v, "requests": 1, "during": d, "signal": int(signal.SIGKILL)} for v in ("local", "ssh") for d in (None, "run", "upload", "half")]


class Ctx:
    def __init__(self, scratch):
        self.c03 = c03.Ctx(scratch)
        self.scratch = scratch
        self.root = self.c03.root
        # where temporary files of both sides go
        self.tmp = os.path.join(scratch, "tmp")
        os.makedirs(self.tmp, exist_ok=True)
        os.chmod(self.tmp, 0o1777)
        os.environ["TMPDIR"] = self.tmp
        os.environ["HOME"] = self.tmp
        tempfile.tempdir = None

    def close(self):
        self.c03.close()


def open_files(pid):
    out = []
    d = f"/proc/{pid}/fd"
    for n in sorted(os.listdir(d), key=int):
        try:
            out.append((n, os.readlink(os.path.join(d, n))))
        except FileNotFoundError:
            pass        # the one used to list the directory
    return out


def children(pid):
    out = []
    for t in os.listdir(f"/proc/{pid}/task"):
        with open(f"/proc/{pid}/task/{t}/children") as f:
            out += [int(x) for x in f.read().split()]
    return sorted(out)


def threads(pid):
    return len(os.listdir(f"/proc/{pid}/task"))


def resident(pid):
    with open(f"/proc/{pid}/statm") as f:
        return int(f.read().split()[1]) * 4096


def remote_pid(con):
    """The process that answers: asked through a command it starts."""
    return int(con.run(["sh", "-c", "echo $PPID"]).stdout)


def side(pid, without=()):
    return {"open files": open_files(pid), "child processes": [c for c in children(pid) if c not in without], "threads": threads(pid)}


def settle(take, want, seconds=3.0):
    """The state, once it is as wanted; a process that is just ending is given the time to do so."""
    end = time.monotonic() + seconds
    while True:
        got = take()
        if got == want or time.monotonic() > end:
            return got
        gc.collect()
        time.sleep(0.02)


def differs(a, b):
    return {k: {"before": [x for x in a[k] if x not in b[k]], "after": [x for x in b[k] if x not in a[k]]} if isinstance(a[k], list) else (a[k], b[k]) for k in a if a[k] != b[k]}


def names(d):
    return sorted(os.listdir(d))


# paths through links, where the file that is created has another name
ALIASES = ["dangling"]


def tree(d):
    return [os.path.join(p, n) for p, ds, fs in os.walk(d) for n in ds + fs]


def run(case, ctx):
    return {"requests": requests, "connections": connections, "repeat": repeat, "gone": gone}[case["mode"]](case, ctx)


def requests(case, ctx):
    from fora.connectors import tunnel_dispatcher as td
    he = ctx.c03.get(case["via"])
    con = he.connector
    pid = remote_pid(con)
    me = os.getpid()
    labels = set()
    c03.prepare(ctx.root)
    for i, q in enumerate(case["reqs"]):
        take = lambda: {"remote": side(pid), "local": side(me), "temporary files": names(ctx.tmp), "next to the program": names(ctx.scratch)}
        before = take()
        there = set(tree(ctx.root))
        step_labels = set()
        try:
            c03.step(con, td, ctx.root, q, step_labels, i, he.baseline)
        except Violation as e:
            # what requests answer is C03's matter, unless the connection is gone
            if "the connection broke" in str(e):
                raise
        after = settle(take, before)
        if q["r"] in ("stat", "download", "upload"):
            new = [x for x in tree(ctx.root) if x not in there]
            if any(x != os.path.normpath(os.path.join(ctx.root, q["path"])) for x in new) and q["path"] not in ALIASES:
                raise Violation(f"the request {str(q)[:300]} left something behind: {new}")
        for k in before:
            if before[k] != after[k]:
                what = differs(before[k], after[k]) if isinstance(before[k], dict) else [x for x in after[k] if x not in before[k]]
                raise Violation(f"the request {str(q)[:300]} left something behind: {k}: {what}")
        labels |= step_labels
    return Outcome(bool(labels & {"fail", "malformed", "invalid-param", "upload", "download", "echo"}) or any(x.startswith("run-") for x in labels), sorted(labels | {case["via"]}))


def connections(case, ctx):
    import fora
    from fora.connection import open_connection
    from fora.connectors.tunnel_connector import TunnelConnector
    he = ctx.c03.get("local")
    he2 = ctx.c03.get("ssh")
    me = os.getpid()
    gc.collect()
    before = side(me)
    files = names(ctx.tmp)
    bad = {"exit": ["sh", "-c", "exit 3"], "garbage": ["sh", "-c", "echo this is not what you expect; exec cat >/dev/null"], "nofile": ["/nonexistent/program"]}
    pids = []
    kinds = set()
    for via in case["via"]:
        kinds.add(via)
        host = (he2 if via == "ssh" else he).host
        connector = host.connector
        if via in bad:
            class C(TunnelConnector):
                schema = "bad"

                def command(self, _c=bad[via]):
                    return _c
            host.connector = C
        fora.args = env.make_args()
        fora.host = host
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    with open_connection(host) as c:
                        for _ in range(case["requests"]):
                            c.connector.run(["true"])
                        if via not in bad:
                            pids.append(remote_pid(c.connector))
                        if case["raises"]:
                            raise KeyError("vf")
                except KeyError:
                    pass
                except (OSError, EOFError):
                    if via not in bad:
                        raise
        finally:
            host.connector = connector
            host.connection = None
            fora.host = None
    c = None
    after = settle(lambda: side(me), before, 8.0)
    if after != before:
        raise Violation(f"connections {case['via']} left something behind: {differs(before, after)}")
    if names(ctx.tmp) != files:
        raise Violation(f"connections {case['via']} left temporary files behind: {names(ctx.tmp)}")
    for p in pids:
        if settle(lambda: os.path.exists(f"/proc/{p}"), False, 8.0):
            raise Violation(f"connections {case['via']}: the remote process {p} is still there")
    return Outcome(len(case["via"]) > 1, ["connections"] + sorted(kinds))


def alive(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0] != "Z"
    except (FileNotFoundError, ProcessLookupError):
        return False


def gone(case, ctx):
    """The process that runs the deploy is gone, without a goodbye: the remote side ends as well."""
    import fora
    from fora.connection import open_connection
    he = ctx.c03.get(case["via"])
    r, w = os.pipe()
    me = os.fork()
    if me == 0:
        try:
            null = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            fora.args = env.make_args()
            fora.host = he.host
            with contextlib.redirect_stdout(io.StringIO()):
                cm = open_connection(he.host)
                c = cm.__enter__()
                pid = remote_pid(c.connector)
                for _ in range(case["requests"]):
                    c.connector.stat("/")
                if case["during"] == "run":
                    threading.Thread(target=lambda: c.connector.run(["sleep", "0.4"]), daemon=True).start()
                    time.sleep(0.1)
                elif case["during"] == "upload":
                    c.connector.upload(os.path.join(ctx.root, "gone"), b"x" * 100000)
                elif case["during"] == "half":
                    # the beginning of a request
                    try:
                        c.connector.conn.buffer_out.write(b"\0\0\0")
                        c.connector.conn.buffer_out.flush()
                    except AttributeError:
                        pass
                os.write(w, b"%d\n" % pid)
                if case["signal"]:
                    signal.signal(case["signal"], signal.SIG_DFL) if case["signal"] != signal.SIGKILL else None
                    os.kill(os.getpid(), case["signal"])
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        said = f.read()
    os.waitpid(me, 0)
    if not said.strip():
        raise HarnessError("the process that was to die could not connect")
    pid = int(said)
    if settle(lambda: alive(pid), False, 10.0):
        os.kill(pid, signal.SIGKILL)
        raise Violation(f"{case}: the local process is gone, but the remote process is still there")
    return Outcome(True, ["gone"] + ([case["during"]] if case["during"] else []))


def repeat(case, ctx):
    """The memory of both sides does not grow with the number of requests."""
    he = ctx.c03.get(case["via"])
    con = he.connector
    pid, me = remote_pid(con), os.getpid()
    c03.prepare(ctx.root)
    path = os.path.join(ctx.root, "f")
    size = 2_000_000
    data = b"x" * size
    with open(path, "wb") as f:
        f.write(data)

    nr = 0

    def one(w):
        nonlocal nr
        nr += 1
        # contents, times and names are always new
        new = os.path.join(ctx.root, f"f{nr}")
        os.rename(os.path.join(ctx.root, f"f{nr - 1}") if nr > 1 else path, new)
        with open(new, "r+b") as f:
            f.write(b"%d" % nr)
        return act(w, new)

    def act(w, path):
        if w == "download":
            con.download(path)
        elif w == "upload":
            con.upload(path, data, mode="644")
        elif w == "echo":
            con.run(["head", "-c", str(size), "/dev/zero"])
        elif w == "input":
            con.run(["sh", "-c", "cat >/dev/null"], input=data)
        else:
            con.stat(path, sha512sum=True)
    for _ in range(15):
        one(case["what"])
    gc.collect()
    before = {"remote": resident(pid), "local": resident(me)}
    n = 60
    for _ in range(n):
        one(case["what"])
    gc.collect()
    after = {"remote": resident(pid), "local": resident(me)}
    for k in before:
        if after[k] - before[k] > n * size / 3:
            raise Violation(f"{n} requests of kind {case['what']} of {size} bytes each made the {k} process grow by {after[k] - before[k]} bytes")
    return Outcome(True, ["repeat-" + case["what"]])


CHECK = Check(id="C33", strategy=strategy, run=run, quick=1500, thorough=30000, batch=60, context=Ctx, examples=examples, case_limit=90,
              rule="histories of requests of every kind (see C03) and of connections that work, fail to open or end with an exception; after each, the open files, child processes and threads of both sides and the temporary files must be what they were "
                   "before, and memory must not grow with the number of requests; non-trivial: a request that runs a command, moves contents, fails or is malformed, or several connections",
              assumptions=["background processes that a command itself leaves behind belong to the command"])
