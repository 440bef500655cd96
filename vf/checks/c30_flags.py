"""C30: options that only concern the output never change what is done."""
import contextlib
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from vf import env, gens, worlds
from vf.checks.c13_dry import differ
from vf.core import Check, HarnessError, Outcome, Violation
from vf.guard import make_guard
from vf.hostenv import HostEnv, snap_diff, snapshot, wipe

NAMES = ["plain", "é日本", "🐸", "a b", "\udcff", "tab\there", "new\nline", "\x1b[31m", "→│"]
CONTENTS = ["", "x\n", "é日本\n", "\x00\x1b[2J", "a\nb\nc\n", "→\u2028"]


# files whose size is reported as zero although they have content
KERNEL = ["/proc/version", "/proc/sys/kernel/hostname", "/proc/filesystems", "/proc/self/comm"]


def flags():
    return st.fixed_dictionaries({"verbose": st.sampled_from([0, 0, 1, 2, 99]), "changes": st.booleans(), "diff": st.booleans(), "no_color": st.booleans(), "debug": st.booleans()})


def strategy():
    inproc = st.fixed_dictionaries({"mode": st.just("op"), "w": worlds.strategy(), "flags": flags(), "dry": st.sampled_from([False, False, True]), "check": st.sampled_from([True, True, False])})
    cmd = st.fixed_dictionaries({"mode": st.just("command"), "argv": st.lists(st.sampled_from(["a", "", "é", "x y", "\\", "{}", "%s", "\udcff", "\n", "z" * 70000]), max_size=3), "input": st.one_of(st.none(), st.binary(max_size=20), gens.blobs(200000, 5)),
                                 "out": gens.blobs(200000, 20), "err": gens.blobs(200000, 20), "rc": st.sampled_from([0, 0, 1, 255]), "capture": st.sampled_from([True, True, True, False]), "flags": flags()})
    step = st.fixed_dictionaries({"k": st.sampled_from(["dir", "content", "line", "template", "link", "cmd", "fail"]), "n": st.sampled_from(NAMES), "c": st.sampled_from(CONTENTS), "name": st.sampled_from([None, None, "é name", "\udcff", "x"])})
    proc = st.fixed_dictionaries({"mode": st.just("process"), "steps": st.lists(step, min_size=1, max_size=4), "flags": flags(), "dry": st.sampled_from([False, False, False, True]), "encoding": st.sampled_from(["utf-8", "ascii", "latin-1", "utf-8", "cp437", "C"]),
                                  "columns": st.sampled_from([None, "1", "500"]), "host": st.sampled_from(["h", "é", "h-1"])})
    kern = st.fixed_dictionaries({"mode": st.just("kernel"), "file": st.sampled_from(KERNEL), "content": st.sampled_from(["same", "", "new\n", "é"]), "how": st.sampled_from(["upload_content", "template_content", "line"]), "flags": flags(), "dry": st.booleans()})
    return st.sampled_from(["op"] * 24 + ["command"] * 12 + ["kernel"] * 4 + ["process"]).flatmap(lambda k: {"op": inproc, "command": cmd, "kernel": kern, "process": proc}[k])


class Ctx(worlds.Ctx):
    def __init__(self, scratch):
        # the remote side starts with whatever umask the login has
        umask = os.umask(0)
        try:
            self.connect(scratch)
        finally:
            os.umask(umask)

    def connect(self, scratch):
        super().__init__(scratch)
        self.null = open(os.devnull, "w", encoding="utf-8", errors="backslashreplace")      # as python opens stderr
        with contextlib.redirect_stderr(self.null):
            # the remote side is told about debugging when the connection is opened
            self.loud = HostEnv(scratch, connector=make_guard(self.root, also=(self.ext, self.rem)), args={"debug": True})

    def close(self):
        with contextlib.redirect_stderr(self.null):
            self.loud.close()
        super().close()
        self.null.close()


def shown(r):
    return {k: getattr(r, k, None) for k in ("success", "changed", "initial", "final", "failure_message")}


def outcome(kind, r):
    return (kind, type(r).__name__, str(r), getattr(r, "returncode", None)) if kind == "raised" else (kind, shown(r))


def run(case, ctx):
    return {"op": run_op, "kernel": run_kernel, "command": run_command, "process": run_process}[case["mode"]](case, ctx)


def run_op(case, ctx):
    f = case["flags"]
    w = worlds.make(case["w"], ctx)
    w.reset()
    k1, r1, _ = w.perform(dry=case["dry"], check=case["check"])
    s1 = w.state(times=False)
    w.reset()
    with contextlib.redirect_stderr(ctx.null):
        if f["debug"] and w.he is ctx.files:
            w.he = ctx.loud
            w.con.reset()
        try:
            k2, r2, _ = w.perform(dry=case["dry"], check=case["check"], **f)
        finally:
            if w.he is ctx.loud:
                w.he = ctx.files
    s2 = w.state(times=False)
    what = w.describe()
    if outcome(k1, r1) != outcome(k2, r2):
        raise Violation(f"{what} with output options {f}: {str(outcome(k2, r2))[:400]}, without them {str(outcome(k1, r1))[:400]}")
    if s1 != s2:
        raise Violation(f"{what}: output options {f} change what is done: {differ(s1, s2)}")
    return Outcome(any(v for k, v in f.items() if k != "changes") or not f["changes"], [w.name, k1] + [k for k in ("debug", "diff") if f[k]])


def run_kernel(case, ctx):
    """Changes to files of the kernel, with a stand-in that only records the upload."""
    with open(case["file"], encoding="utf-8") as f:
        content = f.read() if case["content"] == "same" else case["content"]
    con = ctx.files.connector
    con.reset()
    done = []

    def body():
        from fora.operations import files
        try:
            if case["how"] == "line":
                r = files.line(path=case["file"], line=content.splitlines()[0] if content else "l")
            elif case["how"] == "upload_content":
                r = files.upload_content(content=content.encode(), dest=case["file"], mode="444")
            else:
                r = files.template_content(content="{{ t }}", dest=case["file"], mode="444", context={"t": content})
            return ("ok", shown(r))
        except Exception as e:
            return ("raised", type(e).__name__, str(e))
    con.upload = lambda file, content, *a, **k: done.append((file, content, a, k))
    try:
        a, adone = ctx.files.in_script(body, dry=case["dry"]), list(done)
        done.clear()
        with contextlib.redirect_stderr(ctx.null):
            b, bdone = ctx.files.in_script(body, dry=case["dry"], **case["flags"]), list(done)
    finally:
        del con.upload
    if a != b or adone != bdone:
        raise Violation(f"{case['how']} of {case['file']}: with output options {case['flags']}: {str((b, bdone))[:300]}, without them {str((a, adone))[:300]}")
    return Outcome(bool(any(v for k, v in case["flags"].items() if k != "changes")), ["kernel", "kernel-" + a[0]])


def run_command(case, ctx):
    from vf.core import blob
    out, err = blob(case["out"]), blob(case["err"])
    for n, b in (("out", out), ("err", err)):
        with open(os.path.join(ctx.ext, n), "wb") as f:
            f.write(b)
    prog = f"cat {ctx.ext}/out; cat {ctx.ext}/err >&2; for a in \"$@\"; do printf '[%s]' \"$a\"; done; cat; exit {case['rc']}"
    argv = ["sh", "-c", prog, "sh"] + case["argv"]
    data = None if case["input"] is None else blob(case["input"])
    want_out = out + b"".join(b"[" + os.fsencode(a) + b"]" for a in case["argv"]) + (data or b"")

    def body():
        import fora
        try:
            r = fora.host.connection.run(argv, input=data, capture_output=case["capture"], check=False)
        except (ValueError, OSError) as e:
            return ("error", type(e).__name__)
        # a file without a given mode
        new = os.path.join(ctx.root, "new")
        wipe(ctx.root)
        he.connector.upload(new, data or b"")
        modes.append(oct(os.stat(new).st_mode & 0o7777))
        return ("ok", r.stdout, r.stderr, r.returncode)
    if sum(len(a) for a in argv) > 100000:
        return Outcome(False)
    f = case["flags"]
    modes = []
    unencodable = any(0xd800 <= ord(c) < 0xe000 for a in case["argv"] for c in a)
    with contextlib.redirect_stderr(ctx.null):
        he = ctx.loud if f["debug"] else ctx.files
        he.connector.reset()
        got = he.in_script(body, **f)
    want = ("ok", want_out if case["capture"] else None, err if case["capture"] else None, case["rc"])
    if unencodable and got == ("error", "UnicodeEncodeError"):
        return Outcome(False)
    if got != want:
        raise Violation(f"with output options {f} a command printing {len(want_out)} bytes and {len(err)} bytes of errors gave {str(got)[:200]}, expected {str(want)[:200]}")
    if modes != ["0o600"]:
        raise Violation(f"with output options {f} a file uploaded without a mode gets {modes}")
    return Outcome(True, ["command"] + [k for k in ("debug",) if f[k]])


def script(steps, root):
    out = ["from fora.operations import files\nimport fora\n"]
    for i, s in enumerate(steps):
        p = os.path.join(root, f"{i}-{s['n']}")
        name = "" if s["name"] is None else f", name={s['name']!r}"
        if s["k"] == "dir":
            out.append(f"files.directory(path={p!r}, mode='750'{name})\n")
        elif s["k"] == "content":
            out.append(f"files.upload_content(content={s['c'].encode('utf-8')!r}, dest={p!r}, mode='644'{name})\n")
        elif s["k"] == "line":
            out.append(f"files.line(path={p!r}, line={(s['c'].splitlines() or ['l'])[0]!r}{name})\n")
        elif s["k"] == "template":
            out.append(f"files.template_content(content={'{{ t }}' + chr(10)!r}, dest={p!r}, context=dict(t={s['c']!r}){name})\n")
        elif s["k"] == "link":
            out.append(f"files.link(path={p!r}, target='somewhere'{name})\n")
        elif s["k"] == "cmd":
            out.append(f"fora.host.connection.run(['sh', '-c', 'echo \"$1\"; touch \"$0\"', {p!r}, {s['c'].replace(chr(0), '')!r}])\n")
        else:
            out.append(f"r = files.upload_content(content=b'', dest='/', check=False{name})\nassert not r.success\n")
    out.append(f"files.upload_content(content=b'end', dest={os.path.join(root, 'end')!r})\n")
    return "".join(out)


BOOT = "import sys; sys.path[:0] = [{v!r}, {s!r}]\nfrom vf import env\nenv.bootstrap_fora()\nfrom fora.main import main\nmain(sys.argv[1:])\n"


def run_process(case, ctx):
    f = case["flags"]
    d = os.path.join(ctx.scratch, "p")
    os.makedirs(d, exist_ok=True)
    wipe(d)
    steps = [s for s in case["steps"] if not (s["k"] == "cmd" and "\udcff" in s["n"])]
    with open(os.path.join(d, "deploy.py"), "w", encoding="utf-8", errors="backslashreplace") as fd:
        fd.write(script(steps, ctx.root))
    with open(os.path.join(d, "inventory.py"), "w", encoding="utf-8") as fd:
        fd.write(f"hosts = [dict(url='local:x', name={case['host']!r})]\n")
    with open(os.path.join(d, "boot.py"), "w") as fd:
        fd.write(BOOT.format(v=env.VERIF, s=env.SRC))
    got = []
    for full in (False, True):
        wipe(ctx.root)
        argv = [sys.executable, os.path.join(d, "boot.py")] + (["--dry"] if case["dry"] else [])
        e = {k: v for k, v in os.environ.items() if k not in ("PYTHONIOENCODING", "LC_ALL", "LANG", "NO_COLOR", "COLUMNS", "PYTHONUTF8")}
        e["PYTHONIOENCODING"] = "utf-8:surrogateescape"
        if full:
            argv += ["-v"] * min(3, f["verbose"]) + (["--diff"] if f["diff"] else []) + (["--debug"] if f["debug"] else []) + (["--no-color"] if f["no_color"] else []) + ([] if f["changes"] else ["--no-changes"])
            if case["encoding"] == "C":
                del e["PYTHONIOENCODING"]
                e["LC_ALL"] = "C"
            else:
                e["PYTHONIOENCODING"] = case["encoding"]
            if case["columns"]:
                e["COLUMNS"] = case["columns"]
        r = subprocess.run(argv + [os.path.join(d, "inventory.py"), os.path.join(d, "deploy.py")], env=e, cwd=d, stdin=subprocess.DEVNULL, capture_output=True, timeout=100)
        got.append((r.returncode, snapshot(ctx.root, times=False), r))
    if got[0][0] != got[1][0] or got[0][1] != got[1][1]:
        raise Violation(f"output options {f}, encoding {case['encoding']}: exit status {got[1][0]}, without them {got[0][0]}; {snap_diff(got[0][1], got[1][1])[:4]}; {got[1][2].stderr[-600:].decode(errors='replace')}")
    if got[0][0] == 0 and not case["dry"] and "end" not in got[0][1]:
        raise HarnessError("the script did not run")
    return Outcome(True, ["process", "process-ok" if got[0][0] == 0 else "process-failed"])


def every_step(tier):
    tree, ops = worlds.file_steps()
    return [{"mode": "op", "w": {"world": "files", "tree": tree, "pre": [], "op": o, "same": False}, "flags": {"verbose": v, "changes": c, "diff": d, "no_color": n, "debug": g}, "dry": dry, "check": True}
            for o in ops for v, c, d, n, g, dry in ((99, True, True, False, True, False), (0, False, False, True, False, False), (0, False, True, False, True, False), (2, True, True, True, True, True))]


CHECK = Check(
    id="C30", strategy=strategy, run=run, exhaustive_examples=every_step, quick=1500, thorough=20000, batch=60, context=Ctx, case_limit=150,
    rule="metamorphic: (a) a generated host state and operation (files, accounts, packages, services, git), performed from the same state once with the default and once with generated output options (verbosity, --diff, --no-changes, color, --debug on both sides of the connection): the same result or error and the same final state; "
         "(b) commands with generated output, input and arguments over a connection with these options; (c) the program run as a process with these options, terminal widths and output encodings that cannot represent all of the text; non-trivial: some option differs from its default",
)
