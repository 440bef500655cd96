"""C28: what the run log says about operations."""
import contextlib
import os
import pty
import re
import subprocess
import sys

from hypothesis import strategies as st

from vf import env, fileops, gens, worlds
from vf.core import Check, HarnessError, Outcome, Violation
from vf.guard import make_guard
from vf.hostenv import HostEnv, wipe

KEYS = ["exists", "mode", "a", "abcdefghijkl", "abcdefghijklm", "a_rather_long_key_name"]
ANSI = re.compile("\x1b\\[[0-9;]*m")
SECRET = "tOpSeCrEt"


def strategy():
    val = st.one_of(st.none(), st.none(), st.booleans(), st.integers(2, 4), st.sampled_from(["", "x", "644", "12345678", "123456789", "1234567890", "x" * 21, "x" * 22, "é日本" * 5, "a: b", b"", b"\x00\xff", b"\xab" * 20]),
                    st.lists(st.sampled_from(["p", "q", 3]), max_size=4))
    state = st.dictionaries(st.sampled_from(KEYS), st.tuples(val, val, st.booleans()).map(list), max_size=5)
    op = st.fixed_dictionaries({"op": st.sampled_from(["file", "vf_op", "upload"]), "desc": st.sampled_from(["/etc/x", "d", "two words", "é", "(x)", "x → y"]), "name": st.sampled_from([None, None, "my name", "n", ""]),
                                "state": state, "end": st.sampled_from(["ok", "ok", "ok", "ok", "fail", "opererr", "oserr", "cmd"]), "msg": st.sampled_from(["it failed", "é", "a: b → c"]),
                                "diffs": st.lists(st.tuples(st.sampled_from(["/f", "g h"]), st.sampled_from([None, b"", b"old\n", b"same\nold\n"]), st.sampled_from([None, b"", b"new\n", b"same\nnew\n"])).map(list), max_size=2),
                                "indent": st.integers(0, 3), "check": st.booleans()})
    flags = {"verbose": st.sampled_from([0, 0, 1, 2, 99]), "changes": st.sampled_from([True, True, True, False]), "diff": st.booleans(), "color": st.booleans(), "dry": st.booleans()}
    synth = st.fixed_dictionaries({"mode": st.just("synth"), "ops": st.lists(op, min_size=1, max_size=4), **flags})
    real = st.fixed_dictionaries({"mode": st.just("real"), "what": st.sampled_from(["upload_content", "upload", "template_content", "template", "line", "upload_dir", "delete"]), "old": st.sampled_from([True, True, False, False, "same"]), "n": st.integers(1, 4), **flags})
    world = st.fixed_dictionaries({"mode": st.just("world"), "world": worlds.strategy(), "name": st.sampled_from([None, "my name", "n"]), "check": st.booleans(), **flags})
    return st.one_of(synth, synth, synth, real, world, world)


class Ctx:
    def __init__(self, scratch):
        self.scratch, self.root, self.src = scratch, os.path.join(scratch, "r"), os.path.join(scratch, "s")
        for d in (self.root, self.src):
            os.makedirs(d, exist_ok=True)
        env.reset_globals()
        self.he = HostEnv(scratch, connector=make_guard(self.root))
        wdir = os.path.join(scratch, "w")
        os.makedirs(wdir, exist_ok=True)
        self.worlds = worlds.Ctx(wdir)

    def close(self):
        self.worlds.close()
        self.he.close()


def screen(text):
    """The lines a terminal shows: a carriage return overwrites the beginning of the line. Colors are kept as they are on the last writer."""
    out = []
    for line in text.split("\n"):
        parts = line.split("\r")
        shown = ANSI.sub("", parts[-1])
        for p in parts[:-1]:
            if len(ANSI.sub("", p)) > len(shown):
                raise Violation(f"the final line {parts[-1]!r} leaves parts of the earlier status {p!r} visible")
        out.append((shown, parts[-1]))
    return out


def to_s(v):
    return v.hex() if isinstance(v, bytes) else str(v)


def cut(s, n):
    return s if len(s) <= n else s[:n - 1] + "…"


def infos(initial, final, verbose):
    out = []
    for k, f in final.items():
        if f is None:
            continue
        i = initial[k]
        if i == f:
            if verbose >= 1:
                out.append(f"{k}: {to_s(f)}")
        elif verbose >= 1:
            out.append(f"{k}: {to_s(f)}" if i is None else f"{k}: {to_s(i)} → {to_s(f)}")
        else:
            out.append(f"{cut(k, 12)}: {cut(to_s(f), 21)}" if i is None else f"{cut(k, 12)}: {cut(to_s(i), 9)} → {cut(to_s(f), 9)}")
    return out


def run(case, ctx):
    return world(case, ctx) if case["mode"] == "world" else real(case, ctx) if case["mode"] == "real" else cli(case, ctx) if case["mode"] == "cli" else synth(case, ctx)


def flags(case):
    return dict(verbose=case["verbose"], changes=case["changes"], diff=case["diff"], no_color=not case["color"], dry=case["dry"])


def synth(case, ctx):
    from fora import logger
    from fora.connectors.tunnel_dispatcher import RemoteOSError
    from fora.operations.api import Operation, OperationError, operation
    he = ctx.he
    texts, labels = [], set()

    def one(o):
        initial = {k: v[0] for k, v in o["state"].items()}
        final = {k: (v[0] if v[2] else v[1]) for k, v in o["state"].items()}

        @operation(o["op"])
        def my_op(name=None, check=True, op=Operation.internal_use_only):
            op.desc(o["desc"])
            op.initial_state(**initial)
            op.final_state(**final)
            for d in o["diffs"]:
                op.diff(*d)
            if o["end"] == "ok":
                return op.success()
            if o["end"] == "fail":
                return op.failure(o["msg"])
            if o["end"] == "opererr":
                raise OperationError(o["msg"])
            if o["end"] == "oserr":
                raise RemoteOSError(errno=2, strerror="x", msg=o["msg"])
            raise subprocess.CalledProcessError(3, ["cmd", o["msg"]], b"out", b"err")
        kw = {} if o["name"] is None else {"name": o["name"]}
        he.out.seek(0)
        he.out.truncate()
        with contextlib.ExitStack() as s:
            for _ in range(o["indent"]):
                s.enter_context(logger.indent())
            try:
                my_op(check=o["check"], **kw)
            except (OperationError, RemoteOSError, subprocess.CalledProcessError):
                if o["end"] == "ok":
                    raise
        return he.out.getvalue(), initial, final

    def body():
        for o in case["ops"]:
            texts.append(one(o))
    he.in_script(body, **flags(case))
    for o, (text, initial, final) in zip(case["ops"], texts):
        where = f"operation {o['op']} {o['desc']!r} (end={o['end']}, {initial} -> {final}, {flags(case)}) printed {text!r}"
        if not case["color"] and "\x1b" in text:
            raise Violation(f"{where}: escape sequences although color is off")
        lines = [l for l in screen(text) if l[0].strip() != ""]
        title = f"{o['op']}{' (dry)' if case['dry'] else ''} {o['desc']}" + (f" ({o['name']})" if o["name"] is not None else "")
        at = [i for i, l in enumerate(lines) if l[0].lstrip(" │╵").rstrip() == title.rstrip()]
        if len(at) != 1 or at[0] != 0:
            raise Violation(f"{where}: the title {title!r} is not shown exactly once, first")
        shown, raw = lines[0]
        # one level for the script itself, two characters per level
        if len(shown) - len(shown.lstrip(" │╵")) != 2 * (1 + o["indent"]):
            raise Violation(f"{where}: the title is not indented by {1 + o['indent']} levels: {shown!r}")
        changed = initial != final
        if case["color"]:
            codes = re.findall("\x1b\\[([0-9;]*)m" + re.escape(o["op"]), raw)
            want = {"31"} if o["end"] != "ok" else {"32"} if changed else {"90"}
            if not codes or not want & set(codes[0].split(";")):
                raise Violation(f"{where}: the title has color {codes}, expected {want}")
        rest = [l[0] for l in lines[1:]]
        strip = [re.sub("^[ │╵]*[└├]? ?", "", l) for l in rest]
        if o["end"] != "ok":
            msg = o["msg"] if o["end"] != "cmd" else "returned non-zero exit status 3"
            if not any(msg in l for l in rest):
                raise Violation(f"{where}: the failure message is not shown")
            if any("created: " in l or "modified: " in l or "deleted: " in l for l in rest):
                raise Violation(f"{where}: a failed operation shows a diff")
            labels.add("failed")
            continue
        want = infos(initial, final, case["verbose"]) if case["changes"] else []
        diffs = [d for d in o["diffs"] if d[1] != d[2]] if case["diff"] and case["changes"] else []
        if want:
            if not strip or strip[0] != ", ".join(want):
                raise Violation(f"{where}: the state changes are shown as {strip[:1]}, expected {', '.join(want)!r}")
            strip = strip[1:]
            labels.add("changes")
        titles = [("created" if d[1] is None else "deleted" if d[2] is None else "modified") + ": " + d[0] for d in diffs]
        got = [l for l in strip if re.match("(created|deleted|modified): ", l)]
        if got != titles:
            raise Violation(f"{where}: the diffs shown are {got}, expected {titles}")
        if not diffs and strip:
            raise Violation(f"{where}: unexpected lines {strip}")
        if diffs:
            labels.add("diff")
            for d in diffs:
                if d[2] and b"new" in d[2] and not any(l == "+new" for l in strip):
                    raise Violation(f"{where}: the added line is missing in the diff")
    return Outcome(bool(labels), sorted(labels) + [f"verbose{case['verbose']}"])


def real(case, ctx):
    """Contents are printed with --diff only."""
    wipe(ctx.root)
    wipe(ctx.src)
    what = case["what"]
    new = "".join(f"line {i} {SECRET}-new\n" for i in range(case["n"])).encode()
    old = f"first {SECRET}-old\n".encode()
    p = os.path.join(ctx.root, "f")
    if case["old"] or what == "delete":
        if what == "upload_dir":
            os.mkdir(p)
        with open(os.path.join(p, "a") if what == "upload_dir" else p, "wb") as f:
            f.write(new if case["old"] == "same" else old)
            os.fchmod(f.fileno(), 0o640)
    s = os.path.join(ctx.src, "s")
    if what == "upload_dir":
        os.mkdir(s)
    with open(os.path.join(s, "a") if what == "upload_dir" else s, "wb") as f:
        f.write(new)

    def body():
        from fora.operations import files
        if what == "upload_content":
            files.upload_content(new, p)
        elif what == "upload":
            files.upload(s, p)
        elif what == "template_content":
            files.template_content("{% for i in range(" + str(case["n"]) + ") %}line {{ i }} {{ x }}-new\n{% endfor %}", p, context={"x": SECRET})
        elif what == "template":
            files.template(s, p)
        elif what == "line":
            files.line(p, f"line 0 {SECRET}-new")
        elif what == "upload_dir":
            files.upload_dir(s, p)
        else:
            files.file(p, present=False)
    ctx.he.in_script(body, **flags(case))
    text = ctx.he.out.getvalue()
    desc = f"{what} (existing: {case['old']}, {flags(case)}) printed {text!r}"
    show = case["diff"] and case["changes"]
    # everything but the title, in which the line operation names the line itself
    shown = [l[0] for l in screen(text)[1:]]
    body_text = "\n".join(shown)
    if not case["color"] and "\x1b" in text:
        raise Violation(f"{desc}: escape sequences although color is off")
    if not show and SECRET in body_text:
        raise Violation(f"{desc}: contents are printed without --diff")
    if show and what != "delete":
        marked = {k: [l[l.index(k) + 1:] for l in shown if SECRET in l and re.match(r"^\W*[" + k + "]", l)] for k in "+-"}
        after = [f"line {i} {SECRET}-new" for i in range(case["n"])][:1 if what == "line" else None]
        before = [f"first {SECRET}-old"] if case["old"] and what != "line" else []
        if case["old"] == "same":
            # only the mode differs
            before = after = []
        if marked != {"+": after, "-": before}:
            raise Violation(f"{desc}: the diff shows {marked}, expected {after} added and {before} removed")
    return Outcome(True, ["real", "real-diff" if show else "real-nodiff"])


def targets(w, case):
    """ What the title has to mention (each is a list of alternatives). """
    if w.name == "files":
        o = w.op
        if o["op"] in ("line", "template"):
            return [[os.path.join(w.ctx.root, *fileops.components(o, w.case["tree"]))]]
        j = fileops.Job(o, w.case["tree"], w.ctx.root, w.ctx.ext, w.ctx.src)
        return [[j.arg, j.path]]
    if w.name == "upload_dir":
        return [[w.dest[0], w.dest[1].rstrip("/")]]
    if w.name == "git":
        return [[os.path.join(w.ctx.root, w.spec["path"])], [w.rem[w.spec["url"]].url]]
    o = w.case["case"]["ops"][-1]
    if o["k"] in ("user", "group"):
        return [[o[o["k"]]]]
    if o["k"] == "package":
        # a string instead of a list is refused (see c18.call_package)
        return [[p] for p in o["packages"][:1 if o.get("form") == "str" else None]]
    return [[o["service"]]] if o["k"] == "service" else []


def printable(case):
    """ Names with control characters would make the log ambiguous to parse. """
    if isinstance(case, dict):
        return {k: [n if n.isprintable() else f"u{i}" for i, n in enumerate(v)] if k == "pool" else printable(v) for k, v in case.items()}
    return [printable(v) for v in case] if isinstance(case, list) else case


def strings(case):
    if isinstance(case, str):
        yield case
    elif isinstance(case, (dict, list, tuple)):
        for v in [x for k, x in case.items() if k not in ("content", "line", "value")] if isinstance(case, dict) else case:
            yield from strings(v)


def world(case, ctx):
    """ Operations of fora on hosts in generated states: what they are and what they do is what is shown. """
    case = {**case, "world": printable(case["world"])}
    if not all(v.isprintable() for v in strings(case["world"])):
        return Outcome(False, ["world-unprintable"])
    w = worlds.make(case["world"], ctx.worlds)
    w.reset()
    kw = {} if case["name"] is None else {"name": case["name"]}
    kind, r, _ = w.perform(check=case["check"], extra=kw, **{**flags(case), "dry": case["dry"], "diff": case["diff"]})
    text = w.he.out.getvalue()
    names = targets(w, case["world"])
    if not all(a.isprintable() for alt in names for a in alt):
        return Outcome(False, ["world-unprintable"])
    where = f"{w.describe()} ({case['name']!r}, {flags(case)}) printed {text!r}"
    if not case["color"] and "\x1b" in text:
        raise Violation(f"{where}: escape sequences although color is off")
    if kind == "raised":
        return Outcome(False, ["world-raised"])
    lines = [(i, l[0]) for i, l in enumerate(screen(text)) if l[0].strip() != ""]
    tail = f" ({case['name']})" if case["name"] is not None else ""
    level = lambda l: len(l) - len(l.lstrip(" │╵"))
    at = [k for k, (i, l) in enumerate(lines) if level(l) == 2 and re.match("\\w+ ", l.lstrip(" │╵"))]
    if len(at) != 1 and not (w.name == "upload_dir" and kind != "ok" and at):
        raise Violation(f"{where}: the operation is not shown exactly once")
    for k in at:
        t = (lines[k][1].lstrip(" │╵").rstrip().split(" ", 1) + [""])[1]
        if (t + " ").startswith("(dry) ") != case["dry"]:
            raise Violation(f"{where}: the title does not say whether it is a dry run")
        if not t.endswith(tail.rstrip()):
            raise Violation(f"{where}: the given name is not shown")
        for alt in names:
            if not any(a.rstrip() in t for a in alt):
                raise Violation(f"{where}: the title {t!r} does not mention {alt[0]!r}")
    if kind == "failed":
        if r.failure_message is None or not any(str(r.failure_message).split("\n")[0] in l for _, l in lines):
            raise Violation(f"{where}: the failure {r.failure_message!r} is not shown")
        return Outcome(True, ["world-failed"])
    if w.name == "upload_dir":
        return Outcome(True, ["world-nested"])
    rest = [re.sub("^[ │╵]*[└├]? ?", "", l) for _, l in lines[at[0] + 1:]]
    want = infos(r.initial, r.final, case["verbose"]) if case["changes"] else []
    if not all(v.isprintable() for v in want):
        return Outcome(False, ["world-unprintable"])
    if want and (not rest or rest[0] != ", ".join(want)):
        raise Violation(f"{where}: the state changes are shown as {rest[:1]}, expected {', '.join(want)!r}")
    if not (case["diff"] and case["changes"]) and len(rest) > bool(want):
        raise Violation(f"{where}: unexpected lines {rest}")
    return Outcome(True, ["world", "world-" + w.name])


def cli(case, ctx):
    """Color on a terminal, on a pipe, with NO_COLOR and --no-color."""
    inv = os.path.join(ctx.src, "clinv.py")
    script = os.path.join(ctx.src, "cli_deploy.py")
    with open(inv, "w") as f:
        f.write("hosts = ['local:x']\n")
    with open(script, "w") as f:
        f.write("from fora.operations import files\nfiles.upload_content(b'content', " + repr(os.path.join(ctx.root, "cli")) + ")\n")
    wipe(ctx.root)
    e = {"PATH": os.environ["PATH"], "HOME": ctx.scratch, "LANG": "C.UTF-8", "PYTHONWARNINGS": "ignore", "VF_REPO": env.REPO, "PYTHONPATH": env.VERIF, "PYTHONDONTWRITEBYTECODE": "1"}
    if case["env"] is not None:
        e["NO_COLOR"] = case["env"]
    argv = [sys.executable, "-m", "vf.cli", os.path.join(ctx.scratch, "ev"), "{}"] + (["--no-color"] if case["opt"] else []) + (["--diff"] if case["diff"] else []) + [inv, script]
    if case["tty"]:
        m, s = pty.openpty()
        p = subprocess.Popen(argv, env=e, cwd=ctx.scratch, stdin=subprocess.DEVNULL, stdout=s, stderr=subprocess.PIPE)
        os.close(s)
        out = b""
        while True:
            try:
                b = os.read(m, 65536)
            except OSError:
                break
            if not b:
                break
            out += b
        os.close(m)
        err = p.stderr.read()
        p.stderr.close()
        rc = p.wait(60)
    else:
        p = subprocess.run(argv, env=e, cwd=ctx.scratch, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
        out, err, rc = p.stdout, p.stderr, p.returncode
    if rc != 0:
        raise Violation(f"fora {argv[5:]} on a {'terminal' if case['tty'] else 'pipe'} failed with {rc}: {err[-300:]!r}")
    color = case["tty"] and not case["opt"] and case["env"] is None
    if (b"\x1b" in out) != color:
        raise Violation(f"tty={case['tty']} NO_COLOR={case['env']!r} --no-color={case['opt']}: {'no ' if color else ''}color was printed: {out[:300]!r}")
    if err:
        raise Violation(f"a successful run wrote to standard error without --debug: {err[:300]!r}")
    if b"upload_content" not in out:
        raise Violation(f"the operation is not shown: {out!r}")
    return Outcome(True, ["cli"])


def examples():
    return [{"mode": "cli", "tty": t, "env": e, "opt": o, "diff": d} for t in (True, False) for e in (None, "", "1") for o in (True, False) for d in (True, False)]


def every_step(tier):
    tree, ops = worlds.file_steps()
    return [{"mode": "world", "world": {"world": "files", "tree": tree, "pre": [], "op": o, "same": False}, "name": n, "check": True, "verbose": v, "changes": c, "diff": d, "color": False, "dry": dry}
            for o in ops for n, v, c, d, dry in ((None, 0, True, False, False), ("nm", 2, True, True, True), ("nm", 0, False, True, False), (None, 99, True, False, True))]


CHECK = Check(id="C28", strategy=strategy, run=run, quick=3000, thorough=60000, examples=examples, exhaustive_examples=every_step, context=Ctx, batch=300, case_limit=90,
              rule="generated operations (states, diffs, outcomes, names, nesting) under generated output flags, real file operations with recognisable contents, and the program on a terminal and on a pipe; the printed text is compared with an "
                   "independent rendering; non-trivial: at least one change list, diff or failure was printed, or contents were at stake")
