"""C31: a failure is reported with the statement of the user's script that caused it, and the way there."""
import contextlib
import io
import json
import os
import re
import subprocess
import sys

from hypothesis import strategies as st

from vf import env, stubconn, trace
from vf.core import Check, Outcome, Violation
from vf.hostenv import wipe

# kind -> (lines of the failing statement, exception type, is an operation). M is the message, D the directory.
KINDS = {
    "raise": (["raise ValueError(M)"], "ValueError", False),
    "raise-multi": (["raise ValueError(", "    M", ")"], "ValueError", False),
    "assert": (["assert [] == [1], M"], "AssertionError", False),
    "key": (["{}[M]"], "KeyError", False),
    "attr": (["getattr(object(), M)"], "AttributeError", False),
    "chain": (["try:", "    raise KeyError('vf-inner')", "except KeyError as e:", "    raise RuntimeError(M) from e"], "RuntimeError", False),
    "fatal": (["raise fora.utils.FatalError(M)"], "FatalError", False),
    "own": (["raise Own(M)"], "Own", False),
    "op": (["o.op_failure(M)"], "OperationError", True),
    "op-multi": (["o.op_failure(", "    M,", "    name='a name')"], "OperationError", True),
    "op-raises": (["o.op_error(M)"], "OperationError", True),
    "op-command": (["o.op_command(M, name='n')"], "CalledProcessError", True),
    "op-outer": (["o.op_outer(M)"], "OperationError", True),
    "op-context": (["o.op_context(M)"], "OperationError", True),
    "op-context-command": (["o.op_context_command(M)"], "CalledProcessError", True),
    "op-in-except": (["try:", "    o.op_error('vf-inner')", "except Exception:", "    o.op_failure(M)"], "OperationError", True),
    "op-other": (["o.op_other(M)"], "LookupError", False),
    "command": (["o.command(M)"], "CalledProcessError", False),
    "helper": (["o.call(o.deeper, ValueError(M))"], "ValueError", False),
    "missing-script": (["local.script('vf missing.py')"], "FileNotFoundError", False),
    "recursive": (["local.script(SELF)"], "ValueError", False),
    "host-attr": (["fora.host.vf_no_such_variable"], "AttributeError", False),
}
MESSAGES = ["vf-boom", "vf boom: é日本 🐸", "vf {} %s \\ boom", "vf" + "x" * 300, "vf 'quoted\" boom"]
# how the failing statement is embedded: lines before, indentation, lines after
PLACES = {
    "top": ([], "", []),
    "function": (["def f():", "    x = 1"], "    ", ["    x = 2", "", "f()"]),
    "nested": (["def g(k):", "    if k:", "        return g(k - 1)"], "    ", ["g(3)"]),
    "with": (["with fora.script.defaults(umask='77'):"], "    ", []),
    "finally": (["try:", "    o.op_fine()"], "    ", ["finally:", "    o.op_fine(name='cleanup')"]),
    "reraise": (["try:"], "    ", ["except Exception:", "    o.op_fine()", "    raise"]),
    "class": (["class C:"], "    ", []),
    "loop": (["for i in range(2):", "    if i == 0:", "        continue"], "    ", []),
    "lambda": (["def h():"], "    ", ["o.call(lambda: o.call(h))"]),
    "comprehension": (["def h(i):"], "    ", ["[h(i) for i in range(2)]"]),
    "oneline": (["if True:"], "  ", []),
}
CALLS = {
    "plain": ["local.script(NEXT)"],
    "multi": ["local.script(", "    NEXT,", "    name='a name',", ")"],
    "params": ["local.script(NEXT, params=dict(vf_p=1))"],
    "recursive": ["local.script(script=NEXT, recursive=True)"],
}
FILES = ["a.py", "b c.py", "é.py", "sub/d.py", "x{}.py", "1.py"]


def strategy():
    pad = st.lists(st.sampled_from(["", "# comment", "x = 1", "'''\nlong\nstring\n'''", "o.op_fine(name='ok')", "o.op_failure('vf-ignored', check=False)", "CAUGHT", "CAUGHT-OP"]), max_size=4)
    script = st.fixed_dictionaries({"file": st.sampled_from(FILES), "ref": st.sampled_from(["abs", "rel", "rel", "link", "dotdot"]), "call": st.sampled_from(sorted(CALLS)), "place": st.sampled_from(sorted(PLACES)), "pad": pad, "post": pad,
                                    "handle": st.sampled_from([None] * 6 + ["reraise", "wrap", "replace"])})
    nest = st.fixed_dictionaries({"where": st.just("script"), "scripts": st.lists(script, min_size=1, max_size=4, unique_by=lambda s: s["file"]), "kind": st.sampled_from(sorted(KINDS)), "msg": st.sampled_from(MESSAGES), "debug": st.sampled_from([False, False, False, True]),
                                  "color": st.booleans(), "proc": st.sampled_from([False] * 40 + [True])})
    module = st.fixed_dictionaries({"where": st.sampled_from(["group", "host", "inventory", "helper"]), "kind": st.sampled_from(["raise", "raise-multi", "assert", "key", "chain", "own", "syntax"]), "place": st.sampled_from(["top", "function", "nested", "class", "loop", "lambda"]), "pad": st.lists(st.sampled_from(["", "# comment", "x = 1"]), max_size=5),
                                    "msg": st.sampled_from(MESSAGES), "debug": st.sampled_from([False, False, True]), "proc": st.sampled_from([False] * 40 + [True])})
    return st.sampled_from(["nest"] * 4 + ["module"]).flatmap(lambda k: nest if k == "nest" else module)


HEAD = ["import fora", "from fora.operations import local", "import fora.utils", "import vf.trace as t", "import vf.failops as o", "class Own(Exception): pass", "t.hit('start', {n})"]
MODHEAD = ["import vf.failops as o", "class Own(Exception): pass"]


def flat(lines):
    return [x for l in lines for x in l.split("\n")]


def place(out, name, stmt):
    """Appends the statement, embedded; -> its first and last line."""
    before, ind, after = PLACES[name]
    out.extend(before)
    first = len(out) + 1
    out.extend(ind + l for l in stmt)
    last = len(out)
    out.extend(after)
    return first, last


def pads(out, pad):
    for p in pad:
        if p == "CAUGHT":
            out.extend(["try:", "    raise ValueError('vf-caught')", "except ValueError:", "    pass"])
        elif p == "CAUGHT-OP":
            out.extend(["try:", "    o.op_error('vf-caught')", "except Exception:", "    pass"])
        else:
            out.extend(flat([p]))


def ref(kind, path, i, root, frm):
    """A way of naming the script at path from a script in directory frm."""
    if kind == "link":
        l = os.path.join(root, f"link{i}.py")
        os.symlink(path, l)
        return l
    if kind == "rel":
        return os.path.relpath(path, frm)
    if kind == "dotdot":
        return os.path.join(frm, "..", os.path.basename(frm), os.path.relpath(path, frm))
    return path


def build(case, root):
    """-> the expected places [(file, first, last)] from the outermost to the failing one, and what is to be reported besides."""
    os.makedirs(os.path.join(root, "sub"))
    scripts = case["scripts"]
    paths = [os.path.join(root, s["file"]) for s in scripts]
    expect, handlers = [], []
    for i, s in enumerate(scripts):
        out = [l.replace("{n}", str(i)) for l in HEAD]
        pads(out, s["pad"])
        if i + 1 < len(scripts):
            frm = os.path.dirname(paths[i])
            target = repr(ref(scripts[i + 1]["ref"], paths[i + 1], i + 1, root, frm))
            stmt = [l.replace("NEXT", target) for l in CALLS[s["call"]]]
            h = s["handle"]
        else:
            stmt = [l.replace("SELF", repr(paths[i])).replace("M", repr(case["msg"])) if not l.startswith(("local.", "fora.host")) else l.replace("SELF", repr(paths[i])) for l in KINDS[case["kind"]][0]]
            h = None
        if h == "reraise":
            stmt = ["try:"] + ["    " + l for l in stmt] + ["except Exception as e:", "    raise"]
            a, b = place(out, s["place"], stmt)
            expect.append((paths[i], a + 1, b - 2))
        elif h in ("wrap", "replace"):
            line = f"    raise RuntimeError('vf-wrapped-{i}')" + (" from e" if h == "wrap" else "")
            stmt = ["try:"] + ["    " + l for l in stmt] + ["except Exception as e:", line]
            a, b = place(out, s["place"], stmt)
            expect.append((paths[i], a + 1, b - 2))
            handlers.append((i, (paths[i], b, b), f"vf-wrapped-{i}"))
        else:
            expect.append((paths[i], *place(out, s["place"], stmt)))
        out.append("t.hit('after', %d)" % i)
        pads(out, s["post"])
        with open(paths[i], "w", encoding="utf-8") as f:
            f.write("\n".join(out) + "\n")
    with open(os.path.join(root, "inventory.py"), "w") as f:
        f.write("hosts = ['vfstub:h', 'vfstub:i']\n")
    return expect, handlers, paths[0]


def build_module(case, root):
    os.makedirs(os.path.join(root, "groups"))
    os.makedirs(os.path.join(root, "hosts"))
    target = {"group": "groups/g.py", "host": "hosts/h.py", "inventory": "inventory.py", "helper": "helper mod.py"}[case["where"]]
    with open(os.path.join(root, "inventory.py"), "w") as f:
        f.write("hosts = [dict(url='vfstub:h', groups=['g'])]\ngroups = ['g']\n")
    with open(os.path.join(root, "groups", "g.py"), "w") as f:
        f.write("import fora.utils\nimport os\nfora.utils.load_py_module(os.path.dirname(os.path.dirname(__file__)) + '/helper mod.py')\n" if case["where"] == "helper" else "")
    out = list(MODHEAD) + list(case["pad"])
    if case["kind"] == "syntax":
        out.append("x = = 1")
        expect = (os.path.join(root, target), len(out), len(out))
    else:
        stmt = [l.replace("M", repr(case["msg"])) for l in KINDS[case["kind"]][0]]
        expect = (os.path.join(root, target), *place(out, case["place"], stmt))
    out.append("hosts = ['vfstub:h']")
    with open(os.path.join(root, target), "w", encoding="utf-8") as f:
        f.write("\n".join(out) + "\n")
    with open(os.path.join(root, "deploy.py"), "w") as f:
        f.write("import vf.trace as t\nt.hit('start', 0)\n")
    return [expect], [], os.path.join(root, "deploy.py")


def execute(case, root, argv, ctx):
    if case["proc"]:
        evf = os.path.join(ctx, "events.json")
        e = {k: v for k, v in os.environ.items() if k not in ("NO_COLOR", "COLUMNS")}
        r = subprocess.run([sys.executable, os.path.join(env.VERIF, "vf", "cli.py"), evf, "{}"] + argv, cwd=root, env=e, stdin=subprocess.DEVNULL, capture_output=True, timeout=120)
        with open(evf) as f:
            events = json.load(f)
        return r.returncode != 0, f"exit status {r.returncode}", r.stderr.decode("utf-8", "replace"), events
    import fora
    env.reset_globals()
    fora.args = None
    stubconn.FAULTS.clear()
    stubconn.register()
    from fora.main import main
    trace.reset()
    errs = io.StringIO()
    cwd, hook = os.getcwd(), sys.excepthook
    failed, how = False, "returned"
    try:
        os.chdir(root)
        sys.excepthook = sys.__excepthook__
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(errs):
            try:
                main(argv)
            except SystemExit as x:
                failed, how = x.code not in (None, 0), f"SystemExit({x.code!r})"
            except Exception as x:
                failed, how = True, type(x).__name__
                sys.excepthook(type(x), x, x.__traceback__)     # what the interpreter does at this point
    finally:
        sys.excepthook = hook
        os.chdir(cwd)
    return failed, how, errs.getvalue(), [list(e) for e in trace.events]


SITE = re.compile(r'^\s*(?:\| )?File "([^\n]*)", line (\d+)(?:, in (\S+))?$', re.M)


def run(case, ctx):
    root = os.path.realpath(os.path.join(ctx, "e"))
    os.makedirs(root, exist_ok=True)
    wipe(root)
    expect, handlers, script = (build if case["where"] == "script" else build_module)(case, root)
    argv = (["--debug"] if case["debug"] else []) + [os.path.join(root, "inventory.py"), script]
    failed, how, err, events = execute(case, root, argv, ctx)

    def bad(msg):
        raise Violation(f"{msg}; expected sites {[(os.path.basename(f), a, b) for f, a, b in expect]}; {how}; stderr:\n{err[-2500:]}")
    if not failed:
        bad("a failing script did not make the program fail")
    kind = case["kind"]
    typ, is_op = ("SyntaxError", False) if kind == "syntax" else KINDS[kind][1:]
    msg = case["msg"] if kind not in ("missing-script", "recursive", "host-attr", "syntax") else {"missing-script": "vf missing.py", "recursive": os.path.basename(script if len(expect) == 1 else expect[-1][0]), "host-attr": "vf_no_such_variable", "syntax": ""}[kind]
    if kind in ("key", "op-command", "op-context-command", "command"):
        msg = repr(msg)[1:-1]        # these show the representation

    def find(sites, after=0):
        """The sites occur in this order, from position after; -> the end of the last one or None."""
        pos = after
        for f, a, b in sites:
            for m in SITE.finditer(err, pos):
                if os.path.realpath(m.group(1)) == f and a <= int(m.group(2)) <= b:
                    pos = m.end()
                    break
            else:
                return None
        return pos
    # what failed in the end, and the exceptions that led to it
    line = re.compile(r"^(?:\S[^:\n]*\.)?" + typ + r": ?(.*)$", re.M)
    reports = [m for m in line.finditer(err) if msg in err[m.start():m.end()] or (kind == "syntax")]
    if not reports:
        bad(f"the error output does not contain the failure {typ}: {msg}")
    # an exception replaced by another one is followed by the statement that raised the other one
    chain = [(expect, reports[0])]
    for i, site, text in reversed(handlers):
        m = re.search(r"^RuntimeError: " + text + "$", err, re.M)
        if not m:
            bad(f"the error output does not contain the failure RuntimeError: {text}")
        chain.append((expect[:i] + [site], m))
    last = max((m for _, m in chain), key=lambda m: m.start())
    if last is not chain[-1][1]:
        bad("the last failure is not reported last")
    # the innermost site of every failure, right in its own report
    start = 0
    for n, (sites, m) in enumerate(chain):
        own = [s for s in SITE.finditer(err, start, m.start())]
        f, a, b = sites[-1]
        hits = [s for s in own if os.path.realpath(s.group(1)) == f and a <= int(s.group(2)) <= b]
        if not hits:
            bad(f"the failure {m.group(0)[:80]!r} is reported without its statement {os.path.basename(f)}:{a}-{b}")
        if is_op and n == 0 and not case["debug"] and own[-1] not in hits:
            bad(f"the failure of an operation is reported at {own[-1].group(0).strip()!r} instead of the statement calling it")
        start = m.end()
    # the calls that led to the failure that ended the program, outermost first
    if find(chain[-1][0]) is None:
        bad("the way from the outermost script to the failure is not reported")
    if not case["debug"] and not handlers and case["where"] == "script":
        # outside of debug mode, nothing but the user's files and what they call is shown
        first = SITE.search(err)
        if first and len(expect) > 1 and os.path.realpath(first.group(1)) not in [s[0] for s in expect]:
            bad(f"the report starts at {first.group(0).strip()!r}, not at the script")
    for w in ("vf-caught", "vf-ignored"):
        if re.search(r"^\S*(Error|Exception): " + w, err, re.M):
            bad(f"a failure that was handled ({w}) is reported")
    # nothing after the failing statement was run, nor another host
    if case["where"] == "script":
        want = [["start", i] for i in range(len(expect))]
        got = [e for e in events if e[0] in ("start", "after")]
        if got != want:
            bad(f"the course was {got}, expected {want}")
        if kind in ("op-command", "op-context-command", "command"):
            if err.count("vf-stdout\n") != 1 or err.count("vf-stderr\n") != 1:
                bad("the output of the failed command is not shown exactly once")
    elif [e for e in events if e[0] in ("start", "open")]:
        bad("a host was reached although the inventory is broken")
    labels = [case["where"], "debug" if case["debug"] else "pretty"] + (["proc"] if case["proc"] else []) + (["handled"] if handlers else [])
    return Outcome(len(expect) > 1 or case["where"] != "script" or kind != "raise", labels + [f"depth-{len(expect)}"])


def exhaustive(tier):
    s = lambda f, **k: {"file": f, "ref": "rel", "call": "multi", "place": "top", "pad": [], "post": [], "handle": None, **k}
    out = []
    for kind in sorted(KINDS):
        for pl in sorted(PLACES) if tier == "thorough" else ["top", "function"]:
            for debug in (False, True):
                out.append({"where": "script", "scripts": [s("a.py"), s("sub/d.py", place="function"), s("b c.py", place=pl)], "kind": kind, "msg": "vf-boom", "debug": debug, "color": False, "proc": False})
    return out


CHECK = Check(
    id="C31", strategy=strategy, run=run, quick=2500, thorough=40000, batch=100, case_limit=150, exhaustive_examples=exhaustive,
    rule="chains of 1-4 generated scripts (named absolutely, relatively or by links, calls spread over several lines, in functions, with blocks, classes...) whose last one fails in one of 19 ways (exceptions, failing operations and commands, missing or recursive scripts), possibly handled, wrapped or replaced on the way, "
         "or a failing group, host, inventory or helper module; the line of every statement is known from generation; in this process through main() and sys.excepthook, and as a process; non-trivial: anything but a single script with a plain exception",
)
