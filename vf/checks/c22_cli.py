"""C22: the command line runs the script on exactly the selected hosts."""
import contextlib
import io
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from vf import env, stubconn, trace
from vf.checks.c25_inspect import BREAK, break_it
from vf.core import Check, HarnessError, Outcome, Violation
from vf.hostenv import wipe

NAMES = ["h", "h1", "h10", "h1.example.org", "db", "web", "a-b", "x_y", "Ö", "all"]
BEHAVE = ["ok"] * 30 + ["raise", "exit3", "kbd", "fatal", "open", "identity", "close", "chdir", "exit-str", "opfail", "schema"]


def strategy():
    host = st.fixed_dictionaries({"n": st.sampled_from(NAMES), "named": st.booleans(), "do": st.sampled_from(BEHAVE), "group": st.sampled_from([None, None, "g1", "g2"]), "mod": st.booleans()})
    sel = st.one_of(st.none(), st.none(), st.lists(st.integers(0, 9), min_size=2, max_size=6), st.lists(st.one_of(st.integers(0, 9), st.sampled_from([0, 1, "unknown", "", "url", "upper", "space"])), min_size=1, max_size=6), st.lists(st.integers(0, 9), min_size=1, max_size=6))
    return st.fixed_dictionaries({
        "hosts": st.one_of(st.lists(host, min_size=2, max_size=5, unique_by=lambda h: h["n"]), st.lists(host, min_size=0, max_size=5, unique_by=lambda h: h["n"])),
        "sel": sel, "break": st.sampled_from([None] * 40 + BREAK), "script": st.sampled_from(["abs"] * 6 + ["rel", "rel", "rel", "rel", "sub", "sub", "missing", "syntax"]),
        "inv": st.sampled_from(["abs", "abs", "abs", "rel", "rel", "rel", "url"]),
        "opts": st.lists(st.sampled_from(["--dry", "--dry-run", "--pretend", "-v", "-vv", "--debug", "--diff", "--no-changes", "--no-color"]), max_size=4, unique=True),
        "hopt": st.sampled_from(["-H", "--hosts", "--hosts=", "-H="]), "optpos": st.sampled_from(["before", "before", "after"]),
        "bad": st.sampled_from([None] * 30 + ["noscript", "extra", "unknownopt", "hosts-no-value"]),
        "proc": st.sampled_from([False] * 24 + [True])})


SCRIPT = '''"""generated"""
import os, sys
import fora
from fora import host, inventory
import vf.trace as t
from fora.operations import files
conn = fora.host.connection
t.hit("script", fora.host.name, host.name, conn.connector.url, fora.host.url, fora.args.dry, fora.args.verbose, fora.args.diff, fora.args.changes, fora.args.no_color, os.getcwd(), host.hostvar, host is fora.host, getattr(host, "stained", None))
host.stained = "by " + host.name
conn.run(["mark", host.name])
do = host.do
if do == "raise":
    raise RuntimeError("vf script error")
elif do == "exit3":
    sys.exit(3)
elif do == "exit-str":
    sys.exit("vf: some failure")
elif do == "kbd":
    raise KeyboardInterrupt()
elif do == "fatal":
    from fora.utils import FatalError
    raise FatalError("vf fatal", loc=None)
elif do == "opfail":
    files.file(path="/vf-is-a-directory-here/x")
elif do == "chdir":
    os.chdir("/")
t.hit("script-end", host.name)
'''


def build(case, root):
    hosts, lines = [], []
    for h in case["hosts"]:
        url = ("nosuchschema:" if h["do"] == "schema" else "vfstub:") + (h["n"] if not h["named"] else "at-" + h["n"])
        hosts.append({**h, "url": url, "var": "var of " + h["n"]})
        decl = {"url": url, "vars": {"hostvar": "var of " + h["n"], "do": h["do"]}}
        if h["named"]:
            decl["name"] = h["n"]
        if h["group"]:
            decl["groups"] = [h["group"]]
        lines.append(repr(decl))
    path = os.path.join(root, "inventory.py")
    # hosts with an unregistered schema need an explicit name
    for i, h in enumerate(hosts):
        if h["do"] == "schema":
            lines[i] = repr({**eval(lines[i]), "name": h["n"]})
    with open(path, "w") as f:
        f.write("groups = ['g1', {'name': 'g2', 'after': ['g1']}]\nhosts = [" + ", ".join(lines) + "]\n")
    for d in ("groups", "hosts", "sub"):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for g in ("g1", "g2", "all"):
        with open(os.path.join(root, "groups", g + ".py"), "w") as f:
            f.write(f"from_{g} = 1\n")
    for h in hosts:
        if h["mod"]:
            with open(os.path.join(root, "hosts", h["n"] + ".py"), "w") as f:
                f.write("from_host = 1\n")
    return path, hosts


def select(case, hosts):
    """-> (argument or None, selected hosts or None if the selection is invalid)."""
    names = [h["n"] for h in hosts]
    if case["sel"] is None:
        return None, list(hosts)
    items = []
    for s in case["sel"]:
        if isinstance(s, int):
            items.append(names[s % len(names)] if names else "nobody")
        else:
            n = names[0] if names else "nobody"
            items.append({"unknown": "unknown-host", "": "", "url": "vfstub:" + n, "upper": n.swapcase(), "space": " " + n}[s])
    seen, out = set(), []
    for i in items:
        if i not in names:
            return ",".join(items), None
        if i not in seen:
            seen.add(i)
            out.append(hosts[names.index(i)])
    return ",".join(items), out


def run(case, ctx):
    import fora
    root = os.path.join(ctx, "inv")
    os.makedirs(root, exist_ok=True)
    wipe(root)
    path, hosts = build(case, root)
    inv_arg = {"abs": path, "rel": "inventory.py"}.get(case["inv"])
    brk = case["break"]
    if case["inv"] == "url":
        brk = None
        url = "vfstub:" + (case["hosts"][0]["n"] if case["hosts"] else "solo")
        inv_arg = url
        hosts = [{"n": url.split(":", 1)[1], "url": url, "do": "ok", "var": "single"}]
    harg, selected = select(case, hosts)
    if brk == "missing-file":
        inv_arg = os.path.join(root, "nope.py")
    elif brk:
        break_it(brk, path, root)
    sdir = os.path.join(root, "sub") if case["script"] == "sub" else root
    sfile = os.path.join(sdir, "deploy.py")
    body = SCRIPT
    if case["inv"] == "url":
        body = body.replace("host.hostvar", "'single'").replace("host.do", "'ok'")
    if case["script"] == "syntax":
        body = "this is not python\n"
    if case["script"] != "missing":
        with open(sfile, "w") as f:
            f.write(body)
    sarg = {"rel": "deploy.py", "sub": os.path.join("sub", "deploy.py")}.get(case["script"], sfile)
    opts = list(case["opts"])
    if harg is not None:
        k = case["hopt"]
        opts += [k + harg] if k == "--hosts=" else ["-H" + harg] if k == "-H=" and harg and not harg.startswith("=") else ["--hosts" if k == "-H=" else k, harg]
    pos = [inv_arg, sarg]
    if case["bad"] == "noscript":
        pos = pos[:1]
    elif case["bad"] == "extra":
        pos.append("one-too-many")
    elif case["bad"] == "unknownopt":
        opts.append("--vf-no-such-option")
    argv = opts + pos if case["optpos"] == "before" else pos + opts
    if case["bad"] == "hosts-no-value":
        argv.append("-H")
    faults = {h["url"]: h["do"] for h in hosts if h["do"] in ("open", "identity", "close")}
    if case["inv"] == "url":
        faults = {}

    if case["proc"]:
        evf = os.path.join(ctx, "events.json")
        if os.path.exists(evf):
            os.unlink(evf)
        e = {k: v for k, v in os.environ.items() if k not in ("NO_COLOR", "COLUMNS")}
        r = subprocess.run([sys.executable, os.path.join(env.VERIF, "vf", "cli.py"), evf, json.dumps(faults)] + argv, cwd=root, env=e, stdin=subprocess.DEVNULL, capture_output=True, timeout=120)
        failed = r.returncode != 0
        how = f"exit status {r.returncode}"
        with open(evf) as f:
            events = json.load(f)
        err = r.stderr.decode(errors="replace")
        quiet_failure = failed and not err.strip()
    else:
        env.reset_globals()
        fora.args = None
        stubconn.FAULTS.clear()
        stubconn.FAULTS.update(faults)
        stubconn.register()
        from fora.main import main
        trace.reset()
        out, errs = io.StringIO(), io.StringIO()
        cwd, hook = os.getcwd(), sys.excepthook
        failed, how = False, "returned"
        quiet_failure = False
        try:
            os.chdir(root)
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(errs):
                try:
                    main(argv)
                except SystemExit as x:
                    failed = x.code not in (None, 0)
                    how = f"SystemExit({x.code!r})"
                    quiet_failure = failed and isinstance(x.code, int) and x.code != 3 and not errs.getvalue().strip()
                except (Exception, KeyboardInterrupt) as x:
                    failed, how = True, f"{type(x).__name__}: {x}"
            err = errs.getvalue()
        finally:
            after = None
            sys.excepthook = hook
            os.chdir(cwd)
        events = [list(e) for e in trace.events]

    def bad(msg):
        raise Violation(f"fora {argv}: {msg}; {how}; events {[e[:3] for e in events]}; stderr {err[-200:]!r}")

    invalid = case["bad"] or brk or selected is None
    opens = [e[1] for e in events if e[0] == "open"]
    closes = [e[1] for e in events if e[0] == "close"]
    scripts = [e for e in events if e[0] == "script"]
    if any(e[0] == "request-while-closed" for e in events):
        bad("a request was sent over a connection that is not open")
    labels = ["proc"] if case["proc"] else []
    if invalid:
        why = case["bad"] or brk or "unknown host"
        if events and (opens or scripts):
            bad(f"something was run although the invocation is invalid ({why})")
        if not failed:
            bad(f"the program did not fail although the invocation is invalid ({why})")
        if quiet_failure:
            bad(f"the program failed without any message ({why})")
        return Outcome(True, labels + ["invalid-" + ("args" if case["bad"] else "inventory" if brk else "hosts")])
    # expected course
    dry = any(o in ("--dry", "--dry-run", "--pretend") for o in case["opts"])
    debug = "--debug" in case["opts"]
    verbose = 99 if debug else case["opts"].count("-v") + 2 * case["opts"].count("-vv")
    want_scripts, want_open, want_fail = [], [], False
    for h in selected:
        if h["do"] == "schema":
            want_fail = True
            break
        want_open.append(h)
        if h["do"] in ("open", "identity"):
            want_fail = True
            break
        if case["script"] in ("missing", "syntax"):
            want_fail = True
            break
        want_scripts.append(h)
        if h["do"] in ("raise", "exit3", "exit-str", "kbd", "fatal", "close", "opfail"):
            want_fail = True
            break
    if case["script"] == "missing" and not opens and selected:
        want_open = []         # noticing it before connecting is as good
    if opens != [h["url"] for h in want_open] and not (case["script"] == "syntax" and not opens):
        bad(f"connections were opened to {opens}, expected {[h['url'] for h in want_open]}")
    need_close = [h["url"] for h in want_open if h["do"] != "open"]
    if [c for c in closes if c in need_close] != ([] if not opens else need_close):
        bad(f"connections were closed: {closes}, expected {need_close}")
    if len(scripts) != len(want_scripts):
        bad(f"the script ran {len(scripts)} times, expected {len(want_scripts)}")
    for e, h in zip(scripts, want_scripts):
        _, n1, n2, curl, hurl, edry, everb, ediff, echanges, enocolor, ecwd, var, same, stain = e
        if (n1, n2, curl, hurl, var) != (h["n"], h["n"], h["url"], h["url"], h["var"]):
            bad(f"the script ran with host {n1}/{n2}, connection {curl}, variables of {var!r}; expected {h['n']}, {h['url']}")
        if edry is not dry or everb != verbose or ediff is not ("--diff" in case["opts"]) or echanges is not ("--no-changes" not in case["opts"]):
            bad(f"the script saw dry={edry} verbose={everb} diff={ediff} changes={echanges}")
        if not enocolor and ("--no-color" in case["opts"] or True):
            bad("color is enabled although standard output is no terminal")
        if os.path.realpath(ecwd) != os.path.realpath(sdir):
            bad(f"the script ran in {ecwd}, expected {sdir}")
        if stain is not None:
            bad(f"host {n1} carries a value set while another host ran: {stain!r}")
    runs = [e for e in events if e[0] == "run"]
    if [(e[1], e[2]) for e in runs] != [(h["url"], ["mark", h["n"]]) for h in want_scripts]:
        bad(f"commands reached {[(e[1], e[2]) for e in runs]}")
    for e in runs:
        if e[3] not in (None, "u-" + e[1]) or e[4] not in (None, "g-" + e[1]):
            bad(f"the command on {e[1]} ran as {e[3]}:{e[4]}")
    # per host: open, script, end, close, and only then the next
    order = [(e[0], e[1] if e[0] != "script" else e[3]) for e in events if e[0] in ("open", "close", "script")]
    want = []
    for h in want_open if opens else []:
        want.append(("open", h["url"]))
        if h in want_scripts:
            want.append(("script", h["url"]))
        if h["do"] != "open":
            want.append(("close", h["url"]))
    if [o for o in order if not (o[0] == "close" and o[1] not in need_close)] != want:
        bad(f"the course was {order}, expected {want}")
    if failed != want_fail:
        bad(f"the program {'failed' if failed else 'succeeded'}, expected it to {'fail' if want_fail else 'succeed'}")
    if want_fail and case["proc"] and quiet_failure and not any(h["do"] == "exit3" for h in want_scripts):
        bad("the program failed without any message")
    if want_fail:
        labels.append("fails")
    if harg is not None:
        labels.append("selected")
    return Outcome(len(selected) > 0, labels + [f"hosts-{min(len(want_scripts), 3)}"] + (["dry"] if dry else []))


CHECK = Check(id="C22", strategy=strategy, run=run, quick=3500, thorough=60000, batch=200,
              rule="the invocation is invalid, or at least one host is selected",
              assumptions=["hosts are reached through a recording connector registered with the public decorator", "scripts that end the program with status 0 are outside the domain"])
