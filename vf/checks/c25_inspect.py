"""C25: --inspect-inventory."""
import contextlib
import copy
import io
import os
import re

from hypothesis import strategies as st

from vf import env, invgen, trace
from vf.core import Check, HarnessError, Outcome, Violation
from vf.hostenv import wipe

BREAK = ["nohosts", "hosts-tuple", "syntax", "missing-file", "raise", "dup-host", "unknown-group", "self-dep", "conflict", "cycle"]
SGR = re.compile("\x1b\\[[0-9;]*m")


def strategy():
    return st.fixed_dictionaries({"inv": invgen.inventories(names=invgen.GROUPS), "break": st.sampled_from([None] * 7 + BREAK), "color": st.sampled_from([False, False, False, True]), "columns": st.sampled_from([None, "20", "80", "200", "1000"]),
                                  "odd": st.sampled_from([None, None, None, "object", "function", "class", "bigstr", "tuple", "bytes"]), "how": st.sampled_from(["inspect", "inspect", "extra", "url"]), "chain": st.sampled_from([False, False, False, True])})


def chained(inv):
    """The same inventory with all groups one after the other, each of them modifying the same variables."""
    inv = copy.deepcopy(inv)
    last = None
    for g in inv["groups"]:
        g.update(mod=True, before=[], after=[last] if last else [], prog=[["append", "v1", g["name"]]] + [s for s in g["prog"] if s[0] in invgen.MODIFY])
        last = g["name"]
    inv["explicit"] = True
    inv["all"].update(mod=True, before=[], prog=[["set", "v1", []], ["nest", "cfg", 1]])
    for h in inv["hosts"]:
        h["groups"] = h["groups"] + [g["name"] for g in inv["groups"]]
        h["form"] = "dict" if h["form"] == "str" else h["form"]
    return inv


ODD = {"object": "odd_var = type('Odd', (), {'__repr__': lambda s: '<odd repr>'})()\n", "function": "def odd_var():\n    pass\n", "class": "class odd_var:\n    pass\n", "bigstr": "odd_var = 'y' * 500 + ' │ z'\n",
       "tuple": "odd_var = (1, 'two', None, {3})\n", "bytes": "odd_var = b'\\x00\\xff │'\n"}
ODDREPR = {"object": "<odd repr>", "bigstr": repr("y" * 500 + " │ z"), "tuple": repr((1, "two", None, {3})), "bytes": repr(b"\x00\xff \xe2\x94\x82")}
ODD["bytes"] = "odd_var = b'\\x00\\xff \\xe2\\x94\\x82'\n"


class NoConnect(Exception):
    pass


def break_it(kind, path, root):
    with open(path) as f:
        src = f.read()
    if kind == "nohosts":
        src = re.sub(r"(?m)^hosts = .*$", "", src)
    elif kind == "hosts-tuple":
        src = re.sub(r"(?m)^hosts = (.*)$", r"hosts = tuple(\1)", src)
    elif kind == "syntax":
        src += "\nthis is not python\n"
    elif kind == "raise":
        src += "\nraise RuntimeError('vf inventory error')\n"
    elif kind == "dup-host":
        src += "\nhosts = ['dup', 'dup']\n"
    elif kind == "unknown-group":
        src += "\ngroups = ['known']\nhosts = [{'url': 'x', 'groups': ['unknown']}]\n"
    elif kind == "self-dep":
        src += "\ngroups = [{'name': 'known', 'after': ['known']}]\nhosts = ['x']\n"
    elif kind == "cycle":
        src += "\ngroups = [{'name': 'ka', 'after': ['kb']}, {'name': 'kb', 'after': ['ka']}]\nhosts = ['x']\n"
    elif kind == "conflict":
        src += "\ngroups = ['ka', 'kb']\nhosts = [{'url': 'x', 'groups': ['ka', 'kb']}]\ngroups_dir = 'vfgroups'\n"
        os.makedirs(os.path.join(root, "vfgroups"), exist_ok=True)
        for g in ("ka", "kb"):
            with open(os.path.join(root, "vfgroups", g + ".py"), "w") as f:
                f.write(f"conflicting = {g!r}\n")
    with open(path, "w") as f:
        f.write(src)


def expected_definers(inv, h, order):
    """variable -> names of the modules that gave it its present value, in order; None where the rules leave it open."""
    ns, who = {}, {}
    for v, x in list(inv["inv_vars"].items()) + list(h["vars"].items()):
        ns[v] = copy.deepcopy(x)
        who[v] = None
    progs = {g["name"]: g["prog"] for g in inv["groups"] + [inv["all"]]}
    deleted = set()
    for name, prog in [(g, progs[g]) for g in order] + ([(invgen.host_name(h), h["prog"])] if h["mod"] else []):
        before = copy.deepcopy(ns)
        invgen.execute(prog, ns)
        for v in invgen.ALL_VARS:
            if v in before and v not in ns:
                deleted.add(v)
            if v not in ns:
                continue
            stmts = [s[0] for s in prog if s[1] == v and s[0] != "private"]
            rebound = any(s in invgen.ASSIGN for s in stmts)
            differs = v not in before or repr(before[v]) != repr(ns[v])
            if not stmts:
                continue
            if rebound:
                who[v] = [name] if differs and v not in deleted else None
            elif differs:
                who[v] = who[v] + [name] if who.get(v) is not None else None
    return ns, who


def parse(out):
    """Splits the printed summary into groups, hosts and the variable table of each host."""
    groups, hosts, tables, mode, cur = [], {}, {}, None, None
    for line in out.split("\n"):
        if line.startswith("──────── host "):
            cur = line[len("──────── host "):].split(" ")[0]
            tables[cur] = []
            mode = "table"
        elif mode != "table" and line.startswith("groups"):
            mode = "groups"
        elif mode != "table" and line.startswith("hosts"):
            mode = "hosts"
        elif mode == "hosts" and line.rstrip() == "variables":
            mode = "vars"
        elif mode == "groups" and line.startswith("  - ("):
            groups.append(line.split(") ", 1)[1])
        elif mode == "hosts" and line.startswith("  - "):
            n, rest = line[4:].split(" ", 1)
            hosts[n] = rest
        elif mode == "table" and " │ " in line:
            cells = line.split(" │ ", 3)
            tables[cur].append([c.strip() for c in cells[:3]] + cells[3:])
    return groups, hosts, tables


def run(case, ctx):
    import fora
    from fora import connection
    from fora.connectors.connector import Connector
    inv, _ = invgen.normalise(invgen.clean(chained(case["inv"]) if case.get("chain") else case["inv"]))
    for h in inv["hosts"]:
        if h["form"] == "str" and (h["groups"] or h["vars"]):
            h["form"] = "dict"
    root = os.path.join(ctx, "inv")
    os.makedirs(root, exist_ok=True)
    wipe(root)
    path = invgen.write(inv, root)
    url = None
    if case["how"] == "url" and case["break"] is None:
        url = inv["hosts"][0]["url"]
        inv = {**inv, "groups": [], "explicit": False, "all": {**inv["all"], "mod": False, "declare": False, "before": []}, "inv_vars": {}, "hosts": [{**inv["hosts"][0], "groups": [], "vars": {}, "mod": False, "name": None}]}
    elif case["odd"]:
        with open(os.path.join(root, "groups" if not inv["dirs"] else inv["dirs"][0], "all.py"), "a") as f:
            f.write(ODD[case["odd"]])
    if case["break"] == "missing-file":
        path = os.path.join(root, "no-such-inventory.py")
    elif case["break"]:
        break_it(case["break"], path, root)
    script = os.path.join(root, "script.py")
    with open(script, "w") as f:
        f.write("import vf.trace as t\nt.hit('SCRIPT')\n")

    env.reset_globals()
    fora.args = None            # as in a freshly started program
    from fora.main import main
    trace.reset()
    opened = []
    real = {}
    from fora.connectors.tunnel_connector import TunnelConnector
    real["open"] = TunnelConnector.open
    TunnelConnector.open = lambda self: (opened.append(1), (_ for _ in ()).throw(NoConnect()))[1]
    out, err = io.StringIO(), io.StringIO()
    saved = {k: os.environ.get(k) for k in ("NO_COLOR", "COLUMNS")}
    cwd = os.getcwd()
    import sys
    hook = sys.excepthook
    status, exc = None, None
    try:
        os.environ.pop("NO_COLOR", None)
        os.environ.pop("COLUMNS", None)
        if not case["color"]:
            os.environ["NO_COLOR"] = "1"
        if case["columns"]:
            os.environ["COLUMNS"] = case["columns"]
        arg = url or path
        if inv["path"] == "rel" and not url:
            os.chdir(root)
            arg = os.path.basename(path)
        argv = ["--inspect-inventory", arg] + ([arg, script] if case["how"] == "extra" else [])
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                main(argv)
                status = "returned"
            except SystemExit as e:
                status = e.code
            except NoConnect:
                raise Violation("a connection was opened")
            except Exception as e:
                exc = e
    finally:
        TunnelConnector.open = real["open"]
        sys.excepthook = hook
        os.chdir(cwd)
        for k, v in saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
    events = list(trace.events)
    if opened or ["SCRIPT"] in events:
        raise Violation(f"inspecting the inventory {'opened a connection' if opened else 'ran the script'}")
    if case["break"]:
        if exc is None and (status in (0, None, "returned")):
            raise Violation(f"the inventory cannot be loaded ({case['break']}), but the program ended with {status!r}; output {out.getvalue()[:300]!r}")
        if exc is None and not err.getvalue().strip():
            raise Violation(f"the inventory cannot be loaded ({case['break']}), but no error was printed")
        return Outcome(True, ["broken-" + case["break"]])
    if exc is not None:
        raise Violation(f"inspecting a valid inventory failed with {type(exc).__name__}: {exc}; stderr {err.getvalue()[-300:]!r}") from exc
    if status not in (0, None):
        raise Violation(f"inspecting a valid inventory ended with status {status!r}; stderr {err.getvalue()[-300:]!r}")
    text = out.getvalue()
    if not case["color"] and "\x1b" in text:
        raise Violation("an escape sequence was printed although NO_COLOR is set")
    groups, hosts, tables = parse(SGR.sub("", text))
    # groups: all of them once, in a valid load order
    anc = invgen.ancestors(inv)
    groups = [g for g in groups if g != "early-explicits"]      # the pseudo group of variables declared with the host
    if sorted(groups) != sorted(anc):
        raise Violation(f"the groups {sorted(groups)} are listed, the inventory has {sorted(anc)}")
    for i, g in enumerate(groups):
        late = [a for a in anc[g] if groups.index(a) > i]
        if late:
            raise Violation(f"group {g} is listed before {late}, on which it depends: {groups}")
    want_hosts = [invgen.host_name(h) for h in inv["hosts"]]
    if list(hosts) != want_hosts or list(tables) != want_hosts:
        raise Violation(f"the hosts {list(hosts)} are listed (tables {list(tables)}), the inventory has {want_hosts}")
    chunks = [(nm, None) for nm in want_hosts] if url else invgen.split_events(inv, events)
    checked = 0
    for h, (nm, order) in zip(inv["hosts"], chunks):
        if not hosts[nm].startswith(f"({invgen.host_url(h)}, "):
            raise Violation(f"host {nm} is listed as {hosts[nm]!r}, its url is {invgen.host_url(h)!r}")
        ns, who = expected_definers(inv, h, order or [])
        rows = {}
        for r in tables[nm][1:]:
            if len(r) != 4:
                raise Violation(f"host {nm}: incomplete row {r}")
            if r[0] in rows:
                raise Violation(f"host {nm}: the variable {r[0]!r} is listed twice")
            rows[r[0]] = r
        for v in invgen.ALL_VARS:
            if (v in rows) != (v in ns):
                raise Violation(f"host {nm}: variable {v} is {'not listed' if v in ns else 'listed: ' + str(rows[v])}; its value is {ns.get(v, 'undefined')!r}")
            if v in ns:
                checked += 1
                if rows[v][3].rstrip(" ") != repr(ns[v]).rstrip(" ") or rows[v][1] != type(ns[v]).__name__:
                    raise Violation(f"host {nm}: {v} is listed as {rows[v][1]} {rows[v][3]!r}, its value is {ns[v]!r}")
                names = [x.split(") ", 1)[-1] for x in rows[v][2].split(", ")] if rows[v][2] else []
                if not names or names == [""]:
                    raise Violation(f"host {nm}: nothing is listed as defining {v}")
                if who.get(v) is not None and names != who[v]:
                    raise Violation(f"host {nm}: {v} is listed as defined by {names}, it was by {who[v]}")
        if case["odd"] and not url and (inv["all"]["mod"] or True) and "odd_var" not in rows:
            raise Violation(f"host {nm}: the variable odd_var ({case['odd']}) is not listed")
        if case["odd"] in ODDREPR and not url and rows["odd_var"][3].rstrip() != ODDREPR[case["odd"]]:
            raise Violation(f"host {nm}: odd_var is listed as {rows['odd_var'][3]!r}, its value is {ODDREPR[case['odd']]}")
        for k, val in (("name", nm), ("url", invgen.host_url(h))):
            if k not in rows or rows[k][3].rstrip() != repr(val):
                raise Violation(f"host {nm}: {k} is listed as {rows.get(k)}, it is {val!r}")
    return Outcome(checked > 0, ["ok"] + (["url"] if url else []) + ([f"odd"] if case["odd"] and not url else []) + (["color"] if case["color"] else []))


CHECK = Check(id="C25", strategy=strategy, run=run, quick=3000, thorough=60000, batch=250,
              rule="the inventory is broken in one of ten ways, or at least one variable of one host was compared with its listed value",
              assumptions=["inventory-wide variables are constants", "the summary keeps its present layout of groups, hosts and one table per host"])
