"""C08: group loading order, validation of inventories."""
import copy
import os

from hypothesis import strategies as st

from vf import invgen
from vf.core import Check, Outcome, Violation
from vf.hostenv import wipe

KINDS = ["dup-host", "dup-host-url", "dup-group", "dup-all", "unknown-host-group", "unknown-after", "unknown-before", "self-after", "self-before", "cycle", "cycle-all", "cycle-long", "missing-group-file", "missing-host-file", "no-name"]


def strategy():
    empty = st.just([])
    inv = invgen.inventories(prog=empty, host_vars=False, max_groups=8)
    return st.fixed_dictionaries({"inv": inv, "break": st.one_of(*[st.none()] * 2, st.tuples(st.sampled_from(KINDS), st.integers(0, 100), st.integers(0, 100)).map(list))})


def spoil(inv, kind, a, b):
    """Makes the inventory invalid; returns False when this kind does not apply."""
    hs, gs = inv["hosts"], inv["groups"]
    h = hs[a % len(hs)]
    ex = inv["explicit"]
    if kind == "dup-host":
        hs.insert(b % (len(hs) + 1), {**copy.deepcopy(h), "url": "other", "name": invgen.host_name(h), "form": "dict"})
    elif kind == "dup-host-url":
        hs.insert(b % (len(hs) + 1), {**copy.deepcopy(h), "url": "ssh://someone@" + invgen.host_name(h) + ":99", "name": None, "form": "dict"})
    elif kind == "dup-group":
        if not (ex and gs):
            return False
        inv["extra_groups"] = [{"name": gs[a % len(gs)]["name"], "form": ["str", "dict", "obj"][b % 3]}]
    elif kind == "dup-all":
        if not (ex and inv["all"]["declare"]):
            return False
        inv["extra_groups"] = [{"name": "all", "form": "str"}]
    elif kind == "unknown-host-group":
        if not ex:
            return False
        h["groups"].append("no-such-group")
    elif kind in ("unknown-after", "unknown-before"):
        if not (ex and gs):
            return False
        gs[a % len(gs)][kind.split("-")[1]].append("no-such-group")
    elif kind in ("self-after", "self-before"):
        if not (ex and gs):
            return False
        g = gs[a % len(gs)]
        g[kind.split("-")[1]].append(g["name"])
    elif kind == "cycle":
        if not (ex and len(gs) > 1):
            return False
        i, j = a % len(gs), b % len(gs)
        if i == j:
            j = (i + 1) % len(gs)
        x, y = gs[i], gs[j]
        x["after"].append(y["name"])
        if b % 2:
            x["before"].append(y["name"])
        else:
            y["after"].append(x["name"])
    elif kind == "cycle-long":
        if not (ex and len(gs) > 2):
            return False
        for i, g in enumerate(gs):
            (g["after"] if (a >> i) & 1 else gs[(i + 1) % len(gs)]["before"]).append(gs[(i + 1) % len(gs)]["name"] if (a >> i) & 1 else g["name"])
    elif kind == "cycle-all":
        if not (ex and gs):
            return False
        if b % 2 and inv["all"]["declare"]:
            inv["all"]["after"] = [gs[a % len(gs)]["name"]]
        else:
            gs[a % len(gs)]["before"].append("all")
    elif kind == "missing-group-file":
        if not (ex and gs):
            return False
        g = gs[a % len(gs)]
        g["file"] = "missing"
        h["groups"].append(g["name"])
    elif kind == "missing-host-file":
        h["file"] = "missing"
    elif kind == "no-name":
        h["url"], h["name"], h["form"] = None, None, "dict"
    return True


def run(case, ctx):
    inv = invgen.clean(case["inv"])
    broken = None
    if case["break"]:
        broken = case["break"][0]
        if not spoil(inv, *case["break"]):
            broken = None
    root = os.path.join(ctx, "inv")
    os.makedirs(root, exist_ok=True)
    wipe(root)
    path = invgen.write(inv, root)
    res, val, events = invgen.load(path, inv["path"])
    if broken:
        if res == "ok":
            raise Violation(f"an inventory with the defect {broken!r} was accepted")
        return Outcome(True, ["rejected-" + broken])
    if res != "ok":
        raise Violation(f"a valid inventory was rejected: {val}")
    chunks = invgen.split_events(inv, events)
    if list(val.loaded_hosts) != [invgen.host_name(h) for h in inv["hosts"]]:
        raise Violation(f"loaded hosts {list(val.loaded_hosts)}")
    anc = invgen.ancestors(inv)
    dep = any(len(a) > 1 for a in anc.values())
    return Outcome(any(len(n) > 1 for _, n in chunks), ["valid"] + (["deps"] if dep else []) + (["auto-groups"] if not inv["explicit"] else []))


CHECK = Check(
    id="C08", strategy=strategy, run=run, quick=6000, thorough=100000, batch=250, case_limit=60,
    rule="generated inventories of up to 8 groups with arbitrary acyclic after/before declarations in all declaration forms, orders and file layouts, 1-5 hosts; a third of them get one of 15 kinds of defect; the modules themselves record the order in "
         "which they are executed; non-trivial: an invalid inventory, or a host with at least two group modules",
)
