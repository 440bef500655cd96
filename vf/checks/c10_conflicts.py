"""C10: ambiguous redefinitions are detected, unambiguous ones accepted."""
import copy
import os

from hypothesis import strategies as st

from vf import invgen
from vf.core import Check, Outcome, Violation
from vf.hostenv import wipe


def focused():
    """Everything happens to one list: each group assigns it or appends to it (or does nothing)."""
    prog = st.sampled_from([[["set", "pkgs", "l"]], [["append", "pkgs", "p"]], [["append", "pkgs", "p"]], [["append", "pkgs", "p"]], []])
    return st.fixed_dictionaries({"inv": invgen.inventories(prog=prog, min_groups=3, max_groups=6, max_hosts=1, mods=[True], host_vars=False), "clean": st.just(False), "many": st.just(True), "focus": st.just(True), "flavour": st.sampled_from(["list", "set", "nested", "dict"]), "equal": st.sampled_from([False, False, True])})


FLAVOUR = {"set": {"set": "setof", "append": "add"}, "nested": {"set": "nest", "append": "nappend"}, "dict": {"append": "put"}}


def flavoured(prog, flavour):
    """The same program with another kind of container."""
    out = []
    for s in prog:
        op = FLAVOUR.get(flavour, {}).get(s[0], s[0])
        arg = [s[2]]
        if op == "set" and flavour == "dict":
            arg = [{"t": s[2][0]}]
        elif op == "setof":
            arg = [list(s[2])]
        elif op == "nest":
            arg = [s[2][0]]
        elif op == "put":
            arg = [s[2], 1]
        out.append([op, s[1]] + arg)
    return out


def strategy():
    return st.one_of(general(), focused())


def general():
    v = st.sampled_from(["v1", "v2", "pkgs"])
    prog = st.lists(st.one_of(st.tuples(st.just("set"), v, st.sampled_from(["s", "s", "l", "d", "n"])), st.tuples(st.sampled_from(["obj", "nest"]), v, st.just("o")), st.tuples(st.just("nappend"), v, st.just("q")), st.tuples(st.just("append"), v, st.sampled_from(["p", "q"])), st.tuples(st.just("put"), v, st.sampled_from(["k", "m"]), st.just(1))).map(list), min_size=1, max_size=2)
    return st.fixed_dictionaries({"inv": invgen.inventories(prog=prog, min_groups=2, max_groups=7, max_hosts=2, mods=[True]), "clean": st.booleans(), "equal": st.sampled_from([False, False, True]), "many": st.sampled_from([True, True, False])})


def distinct(inv, equal=False):
    """
    Gives every assignment its own value, so that every reassignment is a change.
    With equal set all assigned containers are equal (but still objects of their own).
    """
    seen_none = set()
    for g in inv["groups"] + [inv["all"]]:
        for i, s in enumerate(g["prog"]):
            if s[0] == "set":
                kind, tag = s[2], f"{g['name']}-{i}" if not equal or s[2] not in "ld" else "same"
                if kind == "n":
                    if s[1] in seen_none or inv["inv_vars"].get(s[1], 0) is None or any(h["vars"].get(s[1], 0) is None for h in inv["hosts"]):
                        kind = "s"
                    else:
                        seen_none.add(s[1])
                s[2] = {"s": tag, "n": None, "l": [tag], "d": {"t": tag}}[kind]
            elif s[0] in ("append", "nappend", "nest", "obj"):
                s[2] = f"{s[2]}-{g['name']}-{i}"
            elif s[0] == "put":
                s[3] = f"{g['name']}-{i}"
    for h in inv["hosts"]:
        for s in h["prog"]:
            if s[0] == "set":
                s[2] = "host"


def run(case, ctx):
    inv = invgen.clean(case["inv"])
    if case.get("focus"):
        inv["inv_vars"].pop("pkgs", None)
        for g in inv["groups"] + [inv["all"]]:
            g["prog"] = copy.deepcopy(g["prog"])
    distinct(inv, case.get("equal"))
    if case.get("focus"):
        for g in inv["groups"] + [inv["all"]]:
            g["prog"] = flavoured(g["prog"], case["flavour"])
    for h in inv["hosts"]:
        if case["many"]:
            h["groups"] = invgen.used(inv) if inv["explicit"] else h["groups"] + [g["name"] for g in inv["groups"]]
        if h["form"] == "str":
            h["form"] = "dict"
    norm, dropped = invgen.normalise(inv)
    if case["clean"]:
        inv, dropped = norm, False
    anc = invgen.ancestors(inv)
    amb = None
    active = {g["name"]: g for g in inv["groups"] + [inv["all"]] if g["mod"]}
    for h in inv["hosts"]:
        gs = [g for g in sorted(set(h["groups"]) | {"all"}) if g in active]
        sets = {g: {s[1] for s in active[g]["prog"] if s[0] in invgen.ASSIGN} for g in gs}
        for i, a in enumerate(gs):
            for b in gs[i + 1:]:
                if a not in anc[b] and b not in anc[a] and sets[a] & sets[b]:
                    amb = (invgen.host_name(h), a, b, sorted(sets[a] & sets[b]))
        if case.get("focus"):
            # a group below an assignment certainly modifies the list: an unrelated assignment is then ambiguous
            mods = {g for g in gs if active[g]["prog"] and active[g]["prog"][0][0] in invgen.MODIFY and any(sets.get(a) for a in anc[g])}
            for a in gs:
                for b in mods:
                    if sets[a] and a != b and a not in anc[b] and b not in anc[a]:
                        amb = (invgen.host_name(h), a, b, ["pkgs"])
    root = os.path.join(ctx, "inv")
    os.makedirs(root, exist_ok=True)
    wipe(root)
    res, val, _ = invgen.load(invgen.write(inv, root), inv["path"])
    redefs = any(sum(any(s[0] in invgen.ASSIGN and s[1] == v for s in g["prog"]) for g in active.values()) > 1 for v in ("v1", "v2", "pkgs"))
    if amb:
        if res == "ok":
            raise Violation(f"host {amb[0]}: the groups {amb[1]} and {amb[2]} both define or modify {amb[3]} and neither depends on the other, but the inventory was accepted")
        return Outcome(True, ["ambiguous"])
    if not dropped:
        if res != "ok":
            raise Violation(f"every redefinition is by a group that depends on all earlier definers, but the inventory was rejected: {val}")
        return Outcome(redefs, ["unambiguous"] + (["redefined"] if redefs else []))
    return Outcome(False, ["unspecified"])


CHECK = Check(
    id="C10", strategy=strategy, run=run, quick=6000, thorough=120000, batch=250, case_limit=60,
    rule="generated dependency graphs of up to 7 groups with definitions, redefinitions and in-place modifications of three variables, inventory-wide and declared host variables; ambiguity is decided by reachability; non-trivial: two unrelated groups of "
         "a host define the same variable (or one modifies what the other defines), or an unambiguous inventory in which at least two groups define the same variable",
)
