"""C09: variables follow precedence and stay per host."""
import copy
import os

from hypothesis import strategies as st

from vf import invgen
from vf.core import Check, Outcome, Violation
from vf.hostenv import wipe


def strategy():
    # the predefined variable may be redefined like any other
    return st.builds(lambda inv, m: {**inv, "managed": m}, invgen.inventories(min_groups=1), st.sampled_from([None, None, None, None, "inventory", "vars", "all", "both"]))


def same(a, b):
    # values may contain themselves, so that they cannot be compared directly
    return type(a) is type(b) and repr(a) == repr(b) and ("..." in repr(a) or a == b)


def reference(inv, h, order):
    ns = {}
    ns.update(copy.deepcopy(inv["inv_vars"]))
    ns.update(copy.deepcopy(h["vars"]) if "vars" in h else {})
    progs = {g["name"]: g["prog"] for g in inv["groups"] + [inv["all"]]}
    for g in order:
        invgen.execute(progs[g], ns)
    if h["mod"]:
        invgen.execute(h["prog"], ns)
    return ns


def run(case, ctx):
    inv, _ = invgen.normalise(invgen.clean(case))
    m = case.get("managed")
    if m in ("inventory", "both"):
        inv["inv_vars"] = {**inv["inv_vars"], "fora_managed": "by the inventory"}
    if m in ("vars", "both"):
        inv["hosts"][0]["vars"] = {**inv["hosts"][0]["vars"], "fora_managed": "by the declaration"}
    if m == "all":
        inv["all"]["prog"] = [*inv["all"]["prog"], ["set", "fora_managed", "by all"]]
    for h in inv["hosts"]:
        if h["form"] == "str" and (h["groups"] or h["vars"]):
            h["form"] = "dict"
    root = os.path.join(ctx, "inv")
    os.makedirs(root, exist_ok=True)
    wipe(root)
    path = invgen.write(inv, root)
    res, val, events = invgen.load(path, inv["path"])
    if res != "ok":
        raise Violation(f"an inventory without ambiguous definitions was rejected: {val}")
    chunks = invgen.split_events(inv, events)
    nt = False
    for h, (nm, order) in zip(inv["hosts"], chunks):
        host = val.loaded_hosts[nm]
        ns = reference(inv, h, order)
        for v in invgen.ALL_VARS:
            have = hasattr(host, v)
            if have != (v in ns):
                raise Violation(f"host {nm}: variable {v} is {'defined' if have else 'undefined'}, the modules leave it {'defined' if v in ns else 'undefined'} (groups {order})")
            if have and not same(getattr(host, v), ns[v]):
                raise Violation(f"host {nm}: {v} = {getattr(host, v)!r}, expected {ns[v]!r} (groups {order})")
            if have and not same(vars(host)[v], ns[v]):
                raise Violation(f"host {nm}: vars(host)[{v!r}] = {vars(host)[v]!r}, expected {ns[v]!r}")
        extra = set(host.exported_variables()) - set(ns) - {"fora_managed", "host"}
        if extra:
            raise Violation(f"host {nm}: unexpected variables {sorted(extra)}")
        for v in invgen.ALL_VARS:
            if not (h["mod"] and ["private", v] in h["prog"]) and (hasattr(host, "_" + v) or "_" + v in vars(host)):
                raise Violation(f"host {nm}: private variable _{v} of a group leaked to the host")
        want = ns.get("fora_managed", "This file is managed by fora.")
        if host.fora_managed != want:
            raise Violation(f"host {nm}: fora_managed = {host.fora_managed!r}, expected {want!r}")
        if host.name != nm or host.url != invgen.host_url(h) or set(host.groups) != set(h["groups"]) | {"all"} or len(host.groups) != len(set(host.groups)):
            raise Violation(f"host {nm}: name {host.name!r}, url {host.url!r}, groups {host.groups!r} for the declaration {h}")
        touched = [v for v in ns if sum(any(s[1] == v and s[0] != "private" for s in p) for p in [g["prog"] for g in inv["groups"] + [inv["all"]] if g["name"] in order] + ([h["prog"]] if h["mod"] else [])) > 1]
        nt = nt or bool(touched)
    return Outcome(nt, (["multi-host"] if len(chunks) > 1 else []) + (["overridden"] if nt else []))


CHECK = Check(
    id="C09", strategy=strategy, run=run, quick=5000, thorough=100000, batch=250, case_limit=60,
    rule="generated inventories whose inventory, group and host modules define, override, extend, delete and derive six variables (ambiguous redefinitions removed); the expected values come from a reference interpreter running the same statements in the "
         "observed order; non-trivial: some variable of some host is touched by at least two of its modules",
    assumptions=["inventory-wide variables are constants (they are shared between hosts by design)"],
)
