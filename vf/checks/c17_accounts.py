"""C17: user and group operations on a simulated account host."""
import copy
import os

from hypothesis import strategies as st

from vf import env
from vf.core import Check, Outcome, Violation
from vf.hostenv import HostEnv
from vf.simhost import base_accounts, make_sim

COMMENTS = ["", "c", "Some One", "-x", "é", "a,b,,", "None"]
HOMES = ["/home/u", "/dev/null", "/", "/a b", "/srv/-x"]
SHELLS = ["/bin/sh", "/sbin/nologin", "/bin/bash", ""]
HASHES = ["!", "!!", "", "*", "$6$abc$def", "x", "!x"]
GN = ["video", "audio", "users", "wheel", "u", "u2", "27", "18", "100", "root"]


def strategy():
    name = st.sampled_from(["u", "u2", "svc-x", "_s", "Up.per"])
    uid = st.sampled_from([0, 1, 500, 1500, 2000, 2001, 65534, 4294967294])
    pre_user = st.fixed_dictionaries({"name": name, "uid": st.sampled_from([1, 500, 2000, 2001, 3000]), "gid": st.sampled_from([100, 27, 2000, 7777]), "own_group": st.booleans(), "groups": st.lists(st.sampled_from(["video", "audio", "users", "wheel", "zeta"]), unique=True, max_size=3),
                                      "gecos": st.sampled_from(COMMENTS), "home": st.sampled_from(HOMES), "shell": st.sampled_from(SHELLS), "hash": st.sampled_from(HASHES + [None])})
    pre_group = st.fixed_dictionaries({"name": st.sampled_from(["u", "u2", "zeta", "alpha"]), "gid": st.sampled_from([300, 301, 2000, 2001])})

    def opt(s):
        return st.one_of(st.none(), s)
    uop = st.fixed_dictionaries({"k": st.just("user"), "user": name, "present": st.sampled_from([True] * 5 + [False]), "uid": opt(uid), "group": opt(st.sampled_from(GN + ["nope", "9"])), "groups": opt(st.lists(st.sampled_from(GN + ["zeta", "alpha"]), max_size=4)),
                                 "append_groups": st.booleans(), "system": st.booleans(), "password_hash": opt(st.sampled_from(HASHES)), "home": opt(st.sampled_from(HOMES)), "shell": opt(st.sampled_from(SHELLS)), "comment": opt(st.sampled_from(COMMENTS))})
    gop = st.fixed_dictionaries({"k": st.just("group"), "group": st.sampled_from(["u", "u2", "zeta", "alpha", "video", "newg"]), "present": st.sampled_from([True, True, False]), "gid": opt(st.sampled_from([0, 27, 300, 301, 4000, 99])), "system": st.booleans()})
    return st.fixed_dictionaries({"users": st.lists(pre_user, max_size=3), "groups": st.lists(pre_group, max_size=3), "ops": st.lists(st.one_of(uop, uop, gop), min_size=1, max_size=5)})


class Ctx:
    def __init__(self, scratch):
        env.reset_globals()
        self.he = HostEnv(scratch, connector=make_sim())
        self.he.connector.shim = os.path.join(scratch, "shim")
        os.makedirs(self.he.connector.shim, exist_ok=True)

    def close(self):
        self.he.close()


def setup(case):
    acc = base_accounts()
    for g in case["groups"]:
        if all(x["name"] != g["name"] and x["gid"] != g["gid"] for x in acc["groups"]):
            acc["groups"].insert(0, {"name": g["name"], "gid": g["gid"], "members": []})
    for u in case["users"]:
        if any(x["name"] == u["name"] or x["uid"] == u["uid"] for x in acc["users"]):
            continue
        gid = u["gid"]
        if u["own_group"] and all(x["name"] != u["name"] and x["gid"] != u["uid"] for x in acc["groups"]):
            acc["groups"].append({"name": u["name"], "gid": u["uid"], "members": []})
            gid = u["uid"]
        acc["users"].append({"name": u["name"], "uid": u["uid"], "gid": gid, "gecos": u["gecos"], "home": u["home"], "shell": u["shell"], "hash": u["hash"]})
        for g in acc["groups"]:
            if g["name"] in u["groups"]:
                g["members"].append(u["name"])
    return acc


def run(case, ctx):
    con = ctx.he.connector
    con.reset(setup(case))
    labels = set()

    def body():
        for o in case["ops"]:
            (user_op if o["k"] == "user" else group_op)(o, con, labels)
    ctx.he.in_script(body)
    return Outcome(bool(labels & {"created", "modified", "deleted", "unchanged"}), sorted(labels))


def gfind(state, g):
    """Group entry name for a name or gid."""
    if g in state["groups"]:
        return g
    return next((n for n, e in state["groups"].items() if str(e["gid"]) == g), None)


def attempt(fn):
    try:
        r = fn()
    except Violation:
        raise
    except Exception as e:
        return None, e
    if not r.success:
        raise Violation("returned an unsuccessful result although checking is on")
    return r, None


def call_user(o):
    from fora.operations import system
    kw = {k: v for k, v in o.items() if k not in ("k", "user") and v is not None and not (k == "present" and v)}
    return lambda: system.user(o["user"], **copy.deepcopy(kw))


def call_group(o):
    from fora.operations import system
    kw = {k: v for k, v in o.items() if k not in ("k", "group") and v is not None and not (k == "present" and v)}
    return lambda: system.group(o["group"], **kw)


def user_op(o, con, labels):
    n = o["user"]
    before = con.canon()
    desc = f"user({n!r}, {({k: v for k, v in o.items() if k not in ('k', 'user') and v is not None})}) on {before['users'].get(n)} in groups {[g for g, e in before['groups'].items() if n in e['members']]}"
    cur = before["users"].get(n)
    want, feasible = expected_user(o, before)
    con.calls.clear()
    con.mods.clear()
    r, e = attempt(call_user(o))
    after = con.canon()
    if not feasible:
        if e is None:
            raise Violation(f"{desc}: reported success for a request the host cannot fulfil")
        if {k: v for k, v in before["users"].items() if k != n} != {k: v for k, v in after["users"].items() if k != n}:
            raise Violation(f"{desc}: modified another account")
        labels.add("infeasible")
        return
    if e is not None:
        raise Violation(f"{desc}: failed: {e!r}")
    check_user(o, n, before, after, want, desc)
    differs = before != after
    if r.changed != differs:
        raise Violation(f"{desc}: reported changed={r.changed}, but the account database {'changed' if differs else 'did not change'}")
    if not differs and con.mods:
        raise Violation(f"{desc}: nothing had to change, yet it ran {con.mods}")
    if any(m[0] in ("mkhome", "rmhome", "movehome") for m in con.mods):
        raise Violation(f"{desc}: touched the home directory: {con.mods}")
    bad = [m for m in con.mods if m[1] != n]
    if bad:
        raise Violation(f"{desc}: modified other accounts: {bad}")
    labels.add("unchanged" if not differs else "created" if cur is None else "modified" if want else "deleted")
    # truthful report
    if r.initial.get("exists") != (cur is not None) or r.final.get("exists") != (want is not None):
        raise Violation(f"{desc}: reported exists {r.initial.get('exists')} -> {r.final.get('exists')}")
    for which, state in (("initial", before), ("final", after)):
        rep, u = getattr(r, which), state["users"].get(n)
        if u is None:
            continue
        truth = {"uid": u["uid"], "group": next((g for g, x in state["groups"].items() if x["gid"] == u["gid"]), str(u["gid"])), "groups": sorted(g for g, x in state["groups"].items() if n in x["members"]), "comment": u["gecos"], "home": u["home"], "shell": u["shell"], "password_hash": u["hash"]}
        for k, v in truth.items():
            # None on creation means "chosen by the host"
            if k in rep and rep[k] != v and not (rep[k] is None and cur is None):
                raise Violation(f"{desc}: reported {which} {k}={rep[k]!r}, in truth {v!r}")
    con.mods.clear()
    r, e = attempt(call_user(o))
    if e is not None or r.changed or con.mods or con.canon() != after:
        raise Violation(f"{desc}: repeating it {'failed: ' + repr(e) if e else 'reported changed=%s and ran %s' % (r.changed, con.mods)}")


def expected_user(o, before):
    """(dict of wanted attributes or None for absent, feasible)"""
    n, cur = o["user"], before["users"].get(o["user"])
    if not o["present"]:
        return None, True
    want = {}
    feasible = True
    if o["uid"] is not None:
        want["uid"] = o["uid"]
        if any(u["uid"] == o["uid"] for k, u in before["users"].items() if k != n):
            feasible = False
    if o["group"] is not None:
        g = gfind(before, o["group"])
        if g is None:
            feasible = False
        else:
            want["gid"] = before["groups"][g]["gid"]
    elif cur is None and n in before["groups"]:
        feasible = False       # useradd refuses to create a user group that exists
    if o["groups"] is not None:
        gs = [gfind(before, g) for g in o["groups"]]
        if None in gs:
            feasible = False
        else:
            have = {g for g, e in before["groups"].items() if n in e["members"]}
            want["groups"] = set(gs) | (have if o["append_groups"] else set())
    for arg, key in (("comment", "gecos"), ("home", "home"), ("shell", "shell"), ("password_hash", "hash")):
        if o[arg] is not None:
            want[key] = o[arg]
    if cur is None:
        for k, v in (("home", "/dev/null"), ("shell", "/sbin/nologin"), ("gecos", ""), ("hash", "!")):
            want.setdefault(k, v)
        want.setdefault("groups", set())
    else:
        for k in ("uid", "gid", "gecos", "home", "shell", "hash"):
            want.setdefault(k, cur[k])
        want.setdefault("groups", {g for g, e in before["groups"].items() if n in e["members"]})
    return want, feasible


def check_user(o, n, before, after, want, desc):
    u = after["users"].get(n)
    if {k: v for k, v in before["users"].items() if k != n} != {k: v for k, v in after["users"].items() if k != n}:
        raise Violation(f"{desc}: modified another account")
    if want is None:
        if u is not None:
            raise Violation(f"{desc}: the user still exists")
    else:
        if u is None:
            raise Violation(f"{desc}: the user does not exist afterwards")
        groups = {g for g, e in after["groups"].items() if n in e["members"]}
        for k, v in want.items():
            got = groups if k == "groups" else u[k]
            if got != v:
                raise Violation(f"{desc}: {k} is {got!r} afterwards, expected {v!r}")
        if before["users"].get(n) is None:
            if "gid" not in want:
                g = after["groups"].get(n)
                if g is None or g["gid"] != u["gid"]:
                    raise Violation(f"{desc}: no group of the same name was created as primary group (gid {u['gid']})")
            if "uid" not in want and (u["uid"] < 1000) != bool(o["system"]):
                raise Violation(f"{desc}: created with uid {u['uid']}")
    # all other groups and other members of the groups
    for g in set(before["groups"]) | set(after["groups"]):
        if g == n:
            continue
        a, b = before["groups"].get(g), after["groups"].get(g)
        if a is None or b is None or a["gid"] != b["gid"] or [m for m in a["members"] if m != n] != [m for m in b["members"] if m != n]:
            raise Violation(f"{desc}: modified the group {g!r}: {a} -> {b}")


def group_op(o, con, labels):
    n = o["group"]
    before = con.canon()
    cur = before["groups"].get(n)
    desc = f"group({({k: v for k, v in o.items() if k != 'k' and v is not None})}) on {cur}"
    feasible = True
    if o["present"]:
        if o["gid"] is not None and any(e["gid"] == o["gid"] for g, e in before["groups"].items() if g != n):
            feasible = False
    elif cur is not None and any(u["gid"] == cur["gid"] for u in before["users"].values()):
        feasible = False
    con.mods.clear()
    r, e = attempt(call_group(o))
    after = con.canon()
    if not feasible:
        if e is None:
            raise Violation(f"{desc}: reported success for a request the host cannot fulfil")
        if after != before:
            raise Violation(f"{desc}: failed but modified the database")
        labels.add("infeasible")
        return
    if e is not None:
        raise Violation(f"{desc}: failed: {e!r}")
    g = after["groups"].get(n)
    if (g is not None) != o["present"]:
        raise Violation(f"{desc}: afterwards the group is {g}")
    if g is not None:
        want = o["gid"] if o["gid"] is not None else cur["gid"] if cur else None
        if want is not None and g["gid"] != want:
            raise Violation(f"{desc}: gid is {g['gid']}, expected {want}")
        if cur is None and o["gid"] is None and (g["gid"] < 1000) != bool(o["system"]):
            raise Violation(f"{desc}: created with gid {g['gid']}")
        if cur is not None and g["members"] != cur["members"]:
            raise Violation(f"{desc}: changed the members")
    for k in set(before["groups"]) | set(after["groups"]):
        if k != n and before["groups"].get(k) != after["groups"].get(k):
            raise Violation(f"{desc}: modified the group {k!r}")
    for k in set(before["users"]) | set(after["users"]):
        a, b = before["users"].get(k), after["users"].get(k)
        if a is None or b is None or {x: v for x, v in a.items() if x != "gid"} != {x: v for x, v in b.items() if x != "gid"}:
            raise Violation(f"{desc}: modified the user {k!r}")
    if r.changed != (before != after):
        raise Violation(f"{desc}: reported changed={r.changed}, the database {'changed' if before != after else 'did not change'}")
    if before == after and con.mods:
        raise Violation(f"{desc}: ran {con.mods} although nothing had to change")
    labels.add("unchanged" if before == after else "created" if cur is None else "modified" if g else "deleted")
    con.mods.clear()
    r, e = attempt(call_group(o))
    if e is not None or r.changed or con.mods or con.canon() != after:
        raise Violation(f"{desc}: repeating it {'failed: ' + repr(e) if e else 'reported changed=%s and ran %s' % (r.changed, con.mods)}")


CHECK = Check(
    id="C17", strategy=strategy, run=run, quick=6000, thorough=150000, batch=250, context=Ctx,
    rule="generated account databases (users with and without own groups, unnamed primary groups, empty fields, missing shadow entries) and sequences of user and group operations with any subset of arguments, including empty, zero and duplicate values, gid forms and "
         "infeasible requests, on a simulated host that executes the shadow tools' command lines; the database is compared with a reference model after each operation and after its repetition; non-trivial: an account was created, modified, deleted or correctly left alone",
)
