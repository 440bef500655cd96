"""C18: package and service operations on a simulated host."""
import copy
import os

from hypothesis import strategies as st

from vf import env, gens
from vf.core import Check, Outcome, Violation
from vf.hostenv import HostEnv
from vf.simhost import make_sim

PKGS = ["vim", "vim-tiny", "g++", "lib.x", "a", "zsh", "-S", "app/editor", "nano"]
STATES = ["available", "installed", "config", "held"]
UNITS = ["sshd", "sshd.service", "getty@tty1.service", "x.timer", "a-b", "-dash"]
ACTIVE = ["active", "inactive", "failed", "activating", "deactivating", "reloading"]
OPTS = {"emerge": "--quiet", "pacman": "--needed", "apt-get": "--quiet"}
FILES = ["enabled", "disabled", "enabled-runtime", "static", "masked"]


def strategy():
    pkop = st.fixed_dictionaries({"k": st.just("package"), "packages": st.lists(st.sampled_from(PKGS), max_size=5), "present": st.booleans(), "via": st.sampled_from(["system", "system", "direct"]), "unknown": st.sampled_from([False] * 9 + [True]), "oneshot": st.booleans(), "opts": st.booleans(), "check": st.sampled_from([True, True, False]), "terse": st.booleans(), "form": st.sampled_from(["list"] * 14 + ["tuple", "set", "str"])})
    svop = st.fixed_dictionaries({"k": st.just("service"), "service": st.sampled_from(UNITS), "state": st.sampled_from([None, "started", "started", "stopped", "stopped", "restarted", "reloaded", "started", "stopped", "bogus"]), "enabled": st.sampled_from([None, True, False]), "user_mode": st.booleans(),
                                  "via": st.sampled_from(["system", "direct"]), "check": st.sampled_from([True, True, False]), "terse": st.booleans()})
    rl = st.fixed_dictionaries({"k": st.just("reload"), "user_mode": st.booleans(), "terse": st.booleans()})
    some = st.fixed_dictionaries({"active": st.sampled_from(ACTIVE), "file": st.sampled_from(FILES + FILES[:3])})
    unit = st.one_of(some, some, some, st.none())
    return st.fixed_dictionaries({"pm": st.sampled_from(["pacman", "apt-get", "emerge", "pacman", "apt-get", "emerge", None]), "sm": st.sampled_from(["systemctl"] * 6 + [None]), "pk": st.fixed_dictionaries({p: st.sampled_from(STATES) for p in PKGS}),
                                  "system": st.fixed_dictionaries({u: unit for u in UNITS if u != "sshd"}), "user": st.fixed_dictionaries({u: unit for u in UNITS if u != "sshd"}), "ops": st.lists(st.one_of(pkop, svop, svop, svop, svop, rl), min_size=1, max_size=5)})


class Ctx:
    def __init__(self, scratch):
        env.reset_globals()
        self.he = HostEnv(scratch, connector=make_sim())
        self.he.connector.shim = os.path.join(scratch, "shim")
        os.makedirs(self.he.connector.shim, exist_ok=True)

    def close(self):
        self.he.close()


def full(u):
    return u if u.rsplit(".", 1)[-1] in ("service", "timer") else u + ".service"


def setup(case, con):
    pk = dict(case["pk"])
    if case["pm"] != "apt-get":
        pk = {k: {"config": "available", "held": "installed"}.get(v, v) for k, v in pk.items()}
    units = {m: {full(u): dict(s) for u, s in case[m].items() if s is not None} for m in ("system", "user")}
    con.reset(pk=pk, units=units, pm=case["pm"], sm=case["sm"])


def run(case, ctx):
    con = ctx.he.connector
    setup(case, con)
    labels = set()

    def body():
        for o in case["ops"]:
            {"package": package_op, "service": service_op, "reload": reload_op}[o["k"]](o, con, labels)
    ctx.he.in_script(body)
    return Outcome(bool(labels - {"infeasible"}), sorted(labels))


def attempt(fn, check=True):
    from fora.operations.api import OperationError
    try:
        r = fn()
    except Violation:
        raise
    except Exception as e:
        if not check and isinstance(e, OperationError):
            raise Violation(f"raised {e!r} although checking is off")
        return None, e
    if not r.success:
        if check:
            raise Violation("returned an unsuccessful result although checking is on")
        if r.changed:
            raise Violation("returned an unsuccessful result that claims to have changed something")
        return None, r
    return r, None


def no_manager(desc, e, check):
    """ A host without a manager makes the operation fail like any other failure: an error, or an unsuccessful result if checking is off. """
    from fora.operations.api import OperationError, OperationResult
    if not isinstance(e, OperationError if check else OperationResult):
        raise Violation(f"{desc}: ends with {e!r} on a host without manager, check={check}")
    if not check and not e.failure_message:
        raise Violation(f"{desc}: fails without a message on a host without manager")


def given(o, **kw):
    """ Terse calls leave out the arguments that have their documented default value. """
    defaults = {"present": True, "check": True, "user_mode": False}
    return {**({"name": o["name"]} if o.get("name") else {}), **{k: v for k, v in kw.items() if not (o.get("terse") and v == defaults[k])}}


def call_package(o, con):
    from fora.operations import apt, pacman, portage, system
    packages = list(o["packages"]) + (["no-such-pkg"] if o["unknown"] else [])
    if o.get("form", "list") != "list":
        packages = {"tuple": tuple, "set": set, "str": lambda p: p[0] if p else ""}[o["form"]](packages)
    mod = {"pacman": pacman, "apt-get": apt, "emerge": portage}.get(con.pm)
    kw = given(o, present=o["present"], check=o["check"])

    def call():
        if o["via"] == "system" or mod is None:
            return system.package(packages=copy.copy(packages), **kw)
        extra = dict(kw)
        if o["oneshot"] and con.pm == "emerge":
            extra["oneshot"] = True
        if o["opts"]:
            extra["opts"] = [OPTS[con.pm]]
        return mod.package(packages=copy.copy(packages), **extra)
    return packages, call


def package_op(o, con, labels):
    packages, call = call_package(o, con)
    before = con.state()
    con.mods.clear()
    con.puts.clear()
    desc = f"package({packages}, present={o['present']}) on {con.pm} with {({p: before['pk'].get(p) for p in packages})}"
    r, e = attempt(call, o["check"])
    after = con.state()
    if con.pm is None:
        if r is not None:
            raise Violation(f"{desc}: reported success on a host without package manager")
        if before != after:
            raise Violation(f"{desc}: failed but changed the host")
        no_manager(desc, e, o["check"])
        labels.add("no-manager")
        return
    if o.get("form", "list") != "list":
        # anything but a list of packages is refused
        if r is not None or before != after:
            raise Violation(f"{desc}: accepted packages that are not a list, or changed the host")
        labels.add("not-a-list")
        return
    installed = {p for p, s in before["pk"].items() if s in ("installed", "held")}
    want = installed | set(packages) if o["present"] else installed - set(packages)
    if o["unknown"] and (o["present"] or e is not None):
        if e is None:
            raise Violation(f"{desc}: reported success although a package does not exist")
        labels.add("infeasible")
        return
    if e is not None:
        raise Violation(f"{desc}: failed: {e!r}")
    got = {p for p, s in after["pk"].items() if s in ("installed", "held")}
    if got != want:
        raise Violation(f"{desc}: afterwards {sorted(got)} are installed, expected {sorted(want)}")
    touched = [m[1] for m in con.mods]
    if sorted(touched) != sorted(want ^ installed):
        raise Violation(f"{desc}: installed or removed {touched}, necessary were {sorted(want ^ installed)}")
    if before["units"] != after["units"] or before["acc"] != after["acc"]:
        raise Violation(f"{desc}: changed something else")
    if r.changed != (want != installed):
        raise Violation(f"{desc}: reported changed={r.changed}, but the host {'differed' if want != installed else 'was already in that state'}")
    single = sorted(p for l in after["log"][len(before["log"]):] if l.startswith("oneshot:") for p in l[8:].split(","))
    if con.pm == "emerge" and single != (sorted(want - installed) if o["oneshot"] and o["via"] == "direct" and o["present"] else []):
        raise Violation(f"{desc}: oneshot was {'' if o['oneshot'] and o['via'] == 'direct' else 'not '}requested, but {single} were kept out of the world file")
    if o["opts"] and o["via"] == "direct" and not all(OPTS[con.pm] in argv for p, argv in con.puts):
        raise Violation(f"{desc}: the given option {OPTS[con.pm]} was not passed: {con.puts}")
    for which, have in (("initial", installed), ("final", want)):
        rep = getattr(r, which).get("installed")
        if rep is not None and sorted(rep) != sorted(have & set(packages)):
            raise Violation(f"{desc}: reported {which} packages {rep}, in truth {sorted(have & set(packages))}")
    labels.add("pk-changed" if r.changed else "pk-unchanged")
    con.mods.clear()
    r, e = attempt(call, o["check"])
    if e is not None or r.changed or con.mods:
        raise Violation(f"{desc}: repeating it {e!r} changed={getattr(r, 'changed', None)} ran {con.mods}")


def call_service(o):
    from fora.operations import system, systemd
    via = o["via"]
    um = o["user_mode"] and via == "direct"
    kw = {k: o[k] for k in ("state", "enabled") if o[k] is not None}

    def call():
        if via == "system":
            return system.service(o["service"], **given(o, check=o["check"]), **kw)
        return systemd.service(o["service"], **given(o, user_mode=um, check=o["check"]), **kw)
    return um, kw, call


def service_op(o, con, labels):
    um, kw, call = call_service(o)
    mgr = "user" if um else "system"
    before = con.state()
    con.mods.clear()
    un = full(o["service"])
    u = before["units"][mgr].get(un)
    desc = f"service({o['service']!r}, {kw}, user_mode={um}) on {u}"
    r, e = attempt(call, o["check"])
    after = con.state()
    ok = lambda: before == after
    if con.sm is None:
        if r is not None or not ok():
            raise Violation(f"{desc}: reported success or changed the host although there is no service manager")
        if o["via"] == "system":
            no_manager(desc, e, o["check"])
        labels.add("no-manager")
        return
    running = u is not None and u["active"] in ("active", "activating", "reloading")
    enabled = u is not None and u["file"] == "enabled"
    need_state = o["state"] is not None and (o["state"] in ("restarted", "reloaded") or (o["state"] == "started") != running)
    need_en = o["enabled"] is not None and o["enabled"] != enabled
    feasible = o["state"] != "bogus"
    if u is None and (need_state or need_en):
        feasible = False
    if u is not None:
        if need_en and o["enabled"] and u["file"] not in ("enabled", "disabled", "enabled-runtime"):
            # a masked unit cannot be enabled; a static one has nothing to enable
            if u["file"] == "static":
                return
            feasible = False
        if need_state and o["state"] in ("started", "restarted") and u["file"] == "masked":
            feasible = False
        if o["state"] == "reloaded" and u["active"] not in ("active", "reloading"):
            feasible = False
    if not feasible:
        if r is not None:
            raise Violation(f"{desc}: reported success for a request the host cannot fulfil")
        labels.add("infeasible")
        return
    if e is not None:
        raise Violation(f"{desc}: failed: {e!r}")
    a = after["units"][mgr].get(un)
    if u is None:
        if not ok():
            raise Violation(f"{desc}: changed the host")
    else:
        if o["state"] in ("started", "restarted", "reloaded") and a["active"] not in ("active", "activating", "reloading"):
            raise Violation(f"{desc}: the unit is not running afterwards: {a}")
        if o["state"] == "stopped" and a["active"] in ("active", "activating", "reloading"):
            raise Violation(f"{desc}: the unit is still running")
        if o["state"] is None and a["active"] != u["active"]:
            raise Violation(f"{desc}: changed the running state to {a['active']}")
        if o["enabled"] is not None and (a["file"] == "enabled") != o["enabled"]:
            raise Violation(f"{desc}: the unit file state is {a['file']}")
        if o["enabled"] is None and a["file"] != u["file"]:
            raise Violation(f"{desc}: changed the unit file state to {a['file']}")
        if o["state"] == "restarted" and not any(m[1] in ("restart", "reload-or-restart") or m[1] == "stop" for m in con.mods if len(m) == 3 and m[2] == un):
            raise Violation(f"{desc}: did not restart the unit: {con.mods}")
        if o["state"] == "reloaded" and not any(m[1] == "reload" for m in con.mods if len(m) == 3 and m[2] == un):
            raise Violation(f"{desc}: did not reload the unit: {con.mods}")
        if o["state"] in ("started", "stopped") and any(m[1] in ("restart", "reload") for m in con.mods):
            raise Violation(f"{desc}: restarted or reloaded the unit: {con.mods}")
    for m in ("system", "user"):
        for k in set(before["units"][m]) | set(after["units"][m]):
            if (m, k) != (mgr, un) and before["units"][m].get(k) != after["units"][m].get(k):
                raise Violation(f"{desc}: changed the {m} unit {k}")
    if before["pk"] != after["pk"] or before["reloads"] != after["reloads"]:
        raise Violation(f"{desc}: changed something else")
    need = need_state or need_en
    if r.changed != need:
        raise Violation(f"{desc}: reported changed={r.changed}")
    if not need and con.mods:
        raise Violation(f"{desc}: nothing to do, yet it ran {con.mods}")
    labels.add("sv-changed" if need else "sv-unchanged")
    if um:
        labels.add("user-mode")
    ini = r.initial
    if "enabled" in ini and ini["enabled"] != enabled:
        raise Violation(f"{desc}: reported initial enabled={ini['enabled']}")
    if "state" in ini and (ini["state"] == "started") != running:
        raise Violation(f"{desc}: reported initial state={ini['state']}")
    con.mods.clear()
    if o["state"] in ("restarted", "reloaded"):
        return
    r, e = attempt(call, o["check"])
    if e is not None or r.changed or con.mods:
        raise Violation(f"{desc}: repeating it {e!r} changed={getattr(r, 'changed', None)} ran {con.mods}")


def reload_op(o, con, labels):
    from fora.operations import systemd
    before = con.state()
    mgr = "user" if o["user_mode"] else "system"
    r, e = attempt(lambda: systemd.daemon_reload(**given(o, user_mode=o["user_mode"])))
    after = con.state()
    if con.sm is None:
        if e is None:
            raise Violation("daemon_reload reported success without service manager")
        return
    if e is not None or not r.changed:
        raise Violation(f"daemon_reload: {e!r} changed={getattr(r, 'changed', None)}")
    before["reloads"][mgr] += 1
    if before != after:
        raise Violation(f"daemon_reload(user_mode={o['user_mode']}) did not reload exactly the {mgr} manager: {after['reloads']}")
    labels.add("reloaded")


CHECK = Check(
    id="C18", strategy=strategy, run=run, quick=5000, thorough=80000, batch=200, context=Ctx,
    rule="generated hosts (one of pacman, apt-get, emerge or none; systemctl or none; packages installed, removed, held; units of the system and user manager in all active and unit file states) and sequences of package, service and daemon_reload operations, via the "
         "manager's module or fora.operations.system; host state compared with a model after each operation and after its repetition; non-trivial: an operation converged, was correctly a no-op, or the missing manager was reported",
)
