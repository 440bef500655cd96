"""C14: a failed step is never reported as success, and re-running converges."""
from hypothesis import strategies as st

from vf import worlds
from vf.checks.c13_dry import differ
from vf.core import Check, HarnessError, Outcome, Violation

KINDS = ["oserr", "exit", "io"]


def strategy():
    fault = st.tuples(st.integers(0, 30), st.sampled_from(KINDS), st.sampled_from(["before", "after"])).map(list)
    return st.fixed_dictionaries({"w": worlds.strategy(), "check": st.sampled_from([True, True, False]), "all": st.sampled_from([False, True]), "kind": st.sampled_from(KINDS), "when": st.sampled_from(["before", "after"]),
                                  "faults": st.lists(st.lists(fault, min_size=1, max_size=2), min_size=1, max_size=3), "diff": st.booleans()})


def run(case, ctx):
    w = worlds.make(case["w"], ctx)
    what = w.describe()
    labels = [w.name]
    w.reset()
    start = w.state(times=False)
    _, _, probes = w.perform(dry=True, diff=case["diff"])
    kind, r, reqs = w.perform(diff=case["diff"])
    if kind != "ok":
        return Outcome(False, labels + ["infeasible"])
    goal = w.state(times=False)
    ck, cr, _ = w.perform()
    settles = ck == "ok" and not cr.changed         # some requests always act (restarts, enabling a static unit, ...)
    # requests of the real run that the dry run does not send are the ones that change something
    modifying = [q not in probes for q in reqs]
    if not any(modifying):
        labels.append("nothing-to-do")
    n = len(reqs)
    if n == 0:
        return Outcome(False, labels + ["no-request"])
    plans = [[[i, case["kind"], case["when"]]] for i in range(n)] if case["all"] else [[[i % n, k, t] for i, k, t in f] for f in case["faults"]]
    if w.name in ("git", "upload_dir") and len(plans) > 10:
        plans = plans[:4] + plans[-6:]
    hit = 0
    for plan in plans:
        w.reset()
        for idx, k, when in plan:
            fk, fr, freqs = w.perform(fault=(idx, k, when), diff=case["diff"], check=case["check"])
            if not w.fired:
                # the operation needed fewer requests this time
                if fk != "ok":
                    raise Violation(f"{what}: running it again failed: {fr!r}")
                continue
            hit += 1
            req = freqs[idx]
            desc = f"{what}: request {idx} {req!r} failed ({k}, {'after taking effect' if when == 'after' else 'without effect'})"
            if fk == "ok":
                changing = req not in probes
                if k != "exit" or req[0] != "run" or changing:
                    raise Violation(f"{desc}, yet success was reported (changed={fr.changed})")
                # the exit status of such a command is its answer (not installed, no such variable, not on a branch); otherwise the outcome must be that of the fault-free run
                if not answers_by_status(req[1]):
                    if goal_reached(w, goal) is not None:
                        raise Violation(f"{desc}, success was reported, but the requested state was not reached: {goal_reached(w, goal)}")
                    if plan[0] == [idx, k, when] and (fr.initial, fr.final, fr.changed) != (r.initial, r.final, r.changed):
                        raise Violation(f"{desc}, success was reported as {fr.initial} -> {fr.final}, in truth {r.initial} -> {r.final}")
                labels.append("probe-status")
            elif fk == "failed" and fr.changed:
                raise Violation(f"{desc}, and the unsuccessful result claims a change")
            else:
                labels.append("failed-as-it-should")
        ck, cr, _ = w.perform(diff=case["diff"])
        if ck != "ok":
            raise Violation(f"{what}: after a failure {plan} of the requests {reqs}, running it again failed: {cr!r}")
        d = goal_reached(w, goal)
        if d is not None and (settles or w.name != "files" or w.op["op"] != "line"):
            key = None
            if w.name == "git" and not cr.changed and isinstance(goal, dict) and {k for k in goal if goal[k] != w.state(times=False)[k]} == {"sub"}:
                key = "git-submodules-not-retried"
            raise Violation(f"{what}: after a failure {plan} of the requests {reqs}, running it again reports changed={cr.changed} but does not reach the requested state: {d}", key=key)
        if settles:
            ck, cr, _ = w.perform()
            if ck != "ok" or cr.changed:
                raise Violation(f"{what}: after a failure {plan} and a successful run, another run {'failed: ' + repr(cr) if ck != 'ok' else 'reports changed'}")
    return Outcome(hit > 0, labels + (["all-points"] if case["all"] else []) + (["modifying"] if any(modifying) else []))


def answers_by_status(cmd):
    return cmd[0] in ("pacman", "dpkg-query", "dpkg", "emerge", "test", "[", "cmp") or cmd[:1] == ["git"] and ("symbolic-ref" in cmd or "--verify" in cmd or "diff" in cmd or "merge-base" in cmd) or cmd[:1] == ["systemctl"] and any(c.startswith("is-") for c in cmd)


def goal_reached(w, goal):
    now = w.state(times=False)
    return None if now == goal else differ(goal, now)


def examples():
    """The listed finding, so that every run looks at it."""
    first = {"depth": None, "do": "repo", "dry": False, "ff_only": False, "path": "p", "rebase": True, "ref": None, "sub": False, "update": True, "url": "A"}
    return [{"all": False, "check": True, "diff": False, "faults": [[[3, "oserr", "before"]]], "kind": "oserr", "when": "before",
             "w": {"case": {"block": None, "first": first, "start": ["dev"], "steps": [], "tags": [["v1", "main", False]]}, "push": 0, "second": False, "subs": True, "world": "git"}}]


def every_step(tier):
    """Every kind of step of every file operation and git operation, failing in every way."""
    for w in worlds.git_steps():
        for k in KINDS if tier == "thorough" else ("exit",):
            for when in ("before", "after") if tier == "thorough" else ("before",):
                yield {"all": True, "check": True, "diff": False, "faults": [], "kind": k, "when": when, "w": w}
    tree, ops = worlds.file_steps()
    for o in ops:
        for k in KINDS:
            for when in ("before", "after"):
                if tier == "thorough" or k == "exit" or when == "before":
                    yield {"all": True, "check": True, "diff": False, "faults": [], "kind": k, "when": when, "w": {"world": "files", "tree": tree, "pre": [], "op": o, "same": False}}


CHECK = Check(
    id="C14", strategy=strategy, run=run, quick=1500, thorough=20000, batch=50, context=worlds.Ctx, case_limit=150, thorough_budget=800, examples=examples, exhaustive_examples=lambda tier: list(every_step(tier)),
    rule="a generated host state and operation (as for C13); a fault-free run yields the requests and the goal state; then, from the same initial state, the operation runs with a fault at every request or at generated ones (remote OS error, non-zero exit, connection lost; before or "
         "after the request took effect; also twice in a row), and once more without fault; non-trivial: at least one fault struck",
)
