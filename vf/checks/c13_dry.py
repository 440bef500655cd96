"""C13: dry runs change nothing and predict the real run."""
from hypothesis import strategies as st

from vf import worlds
from vf.core import Check, HarnessError, Outcome, Violation
from vf.hostenv import snap_diff


def strategy():
    return st.fixed_dictionaries({"w": worlds.strategy(), "diff": st.booleans(), "check": st.sampled_from([True, True, False])})


def differ(a, b, path=""):
    """A short description of the first differences between two states."""
    if isinstance(a, dict) and isinstance(b, dict):
        out = []
        for k in list(dict.fromkeys(list(a) + list(b))):
            if a.get(k) != b.get(k):
                out += differ(a.get(k), b.get(k), f"{path}/{k}")
        return out[:4]
    return [] if a == b else [f"{path}: {str(a)[:80]} -> {str(b)[:80]}"]


def run(case, ctx):
    w = worlds.make(case["w"], ctx)
    w.reset()
    before = w.state()
    if hasattr(w.con, "mods"):
        w.con.mods.clear()
    dk, dr, reqs = w.perform(dry=True, diff=case["diff"], check=case["check"])
    after = w.state()
    what = w.describe()
    if before != after:
        raise Violation(f"a dry run of {what} changed the host: {differ(before, after)}")
    if getattr(w.con, "mods", None):
        raise Violation(f"a dry run of {what} ran modifying commands: {w.con.mods}")
    if any(q[0] == "upload" for q in reqs):
        raise Violation(f"a dry run of {what} uploaded {[q for q in reqs if q[0] == 'upload']}")
    rk, rr, _ = w.perform(diff=case["diff"], check=case["check"])
    labels = [w.name]
    if rk != "ok":
        # what the host refuses in the middle cannot be foreseen, so the dry run may have succeeded
        return Outcome(False, labels + ["real-failed"])
    if dk != "ok":
        raise Violation(f"the dry run of {what} failed ({dr!r}), the real run from the same state succeeded")
    for k in ("success", "changed", "initial", "final"):
        a, b = getattr(dr, k), getattr(rr, k)
        if a != b:
            raise Violation(f"the dry run of {what} reported {k}={a!r}, the real run from the same state {b!r}")
    real = w.state()
    moved = real != before
    if moved and not dr.changed and w.name != "git":
        raise Violation(f"the dry run of {what} reported unchanged, the real run changed {differ(before, real)}")
    return Outcome(True, labels + ["changed" if dr.changed else "unchanged"])


def every_step(tier):
    tree, ops = worlds.file_steps()
    return [{"w": {"world": "files", "tree": tree, "pre": [], "op": o, "same": False}, "diff": d, "check": True} for o in ops for d in (False, True)]


CHECK = Check(
    id="C13", strategy=strategy, run=run, exhaustive_examples=every_step, quick=2500, thorough=40000, batch=80, context=worlds.Ctx, case_limit=120, thorough_budget=800,
    rule="a generated host state (file tree, upload source and destination, accounts, packages and services of each manager, git checkouts and remotes, after up to two earlier operations) and one operation with generated arguments: a dry run, full snapshots (content, "
         "attributes, inodes, times, account and package databases, remote refs) before and after it, then the real run from the same state; non-trivial: the real run succeeded, so that its report was compared with that of the dry run",
)
