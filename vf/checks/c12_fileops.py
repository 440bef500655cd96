"""C12: file operations converge, are idempotent, and touch nothing else."""
import os

from hypothesis import strategies as st

from vf import env, fileops
from vf.core import Check, Outcome, Violation
from vf.guard import make_guard
from vf.hostenv import HostEnv, snap_diff, snapshot, wipe


def strategy():
    dflt = st.one_of(st.just({}), st.fixed_dictionaries({"owner": st.sampled_from(["nobody", "daemon"]), "group": st.sampled_from(["nogroup", "adm"]), "file_mode": st.sampled_from(["644", "4711"]), "dir_mode": st.sampled_from(["755", "2775"])}))
    return st.fixed_dictionaries({"tree": fileops.trees(), "ops": fileops.sequences(5), "defaults": dflt, "diff": st.booleans(), "check": st.sampled_from([True, True, False])})


class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        self.root, self.ext, self.src = (os.path.join(scratch, n) for n in ("r", "ext", "src"))
        for d in (self.root, self.ext, self.src):
            os.makedirs(d, exist_ok=True)
        env.reset_globals()
        self.he = HostEnv(scratch, connector=make_guard(self.root, also=(self.ext,)))

    def clean(self):
        for d in (self.root, self.ext, self.src):
            wipe(d)

    def close(self):
        self.he.close()


def relevant(job, ctx):
    """The paths that may change: the path itself and, for its directory, only the timestamps."""
    return os.path.relpath(os.path.join(os.path.realpath(os.path.dirname(job.path)), os.path.basename(job.path)), os.path.realpath(ctx.scratch))


def shot(ctx):
    out = {}
    for base in ("r", "ext"):
        for k, v in snapshot(os.path.join(ctx.scratch, base)).items():
            out[os.path.normpath(os.path.join(base, k))] = v
    return out


def others(before, after, rel):
    """Differences that do not belong to rel, what is below it, or the timestamps of its parent directory."""
    a, b = dict(before), dict(after)
    par = os.path.dirname(rel)
    for snap in (a, b):
        for k in list(snap):
            if k == rel or k.startswith(rel + "/"):
                del snap[k]
            elif k == par and snap[k] is not None:
                snap[k] = {f: v for f, v in snap[k].items() if f not in ("mtime", "ctime")}
    return snap_diff(a, b)


def run(case, ctx):
    ctx.clean()
    fileops.build(case["tree"], ctx.root, ctx.ext)
    labels = set()

    def body():
        import fora
        d = case["defaults"]
        with fora.script.defaults(**d):
            for o in fileops.expand(case["ops"]):
                one(o, case, ctx, labels)
    ctx.he.in_script(body, diff=case["diff"])
    return Outcome(bool(labels & {"changed", "unchanged", "refused"}), sorted(labels))


def attempt(job, check):
    from fora.operations.api import OperationError
    try:
        r = job.call(check=check)
    except Violation:
        raise
    except Exception as e:
        return "raised", e
    if r.success:
        return "ok", r
    if check:
        raise Violation(f"{job.op['op']} returned a failure without raising although checking is on")
    return "failed", r


def one(o, case, ctx, labels):
    d = dict(case["defaults"])
    job = fileops.Job(o, case["tree"], ctx.root, ctx.ext, ctx.src, None)
    if d:
        job.defaults = {"owner": d["owner"], "group": d["group"], "mode": d["dir_mode" if job.kind == "dir" else "file_mode"]}
    kind, pred = job.predict()
    before = shot(ctx)
    got, r = attempt(job, case["check"])
    after = shot(ctx)
    desc = f"{o['op']}({job.arg!r}, {job.kw})"
    if kind != "ok":
        if kind == "error" and got == "ok":
            raise Violation(f"{desc} reported success, expected an error ({pred['why']})")
        if got == "ok" and r.changed:
            raise Violation(f"{desc} reported changed, expected unchanged or an error")
        diff = snap_diff(before, after)
        if diff:
            raise Violation(f"{desc} could not succeed ({pred['why']}) but modified: {diff[:4]}")
        labels.add("refused")
        labels.add("refused:" + pred["why"])
        return
    if got != "ok":
        raise Violation(f"{desc} failed: {r!r}")
    bad = job.reached(pred)
    if bad:
        raise Violation(f"{desc} reported success but {bad}")
    rel = relevant(job, ctx)
    if not pred["changed"]:
        diff = snap_diff(before, after)
        labels.add("unchanged")
    else:
        diff = others(before, after, rel)
        if pred["final"]["exists"] and pred["existed"] and job.kind == "dir":
            a = {k: v for k, v in before.items() if k.startswith(rel + "/")}
            b = {k: v for k, v in after.items() if k.startswith(rel + "/")}
            diff += snap_diff(a, b)
        if pred["existed"] and job.kind == "file" and job.content is None and pred["final"]["exists"] and before[rel]["content"] != after[rel]["content"]:
            diff.append("the content of the file changed")
        if pred["existed"] and pred["final"]["exists"] and not pred["touch"] and all(pred["initial"].get(k) == pred["final"].get(k) for k in ("target", "sha512")) and before[rel]["mtime"] != after[rel]["mtime"]:
            diff.append("the modification time changed, although neither the content changed nor was it to be touched")
        labels.add("changed")
        labels.add("changed:" + o["op"])
    if diff:
        raise Violation(f"{desc} modified something else: {diff[:4]}")
    if r.changed != pred["changed"]:
        raise Violation(f"{desc} reported changed={r.changed}, the state before was {pred['initial']}, requested {pred['final']}")
    for which in ("initial", "final"):
        rep = getattr(r, which)
        for k, v in pred[which].items():
            if k in rep and rep[k] != v:
                raise Violation(f"{desc} reported {which} {k}={rep[k]!r}, in truth {v!r}")
    if pred["touch"]:
        return
    got, r = attempt(job, case["check"])
    if got != "ok":
        raise Violation(f"{desc}: repeating it failed: {r!r}")
    if r.changed:
        raise Violation(f"{desc}: repeating it reports changed: {r.initial} -> {r.final}")
    diff = snap_diff(after, shot(ctx))
    if diff:
        raise Violation(f"{desc}: repeating it modified {diff[:4]}")


CHECK = Check(
    id="C12", strategy=strategy, run=run, quick=3000, thorough=40000, batch=80, context=Ctx, case_limit=90, thorough_budget=800,
    rule="generated trees (files, directories, links into and out of the tree, fifos, special modes, foreign owners, names that look like options or shell syntax) and sequences of 1-5 file operations on paths over the same names (so they hit existing, "
         "wrong-typed, linked and missing places), each followed by a repetition; full snapshots (content, attributes, inode, times) before and after each; non-trivial: an operation converged or was refused",
)
