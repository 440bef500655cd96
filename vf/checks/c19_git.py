"""C19: git.repo with real local repositories."""
import os
import shutil
import subprocess

from hypothesis import strategies as st

from vf import env
from vf.core import Check, HarnessError, Outcome, Violation
from vf.guard import make_guard
from vf.hostenv import HostEnv, snap_diff, snapshot, wipe

BRANCHES = ["main", "dev", "foo/main", "x/dev", "trunk"]
TAGS = ["v1", "rel/v1", "main", "dev", "v1.0"]


def strategy():
    br = st.sampled_from(BRANCHES)

    def repo(refs, dry):
        return st.fixed_dictionaries({"do": st.just("repo"), "path": st.sampled_from(["p"] * 7 + ["q/deep"]), "url": st.sampled_from(["A"] * 9 + ["B"]), "ref": st.sampled_from(refs),
                                      "update": st.sampled_from([True] * 5 + [False]), "depth": st.sampled_from([None, None, 1, 1, 3]), "rebase": st.sampled_from([True, True, False]), "ff_only": st.sampled_from([False, False, True]), "sub": st.sampled_from([True, True, False]), "rec": st.booleans(), "shsub": st.booleans(), "dry": dry, "terse": st.booleans()})
    names = [None, None, None, "main", "main", "dev", "dev", "foo/main", "v1", "rel/v1", "v1.0", "x/dev", "missing", "trunk"]
    step = st.one_of(
        repo(names, st.sampled_from([False] * 5 + [True])),
        st.fixed_dictionaries({"do": st.just("commit"), "branch": st.one_of(st.just("main"), br), "sub": st.booleans()}),
        st.fixed_dictionaries({"do": st.just("again"), "n": st.integers(0, 3), "change": st.sampled_from([None, None, None, "dry", "noupdate", "url", "default"])}),
        st.fixed_dictionaries({"do": st.just("again"), "n": st.integers(0, 3), "change": st.sampled_from([None, None, None, "dry", "noupdate", "url", "default"])}),
        st.fixed_dictionaries({"do": st.just("tag"), "tag": st.sampled_from(TAGS), "branch": br, "annot": st.booleans()}),
        st.fixed_dictionaries({"do": st.just("default"), "branch": br}),
        st.fixed_dictionaries({"do": st.just("subcommit"), "inner": st.booleans(), "record": st.booleans()}),
        st.fixed_dictionaries({"do": st.just("rewrite"), "branch": st.just("main")}),
    )
    return st.fixed_dictionaries({"start": st.permutations(BRANCHES[1:]).flatmap(lambda p: st.integers(1, 4).map(lambda n: list(p[:n]))), "tags": st.lists(st.tuples(st.sampled_from(TAGS), br, st.booleans()).map(list), min_size=1, max_size=4, unique_by=lambda t: t[0]),
                                  "bname": st.sampled_from(["b.git", "b.git", "a", "a.git.git", "A.git", "a.gi"]), "block": st.sampled_from([None] * 14 + ["file", "dir", "empty", "gitfile", "link", "inside", "inside", "bare"]), "subs": st.sampled_from([None, "plain", "nested", "nested"]), "first": repo(names[:-2], st.sampled_from([False] * 9 + [True])), "steps": st.lists(step, min_size=1, max_size=6)})


class Stop(Exception):
    """The checkout is in a state the property does not speak about."""


def git_environment(scratch):
    """git must neither read nor write anything of the real user."""
    cfg = os.path.join(scratch, "gitconfig")
    with open(cfg, "w") as f:
        f.write("[user]\n\tname = v\n\temail = v@v\n[init]\n\tdefaultBranch = main\n[protocol \"file\"]\n\tallow = always\n[gc]\n\tauto = 0\n[maintenance]\n\tauto = false\n[advice]\n\tdetachedHead = false\n")
    for k in list(os.environ):
        if k.startswith("GIT_"):
            del os.environ[k]
    os.environ.update(GIT_CONFIG_GLOBAL=cfg, GIT_CONFIG_NOSYSTEM="1", HOME=scratch, GIT_TERMINAL_PROMPT="0", GIT_CEILING_DIRECTORIES=scratch)


class Ctx:
    def __init__(self, scratch):
        self.scratch, self.root, self.rem = scratch, os.path.join(scratch, "r"), os.path.join(scratch, "rem")
        os.makedirs(self.root, exist_ok=True)
        git_environment(scratch)
        env.reset_globals()
        self.he = HostEnv(scratch, connector=make_guard(self.root, also=(self.rem,)))

    def close(self):
        self.he.close()


def git(*args, input=None, ok=True, cwd=None):
    r = subprocess.run(["git", *args], input=input, capture_output=True, cwd=cwd or "/", timeout=60)
    if r.returncode != 0:
        if ok:
            raise HarnessError(f"git {args}: {r.stderr.decode(errors='replace')}")
        return None
    return r.stdout.decode().strip()


class Remote:
    def __init__(self, path, sub=None):
        self.path, self.sub, self.n = path, sub, 0
        git("init", "-q", "--bare", "-b", "main", path)

    @property
    def url(self):
        return "file://" + self.path

    def commit(self, branch, sub=False, parent="tip"):
        self.n += 1
        blob = git("-C", self.path, "hash-object", "-w", "--stdin", input=f"{self.n} {branch} {os.path.basename(self.path)}\n".encode())
        lines = f"100644 blob {blob}\tf.txt\n"
        if sub and self.sub:
            gm = git("-C", self.path, "hash-object", "-w", "--stdin", input=f"[submodule \"s\"]\n\tpath = s\n\turl = {self.sub.url}\n".encode())
            lines += f"100644 blob {gm}\t.gitmodules\n160000 commit {self.sub.tip('main')}\ts\n"
        tree = git("-C", self.path, "mktree", "--missing", input="".join(sorted(lines.splitlines(True), key=lambda l: l.split("\t")[1])).encode())
        tip = self.tip(branch) or self.tip("main")
        if parent == "rewrite" and tip:
            tip = git("-C", self.path, "rev-parse", "-q", "--verify", tip + "^", ok=False)
        c = git("-C", self.path, "commit-tree", tree, "-m", str(self.n), *(["-p", tip] if tip else []))
        git("-C", self.path, "update-ref", "refs/heads/" + branch, c)
        return c

    def tip(self, branch):
        return git("-C", self.path, "rev-parse", "-q", "--verify", f"refs/heads/{branch}^{{commit}}", ok=False)

    def target(self, ref):
        if ref is None:
            return git("-C", self.path, "rev-parse", "-q", "--verify", "HEAD^{commit}", ok=False)
        return self.tip(ref) or git("-C", self.path, "rev-parse", "-q", "--verify", f"refs/tags/{ref}^{{commit}}", ok=False)

    def refs(self):
        return git("-C", self.path, "for-each-ref") + git("-C", self.path, "symbolic-ref", "HEAD")


def remotes(case, ctx):
    wipe(ctx.root)
    shutil.rmtree(ctx.rem, ignore_errors=True)
    os.makedirs(ctx.rem)
    inner = Remote(os.path.join(ctx.rem, "inner.git"))
    sub = Remote(os.path.join(ctx.rem, "sub.git"), inner)
    for _ in range(3):
        inner.commit("main")
        sub.commit("main", case.get("subs") == "nested")
    rem = {"A": Remote(os.path.join(ctx.rem, "a.git"), sub), "B": Remote(os.path.join(ctx.rem, case.get("bname", "b.git")))}
    for r in rem.values():
        r.commit("main", case.get("subs") is not None)
    for b in case["start"]:
        rem["A"].commit(b, case.get("subs") is not None)
    for t, b, annot in case["tags"]:
        tag(rem["A"], t, b, annot)
    p = os.path.join(ctx.root, "p")
    if case["block"] == "file":
        open(p, "w").close()
    elif case["block"] == "dir":
        os.mkdir(p)
        open(os.path.join(p, "precious"), "w").close()
    elif case["block"] == "empty":
        os.mkdir(p)
    elif case["block"] == "gitfile":
        os.mkdir(p)
        open(os.path.join(p, ".git"), "w").close()
    elif case["block"] == "inside":
        # a plain directory in the work tree of a clone of the same remote
        git("clone", "-q", rem["A"].url, os.path.join(ctx.root, "outer"))
        os.mkdir(os.path.join(ctx.root, "outer", "p"))
        open(os.path.join(ctx.root, "outer", "p", "precious"), "w").close()
        os.symlink("outer/p", p)
    elif case["block"] == "bare":
        git("clone", "-q", "--bare", rem["A"].url, p)
        git("-C", p, "config", "remote.origin.url", rem["A"].url)
    elif case["block"] == "link":
        os.symlink("missing-target", p)
    return rem


def run(case, ctx):
    rem = remotes(case, ctx)
    labels = set()
    try:
        history(case, ctx, rem, labels)
    except Stop:
        labels.add("stopped")
    return Outcome(bool(labels & {"cloned", "updated", "unchanged", "refused"}), sorted(labels))


def history(case, ctx, rem, labels):
    prev = None
    for s in [case["first"]] + case["steps"]:
        if s["do"] == "commit":
            rem["A"].commit(s["branch"], s["sub"])
        elif s["do"] == "rewrite":
            rem["A"].commit(s["branch"], parent="rewrite")
            labels.add("rewritten")
        elif s["do"] == "tag":
            tag(rem["A"], s["tag"], s["branch"], s["annot"])
        elif s["do"] == "subcommit":
            sub = rem["A"].sub
            if s["inner"]:
                sub.sub.commit("main")
            sub.commit("main", s["inner"])
            if s["record"]:
                rem["A"].commit("main", True)
        elif s["do"] == "default":
            if rem["A"].tip(s["branch"]):
                git("-C", rem["A"].path, "symbolic-ref", "HEAD", "refs/heads/" + s["branch"])
        elif s["do"] == "again":
            dflt = git("-C", rem["A"].path, "symbolic-ref", "HEAD")[len("refs/heads/"):]
            for _ in range(s["n"]):
                rem["A"].commit(prev["ref"] if prev["ref"] in BRANCHES else dflt, sub=prev["sub"])
            o = dict(prev, dry=False, update=True)
            o.update({"dry": {"dry": True}, "noupdate": {"update": False}, "url": {"url": "B"}, "default": {"ref": None}}.get(s["change"], {}))
            op(o, ctx, rem, labels)
        else:
            op(s, ctx, rem, labels)
            prev = s


def tag(r, name, branch, annot):
    tip = r.tip(branch) or r.tip("main")
    if annot:
        git("-C", r.path, "tag", "-f", "-a", "-m", "t", name, tip)
    else:
        git("-C", r.path, "update-ref", "refs/tags/" + name, tip)


def head(path):
    if not os.path.isdir(os.path.join(path, ".git")):
        return None
    return git("-C", path, "rev-parse", "-q", "--verify", "HEAD", ok=False)


def call(s, ctx, rem):
    path = os.path.join(ctx.root, s["path"])
    r = rem[s["url"]]
    kw = {k: s[k] for k in ("update", "depth", "rebase", "ff_only") if s[k] is not None}
    if s.get("terse"):
        kw = {k: v for k, v in kw.items() if (k, v) not in (("update", True), ("rebase", True), ("ff_only", False))}
    if s["ref"] is not None:
        kw["branch_or_tag"] = s["ref"]
    if s["sub"]:
        kw["update_submodules"] = True
    for k, o in (("rec", "recursive_submodules"), ("shsub", "shallow_submodules")):
        if s.get(k) or not s.get("terse", True):
            kw[o] = bool(s.get(k))

    def body(**extra):
        from fora.operations import git as ops
        return ops.repo(r.url, path, **kw, **extra)
    return path, r, kw, body


def op(s, ctx, rem, labels):
    path, r, kw, body = call(s, ctx, rem)
    desc = f"repo({s['url']}, {s['path']!r}, {kw}, dry={s['dry']})"
    target = r.target(s["ref"])
    was = head(path)
    exists = os.path.lexists(path)
    cur_url = git("-C", path, "config", "--get", "remote.origin.url", ok=False) if was else None
    branch = git("-C", path, "symbolic-ref", "-q", "HEAD", ok=False) if was else None
    before = snapshot(ctx.root)
    had = {p for p in (os.path.join(path, "s"), os.path.join(path, "s/s")) if os.path.lexists(os.path.join(p, ".git")) or os.path.lexists(os.path.join(path, ".git/modules", "s/modules/s" if p.endswith("s/s") else "s"))}
    refs = {k: v.refs() for k, v in rem.items()}

    def attempt():
        try:
            return ctx.he.in_script(body, dry=s["dry"]), None
        except Violation:
            raise
        except Exception as e:
            return None, e
    res, e = attempt()
    if {k: v.refs() for k, v in rem.items()} != refs:
        raise Violation(f"{desc}: modified the remote repository")
    now = head(path)

    def untouched(why):
        d = snap_diff(before, snapshot(ctx.root))
        if d:
            raise Violation(f"{desc}: {why}, but modified {d[:4]}")
    if res is not None and not res.success:
        raise Violation(f"{desc}: unsuccessful result although checking is on")
    # what has to be refused
    must_fail = None
    if exists and was is None:
        must_fail = "the path is not a repository"
    elif was is None and target is None or (was and s["update"] and target is None):
        must_fail = "the remote has no such branch or tag"
    elif was and s["update"] and target != was and cur_url != r.url:
        must_fail = "the path is a clone of a different url that needs updating"
    if must_fail:
        if res is not None:
            raise Violation(f"{desc}: reported success although {must_fail}")
        untouched(f"was refused ({must_fail})")
        labels.add("refused")
        return
    if was and (not s["update"] or target == was):
        if res is None:
            raise Violation(f"{desc}: failed although nothing has to be done: {e!r}")
        if res.changed:
            raise Violation(f"{desc}: reported changed: {res.initial} -> {res.final}, HEAD was {was}")
        untouched("nothing has to be done")
        labels.add("unchanged")
        check_report(desc, res, was, was)
        return
    simple = True
    if was:
        wanted = "refs/heads/" + (s["ref"] if s["ref"] is not None else git("-C", r.path, "symbolic-ref", "HEAD")[len("refs/heads/"):])
        ff = git("-C", r.path, "merge-base", "--is-ancestor", was, target, ok=False) is not None
        shallow = os.path.exists(os.path.join(path, ".git", "shallow")) or s["depth"] is not None
        if shallow and git("-C", path, "rev-parse", "-q", "--verify", "refs/tags/" + wanted[len("refs/heads/"):], ok=False):
            ff = False            # git's search for the fork point takes the tag for the branch
        simple = branch == wanted and ff and not (shallow and (s["ff_only"] or not s["rebase"]))
        if r.tip(wanted[len("refs/heads/"):]) is None:
            simple = False        # a tag that moved
    if res is None:
        if simple:
            raise Violation(f"{desc}: failed: {e!r} {getattr(e, 'stderr', b'')!r}")
        if now != was or os.path.exists(os.path.join(path, ".git", "rebase-merge")):
            if branch != wanted or ff:
                raise Violation(f"{desc}: failed but moved HEAD from {was} to {now}")
            raise Stop()      # replaying rewritten history stopped in the middle, as git does
        labels.add("not-updated")
        return
    if s["dry"]:
        untouched("was a dry run")
        if not res.changed:
            raise Violation(f"{desc}: a dry run that would move HEAD reported unchanged")
        check_report(desc, res, was, target)
        labels.add("dry")
        return
    if now != target:
        raise Violation(f"{desc}: HEAD is {now} afterwards, the requested revision is {target} (before: {was})")
    if not res.changed:
        raise Violation(f"{desc}: reported unchanged although HEAD moved")
    check_report(desc, res, was, target)
    if git("-C", path, "config", "--get", "remote.origin.url") != r.url:
        raise Violation(f"{desc}: the clone's origin is not the url")
    dirty = git("-C", path, "status", "--porcelain", "--ignore-submodules=all")
    if was is not None and dirty == "?? s/":
        dirty = ""            # git keeps the work tree of a submodule that an update removed
    if dirty:
        raise Violation(f"{desc}: the work tree does not match the commit: {dirty}")
    if was is None and s["ref"] is not None and r.tip(s["ref"]) and git("-C", path, "symbolic-ref", "-q", "HEAD", ok=False) != "refs/heads/" + s["ref"]:
        raise Violation(f"{desc}: the branch is not checked out")
    if was is None and s["depth"] is not None and int(git("-C", path, "rev-list", "--count", "HEAD")) > s["depth"]:
        raise Violation(f"{desc}: the clone is not shallow")
    submodules(desc, s, path, r, had, labels)
    after = snapshot(ctx.root)
    top = s["path"].split("/")[0]
    d = snap_diff({k: v for k, v in before.items() if k and k.split("/")[0] != top}, {k: v for k, v in after.items() if k and k.split("/")[0] != top})
    if d:
        raise Violation(f"{desc}: touched other paths: {d[:3]}")
    labels.add("updated" if was else "cloned")
    res, e = attempt()
    if e is not None or res.changed:
        raise Violation(f"{desc}: repeating it: {e!r} changed={getattr(res, 'changed', None)}")
    d = snap_diff(after, snapshot(ctx.root))
    if d:
        raise Violation(f"{desc}: repeating it modified {d[:4]}")


def count(path):
    return int(git("-C", path, "rev-list", "--count", "HEAD"))


def submodules(desc, s, path, r, had, labels):
    """ Submodules are initialised at the recorded commit if and only if this was asked for, at every level. """
    wanted, level = s["sub"], "submodule"
    while r.sub is not None:
        link = git("-C", path, "rev-parse", "-q", "--verify", "HEAD:s", ok=False)
        if link is None:
            return
        path, r = os.path.join(path, "s"), r.sub
        initialised = os.path.lexists(os.path.join(path, ".git"))
        if not wanted:
            if initialised and path not in had:
                raise Violation(f"{desc}: the {level} was initialised, which was not requested")
            return
        labels.add(level)
        got = git("-C", path, "rev-parse", "HEAD", ok=False) if initialised else None
        if got != link:
            raise Violation(f"{desc}: the {level} is at {got}, recorded is {link}")
        if path not in had:
            full = int(git("-C", r.path, "rev-list", "--count", link))
            have = count(path)
            if s.get("shsub") and s["depth"] is not None:
                if have > s["depth"]:
                    raise Violation(f"{desc}: the {level} has {have} commits")
                if have < full:
                    labels.add("shallow-" + level)
            elif have != full:
                raise Violation(f"{desc}: the {level} has {have} of {full} commits although it was not requested to be shallow")
        wanted, level = s.get("rec", False), "inner submodule"


def check_report(desc, res, was, target):
    if res.initial.get("commit") != was or res.final.get("commit") != target:
        raise Violation(f"{desc}: reported commits {res.initial.get('commit')} -> {res.final.get('commit')}, in truth {was} -> {target}")
    if res.initial.get("initialized") != (was is not None):
        raise Violation(f"{desc}: reported initialized={res.initial.get('initialized')}")


CHECK = Check(
    id="C19", strategy=strategy, run=run, quick=400, thorough=5000, batch=40, context=Ctx, case_limit=150, shards=8,
    rule="generated remotes (branches and tags with look-alike names, annotated tags, tags shadowed by branches, changing default branch, submodules, rewritten history) and histories of pushes interleaved with git.repo runs on two paths with all options, dry and real; HEAD, "
         "work tree, reported commits and untouched paths compared with the remote's true refs; non-trivial: a clone, update, no-op or refusal happened",
)
