"""C16: upload_dir mirrors the source tree."""
import os

from hypothesis import strategies as st

from vf import env, fileops, gens, oracle
from vf.core import Check, Outcome, Violation, blob
from vf.guard import make_guard
from vf.hostenv import HostEnv, snap_diff, snapshot, wipe


def strategy():
    p = st.lists(st.integers(0, 5), min_size=1, max_size=4)
    content = st.one_of(st.binary(max_size=12), st.sampled_from([b"", b"same", b"line\n"]), gens.blobs(limit=70000, raw_max=5))
    src_entry = st.one_of(
        st.fixed_dictionaries({"t": st.just("file"), "p": p, "content": content}),
        st.fixed_dictionaries({"t": st.just("file"), "p": p, "content": content}),
        st.fixed_dictionaries({"t": st.just("dir"), "p": p}),
        st.fixed_dictionaries({"t": st.sampled_from(["fifo", "olink", "rlink", "dangling"]), "p": p}))
    pre = st.fixed_dictionaries({"p": p, "t": st.sampled_from(["file"] * 7 + ["dir"] * 7 + ["link", "fifo", "dirlink"]), "mode": gens.modes(gens.MODES_DIR), "uid": st.sampled_from(fileops.UIDS), "gid": st.sampled_from(fileops.GIDS), "content": st.sampled_from([b"", b"same", b"old\n"])})
    name = st.one_of(gens.names(), gens.names(), st.sampled_from(gens.JUNK), st.just("\udcff\udcfe"))
    return st.fixed_dictionaries({
        "pool": st.lists(name, min_size=6, max_size=6, unique=True), "src": st.one_of(st.lists(src_entry, max_size=9), st.lists(src_entry, min_size=4, max_size=14)), "pre": st.lists(pre, max_size=6), "fit": st.sampled_from([True, True, False]), "copy_pre": st.sampled_from([False, False, True]),
        "dest": st.sampled_from(["plain", "slash", "dslash", "vialink", "dot", "dotdot", "dotdotslash"] * 3 + ["missing-parent"]), "srcform": st.sampled_from(["plain", "slash", "relative", "dot", "cwd", "link", "linkslash", "dotdot"]), "dest_exists": st.booleans(),
        "dir_mode": st.sampled_from([None, "755", "2770", "700", "1777", "0711"]), "file_mode": st.sampled_from([None, "644", "4755", "600", "0640", "2711"]),
        "owner": st.sampled_from([None, None, "nobody", "0", "daemon"]), "group": st.sampled_from([None, None, "adm", "65534"]), "diff": st.booleans(), "dname": gens.names(), "sname": gens.names(),
        "check": st.sampled_from([True, True, False]), "clash": st.one_of(st.none(), st.none(), st.none(), st.none(), st.none(), st.fixed_dictionaries({"p": p, "src": st.sampled_from(["dir", "dir", "file"]), "dst": st.sampled_from(["file", "file", "dir", "link", "dirlink", "fifo"])}))})


class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        self.root, self.src = os.path.join(scratch, "r"), os.path.join(scratch, "s")
        for d in (self.root, self.src):
            os.makedirs(d, exist_ok=True)
        env.reset_globals()
        self.he = HostEnv(scratch, connector=make_guard(self.root))

    def close(self):
        self.he.close()


def put(base, entries, pool, dst):
    """Creates entries below base (conflicting ones are skipped); returns nothing."""
    for e in entries:
        cur = base
        ok = True
        for k in e["p"][:-1]:
            cur = os.path.join(cur, pool[k])
            if not os.path.lexists(cur):
                os.mkdir(cur, 0o755)
            elif os.path.islink(cur) or not os.path.isdir(cur):
                ok = False
                break
        p = os.path.join(base, *[pool[k] for k in e["p"]])
        if not ok or os.path.lexists(p):
            continue
        if e["t"] == "file":
            with open(p, "wb") as f:
                f.write(blob(e["content"]))
        elif e["t"] == "dir":
            os.mkdir(p)
        elif e["t"] == "fifo":
            os.mkfifo(p)
        elif e["t"] in ("olink", "rlink", "dangling"):
            # links to files are uploaded as files (the existing tests rely on that)
            with open(os.path.join(os.path.dirname(base), "\x01linked"), "w") as f:
                f.write("linked")
            target = os.path.join(os.path.dirname(base), "\x01linked")
            os.symlink({"olink": target, "rlink": os.path.relpath(target, os.path.dirname(p)), "dangling": "nowhere to be found"}[e["t"]], p)
        elif e["t"] == "link":
            os.symlink(os.path.join(dst, "ofile"), p)
        else:
            os.symlink(os.path.join(dst, "odir"), p)
        if "uid" in e:
            os.lchown(p, e["uid"], e["gid"])
            if e["t"] in ("file", "dir"):
                os.chmod(p, int(e["mode"], 8))


def fits(e, pool, src):
    """Whether an entry in the destination is not in the way of the source."""
    for i in range(1, len(e["p"]) + 1):
        p = os.path.join(src, *[pool[k] for k in e["p"][:i]])
        want_dir = i < len(e["p"]) or e["t"] == "dir"
        if os.path.lexists(p) and (not want_dir if os.path.isdir(p) else want_dir or e["t"] != "file"):
            return False
    return True


def prepare(case, ctx):
    """Creates source and destination; returns what the upload needs."""
    wipe(ctx.root)
    wipe(ctx.src)
    out = os.path.join(ctx.root, "outside")
    os.makedirs(os.path.join(out, "odir"))
    with open(os.path.join(out, "ofile"), "w") as f:
        f.write("outside")
    src = os.path.join(ctx.src, case["sname"])
    os.mkdir(src)
    if case["clash"]:
        c = case["clash"]
        case = {**case, "src": case["src"] + [], "pre": case["pre"] + []}
        case["src"].insert(0, {"t": c["src"], "p": c["p"], "content": b"same"})
        case["pre"].insert(0, {"t": c["dst"], "p": c["p"], "mode": "640", "uid": 0, "gid": 0, "content": b"same"})
    put(src, case["src"], case["pool"], None)
    par = os.path.join(ctx.root, "to")
    os.mkdir(par)
    os.symlink("to", os.path.join(ctx.root, "tolink"))
    given = os.path.basename(src)
    if case["srcform"].startswith("link"):
        given = "link to it"
        os.symlink(os.path.basename(src), os.path.join(ctx.src, given))
    if case["srcform"] == "dotdot":
        # a link whose parent is not where the path suggests
        os.makedirs(os.path.join(ctx.src, "\x01aside"))
        os.makedirs(os.path.join(ctx.src, "\x01inner"))
        os.symlink("../\x01inner", os.path.join(ctx.src, "\x01aside", "link"))
    if case["dest"].startswith("dotdot"):
        os.mkdir(os.path.join(par, "\x01inner"))
        os.symlink("to/\x01inner", os.path.join(ctx.root, "tolink2"))
    dname = given if case["dest"] in ("slash", "dslash", "dotdotslash") else case["dname"]
    dest = os.path.join(par, dname)
    arg = {"plain": dest, "slash": par + "/", "dslash": par + "//", "vialink": os.path.join(ctx.root, "tolink", dname), "missing-parent": os.path.join(par, "nope", dname), "dot": os.path.join(par, ".", "..", "to", dname),
           "dotdot": os.path.join(ctx.root, "tolink2", "..", dname), "dotdotslash": os.path.join(ctx.root, "tolink2", "../")}[case["dest"]]
    if case["dest_exists"] or case["pre"]:
        os.mkdir(dest)
        put(dest, [e for e in case["pre"] if not case.get("fit") or e is case["pre"][0] and case["clash"] or fits(e, case["pool"], src)], case["pool"], out)
        if case["copy_pre"]:
            put(dest, case["src"], case["pool"], out)
    for d, sub, files in os.walk(ctx.root, topdown=False):
        for n in sub + files:
            os.utime(os.path.join(d, n), ns=(10**18, 10**18), follow_symlinks=False)
    kw = {k: case[k] for k in ("dir_mode", "file_mode", "owner", "group") if case[k] is not None}

    def body(**extra):
        from fora.operations import files
        s = src
        if case["srcform"] == "slash":
            s = src + "/"
        elif case["srcform"] == "relative":
            s = os.path.relpath(src)
        elif case["srcform"] == "dot":
            s = os.path.join(ctx.src, ".", case["sname"])
        elif case["srcform"].startswith("link"):
            s = os.path.join(ctx.src, given) + case["srcform"][4:].replace("slash", "/")
        elif case["srcform"] == "dotdot":
            s = os.path.join(ctx.src, "\x01aside", "link", "..", case["sname"])
        elif case["srcform"] == "cwd":
            os.chdir(src)
            s = "."
        return files.upload_dir(s, arg, **kw, **extra)
    return src, dest, dname, arg, kw, body


class Refused(Exception):
    pass


def run(case, ctx):
    src, dest, dname, arg, kw, body = prepare(case, ctx)
    # the expected tree
    want = {"": "dir"}
    for d, sub, files in os.walk(src):
        for n in sub:
            if os.path.islink(os.path.join(d, n)):
                continue
            want[os.path.relpath(os.path.join(d, n), src)] = "dir"
        for n in files:
            fp = os.path.join(d, n)
            if os.path.isfile(fp):
                with open(fp, "rb") as f:
                    want[os.path.relpath(fp, src)] = f.read()
    conflict = case["dest"] == "missing-parent"
    for rel, what in want.items():
        p = os.path.join(dest, rel) if rel else dest
        if os.path.lexists(p):
            if os.path.islink(p) or (what == "dir") != os.path.isdir(p) or (what != "dir" and not os.path.isfile(p)):
                conflict = True
    dm, fm = oct(int(case["dir_mode"] or "700", 8))[2:], oct(int(case["file_mode"] or "600", 8))[2:]
    uid = oracle.find_user(case["owner"] or "root").pw_uid
    gid = oracle.find_group(case["group"] or "root").gr_gid
    before = snapshot(ctx.root)
    differs = False
    for rel, what in want.items():
        b = before.get(os.path.normpath(os.path.join("to", dname, rel)))
        if b is None or b["uid"] != uid or b["gid"] != gid or b.get("mode") != (dm if what == "dir" else fm) or (what != "dir" and b.get("content") != what):
            differs = True
    labels = set()
    desc = f"upload_dir(<{len(want)} entries>, {arg!r}, {kw})"
    try:
        r = ctx.he.in_script(lambda: body(**({} if case["check"] else {"check": False})), diff=case["diff"])
        if conflict and not case["check"] and not r.success:
            raise Refused()
    except Violation:
        raise
    except Exception as e:
        if not conflict:
            raise Violation(f"{desc} failed: {e!r}")
        labels.add("refused")
        after = snapshot(ctx.root)
        bad = []
        for k, v in before.items():
            if v is None:
                continue
            a = after.get(k)
            if v["type"] not in ("dir", "file") and a != v:
                bad.append(f"{k}: {v} -> {a}")
            if k.startswith("outside") and a != v:
                bad.append(f"{k}: changed")
            if v["type"] in ("dir", "file") and (a is None or a["type"] != v["type"]):
                bad.append(f"{k}: replaced")
        if bad:
            raise Violation(f"{desc} was refused but modified {bad[:3]}")
        return Outcome(True, ["refused"])
    if conflict:
        raise Violation(f"{desc} reported success although a destination entry has the wrong type or the parent is missing")
    if not r.success:
        raise Violation(f"{desc} returned failure")
    after = snapshot(ctx.root)
    for rel, what in want.items():
        k = os.path.normpath(os.path.join("to", dname, rel))
        a = after.get(k)
        if a is None:
            raise Violation(f"{desc}: {k!r} is missing")
        if (a["type"] == "dir") != (what == "dir") or (what != "dir" and (a["type"] != "file" or a["content"] != what)):
            raise Violation(f"{desc}: {k!r} has the wrong type or content: {str(a)[:200]}")
        exp = (dm if what == "dir" else fm, uid, gid)
        if (a["mode"], a["uid"], a["gid"]) != exp:
            raise Violation(f"{desc}: {k!r} has (mode, uid, gid) {(a['mode'], a['uid'], a['gid'])}, requested {exp}")
    mine = {os.path.normpath(os.path.join("to", dname, rel)) for rel in want}
    ignore = set(mine)
    b2, a2 = dict(before), dict(after)
    for snap in (b2, a2):
        if snap.get("to"):
            snap["to"] = {k: v for k, v in snap["to"].items() if k not in ("mtime", "ctime")}
    rest = snap_diff(b2, a2, ignore)
    if rest:
        raise Violation(f"{desc}: touched unrelated entries: {rest[:4]}")
    if r.changed != differs:
        raise Violation(f"{desc}: reported changed={r.changed}, but the destination {'differed' if differs else 'was identical'}")
    labels.add("uploaded" if differs else "unchanged")
    if len(want) > 3:
        labels.add("deep")
    if set(before) - mine - {"", "to"}:
        labels.add("unrelated-present")
    r = ctx.he.in_script(body, diff=case["diff"])
    if r.changed:
        raise Violation(f"{desc}: repeating it reports changed")
    d = snap_diff(after, snapshot(ctx.root))
    if d:
        raise Violation(f"{desc}: repeating it modified {d[:4]}")
    return Outcome(len(want) > 1, sorted(labels))


CHECK = Check(
    id="C16", strategy=strategy, run=run, quick=1800, thorough=25000, batch=60, context=Ctx, case_limit=90,
    rule="generated source trees (depth up to 4, empty directories and files, fifos, hostile and non-utf-8 names) uploaded to generated destinations (missing, existing with unrelated, overlapping, identical and wrong-typed entries, links to outside) given in several "
         "forms, then uploaded again; full snapshots compared with a tree model; non-trivial: the source has entries or the upload had to be refused",
)
