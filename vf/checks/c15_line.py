"""C15: the line operation."""
import os
import re
import stat as pystat
import time
from datetime import datetime, timezone

from hypothesis import strategies as st

from vf import env, gens, oracle
from vf.core import Check, Outcome, Violation
from vf.guard import make_guard
from vf.hostenv import HostEnv, snap_diff, snapshot, wipe

WORDS = ["a", "b", "ab", "key=1", "key=2", "# key=1", "  key=1", "key=1  ", "\tkey=1", "", " ", "é", "日本", "a.b", "axb", "x\x0cy", "x\u2028y", "x\x0b", "\x1c", "\x85z", "[sec]", "a b", "key", "$", "^a", "\udcff", "\udcffkey=1", "\ufeffa", "a\x00b", "K", "k"]
REGEXES = ["a", "^a$", "^key=", "key=1$", "^\\s*key", "^$", "^ *$", "\\bkey\\b", "a.b", "^#", ".", "", "x$", "(?i)K", "[0-9]+", "^(a|b)$", "é", "\\.", "^[^#]*=", "\\s", "\\Z", "\\Akey", "$"]


def strategy():
    word = st.one_of(st.sampled_from(WORDS), st.sampled_from(WORDS), st.text(alphabet=st.characters(blacklist_characters="\r\n", blacklist_categories=("Cs",)), max_size=8))
    filel = st.tuples(word, st.sampled_from(["\n", "\n", "\n", "\r\n"])).map(list)
    file = st.one_of(st.none(), st.fixed_dictionaries({"lines": st.lists(filel, max_size=8), "open_end": st.sampled_from([False, False, True]), "mode": gens.modes(gens.MODES_FILE), "uid": st.sampled_from([0, 65534, 1]), "gid": st.sampled_from([0, 65534, 4]), "type": st.sampled_from(["file"] * 9 + ["dir", "link", "fifo"])}))
    step = st.fixed_dictionaries({"line": word, "present": st.booleans(), "regex": st.one_of(st.none(), st.sampled_from(REGEXES)), "iw": st.booleans(), "backup": st.sampled_from([False, False, True, "saved", "-b.bak", "sub/x"]), "argstyle": st.booleans()})
    return st.fixed_dictionaries({"file": file, "name": gens.names(), "steps": st.lists(step, min_size=1, max_size=3), "diff": st.booleans(), "dry": st.sampled_from([False] * 7 + [True]), "dflt": st.booleans()})


class Ctx:
    def __init__(self, scratch):
        self.scratch, self.root = scratch, os.path.join(scratch, "r")
        os.makedirs(self.root, exist_ok=True)
        env.reset_globals()
        self.he = HostEnv(scratch, connector=make_guard(self.root))

    def close(self):
        self.he.close()


def split(content):
    """(text, terminator) pairs of newline-separated lines."""
    out = []
    for piece in re.findall(r"[^\n]*\n|[^\n]+", content):
        m = re.fullmatch(r"(.*?)(\r?\n|)", piece, re.S)
        out.append((m.group(1), m.group(2)))
    return out


def matcher(s):
    if s["regex"] is not None:
        rx = re.compile(s["regex"])
        return lambda t: rx.search(t) is not None
    if s["iw"]:
        return lambda t: t.strip() == s["line"].strip()
    return lambda t: t == s["line"]


def run(case, ctx):
    wipe(ctx.root)
    os.makedirs(os.path.join(ctx.root, "sub"))
    path = os.path.join(ctx.root, "d-" + case["name"] if case["name"] in ("sub", "saved", "-b.bak", "other") else case["name"])
    with open(os.path.join(ctx.root, "other"), "w") as f:
        f.write("key=1\n")
    f = case["file"]
    if f is not None:
        text = "".join(t + e for t, e in f["lines"])
        if f["open_end"] and f["lines"]:
            text = text[:-len(f["lines"][-1][1])]
        if f["type"] == "dir":
            os.mkdir(path)
        elif f["type"] == "link":
            os.symlink("other", path)
        elif f["type"] == "fifo":
            os.mkfifo(path)
        else:
            with open(path, "wb") as fh:
                fh.write(text.encode("utf-8", "surrogateescape"))
            os.chown(path, f["uid"], f["gid"])
            os.chmod(path, int(f["mode"], 8))
            os.utime(path, ns=(10**18, 10**18))
    labels = set()

    def body():
        import fora
        with fora.script.defaults(**({"file_mode": "644", "owner": "nobody", "group": "adm"} if case["dflt"] else {})):
            for s in case["steps"]:
                step(case, s, path, ctx, labels)
    ctx.he.in_script(body, diff=case["diff"], dry=case["dry"])
    return Outcome(bool(labels & {"edited", "kept"}), sorted(labels))


def call(s, path):
    from fora.operations import files
    kw = {"present": s["present"], "regex": s["regex"], "ignore_whitespace": s["iw"], "backup": s["backup"]}
    if s["argstyle"]:
        kw = {k: v for k, v in kw.items() if v != {"present": True, "regex": None, "ignore_whitespace": True, "backup": False}[k]}
    return files.line(path, s["line"], **kw)


def step(case, s, path, ctx, labels):
    before = snapshot(ctx.root)
    desc = f"line({os.path.basename(path)!r}, {s['line']!r}, present={s['present']}, regex={s['regex']!r}, ignore_whitespace={s['iw']}, backup={s['backup']!r})"
    old = None
    if os.path.lexists(path):
        if os.path.islink(path) or not os.path.isfile(path):
            try:
                call(s, path)
            except Exception:
                labels.add("refused")
                if snap_diff(before, snapshot(ctx.root)):
                    raise Violation(f"{desc}: was refused but modified {snap_diff(before, snapshot(ctx.root))}")
                return
            raise Violation(f"{desc}: succeeded on something that is not a file")
        with open(path, "rb") as fh:
            old = fh.read()
        s0 = os.lstat(path)
    lines = split((old or b"").decode("utf-8", "surrogateescape"))
    m = matcher(s)
    have = [m(t) for t, _ in lines]
    need = any(have) != s["present"]
    t0 = time.time()
    r = call(s, path)
    t1 = time.time()
    if not r.success:
        raise Violation(f"{desc}: returned a failure")
    if r.changed != need:
        raise Violation(f"{desc}: reported changed={r.changed} for the content {old!r}")
    after = snapshot(ctx.root)
    if not need or case["dry"]:
        if snap_diff(before, after):
            raise Violation(f"{desc}: nothing should be modified, but {snap_diff(before, after)} (content {old!r})")
        labels.add("kept")
        return
    labels.add("edited")
    labels.add("added" if s["present"] else "removed")
    with open(path, "rb") as fh:
        new = fh.read()
    if s["present"]:
        base = old or b""
        if base and not base.endswith(b"\n"):
            base += b"\n"
        ln = s["line"].encode("utf-8", "surrogateescape")
        ok = new in (base + ln + b"\n", base + ln + b"\r\n")
        if not ok:
            raise Violation(f"{desc}: content {old!r} became {new!r}, expected the line at the end and everything else kept")
    else:
        want = "".join(t + e for (t, e), h in zip(lines, have) if not h).encode("utf-8", "surrogateescape")
        if new != want:
            raise Violation(f"{desc}: content {old!r} became {new!r}, expected {want!r}")
    s1 = os.lstat(path)
    if old is not None:
        if (s0.st_mode, s0.st_uid, s0.st_gid) != (s1.st_mode, s1.st_uid, s1.st_gid):
            raise Violation(f"{desc}: changed the attributes of the file from {(oct(s0.st_mode), s0.st_uid, s0.st_gid)} to {(oct(s1.st_mode), s1.st_uid, s1.st_gid)}")
    else:
        want = ("644", oracle.find_user("nobody").pw_uid, oracle.find_group("adm").gr_gid) if case["dflt"] else ("600", 0, 0)
        if (oct(pystat.S_IMODE(s1.st_mode))[2:], s1.st_uid, s1.st_gid) != want:
            raise Violation(f"{desc}: created with {(oct(s1.st_mode), s1.st_uid, s1.st_gid)}, the defaults are {want}")
    # backups and other files
    expected_new = {os.path.basename(path)} if old is None else set()
    diff = [d for d in set(before) | set(after) if before.get(d) != after.get(d) and d not in ("", "sub", os.path.basename(path))]
    if old is not None and s["backup"]:
        if s["backup"] is True:
            cands = []
            for k in range(int(t0) - 1, int(t1) + 2):
                iso = datetime.fromtimestamp(k, timezone.utc)
                cands.append(f"{os.path.basename(path)}.{iso.strftime('%Y-%m-%dT%H:%M:%SZ')}.bak")
        else:
            cands = [s["backup"]]
        hit = [c for c in cands if c in after]
        # a backup under a name that exists already with the same content leaves no trace in the difference
        fine = any(after[c]["type"] == "file" and after[c]["content"] == old for c in hit)
        if not fine:
            raise Violation(f"{desc}: no backup with the previous content: looked for {cands[1:2] or cands}, new or changed entries: {diff}")
        kept = [(s0.st_mode, s0.st_uid, s0.st_gid) == (b.st_mode, b.st_uid, b.st_gid) for b in (os.lstat(os.path.join(ctx.root, c)) for c in hit)]
        if not any(kept):
            raise Violation(f"{desc}: the backup doesn't have the mode and owner of the file")
        diff = [d for d in diff if d not in hit]
        labels.add("backup")
    if diff:
        raise Violation(f"{desc}: touched other files: {diff}")
    if s["present"] and not m(s["line"]):
        labels.add("line-does-not-match-regex")
        return
    mid = snapshot(ctx.root)
    r = call(s, path)
    if not r.success or r.changed:
        raise Violation(f"{desc}: repeating it on {new!r} reports changed={r.changed}")
    if snap_diff(mid, snapshot(ctx.root)):
        raise Violation(f"{desc}: repeating it modified {snap_diff(mid, snapshot(ctx.root))}")


CHECK = Check(
    id="C15", strategy=strategy, run=run, quick=2500, thorough=60000, batch=100, context=Ctx,
    rule="generated files (lines over a vocabulary of look-alikes with CRLF and LF endings, missing final newlines, form feeds, U+2028, NUL and non-utf-8 bytes, any mode and owner) and 1-3 line operations with every option; compared with a reference "
         "editor working on newline-separated lines; non-trivial: the file was edited or correctly left alone",
)
