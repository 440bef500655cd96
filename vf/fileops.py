"""Generated file trees and file operations with a reference model of their outcome (used by C12, C13, C14)."""
import errno
import hashlib
import os
import stat as pystat

from hypothesis import strategies as st

from vf import gens, oracle
from vf.core import HarnessError, blob

USERS = ["root", "nobody", "daemon", "0", "65534", "bin"]
GROUPS = ["root", "nogroup", "daemon", "adm", "0", "65534"]
UIDS = [0, 0, 65534, 1, 54321]
GIDS = [0, 0, 65534, 1, 4, 54321]
BAD = {"owner": ["no-such-user", "Root", ""], "group": ["no-such-group", ""], "mode": ["9", "rwx", "u+x", "", "0o888"]}
FILL = b"fora-verif-content"


def paths(depth=3):
    one = st.integers(0, 4).map(lambda i: [i])
    return one if depth == 1 else st.one_of(one, one, st.lists(st.integers(0, 4), min_size=1, max_size=depth))


def trees(max_entries=7):
    """A pool of names and entries placed at paths over that pool."""
    content = st.one_of(st.binary(max_size=20), st.sampled_from([b"", b"x\n", b"abc", FILL, b"\xff\x00"]))
    entry = st.one_of(
        st.fixed_dictionaries({"t": st.just("file"), "p": paths(), "mode": gens.modes(gens.MODES_FILE), "uid": st.sampled_from(UIDS), "gid": st.sampled_from(GIDS), "content": content}),
        st.fixed_dictionaries({"t": st.just("dir"), "p": paths(2), "mode": gens.modes(gens.MODES_DIR), "uid": st.sampled_from(UIDS), "gid": st.sampled_from(GIDS)}),
        st.fixed_dictionaries({"t": st.just("link"), "p": paths(2), "uid": st.sampled_from(UIDS), "gid": st.sampled_from(GIDS), "target": targets()}),
        st.fixed_dictionaries({"t": st.just("fifo"), "p": paths(1), "mode": st.just("600"), "uid": st.just(0), "gid": st.just(0)}),
    )
    return st.fixed_dictionaries({"pool": st.lists(gens.names(), min_size=5, max_size=5, unique=True), "entries": st.lists(entry, max_size=max_entries), "rootmode": st.sampled_from(["755", "2755", "777", "1777"])})


def targets():
    """Link targets: relative to the link, or '@ext...' = absolute into a directory outside of the tree, '@p' = absolute path in the tree."""
    return st.one_of(
        st.sampled_from(["@ext", "@ext/d", "@ext/f", "@ext/missing", ".", "missing", "-n", "--help", "a b", "$HOME", "no\nnewline", "é", "\udcff"]),
        paths(2).map(lambda p: ["@p"] + p),
        paths(1).map(lambda p: ["@r"] + p),
        gens.names(),
    )


def real_target(t, tree, root, ext):
    if isinstance(t, list):
        rel = "/".join(tree["pool"][i] for i in t[1:])
        return rel if t[0] == "@r" else os.path.join(root, rel)
    if t.startswith("@ext"):
        return ext + t[4:]
    return t


def build(tree, root, ext):
    """Creates the tree in an empty root and the outside directory."""
    os.makedirs(os.path.join(ext, "d"), exist_ok=True)
    with open(os.path.join(ext, "f"), "wb") as f:
        f.write(b"outside\n")
    with open(os.path.join(ext, "d", "inner"), "wb") as f:
        f.write(b"outside inner\n")
    for i, e in enumerate(tree["entries"]):
        p = os.path.join(root, *[tree["pool"][k] for k in e["p"]])
        cur = root
        blocked = False
        for k in e["p"][:-1]:
            cur = os.path.join(cur, tree["pool"][k])
            if not os.path.lexists(cur):
                os.mkdir(cur, 0o755)
            elif os.path.islink(cur) or not os.path.isdir(cur):
                blocked = True
                break
        if blocked or os.path.lexists(p):
            continue
        if e["t"] == "file":
            with open(p, "wb") as f:
                f.write(e["content"])
        elif e["t"] == "dir":
            os.mkdir(p)
        elif e["t"] == "link":
            os.symlink(real_target(e["target"], tree, root, ext), p)
        else:
            os.mkfifo(p)
        os.lchown(p, e["uid"], e["gid"])
        if e["t"] != "link":
            os.chmod(p, int(e["mode"], 8))
    os.chmod(root, int(tree["rootmode"], 8))
    for base in (root, ext):
        for d, sub, files in os.walk(base, topdown=False):
            for n in sub + files:
                os.utime(os.path.join(d, n), ns=(10**18, 10**18), follow_symlinks=False)
        os.utime(base, ns=(10**18, 10**18))


def attrs(mode_pool, bad=True):
    def opt(key, xs):
        pool = list(xs)
        n = len(pool)
        return st.sampled_from([None] * n + pool + pool + (BAD[key][:1] if bad else []))
    return {"mode": opt("mode", mode_pool), "owner": opt("owner", USERS), "group": opt("group", GROUPS)}


def ops():
    form = st.sampled_from(["plain"] * 16 + ["dslash", "dot", "updown", "slash", "relative"])
    common = {"p": paths(), "form": form, "terse": st.booleans(), "aim": st.one_of(st.none(), st.integers(0, 5))}
    yes = st.sampled_from([True, True, True, False])
    touch = st.sampled_from([False, False, False, True])
    content = st.one_of(st.binary(max_size=20), st.sampled_from([b"", b"x\n", b"abc", FILL, b"\xff\x00"]), gens.blobs(limit=140000, raw_max=10))
    a_f, a_d = attrs(gens.MODES_FILE), attrs(gens.MODES_DIR)
    a_l = {k: v for k, v in a_f.items() if k != "mode"}
    return st.one_of(
        st.fixed_dictionaries({"op": st.just("directory"), "present": yes, "touch": touch, **common, **a_d}),
        st.fixed_dictionaries({"op": st.just("file"), "present": yes, "touch": touch, **common, **a_f}),
        st.fixed_dictionaries({"op": st.just("link"), "present": yes, "touch": touch, "target": st.one_of(targets(), targets(), targets(), st.just("")), **common, **a_l}),
        st.fixed_dictionaries({"op": st.just("upload_content"), "content": content, "str": st.booleans(), **common, **a_f}),
        st.fixed_dictionaries({"op": st.just("upload"), "content": content, "into": st.booleans(), "srcname": gens.names(), "srclink": st.booleans(), **common, **a_f}),
    )


def sequences(max_size=5):
    """Sequences of operations; a 'vary' entry repeats the previous operation with one argument changed."""
    vary = st.one_of(
        st.tuples(st.just("owner"), st.sampled_from(USERS)), st.tuples(st.just("group"), st.sampled_from(GROUPS)), st.tuples(st.just("mode"), st.sampled_from(gens.MODES_FILE)),
        st.tuples(st.just("content"), st.sampled_from([b"", b"x\n", FILL, FILL + b"2"])), st.tuples(st.just("target"), targets()), st.tuples(st.just("present"), st.booleans()), st.tuples(st.just("touch"), st.booleans()),
    ).map(lambda kv: {"vary": kv[0], "val": kv[1]})
    return st.tuples(ops(), st.lists(st.one_of(ops(), vary), max_size=max_size - 1)).map(lambda t: [t[0]] + t[1])


def expand(seq):
    """Replaces the 'vary' entries."""
    out = []
    for o in seq:
        if "vary" in o:
            prev = out[-1]
            o = {**prev, o["vary"]: o["val"]} if o["vary"] in prev else dict(prev)
        out.append(o)
    return out


def components(op, tree):
    """Where the operation acts: at an entry of the fitting type if it is aimed, else at its own path."""
    p = op["p"]
    if op.get("aim") is not None:
        kind = {"directory": "dir", "link": "link"}.get(op["op"], "file")
        fitting = [e["p"] for e in tree["entries"] if e["t"] == kind]
        if fitting:
            p = fitting[op["aim"] % len(fitting)]
    return [tree["pool"][i] for i in p]


class Job:
    """One operation of a case bound to real paths, with its predicted outcome."""

    def __init__(self, op, tree, root, ext, src, defaults=None):
        self.op, self.root = op, root
        comps = components(op, tree)
        self.path = os.path.join(root, *comps)
        self.arg = self.path
        f = op["form"]
        if f == "dslash":
            self.arg = root + "//" + "//".join(comps)
        elif f == "dot":
            self.arg = root + "/./" + "/./".join(comps)
        elif f == "updown":
            self.arg = root + "/../" + os.path.basename(root) + "/" + "/".join(comps)
        elif f == "relative":
            self.arg = "/".join(comps)
        elif f == "slash" and op["op"] == "directory" and not os.path.islink(self.path):
            self.arg = self.path + "/"
        self.defaults = defaults or {}
        self.kind = {"directory": "dir", "link": "link"}.get(op["op"], "file")
        self.kw = {k: op[k] for k in ("present", "touch", "mode", "owner", "group") if k in op and op[k] is not None}
        if op.get("terse"):
            # left out arguments have their documented default
            self.kw = {k: v for k, v in self.kw.items() if (k, v) not in (("present", True), ("touch", False))}
        self.content = None
        if op["op"] in ("upload", "upload_content"):
            self.content = blob(op["content"])
        if op["op"] == "link":
            self.target = real_target(op["target"], tree, root, ext)
        if op["op"] == "upload":
            self.src = os.path.join(src, op["srcname"])
            real = self.src
            if op.get("srclink"):
                # the source is a link: its own name counts
                real = os.path.join(src, "\x01" + hashlib.sha1(os.fsencode(self.src)).hexdigest())
                if os.path.lexists(self.src):
                    os.unlink(self.src)
                os.symlink(real, self.src)
            with open(real, "wb") as fh:
                fh.write(self.content)
            if op["into"]:
                self.arg = self.arg.rstrip("/") + "/"
                self.path = os.path.join(self.path, op["srcname"])
        if op["op"] == "upload_content" and op["str"]:
            try:
                self.text = self.content.decode("utf-8")
            except UnicodeDecodeError:
                self.text = None
        else:
            self.text = None

    def call(self, **extra):
        from fora.operations import files
        o = self.op["op"]
        kw = {**self.kw, **extra}
        if o == "upload_content":
            return files.upload_content(self.text if self.text is not None else self.content, self.arg, **kw)
        if o == "upload":
            return files.upload(self.src, self.arg, **kw)
        if o == "link":
            return files.link(self.arg, self.target, **kw)
        return getattr(files, o)(self.arg, **kw)

    def predict(self):
        """('either' | 'error' | 'ok', dict): 'either' = error or an unchanged success, in both cases nothing may change."""
        op = self.op
        if op["form"] == "relative":
            return "error", {"why": "relative"}
        if op["op"] == "link" and not self.target:
            return "error", {"why": "bad-argument"}
        for k in ("owner", "group", "mode"):
            if op.get(k) in BAD[k] and op.get(k) is not None:
                return "error", {"why": "bad-argument"}
        present = op.get("present", True)
        d = {"owner": "root", "group": "root", "mode": {"dir": "700", "file": "600"}.get(self.kind)}
        d.update(self.defaults)
        want_owner = oracle.find_user(op.get("owner") or d["owner"])
        want_group = oracle.find_group(op.get("group") or d["group"])
        want_mode = oct(int(op.get("mode") or d["mode"], 8))[2:] if self.kind != "link" else None
        try:
            s = os.lstat(self.path)
        except FileNotFoundError:
            s = None
        except OSError as e:
            if e.errno in (errno.ENOTDIR, errno.ELOOP, errno.ENAMETOOLONG):
                return ("error" if present else "either"), {"why": "unreachable"}
            raise HarnessError(f"lstat: {e}")
        cur = None
        if s is not None:
            t = next((n for fn, n in oracle.TYPES if fn(s.st_mode)), "other")
            if t != self.kind:
                return "error", {"why": "wrong-type"}
            cur = {"exists": True, "owner": oracle.user_name(s.st_uid), "group": oracle.group_name(s.st_gid), "mode": oct(pystat.S_IMODE(s.st_mode))[2:]}
            if t == "link":
                cur["target"] = os.readlink(self.path)
                del cur["mode"]
            if self.content is not None:
                with open(self.path, "rb") as f:
                    cur["sha512"] = hashlib.sha512(f.read()).digest()
        elif present and not os.path.isdir(os.path.dirname(self.path)):
            return "error", {"why": "no-parent"}
        keys = ["exists", "owner", "group"] + (["target"] if self.kind == "link" else ["mode"]) + (["sha512"] if self.content is not None else [])
        absent = {k: None for k in keys}
        absent["exists"] = False
        final = dict(absent)
        if present:
            final = {"exists": True, "owner": want_owner.pw_name, "group": want_group.gr_name}
            if self.kind == "link":
                final["target"] = self.target
            else:
                final["mode"] = want_mode
            if self.content is not None:
                final["sha512"] = hashlib.sha512(self.content).digest()
        initial = cur if cur is not None else absent
        touch = bool(op.get("touch")) and present
        return "ok", {"initial": initial, "final": final, "changed": initial != final or touch, "differs": initial != final, "touch": touch, "existed": cur is not None, "uid": want_owner.pw_uid, "gid": want_group.gr_gid}

    def reached(self, pred):
        """Compares the path with the requested state; returns a complaint or None."""
        f = pred["final"]
        try:
            s = os.lstat(self.path)
        except (FileNotFoundError, NotADirectoryError):
            s = None
        if not f["exists"]:
            return None if s is None else "the path still exists"
        if s is None:
            return "the path does not exist"
        t = next((n for fn, n in oracle.TYPES if fn(s.st_mode)), "other")
        if t != self.kind:
            return f"the path is a {t}, not a {self.kind}"
        if (s.st_uid, s.st_gid) != (pred["uid"], pred["gid"]):
            return f"owner/group are {(s.st_uid, s.st_gid)}, requested {(pred['uid'], pred['gid'])}"
        if "mode" in f and oct(pystat.S_IMODE(s.st_mode))[2:] != f["mode"]:
            return f"mode is {oct(pystat.S_IMODE(s.st_mode))[2:]}, requested {f['mode']}"
        if "target" in f and os.readlink(self.path) != f["target"]:
            return f"the link points to {os.readlink(self.path)!r}, requested {f['target']!r}"
        if self.content is not None:
            with open(self.path, "rb") as fh:
                got = fh.read()
            if got != self.content:
                return f"the content is {got[:60]!r} ({len(got)} bytes), requested {self.content[:60]!r} ({len(self.content)} bytes)"
        elif self.kind == "file" and pred["existed"]:
            pass
        elif self.kind == "file" and s.st_size != 0:
            return "a newly created file is not empty"
        if pred["touch"] and s.st_mtime_ns <= 10**18 + 10**15:
            return "the modification time was not updated although touch was requested"
        return None
