"""Reference behaviour of single host requests, computed by the harness with direct OS calls."""
import grp
import hashlib
import os
import pwd
import stat as pystat


def user_name(uid):
    try:
        return pwd.getpwuid(uid).pw_name
    except KeyError:
        return str(uid)


def group_name(gid):
    try:
        return grp.getgrgid(gid).gr_name
    except KeyError:
        return str(gid)


def find_user(u):
    """Account for a name or decimal uid (names first), or None."""
    try:
        return pwd.getpwnam(u)
    except KeyError:
        try:
            return pwd.getpwuid(int(u))
        except (KeyError, ValueError, OverflowError):
            return None


def find_group(g):
    try:
        return grp.getgrnam(g)
    except KeyError:
        try:
            return grp.getgrgid(int(g))
        except (KeyError, ValueError, OverflowError):
            return None


TYPES = [(pystat.S_ISDIR, "dir"), (pystat.S_ISCHR, "chr"), (pystat.S_ISBLK, "blk"), (pystat.S_ISREG, "file"), (pystat.S_ISFIFO, "fifo"), (pystat.S_ISLNK, "link"), (pystat.S_ISSOCK, "sock")]


def stat(path, follow, sha):
    """('ok', None | dict) or ('oserr', errno)"""
    try:
        s = os.stat(path, follow_symlinks=follow)
    except FileNotFoundError:
        return ("ok", None)
    except OSError as e:
        return ("oserr", e.errno)
    t = next((n for f, n in TYPES if f(s.st_mode)), "other")
    d = {"type": t, "mode": oct(pystat.S_IMODE(s.st_mode))[2:], "owner": user_name(s.st_uid), "group": group_name(s.st_gid), "size": s.st_size,
         "mtime": s.st_mtime_ns, "ctime": s.st_ctime_ns, "sha512sum": None}
    if sha and t == "file":
        with open(path, "rb") as f:
            d["sha512sum"] = hashlib.sha512(f.read()).digest()
    return ("ok", d)


def stat_dict(r):
    if r is None:
        return None
    return {k: getattr(r, k) for k in ("type", "mode", "owner", "group", "size", "mtime", "ctime", "sha512sum")}


def download(path):
    try:
        with open(path, "rb") as f:
            return ("ok", f.read())
    except FileNotFoundError:
        return ("value", None)
    except OSError as e:
        return ("oserr", e.errno)


def shadowed():
    """The names of all users with a shadow entry."""
    with open("/etc/shadow", encoding="utf-8", errors="surrogateescape") as f:
        return {line.split(":")[0] for line in f}
