"""An in-memory host: account database, package managers and service managers behind the Connector interface.

The simulation follows the documented command lines of shadow-utils, pacman, apt-get/dpkg-query, emerge and systemctl
(any option order, short and long options, several operands). Nothing on the real machine is touched; a shell command is
run by a real bash whose PATH contains only inert stubs of the commands the simulated host has."""
import copy
import getopt
import os
import re
import subprocess

USER_DEFAULTS = {"home": "/home/%s", "shell": "/bin/sh"}


def base_accounts():
    return {
        "users": [{"name": "root", "uid": 0, "gid": 0, "gecos": "root", "home": "/root", "shell": "/bin/bash", "hash": "*"},
                  {"name": "other", "uid": 1500, "gid": 1500, "gecos": "Other, User", "home": "/home/other", "shell": "/bin/zsh", "hash": "$6$x$y"}],
        "groups": [{"name": "root", "gid": 0, "members": []}, {"name": "other", "gid": 1500, "members": []}, {"name": "video", "gid": 27, "members": ["other"]},
                   {"name": "audio", "gid": 18, "members": []}, {"name": "users", "gid": 100, "members": []}, {"name": "wheel", "gid": 10, "members": ["root", "other"]}],
    }


def make_sim():
    """Returns the connector class (fora must be imported from the tree under test first)."""
    from fora.connectors import tunnel_dispatcher as td
    from fora.connectors.connector import CompletedRemoteCommand, Connector, GroupEntry, StatResult, UserEntry

    class Fail(Exception):
        def __init__(self, code, msg=""):
            self.code, self.msg = code, msg

    class SimConnector(Connector):
        schema = None

        def __init__(self, url, host):
            super().__init__(url, host)
            self.shim = None
            self.reset(base_accounts(), {}, {})

        # -- harness side
        def reset(self, accounts=None, pk=None, units=None, pm=None, sm=None, fault=None):
            self.acc = copy.deepcopy(accounts if accounts is not None else base_accounts())
            self.pk = copy.deepcopy(pk or {})          # package -> state
            self.units = copy.deepcopy(units or {"system": {}, "user": {}})
            self.pm, self.sm = pm, sm
            self.calls, self.mods, self.puts = [], [], []
            self.fault, self.broken = fault, False
            self.reloads = {"system": 0, "user": 0}
            self.log = []

        def state(self):
            return copy.deepcopy({"acc": self.canon(), "pk": self.pk, "units": self.units, "reloads": self.reloads, "log": self.log})

        def canon(self):
            return {"users": {u["name"]: {k: v for k, v in u.items() if k != "name"} for u in self.acc["users"]},
                    "groups": {g["name"]: {"gid": g["gid"], "members": sorted(g["members"])} for g in self.acc["groups"]}}

        # -- connector interface
        def open(self):
            pass

        def close(self):
            pass

        def _step(self, what, fn, check=True):
            i = len(self.calls)
            self.calls.append(what)
            if self.broken:
                raise OSError("Unexpected EOF in data stream")
            if self.fault is not None and self.fault[0] == i:
                _, kind, when = self.fault
                if when == "after":
                    try:
                        fn()
                    except Exception:
                        pass
                if kind == "io":
                    self.broken = True
                    raise OSError("Unexpected EOF in data stream")
                if kind == "exit" and what[0] == "run":
                    if check:
                        raise subprocess.CalledProcessError(returncode=7, cmd=what[1], output=b"injected", stderr=b"injected failure")
                    return CompletedRemoteCommand(stdout=b"", stderr=b"injected failure", returncode=7)
                raise td.RemoteOSError(errno=5, strerror="injected", msg="injected I/O error")
            return fn()

        def run(self, command, input=None, capture_output=True, check=True, user=None, group=None, umask=None, cwd=None):
            def act():
                try:
                    out, code, err = self._exec(list(command)), 0, b""
                    if isinstance(out, tuple):
                        code, out = out
                except Fail as e:
                    out, code, err = b"", e.code, e.msg.encode()
                except getopt.GetoptError as e:
                    out, code, err = b"", 2, str(e).encode()
                if check and code != 0:
                    raise subprocess.CalledProcessError(returncode=code, cmd=list(command), output=out, stderr=err)
                return CompletedRemoteCommand(stdout=out if capture_output else None, stderr=err if capture_output else None, returncode=code)
            return self._step(("run", list(command)), act, check)

        def resolve_user(self, user):
            return self._step(("resolve_user", user), lambda: "root" if user is None else self._user(user)["name"])

        def resolve_group(self, group):
            return self._step(("resolve_group", group), lambda: "root" if group is None else self._group(group)["name"])

        def _user(self, u):
            for e in self.acc["users"]:
                if e["name"] == u:
                    return e
            for e in self.acc["users"]:
                if str(e["uid"]) == u:
                    return e
            raise ValueError(f"The user '{u}' does not exist.")

        def _group(self, g):
            for e in self.acc["groups"]:
                if e["name"] == g:
                    return e
            for e in self.acc["groups"]:
                if str(e["gid"]) == g:
                    return e
            raise ValueError(f"The group '{g}' does not exist.")

        def _gname(self, gid):
            return next((g["name"] for g in self.acc["groups"] if g["gid"] == gid), str(gid))

        def query_user(self, user, query_password_hash=False):
            def act():
                e = self._user(user)
                return UserEntry(name=e["name"], uid=e["uid"], group=self._gname(e["gid"]), gid=e["gid"], groups=[g["name"] for g in self.acc["groups"] if e["name"] in g["members"]],
                                 password_hash=e["hash"] if query_password_hash else None, gecos=e["gecos"], home=e["home"], shell=e["shell"])
            return self._step(("query_user", user), act)

        def query_group(self, group):
            def act():
                e = self._group(group)
                return GroupEntry(name=e["name"], gid=e["gid"], members=list(e["members"]))
            return self._step(("query_group", group), act)

        def stat(self, path, follow_links=False, sha512sum=False):
            return self._step(("stat", path), lambda: StatResult(type="dir", mode="1777", owner="root", group="root", size=0, mtime=0, ctime=0, sha512sum=None) if path in ("/tmp", "/") else None)

        def getenv(self, key):
            return self._step(("getenv", key), lambda: None)

        def upload(self, file, content, mode=None, owner=None, group=None):
            self.mods.append(["upload", file])
            raise td.RemoteOSError(errno=30, strerror="Read-only", msg="read-only file system")

        def download(self, file):
            raise ValueError("file not found")

        # -- the commands
        def _exec(self, argv):
            if not argv:
                raise td.RemoteOSError(errno=2, strerror="No such file", msg="no command")
            self.argv = argv
            exe = os.path.basename(argv[0])
            args = argv[1:]
            if exe in ("bash", "sh"):
                return self._shell(exe, args)
            fn = {"useradd": self._useradd, "usermod": self._usermod, "userdel": self._userdel, "groupadd": self._groupadd, "groupmod": self._groupmod, "groupdel": self._groupdel,
                  "pacman": self._pacman, "apt-get": self._apt, "dpkg-query": self._dpkg, "dpkg": self._dpkg, "emerge": self._emerge, "systemctl": self._systemctl}.get(exe)
            owner = {"pacman": "pacman", "apt-get": "apt-get", "dpkg-query": "apt-get", "dpkg": "apt-get", "emerge": "emerge"}.get(exe)
            if fn is None or (owner is not None and owner != self.pm) or (exe == "systemctl" and self.sm != "systemctl"):
                raise td.RemoteOSError(errno=2, strerror="No such file or directory", msg=f"[Errno 2] No such file or directory: {argv[0]!r}")
            return fn(args)

        def _shell(self, exe, args):
            have = [c for c in ({"apt-get": ["apt-get", "dpkg-query", "dpkg"]}.get(self.pm) or [self.pm]) + [self.sm] if c]
            d = self.shim
            for n in os.listdir(d):
                os.unlink(os.path.join(d, n))
            for n in have:
                p = os.path.join(d, n)
                with open(p, "w") as f:
                    f.write("#!/bin/sh\nexit 0\n")
                os.chmod(p, 0o755)
            r = subprocess.run(["/bin/" + exe] + args, env={"PATH": d}, stdin=subprocess.DEVNULL, capture_output=True, cwd=d, timeout=60)
            return (r.returncode, r.stdout)

        def _mod(self, *what):
            self.mods.append(list(what))

        # accounts
        def _names_valid(self, n):
            if not re.fullmatch(r"[a-zA-Z_][a-zA-Z0-9_.-]*\$?", n):
                raise Fail(3, f"invalid name '{n}'")

        def _field(self, v):
            if ":" in v or "\n" in v:
                raise Fail(3, "invalid field")

        def _glist(self, v):
            out = []
            for g in [x for x in v.split(",") if x != ""]:
                try:
                    out.append(self._group(g)["name"])
                except ValueError:
                    raise Fail(6, f"group '{g}' does not exist")
            return out

        def _join(self, user, names, append=False):
            for g in self.acc["groups"]:
                if g["name"] in names:
                    if user not in g["members"]:
                        g["members"].append(user)
                elif not append and user in g["members"]:
                    g["members"].remove(user)

        def _opts(self, args, short, long):
            opts, rest = getopt.gnu_getopt(args, short, long)
            return opts, rest

        def _int(self, v):
            if not re.fullmatch(r"\d+", v):
                raise Fail(3, f"invalid id '{v}'")
            return int(v)

        def _useradd(self, args):
            opts, rest = self._opts(args, "c:d:g:G:MmNop:rs:u:Ule:f:k:K:b:", ["comment=", "home-dir=", "gid=", "groups=", "no-create-home", "create-home", "no-user-group", "non-unique", "password=", "system", "shell=", "uid=", "user-group", "no-log-init", "expiredate=", "inactive=", "skel=", "key=", "base-dir="])
            if len(rest) != 1:
                raise Fail(2, "usage")
            name = rest[0]
            self._names_valid(name)
            u = {"name": name, "uid": None, "gid": None, "gecos": "", "home": "/home/" + name, "shell": "/bin/sh", "hash": "!"}
            groups, nug, ug, system, create_home = [], False, None, False, False
            for o, v in opts:
                if o in ("-c", "--comment"):
                    self._field(v); u["gecos"] = v
                elif o in ("-d", "--home-dir"):
                    self._field(v); u["home"] = v
                elif o in ("-g", "--gid"):
                    try:
                        u["gid"] = self._group(v)["gid"]
                    except ValueError:
                        raise Fail(6, f"group '{v}' does not exist")
                elif o in ("-G", "--groups"):
                    groups = self._glist(v)
                elif o in ("-N", "--no-user-group"):
                    nug = True
                elif o in ("-U", "--user-group"):
                    ug = True
                elif o in ("-p", "--password"):
                    self._field(v); u["hash"] = v
                elif o in ("-r", "--system"):
                    system = True
                elif o in ("-s", "--shell"):
                    self._field(v); u["shell"] = v
                elif o in ("-u", "--uid"):
                    u["uid"] = self._int(v)
                elif o in ("-m", "--create-home"):
                    create_home = True
            if any(e["name"] == name for e in self.acc["users"]):
                raise Fail(9, f"user '{name}' already exists")
            uids = {e["uid"] for e in self.acc["users"]}
            if u["uid"] is None:
                u["uid"] = next(i for i in (range(999, 100, -1) if system else range(1000, 60000)) if i not in uids)
            elif u["uid"] in uids:
                raise Fail(4, f"UID {u['uid']} is not unique")
            if u["gid"] is None:
                if nug:
                    u["gid"] = 100
                else:
                    if any(g["name"] == name for g in self.acc["groups"]):
                        raise Fail(9, f"group {name} exists - if you want to add this user to that group, use -g.")
                    gids = {g["gid"] for g in self.acc["groups"]}
                    gid = u["uid"] if u["uid"] not in gids else next(i for i in range(1000, 60000) if i not in gids)
                    self.acc["groups"].append({"name": name, "gid": gid, "members": []})
                    u["gid"] = gid
            elif ug:
                raise Fail(2, "options -U and -g conflict")
            u["system"] = system
            self._mod("useradd", name)
            if create_home:
                self._mod("mkhome", name)
            u.pop("system")
            self.acc["users"].append(u)
            self._join(name, groups)

        def _find(self, name, code=6):
            for e in self.acc["users"]:
                if e["name"] == name:
                    return e
            raise Fail(code, f"user '{name}' does not exist")

        def _usermod(self, args):
            opts, rest = self._opts(args, "ac:d:g:G:l:Lmop:s:u:Ue:f:", ["append", "comment=", "home=", "gid=", "groups=", "login=", "lock", "move-home", "non-unique", "password=", "shell=", "uid=", "unlock", "expiredate=", "inactive="])
            if len(rest) != 1 or not opts:
                raise Fail(2, "usage")
            e = self._find(rest[0])
            new = dict(e)
            groups, append = None, False
            for o, v in opts:
                if o in ("-c", "--comment"):
                    self._field(v); new["gecos"] = v
                elif o in ("-d", "--home"):
                    self._field(v); new["home"] = v
                elif o in ("-g", "--gid"):
                    try:
                        new["gid"] = self._group(v)["gid"]
                    except ValueError:
                        raise Fail(6, f"group '{v}' does not exist")
                elif o in ("-G", "--groups"):
                    groups = self._glist(v)
                elif o in ("-a", "--append"):
                    append = True
                elif o in ("-p", "--password"):
                    self._field(v); new["hash"] = v
                elif o in ("-s", "--shell"):
                    self._field(v); new["shell"] = v
                elif o in ("-u", "--uid"):
                    new["uid"] = self._int(v)
                    if any(x["uid"] == new["uid"] and x is not e for x in self.acc["users"]):
                        raise Fail(4, "UID not unique")
                elif o in ("-l", "--login"):
                    new["name"] = v
                elif o in ("-L", "--lock"):
                    new["hash"] = "!" + new["hash"]
                elif o in ("-U", "--unlock"):
                    new["hash"] = new["hash"].lstrip("!")
                elif o in ("-m", "--move-home"):
                    self._mod("movehome", rest[0])
            if append and groups is None:
                raise Fail(2, "-a needs -G")
            self._mod("usermod", rest[0])
            e.update(new)
            if groups is not None:
                self._join(e["name"], groups, append)

        def _userdel(self, args):
            opts, rest = self._opts(args, "frZ", ["force", "remove"])
            if len(rest) != 1:
                raise Fail(2, "usage")
            e = self._find(rest[0])
            self._mod("userdel", rest[0])
            if any(o in ("-r", "--remove") for o, _ in opts):
                self._mod("rmhome", rest[0])
            self.acc["users"].remove(e)
            self._join(e["name"], [])
            g = next((g for g in self.acc["groups"] if g["name"] == e["name"]), None)
            if g is not None and g["gid"] == e["gid"] and not g["members"] and not any(x["gid"] == g["gid"] for x in self.acc["users"]):
                self.acc["groups"].remove(g)

        def _groupadd(self, args):
            opts, rest = self._opts(args, "fg:K:op:r", ["force", "gid=", "key=", "non-unique", "password=", "system"])
            if len(rest) != 1:
                raise Fail(2, "usage")
            self._names_valid(rest[0])
            if any(g["name"] == rest[0] for g in self.acc["groups"]):
                raise Fail(9, "group exists")
            gids = {g["gid"] for g in self.acc["groups"]}
            d = dict(opts)
            gid = d.get("-g", d.get("--gid"))
            if gid is not None:
                gid = self._int(gid)
                if gid in gids:
                    raise Fail(4, "gid exists")
            else:
                system = "-r" in d or "--system" in d
                gid = next(i for i in (range(999, 100, -1) if system else range(1000, 60000)) if i not in gids)
            self._mod("groupadd", rest[0])
            self.acc["groups"].append({"name": rest[0], "gid": gid, "members": []})

        def _groupmod(self, args):
            opts, rest = self._opts(args, "g:n:op:", ["gid=", "new-name=", "non-unique", "password="])
            if len(rest) != 1:
                raise Fail(2, "usage")
            g = next((g for g in self.acc["groups"] if g["name"] == rest[0]), None)
            if g is None:
                raise Fail(6, "no such group")
            for o, v in opts:
                if o in ("-g", "--gid"):
                    v = self._int(v)
                    if any(x["gid"] == v and x is not g for x in self.acc["groups"]):
                        raise Fail(4, "gid exists")
                    for u in self.acc["users"]:
                        if u["gid"] == g["gid"]:
                            u["gid"] = v
                    g["gid"] = v
                elif o in ("-n", "--new-name"):
                    g["name"] = v
            self._mod("groupmod", rest[0])

        def _groupdel(self, args):
            opts, rest = self._opts(args, "f", ["force"])
            if len(rest) != 1:
                raise Fail(2, "usage")
            g = next((g for g in self.acc["groups"] if g["name"] == rest[0]), None)
            if g is None:
                raise Fail(6, "no such group")
            if any(u["gid"] == g["gid"] for u in self.acc["users"]):
                raise Fail(8, "cannot remove the primary group of a user")
            self._mod("groupdel", rest[0])
            self.acc["groups"].remove(g)

        # packages: state "available" | "installed" | "config" (removed, configuration kept) | "held"
        def _is(self, p):
            return self.pk.get(p) in ("installed", "held")

        def _put(self, ps, how):
            for p in ps:
                if p not in self.pk:
                    raise Fail(1, f"target not found: {p}")
            for p in ps:
                self._mod(how, p)
                self.puts.append((p, self.argv))
                if how == "install":
                    self.pk[p] = "installed" if self.pk[p] != "held" else "held"
                else:
                    self.pk[p] = "config" if self.pm == "apt-get" else "available"

        def _pacman(self, args):
            ops, flags, rest = set(), set(), []
            i, raw = 0, False
            while i < len(args):
                a = args[i]
                if raw or not a.startswith("-") or a == "-":
                    rest.append(a)
                elif a == "--":
                    raw = True
                elif a == "--color":
                    i += 1
                    if i >= len(args) or args[i] not in ("always", "auto", "never"):
                        raise Fail(1, "invalid argument for --color")
                elif a.startswith("--"):
                    n = {"--query": "Q", "--sync": "S", "--remove": "R", "--list": "l", "--info": "i"}.get(a)
                    (ops if n in ("Q", "S", "R") else flags).add(n or a)
                else:
                    for c in a[1:]:
                        (ops if c in "QSRUT" else flags).add(c)
                i += 1
            if len(ops) != 1:
                raise Fail(1, "only one operation may be used at a time")
            op = ops.pop()
            if op == "Q":
                if all(self._is(p) for p in rest):
                    return "".join(f"{p} /usr/bin/{p}\n" for p in rest).encode()
                raise Fail(1, "error: package was not found")
            if op not in "SR":
                raise Fail(1, "unsupported")
            if "--noconfirm" not in flags:
                raise Fail(1, "no answer to the confirmation prompt")
            if op == "R" and not all(self._is(p) for p in rest):
                raise Fail(1, "error: target not found")
            self._put(rest, "install" if op == "S" else "remove")
            return b""

        def _dpkg(self, args):
            show = fmt = False
            rest, raw, fs = [], False, None
            i = 0
            while i < len(args):
                a = args[i]
                if raw or not a.startswith("-"):
                    rest.append(a)
                elif a == "--":
                    raw = True
                elif a in ("-W", "--show", "-s", "--status"):
                    show = True
                elif a == "-f" or a == "--showformat":
                    i += 1
                    fs = args[i]
                elif a.startswith("--showformat="):
                    fs = a.split("=", 1)[1]
                elif a.startswith("-f"):
                    fs = a[2:]
                else:
                    raise Fail(2, f"unknown option {a}")
                i += 1
            if not show:
                raise Fail(2, "unsupported action")
            out, code = b"", 0
            for p in rest:
                s = self.pk.get(p)
                if s in (None, "available"):
                    code = 1
                    continue
                text = {"installed": "install ok installed", "held": "hold ok installed", "config": "deinstall ok config-files"}[s]
                if fs is None:
                    out += f"Package: {p}\nStatus: {text}\n".encode()
                else:
                    out += fs.replace("${Status}", text).replace("${db:Status-Status}", text.split()[-1]).replace("${Package}", p).replace("${binary:Package}", p).replace("\\n", "\n").encode()
            return (code, out)

        def _apt(self, args):
            opts, rest = getopt.gnu_getopt(args, "yqo:t:fmV", ["yes", "assume-yes", "quiet", "no-install-recommends", "option=", "allow-downgrades", "purge", "force-yes", "autoremove", "auto-remove", "reinstall"])
            if not rest:
                raise Fail(100, "no action")
            action, ps = rest[0], rest[1:]
            yes = any(o in ("-y", "--yes", "--assume-yes") for o, _ in opts)
            if action not in ("install", "remove", "purge"):
                raise Fail(100, f"invalid operation {action}")
            for p in ps:
                if p not in self.pk:
                    raise Fail(100, f"E: Unable to locate package {p}")
            if not yes and action != "install" and any(self._is(p) for p in ps):
                raise Fail(1, "Do you want to continue? [Y/n] Abort.")
            if not yes and action == "install" and any(not self._is(p) for p in ps):
                raise Fail(1, "Do you want to continue? [Y/n] Abort.")
            todo = [p for p in ps if self._is(p) != (action == "install")]
            self._put(todo, "install" if action == "install" else "remove")
            return b""

        def _emerge(self, args):
            flags, rest, raw = set(), [], False
            for a in args:
                if raw or not a.startswith("-"):
                    rest.append(a)
                elif a == "--":
                    raw = True
                elif a.startswith("--"):
                    flags.add(a.split("=")[0])
                else:
                    flags.update("-" + c for c in a[1:])
            if flags & {"--ask", "-a"}:
                raise Fail(1, "no answer to the confirmation prompt")
            if "--info" in flags:
                out = b"Portage 3.0 (python 3.12)\n"
                for p in rest:
                    if p not in self.pk:
                        raise Fail(1, f"emerge: there are no ebuilds to satisfy \"{p}\".")
                    out += f"\ncat/{p}-1.0::gentoo ".encode() + (b"was" if self._is(p) else b"would be") + b" built with the following:\nUSE=\"\"\n"
                return out
            if flags & {"--depclean", "-c", "--unmerge", "-C"}:
                for p in rest:
                    if p not in self.pk:
                        raise Fail(1, "no packages selected")
                self._put([p for p in rest if self._is(p)], "remove")
                return b""
            if flags & {"--pretend", "-p"}:
                return b""
            if not rest:
                raise Fail(1, "nothing to do")
            self._put(rest, "install")
            if flags & {"--oneshot", "-1"}:
                self.log.append("oneshot:" + ",".join(rest))
            return b""

        # services: unit -> {"active": ActiveState, "file": UnitFileState}
        def _systemctl(self, args):
            mgr, prop, value, rest, now, raw = "system", [], False, [], False, False
            i = 0
            while i < len(args):
                a = args[i]
                if raw or not a.startswith("-"):
                    rest.append(a)
                elif a == "--":
                    raw = True
                elif a == "--user":
                    mgr = "user"
                elif a == "--system":
                    mgr = "system"
                elif a == "--value":
                    value = True
                elif a in ("-p", "--property"):
                    i += 1
                    prop += args[i].split(",")
                elif a.startswith("--property="):
                    prop += a.split("=", 1)[1].split(",")
                elif a.startswith("-p"):
                    prop += a[2:].split(",")
                elif a == "--now":
                    now = True
                elif a in ("--quiet", "-q", "--no-pager", "--no-ask-password", "--no-block"):
                    pass
                else:
                    raise Fail(1, f"unrecognized option {a}")
                i += 1
            if not rest:
                raise Fail(1, "no verb")
            verb, names = rest[0], rest[1:]
            db = self.units[mgr]
            if verb == "daemon-reload":
                self.reloads[mgr] += 1
                self._mod(mgr, verb)
                return b""

            def unit(n):
                return n if re.search(r"\.(service|socket|timer|target|mount)$", n) else n + ".service"
            if verb == "show":
                out = []
                for n in names:
                    u = db.get(unit(n))
                    vals = {"ActiveState": u["active"] if u else "inactive", "UnitFileState": u["file"] if u else "", "LoadState": "loaded" if u else "not-found"}
                    for p in prop:
                        out.append(vals.get(p, "") if value else f"{p}={vals.get(p, '')}")
                return ("\n".join(out) + "\n").encode()
            if verb == "is-active":
                u = db.get(unit(names[0]))
                s = u["active"] if u else "inactive"
                return (0 if s in ("active", "reloading") else 3, s.encode() + b"\n")
            if verb == "is-enabled":
                u = db.get(unit(names[0]))
                s = u["file"] if u else "not-found"
                return (0 if s in ("enabled", "enabled-runtime", "static", "alias", "indirect", "generated") else 1, s.encode() + b"\n")
            for n in names:
                if unit(n) not in db:
                    raise Fail(5, f"Unit {unit(n)} not found.")
                u = db[unit(n)]
                if verb in ("start", "restart", "reload-or-restart", "try-restart", "stop", "reload"):
                    if verb == "reload" and u["active"] not in ("active", "reloading"):
                        raise Fail(1, "unit is not active, cannot reload.")
                    if u["file"] == "masked" and verb in ("start", "restart"):
                        raise Fail(1, "unit is masked")
                    self._mod(mgr, verb, unit(n))
                    self.log.append(f"{mgr}:{verb}:{unit(n)}")
                    u["active"] = "inactive" if verb == "stop" else "active"
                elif verb in ("enable", "disable"):
                    if u["file"] == "masked" and verb == "enable":
                        raise Fail(1, "unit is masked")
                    self._mod(mgr, verb, unit(n))
                    if u["file"] in ("enabled", "disabled", "enabled-runtime"):
                        u["file"] = verb + "d"
                    if now:
                        u["active"] = "active" if verb == "enable" else "inactive"
                else:
                    raise Fail(1, f"Unknown command verb {verb}.")
            return b""

    return SimConnector
