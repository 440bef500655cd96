"""Runs a dispatcher with a substituted account database. argv: <db json file> <uid,gid or -> <dispatcher> <args...>"""
import collections
import json
import os
import runpy
import sys
import types


def install(dbfile):
    import grp as rgrp
    import pwd as rpwd
    sp_t = collections.namedtuple("struct_spwd", "sp_namp sp_pwdp sp_lstchg sp_min sp_max sp_warn sp_inact sp_expire sp_flag")

    def db():
        with open(dbfile, encoding="utf-8", errors="surrogateescape") as f:
            return json.load(f)

    def check(n):
        if not isinstance(n, str):
            raise TypeError("name must be str")
        if "\0" in n:
            raise ValueError("embedded null byte")

    def pw(e):
        return rpwd.struct_passwd((e["name"], "x", e["uid"], e["gid"], e["gecos"], e["home"], e["shell"]))

    def gr(e):
        return rgrp.struct_group((e["name"], "x", e["gid"], list(e["members"])))

    def find(kind, key, v, what):
        for e in db()[kind]:
            if e[key] == v:
                return e
        raise KeyError(f"{what}: {v!r}")

    def getpwnam(n):
        check(n)
        return pw(find("users", "name", n, "getpwnam(): name not found"))

    def getgrnam(n):
        check(n)
        return gr(find("groups", "name", n, "getgrnam(): name not found"))

    def getspnam(n):
        check(n)
        e = find("users", "name", n, "getspnam(): name not found")
        if e["hash"] is None:
            raise KeyError("getspnam(): name not found")
        return sp_t(e["name"], e["hash"], 1, 0, 99999, 7, -1, -1, -1)

    p, g, s = types.ModuleType("pwd"), types.ModuleType("grp"), types.ModuleType("spwd")
    p.struct_passwd, g.struct_group, s.struct_spwd = rpwd.struct_passwd, rgrp.struct_group, sp_t
    p.getpwnam, p.getpwuid, p.getpwall = getpwnam, lambda i: pw(find("users", "uid", int(i), "getpwuid(): uid not found")), lambda: [pw(e) for e in db()["users"]]
    g.getgrnam, g.getgrgid, g.getgrall = getgrnam, lambda i: gr(find("groups", "gid", int(i), "getgrgid(): gid not found")), lambda: [gr(e) for e in db()["groups"]]
    s.getspnam, s.getspall = getspnam, lambda: [getspnam(e["name"]) for e in db()["users"] if e["hash"] is not None]
    # the C library's view of group membership, should the code prefer it
    os.getgrouplist = lambda n, gid: sorted({gid} | {e["gid"] for e in db()["groups"] if n in e["members"]})
    sys.modules["pwd"], sys.modules["grp"], sys.modules["spwd"] = p, g, s


if __name__ == "__main__":
    install(sys.argv[1])
    target = sys.argv[2]
    sys.argv = sys.argv[2:]
    runpy.run_path(target, run_name="__main__")
