"""C29: what an inventory module overrides is what is used."""
import contextlib
import inspect
import io
import os

from hypothesis import strategies as st

from vf import env, stubconn, trace
from vf.core import Check, HarnessError, Outcome, Violation
from vf.hostenv import wipe

GROUPS = ["web", "db", "all"]
HOOKS = ["qualify_url", "extract_hostname", "group_module_file", "host_module_file", "base_dir", "base_remote_settings", "dirs", "helper"]
SETTINGS = {"file_mode": ["640", "0644", "4755"], "dir_mode": ["755", "0750"], "umask": ["022", "0", "027"], "cwd": ["/", "/tmp", "/usr"]}


def strategy():
    host = st.fixed_dictionaries({"n": st.sampled_from(["h1", "h2", "srv.example", "x-y"]), "url": st.sampled_from(["bare", "stub", "stub", "alias"]), "form": st.sampled_from(["dict", "dict", "decl", "str"]), "name": st.sampled_from([False, False, True]), "groups": st.lists(st.sampled_from(["web", "db"]), max_size=2, unique=True),
                                  "file": st.sampled_from([False, False, False, True])})
    return st.fixed_dictionaries({"hooks": st.lists(st.sampled_from(HOOKS), max_size=5, unique=True), "style": st.sampled_from(["def", "lambda", "class"]), "hosts": st.lists(host, min_size=1, max_size=3, unique_by=lambda h: h["n"]),
                                  "none_groups": st.lists(st.sampled_from(GROUPS), max_size=1), "none_hosts": st.booleans(), "missing": st.lists(st.sampled_from(GROUPS), max_size=1), "gfile": st.sampled_from([None, None, "web", "db"]),
                                  "settings": st.fixed_dictionaries({k: st.sampled_from(v) for k, v in SETTINGS.items()}), "user": st.sampled_from(["root", "someone"]), "groups_decl": st.booleans(),
                                  "how": st.sampled_from(["abs", "here", "above", "link"])})


def Ctx(scratch):
    env.reset_globals()
    stubconn.FAULTS.clear()
    stubconn.register()
    return scratch


def hit(kind, path):
    return f"import vf.trace as _t\nimport fora as _f\n_t.hit({kind!r}, {path!r}, name, globals().get('helper', lambda x: None)('z'))\n" + (f"from_host = {path!r}\n" if kind == "host" else "")


def run(case, ctx):
    import fora
    from fora import loader
    from fora.loader import load_inventory, run_script
    from fora.connection import open_connection
    root = os.path.join(ctx, "inv")
    os.makedirs(root, exist_ok=True)
    wipe(root)
    hooks = set(case["hooks"])
    base = os.path.join(root, "other base") if "base_dir" in hooks else root
    gdir, hdir = ("my groups", "my hosts") if "dirs" in hooks else ("groups", "hosts")
    src = []

    def define(name, args, body):
        if case["style"] == "lambda":
            src.append(f"{name} = lambda {args}: {body}\n")
        elif case["style"] == "class":
            src.append(f"class _C_{name}:\n    def __call__(self{', ' if args else ''}{args}):\n        return {body}\n{name} = _C_{name}()\n")
        else:
            src.append(f"def {name}({args}):\n    return {body}\n")
    src.append("import os\nfrom fora.remote_settings import RemoteSettings as _RS\n")
    if "qualify_url" in hooks:
        define("qualify_url", "url", "'vfstub:q.' + url if ':' not in url else 'vfstub:al.' + url[3:] if url.startswith('vm:') else url")
    if "extract_hostname" in hooks:
        define("extract_hostname", "url", "'name-of-' + url.split(':')[-1].strip('/')")
    if "group_module_file" in hooks:
        define("group_module_file", "name", f"None if name in {case['none_groups']!r} else os.path.join({root!r}, 'alt', 'group-' + name + '.py')")
    if "host_module_file" in hooks:
        define("host_module_file", "name", f"None if {case['none_hosts']!r} else os.path.join({root!r}, 'alt', 'host-' + name + '.py')")
    if "base_dir" in hooks:
        define("base_dir", "", repr(base))
    if "dirs" in hooks:
        src.append(f"groups_dir = {gdir!r}\nhosts_dir = {hdir!r}\n")
    s = case["settings"]
    if "base_remote_settings" in hooks:
        define("base_remote_settings", "", f"_RS(as_user={case['user']!r}, as_group='root', owner={case['user']!r}, group='root', file_mode={s['file_mode']!r}, dir_mode={s['dir_mode']!r}, umask={s['umask']!r}, cwd={s['cwd']!r})")
    if "helper" in hooks:
        src.append("def helper(x):\n    return 'helped ' + x\n")
    declared = case["groups_decl"]
    hosts, decls = [], []
    for h in case["hosts"]:
        url = h["n"] if h["url"] == "bare" else "vfstub:" + h["n"]
        d = {"url": url, "groups": h["groups"]}
        if h["name"]:
            d["name"] = "N" + h["n"]
        if h["url"] == "alias" and "qualify_url" in hooks:
            # a name of the inventory's own for a schema
            url = d["url"] = "vm:" + h["n"]
        q = "vfstub:al." + h["n"] if url.startswith("vm:") else url if ":" in url else ("vfstub:q." + url if "qualify_url" in hooks else "ssh://" + url)
        name = d.get("name") or ("name-of-" + q.split(":")[-1].strip("/") if "extract_hostname" in hooks else (q.split(":", 1)[1].lstrip("/")))
        if h["file"]:
            d["file"] = f"explicit/{h['n']}.py"
        hosts.append({**h, "qurl": q, "rname": name})
        decls.append(d)
    if len({h["rname"] for h in hosts}) != len(hosts):
        return Outcome(False, ["duplicate names"])
    gfile = case["gfile"] if declared else None
    if declared:
        src.append("groups = [" + ", ".join(repr({"name": g, "file": f"explicit/g-{g}.py"} if g == gfile else g) for g in ("web", "db")) + "]\n")
    forms = [repr(d["url"]) if h.get("form") == "str" and set(d) == {"url", "groups"} and not d["groups"] else f"_HD(**{d!r})" if h.get("form") == "decl" else repr(d) for h, d in zip(hosts, decls)]
    src.append("from fora.inventory_wrapper import HostDeclaration as _HD\n" + f"hosts = [{', '.join(forms)}]\n")
    inv = os.path.join(root, "inventory.py")

    def w(path, content):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(content)
    w(inv, "".join(src))
    # modules at every place that could be looked at; each says where it is
    for b in (root, os.path.join(root, "other base")):
        for gd in ("groups", "my groups"):
            for g in GROUPS:
                if g not in case["missing"]:
                    w(os.path.join(b, gd, g + ".py"), hit("group", os.path.join(b, gd, g + ".py")))
        for hd in ("hosts", "my hosts"):
            for h in hosts:
                for n in (h["rname"], h["n"]):
                    w(os.path.join(b, hd, n + ".py"), hit("host", os.path.join(b, hd, n + ".py")))
        for h in hosts:
            w(os.path.join(b, "explicit", h["n"] + ".py"), hit("host", os.path.join(b, "explicit", h["n"] + ".py")))
        for g in GROUPS:
            w(os.path.join(b, "explicit", f"g-{g}.py"), hit("group", os.path.join(b, "explicit", f"g-{g}.py")))
    for g in GROUPS:
        if g not in case["missing"]:
            w(os.path.join(root, "alt", f"group-{g}.py"), hit("group", os.path.join(root, "alt", f"group-{g}.py")))
    for h in hosts:
        w(os.path.join(root, "alt", f"host-{h['rname']}.py"), hit("host", os.path.join(root, "alt", f"host-{h['rname']}.py")))

    def group_file(g):
        if g == gfile:
            return os.path.join(base, "explicit", f"g-{g}.py")
        if g in case["missing"]:
            return None
        if "group_module_file" in hooks:
            return None if g in case["none_groups"] else os.path.join(root, "alt", f"group-{g}.py")
        return os.path.join(base, gdir, g + ".py")

    def host_file(h):
        if h["file"]:
            return os.path.join(base, "explicit", h["n"] + ".py")
        if "host_module_file" in hooks:
            return None if case["none_hosts"] else os.path.join(root, "alt", f"host-{h['rname']}.py")
        return os.path.join(base, hdir, h["rname"] + ".py")
    desc = f"hooks {sorted(hooks)}, hosts {decls}"
    env.reset_globals()
    trace.reset()
    # where the inventory is must not depend on how it was named and what the working directory is later
    how = case.get("how", "abs")
    if how == "link":
        os.symlink(root, os.path.join(root, "alt link"))
    given = {"abs": inv, "here": "inventory.py", "above": "inv/inventory.py", "link": "alt link/inventory.py"}[how]
    old = os.getcwd()
    try:
        os.chdir(ctx if how == "above" else root)
        try:
            load_inventory(given)
        except Exception as e:
            raise Violation(f"{desc}: loading {given} failed: {e!r}")
    finally:
        os.chdir(old)
    events = [list(e) for e in trace.events]
    got = [(n, h.url) for n, h in fora.inventory.loaded_hosts.items()]
    want = [(h["rname"], h["qurl"]) for h in hosts]
    if got != want:
        raise Violation(f"{desc}: hosts are {got}, expected {want}")
    hv = "helped z" if "helper" in hooks else None
    i = 0
    for h in hosts:
        gs = {g: group_file(g) for g in set(h["groups"]) | {"all"}}
        files = sorted(f for f in gs.values() if f)
        hf = host_file(h)
        mine = events[i:i + len(files) + (hf is not None)]
        i += len(mine)
        ge = sorted(e[1] for e in mine if e[0] == "group")
        he = [e[1] for e in mine if e[0] == "host"]
        if ge != files or he != ([hf] if hf else []):
            raise Violation(f"{desc}: for host {h['rname']} the modules {ge + he} were loaded, expected {files + [hf]}")
        for e in mine:
            if e[3] != hv:
                raise Violation(f"{desc}: {e[1]} saw helper() = {e[3]!r}, expected {hv!r}")
        host = fora.inventory.loaded_hosts[h["rname"]]
        if getattr(host, "from_host", None) != hf or ("helper" in hooks and host.helper("y") != "helped y"):
            raise Violation(f"{desc}: host {h['rname']}: variables are not those of its module {hf}")
    if i != len(events):
        raise Violation(f"{desc}: more modules were loaded: {events[i:]}")
    # execution defaults
    script = os.path.join(root, "scripts", "script.py")
    places = {"base_dir": base, "group_module_file": os.path.join(root, "alt", "group-web.py") if "group_module_file" in hooks else os.path.join(base, gdir, "web.py"),
              "host_module_file": os.path.join(root, "alt", "host-h1.py") if "host_module_file" in hooks else os.path.join(base, hdir, "h1.py")}
    if "group_module_file" in hooks and "web" in case["none_groups"]:
        places["group_module_file"] = None
    if "host_module_file" in hooks and case["none_hosts"]:
        places["host_module_file"] = None
    w(script, "_i = __import__('fora').inventory\n__import__('vf.trace').trace.hit('places', _i.base_dir(), _i.group_module_file('web'), _i.host_module_file('h1'), sorted(_i.available_groups()))\n"
      "import fora as _f\nimport vf.trace as _t\n_d = _f.script.current_defaults()\n_t.hit('defaults', _d.as_user, _d.as_group, _d.owner, _d.group, _d.file_mode, _d.dir_mode, _d.umask, _d.cwd)\n_f.host.connection.run(['x'])\n")
    exp = s if "base_remote_settings" in hooks else {"file_mode": "600", "dir_mode": "700", "umask": "077", "cwd": "/tmp"}
    seen = 0
    for h in hosts:
        if not h["qurl"].startswith("vfstub:"):
            continue
        seen += 1
        host = fora.inventory.loaded_hosts[h["rname"]]
        trace.reset()
        with contextlib.redirect_stdout(io.StringIO()):
            with open_connection(host):
                fora.host = host
                run_script(script, inspect.getouterframes(inspect.currentframe())[0], name="vf")
                fora.host = None
        d = next(e for e in trace.events if e[0] == "defaults")
        p = next(e for e in trace.events if e[0] == "places")
        if list(p[1:4]) != list(places.values()):
            raise Violation(f"{desc}, loaded as {given}: in a script, base_dir, group_module_file('web') and host_module_file('h1') are {p[1:4]}, expected {places}")
        there = sorted(f[:-3] for f in os.listdir(os.path.join(root, gdir)) if f.endswith(".py"))
        if p[4] != there:
            raise Violation(f"{desc}, loaded as {given}: in a script, the available groups are {p[4]}, expected {there}")
        u, g = "u-" + h["qurl"], "g-" + h["qurl"]
        if list(d[1:5]) != [u, g, u, g]:
            raise Violation(f"{desc}: default identity is {d[1:5]}, the connection's is {[u, g]}")
        if [int(x, 8) for x in d[5:8]] != [int(exp[k], 8) for k in ("file_mode", "dir_mode", "umask")] or d[8] != exp["cwd"]:
            raise Violation(f"{desc}: base defaults are {d[5:]}, the inventory says {exp}")
        r = next(e for e in trace.events if e[0] == "run")
        if (int(r[5], 8), r[6]) != (int(exp["umask"], 8), exp["cwd"]) or (r[3], r[4]) not in ((u, g), (None, None)):
            raise Violation(f"{desc}: a command ran with {r[3:]}, expected umask and directory of {exp}, identity {u}, {g}")
    return Outcome(bool(hooks), sorted(hooks) + (["connected"] if seen else []))


CHECK = Check(id="C29", strategy=strategy, run=run, quick=1500, thorough=30000, context=Ctx, batch=150, case_limit=60,
              rule="generated inventories overriding any subset of the inventory's functions and directories, with decoy modules at every other place; loaded modules, names, urls, exported functions and execution defaults compared with what "
                   "the overriding functions return; non-trivial: at least one thing is overridden")
