"""Generated inventories: declarations, module programs, and their reference semantics."""
import copy
import os

from hypothesis import strategies as st

from vf import trace
from vf.core import HarnessError, Violation

GROUPS = ["web", "db", "base", "a-b", "x.y", "linux", "g1", "g2", "zz", "Aa"]
ODD_GROUPS = ["web ", "un ïté"]
VARS = ["v1", "v2", "v3", "listen", "pkgs", "cfg"]
ALL_VARS = VARS + ["ring"]      # ring refers to itself, it is never deleted


# -- programs ----------------------------------------------------------------------------------------

def code(prog):
    out = []
    for s in prog:
        op, v = s[0], s[1]
        if op == "set":
            out.append(f"{v} = {s[2]!r}")
        elif op == "append":
            out.append(f"if isinstance(globals().get({v!r}), list): {v}.append({s[2]!r})")
        elif op == "put":
            out.append(f"if isinstance(globals().get({v!r}), dict): {v}[{s[2]!r}] = {s[3]!r}")
        elif op == "setof":
            out.append(f"{v} = set({s[2]!r})")
        elif op == "add":
            out.append(f"if isinstance(globals().get({v!r}), set): {v}.add({s[2]!r})")
        elif op == "nest":
            out.append(f"{v} = {{'in': [{s[2]!r}], 'k': ({s[2]!r}, [])}}")
        elif op == "cyc":
            out.append(f"{v} = {{'in': [{s[2]!r}]}}\n{v}['me'] = [{v}]")
        elif op == "nappend":
            out.append(f"if isinstance(globals().get({v!r}), dict) and isinstance({v}.get('in'), list): {v}['in'].append({s[2]!r})")
        elif op == "obj":
            out.append(f"class _Obj: tag = {s[2]!r}\n{v} = _Obj()")
        elif op == "del":
            out.append(f"if {v!r} in globals(): del {v}")
        elif op == "derive":
            out.append(f"{v} = 'd:' + repr(globals().get({s[2]!r}))")
        elif op == "private":
            out.append(f"_{v} = 'private'\nimport os as imported_{v}")
    return "\n".join(out) + "\n"


ASSIGN = ("set", "setof", "nest", "cyc", "obj", "derive", "del")
MODIFY = ("append", "put", "add", "nappend")


def execute(prog, ns):
    for s in prog:
        op, v = s[0], s[1]
        if op == "set":
            ns[v] = copy.deepcopy(s[2])
        elif op == "append":
            if isinstance(ns.get(v), list):
                ns[v].append(copy.deepcopy(s[2]))
        elif op == "put":
            if isinstance(ns.get(v), dict):
                ns[v][s[2]] = copy.deepcopy(s[3])
        elif op == "setof":
            ns[v] = set(s[2])
        elif op == "add":
            if isinstance(ns.get(v), set):
                ns[v].add(s[2])
        elif op == "nest":
            ns[v] = {"in": [s[2]], "k": (s[2], [])}
        elif op == "cyc":
            ns[v] = {"in": [s[2]]}
            ns[v]["me"] = [ns[v]]
        elif op == "nappend":
            if isinstance(ns.get(v), dict) and isinstance(ns[v].get("in"), list):
                ns[v]["in"].append(s[2])
        elif op == "del":
            ns.pop(v, None)
        elif op == "derive":
            ns[v] = "d:" + repr(ns.get(s[2]))


def values():
    scal = st.one_of(st.none(), st.booleans(), st.integers(-3, 3), st.sampled_from(["", "a", "b c", "é", "x" * 60, "'", "\n"]))
    return st.one_of(scal, st.lists(scal, max_size=3), st.dictionaries(st.sampled_from(["k", "l"]), scal, max_size=2))


def programs(vars_=VARS, dels=True):
    v = st.sampled_from(vars_)
    ops = [st.tuples(st.just("set"), v, values()), st.tuples(st.just("set"), v, values()), st.tuples(st.just("append"), v, st.sampled_from(["p", "q", 1, None])),
           st.tuples(st.just("put"), v, st.sampled_from(["k", "l", "m"]), st.sampled_from([1, "z", None])), st.tuples(st.just("derive"), v, v), st.tuples(st.just("setof"), v, st.lists(st.integers(1, 5), max_size=3)), st.tuples(st.just("add"), v, st.integers(1, 5)),
           st.tuples(st.just("cyc"), st.just("ring"), st.sampled_from(["n", 1])), st.tuples(st.just("nappend"), st.just("ring"), st.sampled_from(["p", 2])), st.tuples(st.just("nest"), v, st.sampled_from(["n", 1])), st.tuples(st.just("nappend"), v, st.sampled_from(["p", 2])), st.tuples(st.just("private"), v)]
    if dels:
        ops.append(st.tuples(st.just("del"), v))
    return st.lists(st.one_of(*ops).map(list), max_size=5)


# -- declarations ------------------------------------------------------------------------------------

@st.composite
def inventories(draw, prog=programs(), max_groups=6, max_hosts=4, host_vars=True, min_groups=0, mods=(True, True, True, False), names=GROUPS + ODD_GROUPS):
    """A valid inventory. Group i may only depend on groups with a smaller index."""
    n = draw(st.integers(min_groups, max_groups))
    gnames = draw(st.permutations(names))[:n]
    explicit = draw(st.sampled_from([True, True, True, False]))
    groups = []
    density = draw(st.sampled_from([0, 1, 2, 4]))
    for i, g in enumerate(gnames):
        groups.append({"name": g, "after": [], "before": [], "mod": draw(st.sampled_from(list(mods))), "file": draw(st.sampled_from([None, None, None, "custom"])), "prog": draw(prog),
                       "form": draw(st.sampled_from(["dict", "obj", "str"]))})
    if explicit and density:
        for j in range(n):
            for i in range(j):
                if draw(st.integers(0, 4)) < density:
                    k = draw(st.integers(0, 3))
                    if k != 1:
                        groups[j]["after"].append(gnames[i])
                    if k in (1, 2):
                        groups[i]["before"].append(gnames[j])
                    if k == 3:
                        groups[j]["after"].append(gnames[i])     # repeated
        for g in groups:
            if draw(st.integers(0, 5)) == 0:
                g["after"].append("all")
    al = {"name": "all", "declare": draw(st.booleans()), "mod": draw(st.booleans()), "prog": draw(prog), "file": None, "form": draw(st.sampled_from(["dict", "obj", "str"])),
          "before": [g for g in gnames if draw(st.integers(0, 6)) == 0] if explicit else [], "after": []}
    hosts = []
    for h in range(draw(st.integers(1, max_hosts))):
        nm = f"host{h}"
        url = draw(st.sampled_from([nm, f"root@{nm}", f"ssh://{nm}", f"ssh://u@{nm}:2222", f"local:{nm}", f"ssh:{nm}"]))
        hosts.append({"url": url, "name": draw(st.sampled_from([None, None, nm])), "groups": draw(st.lists(st.sampled_from(gnames + ["all"]), max_size=5)) if gnames else draw(st.lists(st.just("all"), max_size=1)),
                      "vars": draw(st.dictionaries(st.sampled_from(VARS), values(), max_size=2)) if host_vars else {}, "mod": draw(st.booleans()), "file": draw(st.sampled_from([None, None, None, "custom"])), "prog": draw(prog),
                      "form": draw(st.sampled_from(["dict", "obj", "str"]))})
    scal = st.one_of(st.none(), st.integers(0, 3), st.sampled_from(["inv", ""]))
    return {"explicit": explicit, "groups": groups, "all": al, "hosts": hosts, "order": draw(st.permutations(list(range(n + 1)))), "inv_vars": draw(st.dictionaries(st.sampled_from(VARS), scal, max_size=2)),
            "path": draw(st.sampled_from(["abs", "abs", "rel"])), "dirs": draw(st.sampled_from([None, None, ["grp", "hst"]])),
            # equal lists of groups are one list object (a variable of the inventory)
            "share": draw(st.sampled_from([False, False, True]))}


def used(inv):
    """Names of the groups that exist in this inventory (undeclared ones exist only if a host uses them)."""
    if inv["explicit"]:
        return [g["name"] for g in inv["groups"]]
    u = {g for h in inv["hosts"] for g in h["groups"]}
    return [g["name"] for g in inv["groups"] if g["name"] in u]


def ancestors(inv):
    """group -> set of groups it transitively depends on (including all)."""
    names = used(inv)
    direct = {g: {"all"} for g in names}
    direct["all"] = set()
    if inv["explicit"]:
        for g in inv["groups"]:
            direct[g["name"]] |= {a for a in g["after"] if a != g["name"]}
            for b in g["before"]:
                direct[b].add(g["name"])
    out = {}
    for g in direct:
        seen, todo = set(), [g]
        while todo:
            for p in direct[todo.pop()]:
                if p not in seen:
                    seen.add(p)
                    todo.append(p)
        out[g] = seen
    return out


def normalise(inv):
    """Drops the statements that make a redefinition ambiguous; returns (inventory, whether anything was dropped)."""
    inv = copy.deepcopy(inv)
    anc = ancestors(inv)
    touched, assigned = {}, {}
    dropped = False
    for g in [inv["all"]] + [g for g in inv["groups"] if g["name"] in anc]:
        if not g["mod"]:
            continue
        ok = anc[g["name"]] | {g["name"]}
        keep = []
        for s in g["prog"]:
            op, v = s[0], s[1]
            if op in ASSIGN:
                if not touched.get(v, set()) <= ok:
                    dropped = True
                    continue
                assigned.setdefault(v, set()).add(g["name"])
                touched.setdefault(v, set()).add(g["name"])
            elif op in MODIFY:
                if not assigned.get(v, set()) <= ok:
                    dropped = True
                    continue
                touched.setdefault(v, set()).add(g["name"])
            keep.append(s)
        g["prog"] = keep
    return inv, dropped


def write(inv, root):
    """Writes the inventory below root; returns the path to give to the program."""
    gdir, hdir = inv["dirs"] or ("groups", "hosts")
    for d in (gdir, hdir, "custom dir"):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    src = ["import fora.inventory_wrapper as _iw\n"]
    if inv["dirs"]:
        src.append(f"groups_dir = {gdir!r}\nhosts_dir = {hdir!r}\n")
    for k, v in inv["inv_vars"].items():
        src.append(f"{k} = {v!r}\n")

    def decl(cls, d, keys, strkey):
        share = inv.get("share", False)
        kw = {k: d[k] for k in keys if d.get(k) not in (None, [], {}) or share and d.get(k) == []}
        form = d["form"]
        if share and form != "str":
            def ref(v):
                n = shared.setdefault(repr(v), f"_shared{len(shared)}")
                if len(shared) > len(defs):
                    defs.append(f"{n} = {v!r}\n")
                return n
            text = {k: ref(v) if isinstance(v, list) else repr(v) for k, v in kw.items()}
            if form == "obj":
                return f"_iw.{cls}(" + ", ".join(f"{k}={v}" for k, v in text.items()) + ")"
            return "{" + ", ".join(f"{k!r}: {v}" for k, v in text.items()) + "}"
        kw = {k: v for k, v in kw.items() if v != []}
        if form == "str" and set(kw) == {strkey}:
            return repr(kw[strkey])
        if form == "obj":
            return f"_iw.{cls}(" + ", ".join(f"{k}={v!r}" for k, v in kw.items()) + ")"
        return repr(kw)

    def module(kind, d, name, folder):
        body = f"import vf.trace as _vt\nimport fora as _fora\n_vt.hit({kind!r}, {name!r}, globals().get('name'), getattr(_fora.{kind}, 'name', None))\n" + code(d["prog"])
        rel = None
        if d["file"] == "custom":
            rel = os.path.join("custom dir", f"{kind}_{name}.py")
        elif d["file"] == "missing":
            rel = "custom dir/does-not-exist.py"
        if d["mod"] and d["file"] != "missing":
            with open(os.path.join(root, rel or os.path.join(folder, name + ".py")), "w") as f:
                f.write(body)
            if d["file"] == "custom":
                # a decoy at the default location must not be loaded
                with open(os.path.join(root, folder, name + ".py"), "w") as f:
                    f.write(f"import vf.trace as _vt\n_vt.hit('decoy', {name!r})\n")
        elif d["file"] == "custom":
            rel = None      # no module file: no explicit path either
        return rel

    shared, defs = {}, []
    gd = []
    allg = inv["groups"] + ([inv["all"]] if inv["all"]["declare"] else [])
    for g in inv["groups"]:
        rel = module("group", g, g["name"], gdir)
        gd.append(decl("GroupDeclaration", {**g, "file": rel if inv["explicit"] else None}, ["name", "file", "after", "before"], "name"))
        if not inv["explicit"] and g["file"] == "custom" and g["mod"]:
            raise HarnessError("undeclared groups have no custom file")
    module("group", inv["all"], "all", gdir)
    if inv["all"]["declare"]:
        gd.append(decl("GroupDeclaration", inv["all"], ["name", "after", "before"], "name"))
    for d in inv.get("extra_groups", []):
        gd.append(decl("GroupDeclaration", d, ["name", "after", "before"], "name"))
    if inv["explicit"]:
        order = [i for i in inv["order"] if i < len(gd)] + [i for i in range(len(gd)) if i not in inv["order"]]
        src.append("groups = [" + ", ".join(gd[i] for i in order) + "]\n")
    hd = []
    for h in inv["hosts"]:
        rel = module("host", h, host_name(h), hdir) if host_name(h) else None
        hd.append(decl("HostDeclaration", {**h, "file": rel}, ["url", "name", "file", "groups", "vars"], "url"))
    src.append("hosts = [" + ", ".join(hd) + "]\n")
    p = os.path.join(root, "inventory.py")
    with open(p, "w") as f:
        f.write("".join(src[:1] + defs + src[1:]))
    return p


def host_name(h):
    if h["name"] is not None:
        return h["name"]
    if h["url"] is None:
        return None
    u = h["url"]
    if u.startswith("local:"):
        return u[len("local:"):]
    for p in ("ssh://", "ssh:"):
        if u.startswith(p):
            u = u[len(p):]
            break
    return u.split("@")[-1].split(":")[0]


def host_url(h):
    if h["url"] is None:
        return None
    return h["url"] if ":" in h["url"] else "ssh://" + h["url"]


def clean(inv):
    """Applies the restrictions that keep a generated inventory well-formed."""
    inv = copy.deepcopy(inv)
    if not inv["explicit"]:
        inv["all"]["declare"] = False
        for g in inv["groups"]:
            g["file"] = None
    return inv


def load(path, how):
    """Loads the inventory in this process; returns ('ok', inventory, events) or ('fatal', exc, events)."""
    import contextlib
    import io
    from vf import env
    env.reset_globals()
    import fora
    from fora.loader import load_inventory
    from fora.utils import FatalError
    trace.reset()
    cwd = os.getcwd()
    try:
        if how == "rel":
            os.chdir(os.path.dirname(path))
            path = os.path.basename(path)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                load_inventory(path)
            except FatalError as e:
                return ("fatal", e, list(trace.events))
        return ("ok", fora.inventory, list(trace.events))
    finally:
        os.chdir(cwd)


def split_events(inv, events):
    """Splits the event list into one chunk per host: returns [(host, [group names in order])], raising on anything irregular."""
    out = []
    i = 0
    anc = ancestors(inv)
    exp = {}
    for h in inv["hosts"]:
        nm = host_name(h)
        gs = set(h["groups"]) | {"all"}
        mods = {g["name"] for g in inv["groups"] + [inv["all"]] if g["mod"] and g["name"] in gs and g.get("file") != "missing"}
        chunk = []
        want = len(mods) + (1 if h["mod"] else 0)
        evs = events[i:i + want]
        i += want
        for e in evs:
            if e[0] == "decoy":
                raise Violation(f"host {nm}: the module at the default location was loaded although another file is declared: {e[1]}")
        gl = [e for e in evs if e[0] == "group"]
        hl = [e for e in evs if e[0] == "host"]
        names = [e[1] for e in gl]
        if sorted(names) != sorted(mods):
            raise Violation(f"host {nm}: loaded the group modules {names}, its groups with modules are {sorted(mods)}")
        if [e[1] for e in hl] != ([nm] if h["mod"] else []):
            raise Violation(f"host {nm}: loaded host modules {[e[1] for e in hl]}")
        if h["mod"] and evs[-1][0] != "host":
            raise Violation(f"host {nm}: a group module was loaded after the host module")
        for e in evs:
            if e[2] != e[1] or e[3] != e[1]:
                raise Violation(f"module {e[1]} saw the name {e[2]!r} and the active {e[0]} {e[3]!r}")
        if "all" in names and names[0] != "all":
            raise Violation(f"host {nm}: `all` was not loaded first: {names}")
        pos = {g: k for k, g in enumerate(names)}
        for g in names:
            for a in anc[g]:
                if a in pos and pos[a] > pos[g]:
                    raise Violation(f"host {nm}: group {g} was loaded before {a}, on which it depends (order {names})")
        out.append((nm, names))
    if i != len(events):
        raise Violation(f"more modules were loaded than the hosts need: {events[i:]}")
    return out
