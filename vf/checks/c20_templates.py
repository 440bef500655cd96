"""C20: variables seen by templates."""
import os
from types import SimpleNamespace

from hypothesis import strategies as st

from vf import env, gens
from vf.core import Check, HarnessError, Outcome, Violation
from vf.guard import make_guard
from vf.hostenv import HostEnv, snap_diff, snapshot, wipe

VARS = ["v1", "_p", "v2", "PORT", "listen", "pkgs", "cfg", "host", "inventory", "context", "src", "dest", "content", "op", "params", "range", "loop"]
SITES = ["inv", "all", "grp", "hostvars", "hostmod", "script", "outer", "context"]
TEXTS = ["", "a", " ", "\n", "\n\n", "# x\n", "é日🐸", "<b>&amp;\"'", "{", "}", "\t", "  x  ", "\\", "%", "\u2028", "a\nb\n", "\r\n", "$HOME", "\x0c", "<>", "\n  ", "\n\t", "\n  x\n  ", "## c\n", "\n## {{ nope }}", "// c\n", "%% if x\n", "# for i in v1\n", "-- ", "<% v1 %>", "${v1}", "<!-- c -->"]
ATTRS = ["name", "url", "groups", "v1", "v2", "pkgs", "cfg", "nope"]
IATTRS = ["v1", "v2", "cfg", "nope", "name"]


def values():
    scal = st.one_of(st.none(), st.booleans(), st.integers(-3, 300), st.sampled_from(["", "a", "b c", "é", "<x>&'\"", "{{ v1 }}", "{% raw %}", "\n", "x\n", "\r\n"]))
    return st.one_of(scal, st.lists(scal, max_size=3), st.dictionaries(st.sampled_from(["k", "l", "items", "nope"]), scal, max_size=3))


def nodes():
    v = st.sampled_from(VARS[:6] + VARS)
    leaf = st.one_of(
        st.tuples(st.just("text"), st.sampled_from(TEXTS)), st.tuples(st.just("var"), v), st.tuples(st.just("var"), v), st.tuples(st.just("default"), v, st.sampled_from(["dflt", "<d>"])),
        st.tuples(st.just("hattr"), st.sampled_from(ATTRS)), st.tuples(st.just("iattr"), st.sampled_from(IATTRS)), st.tuples(st.just("item"), v, st.sampled_from(["k", "l", "nope"])),
        st.tuples(st.just("set"), v, st.sampled_from([1, "s"])), st.tuples(st.just("comment"), st.just("note")), st.tuples(st.just("filter"), v, st.sampled_from(["length", "string", "upper"])))
    return st.recursive(leaf, lambda ch: st.one_of(
        st.tuples(st.just("if"), v, st.lists(ch, max_size=3), st.lists(ch, max_size=2)), st.tuples(st.just("truth"), v, st.lists(ch, max_size=2)),
        st.tuples(st.just("for"), v, st.sampled_from(["i", "v1", "pkgs"]), st.lists(ch, max_size=3), st.sampled_from(["", "break", "continue"])), st.tuples(st.just("isundef"), v, st.lists(ch, max_size=2))), max_leaves=6)


def strategy():
    return st.one_of(general(), general(), general().flatmap(focused))


def focused(case):
    """One variable assigned in several places, falsy values included, and looked at first."""
    val = st.one_of(st.sampled_from([None, None, False, 0, "", [], {}]), values())
    v = st.sampled_from(["v1", "pkgs", "_p", "host", "inventory", "name", "url", "groups", "connection"])
    return v.flatmap(lambda v: st.lists(st.tuples(st.sampled_from(SITES if v in ("v1", "pkgs", "_p", "host") else ["script", "outer", "context", "context"]), st.just(v), val).map(list), min_size=1, max_size=5)
                     .flatmap(lambda a: st.lists(st.sampled_from([["var", v], ["none", v], ["default", v, "dflt"], ["truth", v, [["text", "T"]]], ["hattr", v if v not in ("_p", "host", "inventory", "connection") else "url"], ["text", "-"]]), min_size=1, max_size=4)
                              .map(lambda t: {**case, "assign": a, "tpl": t, "focus": True})))


def general():
    assign = st.lists(st.tuples(st.sampled_from(SITES), st.sampled_from(VARS[:6] + VARS), st.one_of(values(), values(), values(), st.just({"__module__": 1}))).map(list), max_size=10)
    return st.fixed_dictionaries({"assign": assign, "tpl": st.lists(nodes(), max_size=6), "nest": st.booleans(), "dest": gens.names(), "earlier": st.booleans(), "slash": st.booleans(), "srclink": st.booleans(), "bare": st.sampled_from([False, False, False, True]),
                                  "old": st.sampled_from([None, b"old\n"]), "tail": st.sampled_from(["", "\n", "\n\n", "x"]), "ctxnone": st.booleans(), "attr": st.one_of(st.just({}), st.fixed_dictionaries({}, optional={"mode": st.sampled_from(["644", "0640", "4755", "000"]), "owner": st.sampled_from(["nobody", "daemon", "root"]), "group": st.sampled_from(["nogroup", "daemon"])})), "dflt": st.booleans(), "dry": st.sampled_from([False] * 6 + [True])})


def source(ns):
    out = []
    for n in ns:
        k = n[0]
        if k == "text":
            out.append(n[1])
        elif k == "var":
            out.append("{{ %s }}" % n[1])
        elif k == "default":
            out.append("{{ %s | default(%r) }}" % (n[1], n[2]))
        elif k == "hattr":
            out.append("{{ host.%s }}" % n[1])
        elif k == "iattr":
            out.append("{{ inventory.%s }}" % n[1])
        elif k == "item":
            out.append("{{ %s[%r] }}" % (n[1], n[2]))
        elif k == "none":
            out.append("{{ %s is none }}" % n[1])
        elif k == "set":
            out.append("{%% set %s = %r %%}" % (n[1], n[2]))
        elif k == "comment":
            out.append("{# %s #}" % n[1])
        elif k == "filter":
            out.append("{{ %s | %s }}" % (n[1], n[2]))
        elif k == "if":
            out.append("{%% if %s is defined %%}%s{%% else %%}%s{%% endif %%}" % (n[1], source(n[2]), source(n[3])))
        elif k == "truth":
            out.append("{%% if %s %%}%s{%% endif %%}" % (n[1], source(n[2])))
        elif k == "isundef":
            out.append("{%% if %s is undefined %%}%s{%% endif %%}" % (n[1], source(n[2])))
        elif k == "for":
            out.append("{%% for %s in %s %%}%s%s{%% endfor %%}" % (n[2], n[1], source(n[3]), "{%% %s %%}-" % n[4] if n[4] else ""))
        else:
            raise HarnessError(k)
    return "".join(out)


class Stub:
    """What a template may see of the host or inventory."""
    def __init__(self, text, attrs):
        self.__dict__.update(attrs)
        self._text = text

    def __str__(self):
        return self._text
    __repr__ = __str__


class Ctx:
    def __init__(self, scratch):
        self.scratch, self.root, self.inv = scratch, os.path.join(scratch, "r"), os.path.join(scratch, "inv")
        for d in (self.root, self.inv, os.path.join(self.inv, "groups"), os.path.join(self.inv, "hosts"), os.path.join(scratch, "s")):
            os.makedirs(d, exist_ok=True)
        env.reset_globals()
        self.he = HostEnv(scratch, connector=make_guard(self.root))

    def close(self):
        self.he.close()


def assign_code(assigns, site):
    out = []
    for s, v, val in assigns:
        if s == site:
            out.append(f"import json as {v}\n" if isinstance(val, dict) and "__module__" in val else f"{v} = {val!r}\n")
    return "".join(out)


MOD = object()


def put(ns, assigns, site):
    for s, v, val in assigns:
        if s == site:
            ns[v] = MOD if isinstance(val, dict) and "__module__" in val else val
    return ns


# names that are fields of the host or inventory objects themselves are not free variables there
RESERVED = {"host": set(), "inv": {"host", "groups", "hosts"}}


def run(case, ctx):
    from jinja2 import Environment, StrictUndefined
    from jinja2.exceptions import TemplateError
    import fora
    from fora.loader import load_inventory
    wipe(ctx.root)
    he = ctx.he
    # `inventory` is a declared field of hosts, so it is no free variable in inventory, group or host modules; modules are no values outside of modules
    A = [a for a in case["assign"] if not (a[1] == "inventory" and a[0] in ("inv", "all", "grp", "hostvars", "hostmod")) and not (isinstance(a[2], dict) and "__module__" in a[2] and a[0] not in ("hostmod", "script", "outer")) and not (a[1].startswith("_") and a[0] == "hostvars")]
    # a group redefining a module-level variable of an independent group would be a conflict: grp depends on all
    w = lambda rel, text: open(os.path.join(ctx.inv, rel), "w").write(text)
    hv = put({}, A, "hostvars")
    w("inventory.py", assign_code(A, "inv") + f"groups = [{{'name': 'grp', 'after': ['all']}}]\nhosts = [{{'url': 'local:h1', 'groups': ['grp'], 'vars': {hv!r}}}, {{'url': 'local:h2', 'vars': {{'v1': 'other', 'v2': 'other', 'pkgs': 'other'}}}}]\n")
    w("groups/all.py", assign_code(A, "all"))
    w("groups/grp.py", assign_code(A, "grp"))
    w("hosts/h1.py", assign_code(A, "hostmod"))
    env.reset_globals()
    with he.quiet():
        load_inventory(os.path.join(ctx.inv, "inventory.py"))
    inv = fora.inventory
    host = inv.loaded_hosts["h1"]
    host.connection = he.connection
    old_inv, old_host = he.inventory, he.host
    src = source(case["tpl"]) + case["tail"]

    # -- what the template must see
    hostns = {}
    for site in ("inv", "hostvars", "all", "grp", "hostmod"):
        put(hostns, A, site)
    cur = put({}, A, "script")
    # names with a leading underscore are private to the module that defines them
    free = lambda d: {k: v for k, v in d.items() if v is not MOD and not k.startswith("_")}
    wrapper = {"name": "h1", "url": "local:h1", "groups": host.groups}
    hs = Stub(str(host), {**free({k: v for k, v in cur.items()}), **wrapper, **hostns})
    for k in [k for k, v in vars(hs).items() if v is MOD]:
        # a module imported by the host module is an attribute of the host, which no generated template looks at meaningfully
        if any(x in src for x in ("host." + k,)):
            return Outcome(False, ["host-module-attr"])
    if "host._" in src or "inventory._" in src:
        return Outcome(False, ["private-attr"])
    ivar = put({}, A, "inv")
    isub = Stub(str(inv), ivar)
    given = None if (case["ctxnone"] and not any(a[0] == "context" for a in A)) else put({}, A, "context")
    exp_vars = {**free(cur), **wrapper, "inventory": isub, "connector": None, "connection": he.connection, **free(hostns), **(given or {})}
    exp_vars["host"], exp_vars["inventory"] = hs, isub
    try:
        expected = Environment(autoescape=False, undefined=StrictUndefined, extensions=["jinja2.ext.loopcontrols"]).from_string(src).render(exp_vars).encode("utf-8")
    except TemplateError as e:
        if type(e).__name__ not in ("UndefinedError",):
            return Outcome(False, ["not a template"])
        expected = None
    except (TypeError, ValueError):
        return Outcome(False, ["template raises a python error"])
    if " object at 0x" in (expected or b"").decode():
        return Outcome(False, ["prints an object"])

    name = case["dest"]
    d1, d2 = os.path.join(ctx.root, "f"), os.path.join(ctx.root, "c")
    os.makedirs(d1), os.makedirs(d2)
    tfile = os.path.join(ctx.scratch, "s", "tpl", name)
    os.makedirs(os.path.dirname(tfile), exist_ok=True)
    try:
        if case.get("srclink"):
            # a link to the template elsewhere: the name of the link counts
            os.symlink("../\x01template", tfile)
        with open(tfile, "w", encoding="utf-8", newline="") as f:
            f.write(src)
        f1, f2 = os.path.join(d1, name), os.path.join(d2, name)
        if case["old"] is not None:
            for p in (f1, f2):
                with open(p, "wb") as f:
                    f.write(case["old"])
        body = "import vf.hostenv as _h\n_h.script_entry(globals())\n"
        sdir = os.path.join(ctx.scratch, "s")
        with open(os.path.join(sdir, "inner.py"), "w") as f:
            f.write(assign_code(A, "script") + body)
        with open(os.path.join(sdir, "outer.py"), "w") as f:
            f.write(assign_code(A, "outer") + "from fora.operations import local as _local\n_local.script('inner.py')\n")
        he.inventory, he.host = inv, host
        keep, he.script = he.script, os.path.join(sdir, "outer.py" if case["nest"] else "inner.py")
        if case.get("earlier"):
            # what an earlier template was given must not be visible to later ones
            def earlier():
                from fora.operations import files
                ep = os.path.join(ctx.scratch, "s", "earlier.j2")
                with open(ep, "w") as f:
                    f.write("{% set v1 = 1 %}{% set PORT = 2 %}{% macro v2() %}{% endmacro %}x")
                stale = {v: "stale" for v in VARS}
                files.template_content("{{ v1 }}{% set v2 = 3 %}", os.path.join(ctx.root, "earlier"), context=dict(stale))
                files.template(src=ep, dest=os.path.join(ctx.root, "earlier"), context=dict(stale))
            he.in_script(earlier)
        before = snapshot(ctx.root)
        results = []

        def body_fn():
            from fora.operations import files
            kw = {} if given is None else {"context": dict(given)}
            kw.update(case["attr"])
            if case["dflt"]:
                with fora.script.defaults(file_mode="751", owner="daemon", group="nogroup"):
                    ops(files, kw)
            else:
                ops(files, kw)

        def ops(files, kw):
            for which in ("file", "content"):
                try:
                    if which == "file":
                        dest = d1 + "/" if case["slash"] else f1
                        r = files.template(src=("tpl/" + name) if not case["bare"] else tfile, dest=dest, **kw)
                    else:
                        r = files.template_content(src, f2, **kw)
                    results.append(("ok", r))
                except Violation:
                    raise
                except Exception as e:
                    results.append(("error", e))
            if given is not None and kw["context"] != given:
                raise Violation(f"the context passed by the user was modified: {kw['context']!r}")
        try:
            he.in_script(body_fn, dry=case["dry"])
        finally:
            he.script = keep
        after = snapshot(ctx.root)
    finally:
        he.inventory, he.host = old_inv, old_host
        if os.path.lexists(tfile):
            os.unlink(tfile)

    if expected is None or case["dry"]:
        d = snap_diff(before, after)
        if d:
            raise Violation(f"{'a template that uses an undefined variable' if expected is None else 'a dry run'} changed files: {d}; template {src!r}")
    for which, (state, r) in zip(("template", "template_content"), results):
        if expected is None:
            if state == "ok":
                raise Violation(f"{which} succeeded, but the template {src!r} uses an undefined variable (visible: {sorted(k for k in exp_vars)})")
            continue
        if state == "error":
            raise Violation(f"{which} failed with {type(r).__name__}: {r}; the template {src!r} is valid and renders to {expected!r}")
        if case["dry"]:
            continue
        got = after.get(("f/" if which == "template" else "c/") + name, {}).get("content")
        if got != expected:
            raise Violation(f"{which} uploaded {got!r}, the template {src!r} renders to {expected!r}")
        import grp
        import pwd
        d = {"mode": "751", "owner": "daemon", "group": "nogroup"} if case["dflt"] else {"mode": "600", "owner": "root", "group": "root"}
        d.update(case["attr"])
        e = after[("f/" if which == "template" else "c/") + name]
        if (int(e["mode"], 8), e["uid"], e["gid"]) != (int(d["mode"], 8), pwd.getpwnam(d["owner"]).pw_uid, grp.getgrnam(d["group"]).gr_gid):
            raise Violation(f"{which} left mode {e['mode']}, uid {e['uid']}, gid {e['gid']}; requested or default: {d}")
        if r.changed is not True and case["old"] is None:
            raise Violation(f"{which} created a file but reports unchanged")
    if len(results) != 2:
        raise HarnessError("operations did not run")
    names = [a[1] for a in A]
    multi = {n for n in names if len({a[0] for a in A if a[1] == n}) > 1}
    labels = ["undefined" if expected is None else "rendered"] + (["shadowed"] if any(("{{ %s" % n) in src or (" %s " % n) in src for n in multi) else [])
    if any(n in ("host", "inventory") for n in names):
        labels.append("host-or-inventory-assigned")
    return Outcome("{{" in src or "{%" in src, labels)


def examples():
    base = {"assign": [], "tpl": [], "nest": False, "dest": "t.conf", "slash": False, "bare": False, "old": None, "tail": "", "ctxnone": True, "attr": {}, "dflt": False, "dry": False}
    return [
        {**base, "assign": [["inv", "v1", "invval"], ["context", "inventory", 3], ["context", "host", 4]], "tpl": [["iattr", "v1"], ["hattr", "name"]]},
        {**base, "assign": [[s, "v1", s] for s in SITES], "tpl": [["var", "v1"], ["hattr", "v1"], ["iattr", "v1"]], "nest": True},
        {**base, "assign": [["outer", "v2", 1]], "tpl": [["var", "v2"]], "nest": True},
        *({**base, "assign": [["script", "v1", ["a", "b"]]], "tpl": [["text", t], n, ["text", u]]} for t in ("  ", "\n\t", "a\n  ", "## c\n", "# for i in v1\n", "%% if v1\n", "x ## c\n", "// c {{ 1 }}\n", "<% v1 %>", "${v1}")
          for n in (["for", "v1", "i", [["text", "\n  x\n  "]], ""], ["truth", "v1", [["text", "\n"]]], ["comment", "note"], ["var", "v1"]) for u in ("", "\n  ", "  \n\n")),
        {**base, "assign": [["script", "v1", "<s>"]], "tpl": [["var", "v1"]], "tail": "\n\n", "slash": True, "old": b"old\n"},
        {**base, "assign": [["script", "v1", {"__module__": 1}]], "tpl": [["var", "v1"]], "old": b"old\n"},
    ]


CHECK = Check(id="C20", strategy=strategy, run=run, quick=2400, thorough=40000, examples=examples, context=Ctx, batch=400,
              rule="the template contains at least one expression or statement (each case renders it through both operations)",
              assumptions=["Jinja2 itself renders correctly (the oracle renders with a separate Jinja2 environment from independently computed variables)"])
