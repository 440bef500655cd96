"""C21: nested scripts: isolation, parameters, unwinding, recursion."""
import copy
import os
import subprocess
import tempfile

from hypothesis import strategies as st

from vf import env, trace
from vf.core import Check, HarnessError, Outcome, Violation
from vf.hostenv import HostEnv
from vf.guard import make_guard

PARAMS = ["user", "title", "items", "name_", "x"]
EXC = ["ValueError", "OperationError", "CalledProcessError", "KeyboardInterrupt", "SystemExit", "OSError", "FatalError"]
DEFAULTS = [{"file_mode": "644"}, {"dir_mode": "755", "umask": "22"}, {"umask": "27"}, {"file_mode": "600", "dir_mode": "711"}, {"cwd": "/"}, {"file_mode": "4755"}, {"owner": "nobody", "group": "nogroup"}, {"as_user": "nobody"}]
BASE = {"file_mode": "600", "dir_mode": "700", "umask": "77", "cwd": "/tmp", "owner": "root", "group": "root", "as_user": "root", "as_group": "root"}
MAXDEPTH = 4
VALS = st.one_of(st.none(), st.integers(0, 3), st.sampled_from(["", "a", "é"]), st.just([1, "x"]), st.just([]), st.just(False))


def statements(n):
    call = st.fixed_dictionaries({"k": st.just("call"), "to": st.sampled_from([0, 1, 1, 1, 1, 2, 2, 3]), "form": st.sampled_from(["abs", "rel", "rel", "link", "dirlink", "dots", "relink"]), "recursive": st.sampled_from([False, False, False, True]),
                                  "params": st.one_of(st.none(), st.dictionaries(st.sampled_from(PARAMS), VALS, max_size=4)), "name": st.sampled_from([None, None, "my name", ""]), "catch": st.sampled_from([True, True, False]), "pos": st.booleans()})
    bad = st.fixed_dictionaries({"k": st.just("badcall"), "what": st.sampled_from(["missing", "missingdir", "syntax"]), "catch": st.just(True)})
    leaf = st.one_of(call, call, call, call, call, st.just({"k": "obs"}), st.just({"k": "obs"}), st.fixed_dictionaries({"k": st.just("raise"), "exc": st.sampled_from(EXC)}), st.fixed_dictionaries({"k": st.just("chdir"), "to": st.sampled_from(["/", "links"])}), bad,
                     st.fixed_dictionaries({"k": st.just("mutate"), "p": st.sampled_from(PARAMS)}), st.fixed_dictionaries({"k": st.just("setvar"), "v": st.integers(0, 3)}))
    return st.lists(st.recursive(leaf, lambda ch: st.one_of(st.fixed_dictionaries({"k": st.just("defaults"), "d": st.sampled_from(DEFAULTS), "body": st.lists(ch, min_size=1, max_size=3)}),
                                                            st.fixed_dictionaries({"k": st.just("try"), "body": st.lists(ch, min_size=1, max_size=3)})), max_leaves=5), min_size=1, max_size=4)


@st.composite
def strategy_(draw):
    n = draw(st.sampled_from([1, 2, 3, 3, 4, 4]))
    scripts = []
    for i in range(n):
        decl = draw(st.one_of(st.just([]), st.lists(st.tuples(st.sampled_from(PARAMS), st.sampled_from(["req", "opt", "opt"]), VALS).map(list), max_size=4, unique_by=lambda t: t[0])))
        scripts.append({"dir": draw(st.integers(0, 2)), "decl": decl, "via": draw(st.booleans()), "prog": draw(statements(n))})
    scripts[0]["decl"] = [d for d in scripts[0]["decl"] if d[1] == "opt"]
    return {"scripts": scripts}


class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        self.base = os.path.realpath(tempfile.mkdtemp(prefix="p-", dir=scratch))
        for d in ("d0", "d1/sub", "d 2", "links"):
            os.makedirs(os.path.join(self.base, d), exist_ok=True)
        os.makedirs(os.path.join(scratch, "r"), exist_ok=True)
        os.symlink(self.base, os.path.join(self.base, "links", "dir"))
        with open(os.path.join(self.base, "broken.py"), "w") as f:
            f.write("def (:\n")
        env.reset_globals()
        self.he = HostEnv(scratch, connector=make_guard(os.path.join(scratch, "r")))

    def path(self, i, dir_):
        return os.path.join(self.base, ["d0", "d1/sub", "d 2"][dir_], f"s{i}.py")

    def close(self):
        self.he.close()


# -- helpers used by the generated scripts -------------------------------------------------------------

def canon(k, v):
    return oct(int(v, 8))[2:] if v is not None and ("mode" in k or k == "umask") else v


def observe(g, sid):
    import fora
    from fora import logger
    from fora.loader import script_stack
    d = fora.script.current_defaults()
    trace.hit("obs", sid, os.getcwd(), fora.script.name, g.get("name"), {k: canon(k, getattr(d, k)) for k in BASE}, fora.host.name if fora.host is not None else None,
              fora.inventory is RUN["inventory"], len(logger.indent_prefix()), len(script_stack), script_stack[-1][0] is fora.script, g.get("svar"),
              {p: copy.copy(getattr(g["params"], p)) for p in g["params"].__annotations__} if "params" in g else {}, id(g) in RUN["live"])


RUN = {}


def depth(delta):
    RUN["depth"] += delta
    return RUN["depth"]


def may_call():
    RUN["fuel"] -= 1
    return RUN["depth"] < MAXDEPTH and RUN["fuel"] >= 0


def tag(e):
    if isinstance(e, Violation) or type(e).__name__ == "CaseTimeout":
        raise e
    t = str(e) if not isinstance(e, subprocess.CalledProcessError) else str(e.cmd)
    return [type(e).__name__, t] if t.startswith("vf-") else ["other", ""]


def throw(kind, msg):
    from fora.operations.api import OperationError
    from fora.utils import FatalError
    if kind == "CalledProcessError":
        raise subprocess.CalledProcessError(3, msg, b"out", b"err")
    raise {"ValueError": ValueError, "OperationError": OperationError, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "OSError": OSError, "FatalError": FatalError}[kind](msg)


def target(ctx, i, dir_, form):
    p = ctx.path(i, dir_)
    if form == "abs":
        return repr(p)
    if form == "rel":
        return f"_os.path.relpath({p!r})"
    if form == "link":
        return repr(os.path.join(ctx.base, "links", f"l{i}.py"))
    if form == "relink":
        return f"_os.path.relpath({os.path.join(ctx.base, 'links', f'l{i}.py')!r})"
    if form == "dirlink":
        return repr(os.path.join(ctx.base, "links", "dir", os.path.relpath(p, ctx.base)))
    if form == "dots":
        d, b = os.path.split(p)
        return repr(os.path.join(d, "..", os.path.basename(d), ".", b))
    raise HarnessError(form)


def gen(case, ctx, i):
    s = case["scripts"][i]
    out = [f"import os as _os\nimport vf.checks.c21_scripts as _c\nimport vf.trace as _t\nfrom fora.operations import local as _local\n_t.hit('start', {i})\n_c.RUN['live'].add(id(globals()))\n"]
    if s["decl"] or i % 2:
        out.append(("import fora as _fora\n@_fora.script.Params\n" if s["via"] else "@Params\n") + "class params:\n" + ("".join(f"    {p}: object" + (f" = {v!r}" if k == "opt" else "") + "\n" for p, k, v in s["decl"]) or "    __annotations__ = {}\n"))
    via = "_fora.script.defaults" if s["via"] else "defaults"
    if s["via"]:
        out.append("import fora as _fora\n")

    def block(stmts, ind):
        o = []
        for x in stmts:
            k = x["k"]
            if k == "obs":
                o.append(f"_c.observe(globals(), {i})")
            elif k == "raise":
                o.append(f"_c.throw({x['exc']!r}, 'vf-{i}')")
            elif k == "chdir":
                o.append(f"_os.chdir({'/' if x['to'] == '/' else os.path.join(ctx.base, x['to'])!r})")
            elif k == "setvar":
                o.append(f"svar = {x['v']}")
            elif k == "mutate":
                o.append(f"if 'params' in globals() and isinstance(getattr(params, {x['p']!r}, None), list): params.{x['p']}.append(9)")
            elif k == "defaults":
                o.append(f"with {via}(**{x['d']!r}):")
                o.extend(block(x["body"], ind + 1))
                o.append(f"_c.observe(globals(), {i})")
            elif k == "try":
                o.append("try:")
                o.extend(block(x["body"], ind + 1))
                o.append("except (Exception, KeyboardInterrupt, SystemExit) as _e:")
                o.append(f"    _t.hit('caught', {i}, _c.tag(_e))")
                o.append(f"_c.observe(globals(), {i})")
            else:
                if k == "call":
                    to = (i + x["to"]) % len(case["scripts"])
                    if x["params"] is not None:
                        o.append(f"_p = {x['params']!r}")
                    args = [target(ctx, to, case["scripts"][to]["dir"], x["form"])]
                    if x["pos"]:
                        args += [repr(x["recursive"]), "None" if x["params"] is None else "_p"] + ([repr(x["name"])] if x["name"] is not None else [])
                    else:
                        args = [("script=" if x["recursive"] else "") + args[0]]
                        args += (["recursive=True"] if x["recursive"] else []) + (["params=_p"] if x["params"] is not None else []) + ([f"name={x['name']!r}"] if x["name"] is not None else [])
                else:
                    args = [repr(os.path.join(ctx.base, {"missing": "nope.py", "missingdir": "no dir/x.py", "syntax": "broken.py"}[x["what"]]))]
                o.append("if _c.may_call():")
                o.append("    _c.depth(1)")
                o.append("    try:")
                o.append(f"        _local.script({', '.join(args)})")
                o.append(f"        _t.hit('returned', {i})")
                if x["catch"]:
                    o.append("    except (Exception, KeyboardInterrupt, SystemExit) as _e:")
                    o.append(f"        _t.hit('caught', {i}, _c.tag(_e))")
                o.append("    finally:")
                o.append("        _c.depth(-1)")
                if k == "call" and x["params"] is not None:
                    o.append(f"        if list(_p) != {list(x['params'])!r}: _t.hit('params of the caller changed', list(_p))")
                o.append(f"        _c.observe(globals(), {i})")
        return ["    " * (ind > 0) + line for line in o] if ind else o
    lines = block(s["prog"], 0)
    return "".join(out) + f"_c.observe(globals(), {i})\n" + "\n".join(lines) + f"\n_c.observe(globals(), {i})\n_t.hit('end', {i})\n"


# -- the model ----------------------------------------------------------------------------------------

class Raised(Exception):
    def __init__(self, tag_):
        super().__init__(tag_)
        self.tag = tag_


class Model:
    def __init__(self, case, ctx):
        self.case, self.ctx, self.ev = case, ctx, []
        self.cwd, self.stack, self.depth, self.fuel = None, [], 0, 40
        self.stats = set()

    def obs(self, f):
        self.ev.append(["obs", f["id"], self.cwd, f["name"], f["name"], dict(f["defaults"][-1]), "vhost", True, 2 * len(self.stack), len(self.stack), True, f.get("svar"), f["params"], True])
        self.ev[-1][12] = {k: list(v) if isinstance(v, list) else v for k, v in f["params"].items()}

    def script(self, i, params, name, stem):
        s = self.case["scripts"][i]
        saved = self.cwd
        f = {"id": i, "name": stem if name is None else name, "defaults": [dict(BASE)], "params": {}}
        self.stack.append(f)
        self.cwd = os.path.realpath(os.path.dirname(self.ctx.path(i, s["dir"])))
        try:
            self.ev.append(["start", i])
            for p, k, v in s["decl"]:
                if params is not None and p in params:
                    f["params"][p] = params[p]
                elif k == "opt":
                    f["params"][p] = list(v) if isinstance(v, list) else v
                else:
                    self.stats.add("missing-param")
                    raise Raised(["other", ""])
            self.obs(f)
            self.block(s["prog"], f)
            self.obs(f)
            self.ev.append(["end", i])
        finally:
            self.stack.pop()
            self.cwd = saved

    def block(self, stmts, f):
        i = f["id"]
        for x in stmts:
            k = x["k"]
            if k == "obs":
                self.obs(f)
            elif k == "raise":
                raise Raised([x["exc"], f"vf-{i}"])
            elif k == "chdir":
                self.cwd = "/" if x["to"] == "/" else os.path.join(os.path.realpath(self.ctx.base), x["to"])
            elif k == "setvar":
                f["svar"] = x["v"]
            elif k == "mutate":
                if isinstance(f["params"].get(x["p"]), list):
                    f["params"][x["p"]].append(9)
            elif k == "defaults":
                d = dict(f["defaults"][-1])
                d.update(x["d"])
                f["defaults"].append(d)
                try:
                    self.block(x["body"], f)
                finally:
                    f["defaults"].pop()
                self.obs(f)
            elif k == "try":
                try:
                    self.block(x["body"], f)
                except Raised as e:
                    self.ev.append(["caught", i, e.tag])
                self.obs(f)
            else:
                self.fuel -= 1
                if not (self.depth < MAXDEPTH and self.fuel >= 0):
                    continue
                self.depth += 1
                self.stats.add("call")
                if self.depth > 1:
                    self.stats.add("deep")
                try:
                    if k == "badcall":
                        raise Raised(["other", ""])
                    to = (i + x["to"]) % len(self.case["scripts"])
                    if not x["recursive"] and any(g["id"] == to for g in self.stack):
                        self.stats.add("refused-recursion")
                        raise Raised(["other", ""])
                    p = x["params"]
                    self.script(to, None if p is None else {a: list(b) if isinstance(b, list) else b for a, b in p.items()}, x["name"], ("l" if x["form"] in ("link", "relink") else "s") + str(to))
                    self.ev.append(["returned", i])
                except Raised as e:
                    self.stats.add("unwound")
                    if not x["catch"]:
                        raise
                    self.ev.append(["caught", i, e.tag])
                finally:
                    self.depth -= 1
                    self.obs(f)


def run(case, ctx):
    import fora
    from fora import logger
    from fora.loader import script_stack
    for i, s in enumerate(case["scripts"]):
        with open(ctx.path(i, s["dir"]), "w") as f:
            f.write(gen(case, ctx, i))
        l = os.path.join(ctx.base, "links", f"l{i}.py")
        if os.path.islink(l):
            os.unlink(l)
        os.symlink(ctx.path(i, s["dir"]), l)
    m = Model(case, ctx)
    try:
        m.script(0, None, "vf", None)
        want = None
    except Raised as e:
        want = e.tag
    he = ctx.he
    RUN.clear()
    RUN.update(depth=0, fuel=40, inventory=he.inventory, live=set())
    trace.reset()
    keep, he.script = he.script, ctx.path(0, case["scripts"][0]["dir"])
    cwd0 = os.getcwd()
    got = None
    after = {}
    try:
        # in_script restores the working directory itself, so look before it does
        orig = os.chdir
        import inspect
        from fora import loader
        fora.args = env.make_args()
        fora.inventory, fora.host, fora.script = he.inventory, he.host, None
        script_stack.clear()
        logger.state.indentation_level = 0
        with he.quiet():
            try:
                loader.run_script(he.script, inspect.getouterframes(inspect.currentframe())[0], name="vf")
            except (Exception, KeyboardInterrupt, SystemExit) as e:
                got = tag(e)
        after = {"cwd": os.getcwd(), "script": fora.script, "stack": len(script_stack), "indent": len(logger.indent_prefix())}
    finally:
        he.script = keep
        fora.host = None
        os.chdir(cwd0)
    if after != {"cwd": cwd0, "script": None, "stack": 0, "indent": 0}:
        raise Violation(f"after the script: {after}, before: cwd {cwd0}, no script, no indentation")
    ev = [list(e) for e in trace.events]
    for a, b in zip(ev, m.ev):
        if a != b:
            if a[0] == b[0] == "obs":
                names = ["", "script", "working directory", "fora.script.name", "name", "defaults", "host", "inventory available", "log indentation", "stack depth", "stack top", "own variable", "params", "own globals"]
                diff = [f"{names[k]} is {a[k]!r}, expected {b[k]!r}" for k in range(len(a)) if a[k] != b[k]]
                raise Violation(f"inside script s{b[1]}: " + "; ".join(diff))
            raise Violation(f"expected the event {b}, but saw {a}")
    if len(ev) != len(m.ev):
        raise Violation(f"after {len(min(ev, m.ev, key=len))} events: expected {m.ev[len(ev):][:2] or 'the end'}, saw {ev[len(m.ev):][:2] or 'the end'}")
    if got != want:
        raise Violation(f"the run ended with {got}, expected {want}")
    for i, s in enumerate(case["scripts"]):
        os.unlink(ctx.path(i, s["dir"]))
    return Outcome("call" in m.stats, sorted(m.stats) + (["raised"] if want else []))


def examples():
    call = {"k": "call", "to": 1, "form": "rel", "recursive": False, "params": None, "name": None, "catch": True, "pos": False}
    s = lambda prog, d=0, decl=(): {"dir": d, "decl": list(decl), "via": False, "prog": prog}
    out = []
    for form in ("abs", "rel", "link", "dirlink", "dots", "relink"):
        out.append({"scripts": [s([{**call, "to": 0, "form": form}])]})
        out.append({"scripts": [s([{**call}]), s([{**call, "form": form}], 1)]})
    out.append({"scripts": [s([{**call, "to": 0, "recursive": True}])]})
    for exc in EXC:
        out.append({"scripts": [s([{"k": "defaults", "d": {"umask": "27"}, "body": [call, {"k": "obs"}]}]), s([{"k": "defaults", "d": {"file_mode": "644"}, "body": [{"k": "chdir", "to": "/"}, {"k": "raise", "exc": exc}]}], 2)]})
    return out


CHECK = Check(id="C21", strategy=strategy_, run=run, quick=1800, thorough=60000, examples=examples, context=Ctx, batch=400,
              rule="at least one script was started from another script",
              assumptions=["script files are not moved or removed while they run; hard links to a running script are not tried"])
