"""C24: the contract of operations: results, checking, misuse."""
import os
import subprocess

from hypothesis import strategies as st

from vf import env, fileops, gens
from vf.core import Check, HarnessError, Outcome, Violation
from vf.guard import make_guard
from vf.hostenv import HostEnv, snap_diff, snapshot, wipe

KEYS = ["a", "b", "exists"]
MSGS = ["it failed", "", "é {x}", "line1\nline2", "%s"]


def strategy():
    val = st.one_of(st.none(), st.booleans(), st.integers(0, 2), st.sampled_from(["", "x", "0", b"\x00\xff"]), st.lists(st.integers(0, 1), max_size=2))
    state = st.one_of(st.fixed_dictionaries({k: val for k in KEYS}), st.sampled_from([{"a": 1, "b": None, "exists": True}, {"a": 1, "b": None, "exists": False}, {"a": None, "b": None, "exists": None}]))
    res = st.fixed_dictionaries({"initial": state, "final": state, "success": st.booleans()})
    stmt = st.one_of(st.tuples(st.just("desc"), st.sampled_from(["d", "é", ""])), st.tuples(st.just("initial"), state), st.tuples(st.just("initial"), state), st.tuples(st.just("final"), state), st.tuples(st.just("final"), state),
                     st.tuples(st.just("both"), state), st.tuples(st.just("nested"), st.booleans()), st.tuples(st.just("add"), st.sampled_from(["k", "l"]), res), st.tuples(st.just("changed"), st.sampled_from(KEYS)),
                     st.tuples(st.just("unchanged"), st.booleans()), st.tuples(st.just("diff"), st.sampled_from([None, b"", b"x"]), st.sampled_from([None, b"", b"y"]))).map(list)
    end = st.one_of(st.tuples(st.just("success")), st.tuples(st.just("success")), st.tuples(st.just("success")), st.tuples(st.just("failure"), st.sampled_from(MSGS)), st.tuples(st.just("none")),
                    st.tuples(st.just("raise"), st.sampled_from(["OperationError", "OperationError", "CalledProcessError", "ValueError", "OSError", "KeyError", "RemoteOSError"]), st.sampled_from(MSGS)), st.tuples(st.just("inner"))).map(list)

    add = st.tuples(st.just("add"), st.sampled_from(["k", "l", "m"]), res).map(list)
    nest = st.tuples(st.lists(add, min_size=1, max_size=3), st.lists(stmt, max_size=1)).map(lambda t: [["nested", True], ["desc", "d"]] + t[0] + t[1])

    def opdef(inner):
        return st.fixed_dictionaries({"body": st.one_of(nest, st.lists(stmt, max_size=6), st.tuples(state, state, st.lists(stmt, max_size=1)).map(lambda t: [["desc", "d"], ["initial", t[0]], ["final", t[1]]] + t[2]),
                                                        st.tuples(state, st.integers(0, 9), st.lists(stmt, max_size=1)).map(lambda t: [["desc", "d"], ["initial", t[0]], ["final", dict(list(t[0].items())[:-1] + [(k, v if t[1] else "changed") for k, v in list(t[0].items())[-1:]])]] + t[2])),
                                      "end": end, "check": st.sampled_from([None, True, False, False]), "inner": inner, "name": st.sampled_from([None, "my name"])})
    op = opdef(st.one_of(st.none(), opdef(st.none())))
    user = st.fixed_dictionaries({"mode": st.just("user"), "op": op, "debug": st.sampled_from([False, False, True]), "changes": st.booleans(), "diff": st.booleans(), "verbose": st.sampled_from([0, 1, 2]), "host": st.sampled_from([True] * 9 + [False])})
    builtin = st.fixed_dictionaries({"mode": st.just("builtin"), "tree": fileops.trees(), "ops": st.lists(fileops.ops(), min_size=1, max_size=5), "check": st.sampled_from([None, True, False, False]), "line": st.booleans()})
    return st.one_of(user, user, user, builtin)


class Ctx:
    def __init__(self, scratch):
        self.root, self.ext, self.src = (os.path.join(scratch, d) for d in ("r", "x", "s"))
        for d in (self.root, self.ext, self.src):
            os.makedirs(d, exist_ok=True)
        env.reset_globals()
        self.he = HostEnv(scratch, connector=make_guard(self.root, also=(self.ext,)))

    def close(self):
        self.he.close()


class Misuse(Exception):
    """Model: the operation API was misused."""


class Expected(Exception):
    def __init__(self, kind, msg=None, obj=None):
        super().__init__(kind)
        self.kind, self.msg, self.obj = kind, msg, obj


def make_exc(kind, msg):
    from fora.connectors.tunnel_dispatcher import RemoteOSError
    from fora.operations.api import OperationError
    if kind == "CalledProcessError":
        return subprocess.CalledProcessError(2, ["cmd", msg], b"o", b"e")
    if kind == "RemoteOSError":
        return RemoteOSError(errno=2, strerror="x", msg=msg)
    return {"OperationError": OperationError, "ValueError": ValueError, "OSError": OSError, "KeyError": KeyError}[kind](msg)


def execute(d, objs, ran):
    """Defines a user operation with the generated body and calls it."""
    from fora.operations.api import Operation, OperationResult, operation

    @operation("vf_op")
    def my_op(arg, name=None, check=True, op=Operation.internal_use_only):
        ran.append(arg)
        if op is None or not isinstance(op, Operation):
            raise Violation("the operation got no Operation object")
        for s in d["body"]:
            k = s[0]
            if k == "desc":
                op.desc(s[1])
            elif k == "initial":
                op.initial_state(**s[1])
            elif k == "final":
                op.final_state(**s[1])
            elif k == "both":
                op.initial_state(**s[1])
                op.final_state(**s[1])
            elif k == "nested":
                op.nested(s[1])
            elif k == "add":
                op.add_nested_result(s[1], OperationResult(success=s[2]["success"], changed=s[2]["initial"] != s[2]["final"], initial=s[2]["initial"], final=s[2]["final"]))
            elif k == "changed":
                if s[1] in _safe(d, "initial") and s[1] in _safe(d, "final"):
                    op.changed(s[1])
            elif k == "unchanged":
                if not s[1]:
                    op.unchanged()
            elif k == "diff":
                op.diff("file", s[1], s[2])
        e = d["end"]
        if e[0] == "success":
            return op.success()
        if e[0] == "failure":
            return op.failure(e[1])
        if e[0] == "none":
            return None
        if e[0] == "raise":
            raise objs.setdefault(id(d), make_exc(e[1], e[2]))
        if d["inner"] is not None:
            return execute(d["inner"], objs, ran)
        return None
    kw = {} if d["check"] is None else {"check": d["check"]}
    if d["name"] is not None:
        kw["name"] = d["name"]
    return my_op("arg", **kw)


def _safe(d, which):
    """Keys of the (only) state of that kind, or nothing if the body is irregular."""
    xs = [s[1] for s in d["body"] if s[0] in (which, "both")]
    return xs[0] if len(xs) == 1 else {}


def model(d):
    """Returns ('ok', initial, final) | ('fail', msg or None, initial, final), or raises Expected."""
    nested, ini, fin = False, None, None
    try:
        for s in d["body"]:
            k = s[0]
            if k in ("initial", "both", "final", "diff", "changed") and nested:
                if k == "changed" and not (s[1] in _safe(d, "initial") and s[1] in _safe(d, "final")):
                    continue
                raise Misuse(k)
            if k in ("initial", "both"):
                if ini is not None:
                    raise Misuse("initial twice")
                ini = dict(s[1])
            if k in ("final", "both"):
                if fin is not None:
                    raise Misuse("final twice")
                fin = dict(s[1])
            if k == "nested":
                nested = s[1]
            if k == "add":
                if not nested:
                    raise Misuse("add")
                ini = {} if ini is None else ini
                fin = {} if fin is None else fin
                if s[1] in ini or s[1] in fin:
                    raise Misuse("key")
                ini[s[1]], fin[s[1]] = s[2]["initial"], s[2]["final"]
            if k == "changed" and s[1] in _safe(d, "initial") and s[1] in _safe(d, "final"):
                if ini is None or fin is None:
                    raise Misuse("changed")
            if k == "unchanged" and not s[1] and (ini is None or fin is None):
                raise Misuse("unchanged")
        e = d["end"]
        if e[0] == "success":
            if ini is None or fin is None:
                raise Misuse("success")
            res = ("ok", ini, fin)
        elif e[0] == "failure":
            res = ("fail", e[1], ini, fin)
        elif e[0] == "raise":
            if e[1] == "OperationError":
                raise Misuse(e[2])
            raise Expected(e[1], obj=id(d))
        elif e[0] == "none" or d["inner"] is None:
            raise Expected("none")
        else:
            res = model(d["inner"])
    except Misuse as m:
        if d["check"] is False:
            return ("fail", m.args[0] if d["end"][0] == "raise" and d["end"][2:] == list(m.args) else None, ini, fin)
        raise Expected("OperationError", msg=m.args[0] if d["end"][0] == "raise" and d["end"][2:] == list(m.args) else None)
    except Expected as x:
        # an operation error of an inner operation is one of this operation, too
        if x.kind in ("OperationError", "none-inner", "none-op") and d["end"][0] == "inner" and d["check"] is False:
            return ("fail", x.msg, ini, fin)
        if x.kind == "none":
            raise Expected("none-op")
        raise
    if res[0] == "fail" and d["check"] is not False:
        raise Expected("OperationError", msg=res[1])
    return res


def user(case, ctx):
    import fora
    from fora.operations.api import OperationError, OperationResult
    d = case["op"]
    objs, ran, out = {}, [], {}
    try:
        want = model(d)
        exc = None
    except Expected as e:
        want, exc = None, e

    def fn():
        if not case["host"]:
            fora.host = None
        try:
            out["ret"] = execute(d, objs, ran)
        except Violation:
            raise
        except Exception as e:
            out["exc"] = e
        finally:
            fora.host = ctx.he.host
    ctx.he.in_script(fn, debug=case["debug"], changes=case["changes"], diff=case["diff"], verbose=case["verbose"])
    ret, e = out.get("ret"), out.get("exc")
    desc = f"{d} -> " + (f"raised {type(e).__name__}: {e}" if e is not None else f"{ret}")
    if not case["host"]:
        if e is None or ran:
            raise Violation(f"an operation was called without an active host: {desc}; body ran: {bool(ran)}")
        return Outcome(True, ["no-host"])
    if not ran:
        raise Violation(f"the operation's function was not called: {desc}")
    if exc is not None:
        if e is None:
            raise Violation(f"expected an exception ({exc.kind}): {desc}")
        if exc.obj is not None:
            if e is not objs.get(exc.obj):
                raise Violation(f"the exception raised in the operation was replaced: {desc}")
        elif exc.kind == "OperationError":
            if not isinstance(e, OperationError):
                raise Violation(f"expected an OperationError: {desc}")
            if exc.msg is not None and str(e) != exc.msg:
                raise Violation(f"the error says {str(e)!r}, the failure message is {exc.msg!r}: {desc}")
        return Outcome(True, ["raises-" + exc.kind])
    if e is not None:
        raise Violation(f"unexpected exception: {desc}")
    if not isinstance(ret, OperationResult):
        raise Violation(f"no result: {desc}")
    if want[0] == "ok":
        if (ret.success, ret.initial, ret.final, ret.changed) != (True, want[1], want[2], want[1] != want[2]):
            raise Violation(f"expected success with initial {want[1]}, final {want[2]}, changed {want[1] != want[2]}: {desc}")
    else:
        if ret.success or ret.changed:
            raise Violation(f"expected an unsuccessful, unchanged result: {desc}")
        if want[1] is not None and ret.failure_message != want[1]:
            raise Violation(f"the failure message should be {want[1]!r}: {desc}")
        if want[1] is None and not isinstance(ret.failure_message, str):
            raise Violation(f"no failure message: {desc}")
    return Outcome(True, ["result-" + want[0], "changed" if ret.changed else "unchanged"])


def builtin(case, ctx):
    from fora.operations import files
    from fora.operations.api import OperationError
    wipe(ctx.root), wipe(ctx.ext), wipe(ctx.src)
    fileops.build(case["tree"], ctx.root, ctx.ext)
    labels = set()
    kw = {} if case["check"] is None else {"check": case["check"]}

    def fn():
        for o in case["ops"]:
            job = fileops.Job(o, case["tree"], ctx.root, ctx.ext, ctx.src)
            kind, pred = job.predict()
            why = pred.get("why")
            before = snapshot(ctx.root)
            ret = exc = None
            call = lambda: job.call(**kw)
            if case["line"] and os.path.lexists(job.path) and not os.path.isfile(job.path) and os.path.isdir(job.path):
                call, kind, why = (lambda: files.line(job.path, "x", **kw)), "error", "wrong-type"
            try:
                ret = call()
            except Violation:
                raise
            except Exception as e:
                exc = e
            what = f"{o['op']} {job.arg!r} {job.kw} check={case['check']} -> " + (f"raised {type(exc).__name__}: {exc}" if exc is not None else f"{ret}")
            if ret is not None:
                if ret.success and ret.changed != (ret.initial != ret.final):
                    raise Violation(f"changed is inconsistent with the states: {what}")
                if not ret.success and (ret.changed or case["check"] is not False or not ret.failure_message):
                    raise Violation(f"a failed operation was returned inconsistently: {what}")
            if kind == "error" and why == "wrong-type" and o["form"] == "slash":
                labels.add("slash")
            elif kind == "error" and why == "wrong-type":
                labels.add("refused")
                if case["check"] is False:
                    if exc is not None or ret.success:
                        raise Violation(f"with checking off, a refused operation returns an unsuccessful result: {what}")
                elif not isinstance(exc, OperationError):
                    raise Violation(f"a refused operation raises an OperationError: {what}")
                df = snap_diff(before, snapshot(ctx.root))
                if df:
                    raise Violation(f"a refused operation changed {df}: {what}")
            elif kind == "ok":
                labels.add("done")
                if exc is not None or not ret.success:
                    raise Violation(f"the operation can succeed, but did not: {what}")
                if ret.changed != pred["changed"]:
                    raise Violation(f"changed should be {pred['differs']}: {what}")
    ctx.he.in_script(fn)
    return Outcome("refused" in labels, sorted("builtin-" + l for l in labels))


def run(case, ctx):
    return user(case, ctx) if case["mode"] == "user" else builtin(case, ctx)


CHECK = Check(id="C24", strategy=strategy, run=run, quick=4800, thorough=100000, context=Ctx, batch=400,
              rule="a user-defined operation was executed (every outcome is compared), or a built-in operation met a path of the wrong type")
