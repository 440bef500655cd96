"""C26: opening, closing and losing connections."""
import contextlib
import io
import os
import signal
import subprocess
import time

from hypothesis import strategies as st

from vf import env, tunnel
from vf.core import Check, HarnessError, Outcome, Violation

BAD = ["exit0", "exit3", "nofile", "garbage", "short", "otherpacket", "stubborn", "killed", "flood", "oserror", "invalidfield", "interrupt"]
RBAD = [b for b in BAD if b != "stubborn"]
REQS = ["stat", "run", "resolve", "getenv", "fail", "missing", "big"]


class Poke(BaseException):
    """Raised from a signal handler while a request is waiting (as a keyboard interrupt would be)."""


def strategy():
    act = st.one_of(st.tuples(st.just("open"), st.sampled_from(["ok"] * 5 + RBAD)), st.tuples(st.just("open"), st.just("ok")), st.tuples(st.just("req"), st.sampled_from(REQS)), st.tuples(st.just("kill"), st.sampled_from(["KILL", "TERM"])),
                    st.tuples(st.just("diein"), st.sampled_from(["now", "output", "late"])), st.tuples(st.just("close")), st.tuples(st.just("poke"), st.sampled_from([0, 10, 300000]))).map(list)
    hist = st.fixed_dictionaries({"mode": st.just("history"), "acts": st.lists(act, min_size=2, max_size=9)})
    inner = st.one_of(st.tuples(st.just("req"), st.sampled_from(REQS)), st.tuples(st.just("kill"), st.sampled_from(["KILL", "TERM"])), st.tuples(st.just("diein"), st.sampled_from(["now", "output"]))).map(list)
    block = st.fixed_dictionaries({"mode": st.just("block"), "remote": st.sampled_from(["ok"] * 8 + ["ackonly", "ackgarbage"] + RBAD), "body": st.lists(inner, max_size=4), "exc": st.sampled_from([None, None, "ValueError", "OSError", "KeyboardInterrupt", "SystemExit", "poke"]), "again": st.booleans()})
    return st.one_of(hist, hist, block, block)


class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        self.pidfile = os.path.join(scratch, "pid")
        env.reset_globals()
        with contextlib.redirect_stdout(io.StringIO()):
            (_, _), _, self.ack = tunnel.record(scratch, lambda c: None)
            (_, _), _, out = tunnel.record(scratch, lambda c: c.resolve_user("root"))
            (_, _), _, oserror = tunnel.record(scratch, lambda c: c.download("/"))
            (_, _), _, invalid = tunnel.record(scratch, lambda c: c.download("/nonexistent/file"))
        self.other = out[len(self.ack):]
        for n, d in (("ack", self.ack), ("other", self.other), ("oserror", oserror[len(self.ack):]), ("invalidfield", invalid[len(self.ack):])):
            with open(os.path.join(scratch, n), "wb") as f:
                f.write(d)

    def command(self, beh):
        pre = ["sh", "-c", 'echo $$ >> "$0"; exec "$@"', self.pidfile]
        f = lambda n: os.path.join(self.scratch, n)
        return {
            "ok": pre + tunnel.local_command(), "exit0": pre + ["sh", "-c", "exit 0"], "exit3": pre + ["sh", "-c", "echo >&2; exit 3"], "nofile": ["/nonexistent/program"],
            "garbage": pre + ["sh", "-c", 'printf "\\377\\377\\377\\377welcome to this host\\n"; exec cat >/dev/null'], "short": pre + ["sh", "-c", 'head -c 3 "$0"; exec >&-; exec cat >/dev/null', f("ack")],
            "otherpacket": pre + ["sh", "-c", 'cat "$0"; exec cat >/dev/null', f("other")], "stubborn": pre + ["sh", "-c", 'trap "" TERM; printf "\\377\\377\\377\\377"; sleep 1000 & wait; sleep 1000'],
            "oserror": pre + ["sh", "-c", 'cat "$0"; exec cat >/dev/null', f("oserror")], "invalidfield": pre + ["sh", "-c", 'cat "$0"; exec cat >/dev/null', f("invalidfield")],
            # interrupts the local side once it waits for the answer
            "interrupt": pre + ["sh", "-c", 'head -c 1 >/dev/null; sleep 0.02; kill -USR1 "$0"; exec cat >/dev/null', str(os.getpid())],
            "killed": pre + ["sh", "-c", "kill -9 $$"], "flood": pre + ["sh", "-c", 'exec yes'],
            "ackonly": pre + ["sh", "-c", 'cat "$0"; exec >&-; exec cat >/dev/null', f("ack")], "ackgarbage": pre + ["sh", "-c", 'cat "$0"; yes | head -c 200; exec cat >/dev/null', f("ack")],
        }[beh]

    def pids(self):
        try:
            with open(self.pidfile) as fh:
                return [int(x) for x in fh.read().split()]
        except FileNotFoundError:
            return []

    def close(self):
        pass


def alive(pid):
    """None if no such process, else its state letter."""
    try:
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0]
    except (FileNotFoundError, ProcessLookupError):
        return None


def assert_gone(ctx, what):
    for p in ctx.pids():
        s = alive(p)
        if s is not None:
            for sig in (signal.SIGKILL,):
                with contextlib.suppress(ProcessLookupError):
                    os.kill(p, sig)
            raise Violation(f"{what}: the remote process is still there ({'not reaped' if s == 'Z' else 'running, state ' + s})")


def wait_dead(pid):
    end = time.monotonic() + 20
    while alive(pid) not in (None, "Z"):
        if time.monotonic() > end:
            raise HarnessError("killed process does not die")
        time.sleep(0.002)


def request(c, kind):
    """One request whose correct answer is known."""
    if kind == "stat":
        r = c.stat("/")
        ok = r is not None and r.type == "dir"
    elif kind == "run":
        r = c.run(["echo", "hi"])
        ok = r.returncode == 0 and r.stdout == b"hi\n"
    elif kind == "resolve":
        r = c.resolve_user("root")
        ok = r == "root"
    elif kind == "getenv":
        r = c.getenv("VF_NOT_SET")
        ok = r is None
    elif kind == "fail":
        r = c.run(["sh", "-c", "exit 5"], check=False)
        ok = r.returncode == 5
    elif kind == "missing":
        r = c.stat("/nonexistent/file")
        ok = r is None
    else:
        r = c.run(["head", "-c", "300000", "/dev/zero"])
        ok = r.stdout == b"\0" * 300000
    if not ok:
        raise Violation(f"the request {kind!r} was answered with {r!r}"[:300])


def die_in(c, how):
    cmd = {"now": "kill -9 $PPID", "output": "head -c 200000 /dev/zero; kill -9 $PPID", "late": "kill -9 $PPID; sleep 0.05"}[how]
    c.run(["sh", "-c", cmd])


def poke(c, n):
    """A request during which this process is interrupted."""
    def on_sig(*_):
        raise Poke()
    old = signal.signal(signal.SIGUSR1, on_sig)
    try:
        c.run(["sh", "-c", f"kill -USR1 {os.getpid()}; head -c {n} /dev/zero"])
        time.sleep(1)
        raise HarnessError("the signal did not arrive")
    finally:
        signal.signal(signal.SIGUSR1, old)


def expect_loss(fn, what):
    try:
        fn()
    except OSError:
        return
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__}: {e} instead of a connection error")
    raise Violation(f"{what}: reported success although the remote process is gone")


def run(case, ctx):
    env.reset_globals()
    if os.path.exists(ctx.pidfile):
        os.unlink(ctx.pidfile)
    def on_sig(*_):
        raise Poke()
    old = signal.signal(signal.SIGUSR1, on_sig)
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return history(case, ctx) if case["mode"] == "history" else block(case, ctx)
        finally:
            signal.signal(signal.SIGUSR1, old)
            for p in ctx.pids():
                if alive(p) is not None:
                    with contextlib.suppress(ProcessLookupError):
                        os.kill(p, signal.SIGKILL)


def history(case, ctx):
    from fora.connectors.tunnel_connector import TunnelConnector
    beh = {"cmd": None}

    class Scripted(TunnelConnector):
        schema = "scripted"

        def command(self):
            return ctx.command(beh["cmd"])
    c = Scripted("scripted:x", tunnel._Host())
    state, labels, log = "closed", set(), []
    for a in case["acts"] + [["close"]]:
        log.append(a)
        what = f"after {log}"
        if a[0] == "open":
            if state != "closed":
                continue
            beh["cmd"] = a[1]
            try:
                c.open()
                opened = True
            except Violation:
                raise
            except (Exception, Poke) as e:
                opened = False
                err = e
            if opened != (a[1] == "ok"):
                raise Violation(f"{what}: opening a connection to a remote that {a[1]!r} " + ("succeeded" if opened else f"failed with {type(err).__name__}: {err}"))
            if not opened:
                assert_gone(ctx, f"{what}: opening failed")
                labels.add("open-failed")
            else:
                state = "open"
                if "closed-once" in labels or "open-failed" in labels:
                    labels.add("reopened")
        elif a[0] == "close":
            was = state
            try:
                c.close()
            except Violation:
                raise
            except Exception as e:
                raise Violation(f"{what}: close raised {type(e).__name__}: {e}")
            assert_gone(ctx, f"{what}: the connection was closed")
            state = "closed"
            if was != "closed":
                labels.add("closed-once")
                labels.add("closed-" + was)
        elif state == "closed" or state == "desync":
            continue
        elif a[0] == "req":
            if state == "open":
                request(c, a[1])
            else:
                expect_loss(lambda: request(c, a[1]), f"{what}: request {a[1]!r} to a dead remote")
                labels.add("request-to-dead")
        elif a[0] == "kill":
            pid = ctx.pids()[-1]
            if state == "open":
                os.kill(pid, getattr(signal, "SIG" + a[1]))
                wait_dead(pid)
                state = "dead"
        elif a[0] == "diein":
            if state == "open":
                expect_loss(lambda: die_in(c, a[1]), f"{what}: the remote was killed during the request")
                wait_dead(ctx.pids()[-1])
                state = "dead"
                labels.add("died-in-request")
        elif a[0] == "poke":
            if state == "open":
                try:
                    poke(c, a[1])
                except Poke:
                    pass
                state = "desync"
    return Outcome(bool(labels & {"open-failed", "closed-dead", "closed-desync", "reopened", "request-to-dead"}), sorted(labels))


def block(case, ctx):
    import fora
    from fora.connection import open_connection
    from fora.connectors.tunnel_connector import TunnelConnector
    from fora.loader import load_inventory
    beh = {"cmd": case["remote"]}

    class Scripted(TunnelConnector):
        schema = "scripted"

        def command(self):
            return ctx.command(beh["cmd"])
    load_inventory("local:h")
    host = next(iter(fora.inventory.loaded_hosts.values()))
    host.connector = Scripted
    labels = {"block"}

    def once(remote, body, exc):
        beh["cmd"] = remote
        raised, seen, entered = None, None, False
        inside = []
        try:
            with open_connection(host) as conn:
                entered = True
                if host.connection is not conn:
                    raise Violation("inside the block the host has no (or another) active connection")
                c = conn.connector
                dead = False
                for a in body:
                    if a[0] == "req":
                        if dead:
                            expect_loss(lambda: request(c, a[1]), f"request {a[1]!r} to a dead remote")
                        else:
                            request(c, a[1])
                    elif not dead:
                        if a[0] == "kill":
                            os.kill(ctx.pids()[-1], getattr(signal, "SIG" + a[1]))
                        else:
                            expect_loss(lambda: die_in(c, a[1]), "the remote was killed during the request")
                        wait_dead(ctx.pids()[-1])
                        dead = True
                if dead:
                    labels.add("died-in-block")
                if exc == "poke" and not dead:
                    try:
                        poke(c, 300000)
                    except Poke as e:
                        inside.append(e)
                        raise
                elif exc is not None:
                    inside.append({"ValueError": ValueError, "OSError": OSError, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "poke": RuntimeError}[exc]("vf"))
                    raise inside[0]
        except Violation:
            raise
        except (Exception, KeyboardInterrupt, SystemExit, Poke) as e:
            seen = e
        what = f"remote {remote!r}, body {body}, exception {exc}"
        if entered != (remote == "ok"):
            raise Violation(f"{what}: " + ("the connection block was entered" if entered else f"the connection block was not entered: {type(seen).__name__}: {seen}"))
        if not entered and seen is None:
            raise Violation(f"{what}: neither entered nor failed")
        if entered and seen is not (inside[0] if inside else None):
            raise Violation(f"{what}: leaving the block raised {type(seen).__name__}: {seen}; inside, {type(inside[0]).__name__ + ' was raised' if inside else 'nothing was raised'}")
        if host.connection is not None:
            raise Violation(f"{what}: after the block the host still has an active connection")
        assert_gone(ctx, f"{what}: after the block")
        labels.add("entered" if entered else "refused")
        if inside:
            labels.add("raised-inside")
    once(case["remote"], case["body"], case["exc"])
    if case["again"]:
        once("ok", [["req", "run"]], None)
    return Outcome(bool(labels & {"died-in-block", "refused", "raised-inside"}), sorted(labels))


def exhaustive(tier):
    out = [{"mode": "history", "acts": [["open", b], ["open", "ok"], ["req", "run"]]} for b in BAD]
    for end in (["kill", "KILL"], ["kill", "TERM"], ["diein", "now"], ["diein", "output"], ["poke", 0], ["poke", 300000]):
        out.append({"mode": "history", "acts": [["open", "ok"], ["req", "stat"], end, ["close"], ["open", "exit3"], ["open", "ok"], ["req", "big"]]})
        out.append({"mode": "history", "acts": [["open", "ok"], end, ["req", "stat"], ["req", "big"], ["close"], ["close"]]})
    for r in ["ok", "ackonly", "ackgarbage"] + BAD:
        for exc in (None, "ValueError", "KeyboardInterrupt", "poke"):
            if r == "ok" or exc is None:
                for body in ([], [["kill", "KILL"]], [["diein", "now"]]):
                    if r == "ok" or not body:
                        out.append({"mode": "block", "remote": r, "body": body, "exc": exc, "again": True})
    return out


CHECK = Check(id="C26", strategy=strategy, run=run, quick=700, thorough=8000, exhaustive_examples=exhaustive, context=Ctx, batch=60, case_limit=60, level="fault_enumeration",
              rule="the remote process failed, died or was interrupted, or an error was raised inside the connection block",
              assumptions=["a remote that neither answers nor ends is outside of the property (the program waits for it)"])
