"""C02: a connection that breaks at any byte is reported as a connection error, never as data, and has no half-effects."""
import os
import subprocess
from types import SimpleNamespace

from hypothesis import strategies as st

from vf import env, gens, tunnel
from vf.core import Check, HarnessError, Outcome, Violation, blob
from vf.hostenv import snap_diff, snapshot, wipe

# kind -> response class (as far as the caller can tell)
KINDS = {"stat": "S", "stat_missing": "X", "stat_sha": "S", "download": "D", "download_missing": "X", "run": "P", "run_fail": "P", "resolve_user": "R",
         "resolve_group": "R", "resolve_bad": "X", "query_user": "U", "query_group": "G", "getenv": "E", "getenv_unset": "E", "upload": "O", "upload_dir": "X", "run_missing": "X",
         # the same requests through the connection that scripts and operations use, which has defaults for what does not exist
         "stat_or": "S", "download_or": "D", "query_user_or": "U", "query_user_home": "U", "query_group_or": "G", "getenv_or": "E", "resolve_user_or": "R", "upload_or": "O"}


# the class of a successful answer to that kind of request
WANT = {k: {"stat": "S", "download": "D", "run": "P", "resolve": "R", "query": "U" if k.startswith("query_user") else "G", "getenv": "E", "upload": "O"}[k.split("_")[0]] for k in KINDS}


# a refusal of a value names the field of the request, which only these kinds of requests have
FIELDS = {"stat_missing": ("stat",), "download_missing": ("download", "upload"), "resolve_bad": ("resolve_user", "resolve_bad", "run", "query_user")}
JUNK = [b"\xff" * 8, b"\x7f" + b"\xff" * 7, b"\x00\x00\x01" + b"\x00" * 5, b"\xff" * 4, b"\x00" * 8, b"\x80" + b"\x00" * 7]


def has_field(kind, other):
    return any(kind == f or kind.startswith(f + "_") for f in FIELDS[other])


def api(connector):
    """ The connection object over a connector that is already open. """
    from fora.connection import Connection
    host = SimpleNamespace(create_connector=lambda: connector, inventory=SimpleNamespace(base_remote_settings=lambda: None))
    return Connection(host)


def op_of(kind, root, content, word):
    f = os.path.join(root, "f")
    sub = os.path.join(root, "sub", "deep")
    return {
        "stat": lambda c: c.stat(f),
        "stat_sha": lambda c: c.stat(f, sha512sum=True),
        "stat_missing": lambda c: c.stat(os.path.join(root, "nope" + word)),
        "download": lambda c: c.download(f),
        "download_missing": lambda c: c.download(os.path.join(root, "nope" + word)),
        "run": lambda c: c.run(["sh", "-c", 'cat; : > "made-$1"; echo err >&2', "sh", word], input=content, cwd=sub, umask="022"),
        "run_fail": lambda c: c.run(["sh", "-c", 'echo "$1"; : > made; exit 3', "sh", word], check=False, cwd=sub),
        "run_missing": lambda c: c.run(["/nonexistent/" + word]),
        "resolve_user": lambda c: c.resolve_user("root"),
        "resolve_group": lambda c: c.resolve_group("root"),
        "resolve_bad": lambda c: c.resolve_user("no-such-user-" + word),
        "query_user": lambda c: c.query_user("root"),
        "query_group": lambda c: c.query_group("root"),
        "getenv": lambda c: c.getenv("PATH"),
        "getenv_unset": lambda c: c.getenv("VF_NOPE_" + word),
        "upload": lambda c: c.upload(os.path.join(root, "up"), content, mode="640", owner="root", group="root"),
        "upload_dir": lambda c: c.upload(sub, content),
        "stat_or": lambda c: api(c).stat(f),
        "download_or": lambda c: api(c).download_or(f, b"default"),
        "query_user_or": lambda c: api(c).query_user("root", default="default"),
        "query_user_home": lambda c: api(c).home_dir("root"),
        "query_group_or": lambda c: api(c).query_group("root", default="default"),
        "getenv_or": lambda c: api(c).getenv("PATH", "default"),
        "resolve_user_or": lambda c: api(c).resolve_user("root"),
        "upload_or": lambda c: api(c).upload(os.path.join(root, "up"), content),
    }[kind]


def prepare(root, content):
    wipe(root)
    os.makedirs(os.path.join(root, "sub", "deep"))
    with open(os.path.join(root, "f"), "wb") as fh:
        fh.write(content)


def strategy():
    word = st.one_of(st.sampled_from(["w", "ab", "é", "日本語", "x" * 200]), st.text(alphabet="abcé日", min_size=1, max_size=10))
    cut = st.one_of(st.integers(0, 1000), st.integers(-12, -1))
    return st.one_of(
        st.fixed_dictionaries({"mode": st.just("response"), "kind": st.sampled_from(sorted(KINDS)), "content": gens.blobs(100000, 30), "word": word, "cuts": st.lists(cut, min_size=1, max_size=6)}),
        st.fixed_dictionaries({"mode": st.just("request"), "kind": st.sampled_from(["run", "run_fail", "upload", "upload", "download", "stat"]), "content": gens.blobs(100000, 30), "word": word,
                               "cuts": st.lists(cut, min_size=1, max_size=3)}),
        st.fixed_dictionaries({"mode": st.just("swap"), "kind": st.sampled_from([k for k in sorted(KINDS)]), "other": st.sampled_from([k for k in sorted(KINDS) if KINDS[k] != "X" or k in FIELDS] + ["garbage", "ack", "request"]),
                               "content": gens.blobs(3000, 30), "word": word}),
        st.fixed_dictionaries({"mode": st.just("corrupt"), "kind": st.sampled_from(sorted(KINDS)), "content": gens.blobs(300, 30), "word": word,
                               "spots": st.lists(st.tuples(st.one_of(st.integers(0, 40), cut), st.sampled_from(JUNK) | st.binary(min_size=1, max_size=9)), min_size=1, max_size=6)}),
    )


def positions(cuts, n):
    """Cut points as byte offsets in [0, n): non-negative = per mille, negative = from the end, 'all' = every byte."""
    if cuts == "all":
        return list(range(n))
    out = []
    for c in cuts:
        p = n + c if c < 0 else c * n // 1001
        if 0 <= p < n and p not in out:
            out.append(p)
    return out


class Ctx:
    def __init__(self, scratch):
        self.root = os.path.join(scratch, "root")
        self.tmp = os.path.join(scratch, "tmp")
        os.makedirs(self.root)
        os.makedirs(self.tmp)
        env.reset_globals()
        _, self.in0, self.out0 = tunnel.record(self.tmp, lambda c: None)

    def close(self):
        pass


def expect_connection_error(con, op, what):
    try:
        con.open()
        opened = True
    except OSError:
        return "open"
    except Exception as e:
        raise Violation(f"{what}: opening the connection raised {type(e).__name__}: {e} instead of a connection error")
    try:
        try:
            res = op(con)
        except OSError:
            return "op"
        except Exception as e:
            raise Violation(f"{what}: raised {type(e).__name__}: {str(e)[:200]} instead of a connection error")
        raise Violation(f"{what}: returned {str(getattr(res, '__dict__', res))[:300]} as if nothing had happened")
    finally:
        try:
            con.close()
        except OSError:
            pass


def any_answer(con, op, what):
    con.open()
    try:
        op(con)
        return "decoded"
    except OSError:
        return "refused"
    except subprocess.CalledProcessError:
        return "decoded"
    except Exception as e:
        if type(e) is ValueError or type(e).__name__ == "RemoteOSError":
            return "decoded-error"
        raise Violation(f"{what}: raised {type(e).__name__}: {str(e)[:200]} instead of a connection error")
    finally:
        try:
            con.close()
        except OSError:
            pass


def run(case, ctx):
    env.reset_globals()
    content = blob(case["content"])
    kind = case["kind"]
    op = op_of(kind, ctx.root, content, case["word"])
    prepare(ctx.root, content)
    _, rin, rout = tunnel.record(ctx.tmp, op)
    # rin = alive + request + exit ; rout = ack + response
    labels = [case["mode"], kind]
    if not rout.startswith(ctx.out0) or len(rout) == len(ctx.out0):
        raise Violation(f"{kind}: the dispatcher sent no response of its own")
    if case["mode"] == "response":
        done = 0
        stages = set()
        for p in positions(case["cuts"], len(rout)):
            stages.add(expect_connection_error(tunnel.replayed(ctx.tmp, rout[:p]), op, f"{kind}: response stream of {len(rout)} bytes cut after {p}"))
            done += 1
        return Outcome("op" in stages, labels + [f"cut-at-{s}" for s in stages])
    if case["mode"] == "corrupt":
        # some bytes of the answer are garbage: what then happens to decode cannot be told from a real answer, but everything else is a connection error
        resp = rout[len(ctx.out0):]
        seen = set()
        for off, junk in case["spots"]:
            off = max(0, min(len(resp) - 1, len(resp) + off if off < 0 else off if off <= 40 else off * len(resp) // 1001))
            bad = resp[:off] + junk + resp[off + len(junk):]
            seen.add(any_answer(tunnel.replayed(ctx.tmp, ctx.out0 + bad), op, f"{kind}: answered with {bad[:80].hex()} (bytes from {off} on are garbage)"))
        return Outcome("refused" in seen, labels + sorted(seen))
    if case["mode"] == "swap":
        if case["other"] == "garbage":
            resp = b"\xff" * 64
        elif case["other"] == "ack":
            resp = ctx.out0
        elif case["other"] == "request":
            n = len(ctx.in0) // 2
            resp = rin[n:len(rin) - (len(ctx.in0) - n)]
        else:
            if case["other"] in FIELDS:
                if has_field(kind, case["other"]):
                    return Outcome(False, labels + ["same-field"])
            elif KINDS[case["other"]] == WANT[kind]:
                return Outcome(False, labels + ["same-class"])
            prepare(ctx.root, content)
            _, _, other = tunnel.record(ctx.tmp, op_of(case["other"], ctx.root, content, case["word"]))
            resp = other[len(ctx.out0):]
        expect_connection_error(tunnel.replayed(ctx.tmp, ctx.out0 + resp), op, f"{kind}: answered with the response to {case['other']}")
        return Outcome(True, labels + ["answer-" + case["other"]])
    # request cut: the dispatcher sees a prefix of the request stream, then the connection is gone
    head = len(rin) - len(ctx.in0)      # length of the request itself
    first = len(ctx.in0) - _exit_len(ctx)
    total = first + head
    for p in positions(case["cuts"], total):
        prepare(ctx.root, content)
        before = snapshot(ctx.root)
        r = subprocess.run(tunnel.local_command(), input=rin[:p], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=False)
        diff = snap_diff(before, snapshot(ctx.root))
        if diff:
            raise Violation(f"{kind}: request cut after {p} of {total} bytes still had an effect: {diff[:4]}")
    return Outcome(kind in ("run", "run_fail", "upload"), labels)


def _exit_len(ctx):
    # the open-only session consists of the alive request and the exit request; both carry no fields
    return len(ctx.in0) // 2


def exhaustive(tier):
    out = []
    for k in sorted(KINDS):
        if tier == "thorough" or k in ("download", "stat_sha", "run", "resolve_user", "query_group", "getenv", "stat_missing"):
            out.append({"mode": "response", "kind": k, "content": b"content \xff\xfe\n", "word": "w\u00e9", "cuts": "all"})
    for k in ("upload", "run", "run_fail") if tier == "thorough" else ("upload", "run_fail"):
        out.append({"mode": "request", "kind": k, "content": b"abc\n", "word": "w", "cuts": "all" if tier == "thorough" else [0, 50, 100, 200, 300, 400, 500, 600, 700, 800, 850, 900, 950, -1, -2, -3, -4, -5, -6, -9, -10, -11]})
    for k in sorted(KINDS):
        out.append({"mode": "corrupt", "kind": k, "content": b"c", "word": "w", "spots": [[o, j] for j in JUNK[:3] for o in ((4, 5, 8, 12) if tier == "quick" else range(24))]})
        for o in ("garbage", "ack", "download", "run", "upload", "stat", "stat_missing", "download_missing", "resolve_bad"):
            if not has_field(k, o) if o in FIELDS else KINDS.get(o) != WANT[k]:
                out.append({"mode": "swap", "kind": k, "other": o, "content": b"c", "word": "w"})
    return out


CHECK = Check(
    id="C02", strategy=strategy, run=run, quick=500, thorough=9000, batch=40, level="fault_enumeration", context=Ctx, exhaustive_examples=exhaustive,
    rule="a real exchange is recorded for each kind of request; then the remote's answer stream is cut after a chosen byte, replaced by the answer to another kind of request (also a refusal of a value the request does not have) or by garbage, partly overwritten by garbage such as impossible lengths, "
         "or the request stream is cut after a chosen byte (every byte for small exchanges, generated offsets otherwise); non-trivial: the connection opened and the fault hit the request itself "
         "(response side), or the cut request would have had an effect (request side)",
    assumptions=["the recorded session consists of the liveness handshake, the request, and the exit request"],
)
