"""C01: packets survive the wire."""
import io
import typing

from hypothesis import strategies as st

from vf import env, gens
from vf.core import Check, Outcome, Violation, blob

env.bootstrap_fora()
from fora.connectors import tunnel_dispatcher as td  # noqa: E402

RANGES = {"i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}

# What each field has to be able to carry, independent of how it is declared on the wire.
DOMAIN = {
    ("PacketProcessCompleted", "returncode"): (-64, 255),
    ("PacketStatResult", "mode"): (0, 0o7777),
    ("PacketStatResult", "size"): (0, 2**62),
    ("PacketStatResult", "mtime"): (-2**62, 2**62),
    ("PacketStatResult", "ctime"): (-2**62, 2**62),
    ("PacketUserEntry", "uid"): (0, 2**32 - 1),
    ("PacketUserEntry", "gid"): (0, 2**32 - 1),
    ("PacketGroupEntry", "gid"): (0, 2**32 - 1),
    ("PacketOSError", "errno"): (0, 4095),
}


class ChunkReader(io.RawIOBase):
    """A pipe end that delivers the stream in pieces of given sizes."""
    def __init__(self, data, chunks):
        self.data, self.pos, self.chunks, self.i = data, 0, [max(1, c) for c in chunks] or [1 << 30], 0

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), self.chunks[self.i % len(self.chunks)], len(self.data) - self.pos)
        self.i += 1
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class ChunkWriter(io.RawIOBase):
    """A pipe end that accepts at most the given number of bytes per write."""
    def __init__(self, chunks):
        self.buf, self.chunks, self.i = bytearray(), [max(1, c) for c in chunks] or [1 << 30], 0

    def writable(self):
        return True

    def write(self, b):
        n = min(len(b), self.chunks[self.i % len(self.chunks)])
        self.i += 1
        self.buf += bytes(b)[:n]
        return n


def text():
    return st.one_of(st.text(alphabet=st.characters(blacklist_categories=("Cs",)), max_size=20), gens.dict_strings(),
                     gens.sizes(70000).map(lambda n: ["s", n]), gens.sizes(40000).map(lambda n: ["u", n]))


def stext(v):
    """Expands compact long-text descriptions: ['s', n] ascii, ['u', n] multi-byte."""
    if isinstance(v, list) and len(v) == 2 and v[0] in ("s", "u") and isinstance(v[1], int):
        return ("x" if v[0] == "s" else "é")* v[1]
    return v


def value(cls, field, t):
    if t is bool:
        return st.booleans()
    if t is str:
        return text()
    if t is bytes:
        return gens.blobs(200000)
    origin = typing.get_origin(t)
    if origin is typing.Union:
        inner = [x for x in typing.get_args(t) if x is not type(None)][0]
        return st.none() | value(cls, field, inner)
    if origin is list:
        inner = typing.get_args(t)[0]
        return st.lists(value(cls, field, inner) if inner is not str else st.one_of(st.text(alphabet=st.characters(blacklist_categories=("Cs",)), max_size=8), gens.dict_strings()), max_size=8) | \
            gens.sizes(3000).map(lambda n: ["list", n]) if inner is str else st.lists(value(cls, field, inner), max_size=5)
    lo, hi = DOMAIN.get((cls, field), RANGES.get(getattr(t, "__name__", ""), (0, 2**31 - 1)))
    edges = [lo, hi, 0, 1, -1, 127, 128, 255, 256, 2**15, 2**16, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1] + gens.DICT_INTS
    return st.one_of(st.integers(lo, hi), st.sampled_from([e for e in edges if lo <= e <= hi]))


def expand(v):
    if isinstance(v, list):
        if len(v) == 3 and v[0] in ("fill", "rep", "lines"):
            return blob(v)
        if len(v) == 2 and v[0] == "list":
            return [f"e{i}" for i in range(v[1])]
        if len(v) == 2 and v[0] in ("s", "u") and isinstance(v[1], int):
            return stext(v)
        return [expand(x) for x in v]
    return v


def packet():
    alts = []
    for cls in td.packets:
        hints = {f: cls.__annotations__[f] for f in cls._fields}
        hints = typing.get_type_hints(cls) if any(isinstance(x, str) for x in hints.values()) else hints
        alts.append(st.fixed_dictionaries({f: value(cls.__name__, f, t) for f, t in hints.items()}).map(lambda d, n=cls.__name__: [n, d]))
    return st.one_of(alts)


def strategy():
    chunk = st.lists(st.one_of(st.integers(1, 9), st.sampled_from([1, 2, 3, 4, 7, 8, 16, 4096, 65536])), min_size=1, max_size=4)
    bad = st.tuples(st.sampled_from(["surrogate", "toolarge", "negative"]), st.integers(0, 3)).map(list)
    return st.fixed_dictionaries({"packets": st.lists(packet(), min_size=1, max_size=5), "r": chunk, "w": chunk, "bad": st.none() | bad})


def bad_packet(kind):
    if kind == "surrogate":
        return td.PacketUpload(file="/x", content=b"y" * 100, mode="644", owner="\udcff\ud800", group=None)
    if kind == "toolarge":
        return td.PacketProcessCompleted(b"out", b"err", 2**40)
    return td.PacketProcessRun(command=["a", "b"], stdin=b"q", capture_output=True, user=None, group=None, umask=None, cwd="\ud83d")


def run(case, _):
    env.reset_globals()
    classes = {c.__name__: c for c in td.packets}
    raw = ChunkWriter(case["w"])
    wconn = td.Connection(io.BytesIO(), io.BufferedWriter(raw))
    sent = []
    labels = set()
    for i, (name, fields) in enumerate(case["packets"]):
        if case["bad"] is not None and case["bad"][1] == i:
            # A packet that cannot be represented is refused, and leaves no trace on the stream.
            before = bytes(raw.buf)
            try:
                wconn.write_packet(bad_packet(case["bad"][0]))
            except Exception:
                labels.add("unencodable")
                try:
                    wconn.flush()
                except Exception:
                    pass
                if bytes(raw.buf) != before:
                    raise Violation(f"writing an unencodable packet left {len(raw.buf) - len(before)} stray bytes on the stream")
            else:
                raise Violation("an unencodable value was accepted")
        p = classes[name](**{f: expand(v) for f, v in fields.items()})
        before = len(raw.buf)
        wconn.write_packet(p)
        if len(raw.buf) == before:
            raise Violation(f"{name} was not flushed to the peer")
        sent.append(p)
        labels.add(name)
    data = bytes(raw.buf)
    reader = io.BufferedReader(ChunkReader(data, case["r"]))
    rconn = td.Connection(reader, io.BytesIO())
    rich = False
    for p in sent:
        name = type(p).__name__
        try:
            got = td.receive_packet(rconn, request=FakeRequest(getattr(p, "field", "value")))
        except td.RemoteOSError as e:
            if name != "PacketOSError" or (e.errno, e.strerror, str(e)) != (p.errno, p.strerror, p.msg):
                raise Violation(f"sent {str(p)[:300]}, receiver saw remote OSError({e.errno}, {e.strerror!r}, {str(e)!r})")
            continue
        except ValueError as e:
            if name != "PacketInvalidField" or p.error_message not in str(e) or p.field not in str(e):
                raise Violation(f"sent {str(p)[:300]}, receiver raised {type(e).__name__}: {str(e)[:300]}")
            continue
        if type(got) is not type(p) or tuple(got) != tuple(p) or [type(x) for x in got] != [type(x) for x in p]:
            raise Violation(f"sent {str(p)[:400]}, received {str(got)[:400]}")
        rich = rich or any(x for x in p)
    rest = reader.read()
    if rest:
        raise Violation(f"{len(rest)} bytes left on the stream after all packets were read")
    return Outcome(rich and max(case["r"]) < len(data), sorted(labels) + (["multi"] if len(sent) > 1 else []) + (["big"] if len(data) > 65536 else []))


class FakeRequest:
    """A request that has the field an error talks about."""

    def __init__(self, field):
        self._fields = (field,)

    def __getattr__(self, item):
        return "value"


CHECK = Check(
    id="C01", strategy=strategy, run=run, quick=3000, thorough=60000, batch=250,
    rule="sequences of 1-5 packets over every packet type with field values over the full declared domain (sizes around powers of two and code constants), "
         "written through a partially-accepting pipe and read through a fragmenting pipe; non-trivial: some packet carries a non-empty field and the stream is delivered in more than one fragment",
    examples=lambda: [
        {"packets": [["PacketOk", {}], ["PacketAck", {}]], "r": [1], "w": [1], "bad": None},
        {"packets": [["PacketStatResult", {"type": "file", "mode": 0o644, "owner": "root", "group": "root", "size": 1, "mtime": -1, "ctime": 1, "sha512sum": None}]], "r": [3], "w": [5], "bad": ["surrogate", 0]},
    ],
    assumptions=["the transport is a reliable byte stream"],
)
