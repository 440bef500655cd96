"""C23: escaping of printed contents and diffs."""
import contextlib
import io
import os
import re

from hypothesis import strategies as st

from vf import env, gens
from vf.core import Check, HarnessError, Outcome, Violation, blob
from vf.guard import make_guard
from vf.hostenv import HostEnv, wipe

NASTY = [b"\x1b[2J", b"\x1b]0;title\x07", b"\r", b"\t", b"\0", b"\x7f", b"\xc2\x85", b"\xe2\x80\xa8", b"\xe2\x80\xae", b"\xef\xbb\xbf", b"\xf0\x9f\x90\xb8", b"\xff", b"\xed\xa0\x80", b"\xc3", b"\xe2\x82", b"\x9b31m", b"\xc2\x9b31m",
         b"\\n", b"\\x1b", b"\\", b"\xee\x80\x80", b"\xf4\x8f\xbf\xbf", b"\xc2\xa0", b"\xcc\x81", b"\xe1\x85\x9f", b"\xf3\xa0\x81\x81", b"\x0b", b"\x0c", b"\x1c", b"\x1d", b"\x1e", b"\x08", b"\xd8\x9c", b"\xc0\x80"]
LINES = [b"", b"a", b"b", b"c", b"+", b"-", b"@@ -1 +1 @@", b"--- x", b"+++ y", b" a", b"? ", b"\\ No newline at end of file", b"key = 1", b"key = 2", b"#", b"\r", b"\xc3\xa9"]


def contents():
    atom = st.one_of(st.sampled_from(NASTY), st.sampled_from(NASTY), st.binary(max_size=4), st.text(max_size=3).map(lambda s: s.encode("utf-8", "surrogatepass")), st.sampled_from([b"x", b"\n", b"some text"]))
    return st.lists(atom, max_size=8).map(b"".join)


def strategy():
    line = st.one_of(st.sampled_from(LINES), st.sampled_from(LINES), st.sampled_from(LINES), contents().map(lambda b: b.replace(b"\n", b"")))
    base = st.lists(line, max_size=25)

    @st.composite
    def pair(draw):
        old = draw(base)
        if draw(st.booleans()):
            new = list(old)
            for _ in range(draw(st.integers(0, 4))):
                k = draw(st.integers(0, 2))
                i = draw(st.integers(0, max(0, len(new) - 1)))
                if k == 0:
                    new.insert(i, draw(line))
                elif new and k == 1:
                    del new[i]
                elif new:
                    new[i] = draw(line)
        else:
            new = draw(base)
        j = lambda ls: b"\n".join(ls)
        return [j(old), j(new)]
    opt = pair().flatmap(lambda p: st.sampled_from([p, p, p, p, [None, p[1]], [p[0], None]]))
    return st.one_of(
        st.fixed_dictionaries({"mode": st.just("decode"), "data": contents(), "enc": st.sampled_from(["utf-8", "utf-8", "ascii", None])}),
        st.fixed_dictionaries({"mode": st.just("diff"), "pair": opt, "color": st.booleans(), "file": st.sampled_from(["/etc/x", "a b", "é", "-"])}),
        st.fixed_dictionaries({"mode": st.just("diff"), "pair": opt, "color": st.booleans(), "file": st.sampled_from(["/etc/x", "a b", "é", "-"])}),
        st.fixed_dictionaries({"mode": st.just("command"), "out": st.lists(contents(), max_size=3).map(b"\n".join), "err": contents(), "rc": st.sampled_from([1, 2, 255]), "inside": st.booleans(), "color": st.booleans()}),
        st.fixed_dictionaries({"mode": st.just("op"), "via": st.sampled_from(VIA), "present": st.sampled_from([True, True, False]), "which": st.integers(0, 30), "pair": opt, "dry": st.booleans(), "color": st.booleans(), "file": st.sampled_from(["f", "a b", "é"])}))


VIA = ["upload_content", "upload_content", "upload", "template_content", "template", "upload_dir", "line", "line"]
SHORT = {"\0": [r"\0"], "\n": [r"\n"], "\r": [r"\r"], "\t": [r"\t"], "\a": [r"\a"], "\b": [r"\b"], "\f": [r"\f"], "\v": [r"\v"], "\x1b": [r"\e"]}


def forms(c):
    """The escape sequences that may stand for one character that is not printable."""
    n = ord(c)
    out = list(SHORT.get(c, []))
    if n <= 0xff:
        out.append(f"\\x{n:02x}")
    if n <= 0xffff:
        out.append(f"\\u{n:04x}")
    out.append(f"\\U{n:08x}")
    out.append("".join(f"\\x{b:02x}" for b in c.encode("utf-8")))
    return out


def check_decoded(data, text, enc, what):
    bad = [c for c in text if not c.isprintable()]
    if bad:
        raise Violation(f"{what}: the decoded text of {data!r} contains the unprintable characters {bad[:5]!r}")
    pos = 0
    for c in data.decode(enc, "surrogateescape"):
        if 0xdc80 <= ord(c) <= 0xdcff:
            alts = [f"\\x{ord(c) - 0xdc00:02x}"]
        elif c.isprintable():
            alts = [c]
        else:
            alts = forms(c)
        for a in alts:
            if text[pos:pos + len(a)].lower() == a.lower() if len(a) > 1 else text[pos:pos + 1] == a:
                pos += len(a)
                break
        else:
            raise Violation(f"{what}: {data!r} is shown as {text!r}; at position {pos} {alts[0]!r} was expected")
    if pos != len(text):
        raise Violation(f"{what}: {data!r} is shown as {text!r}, which has extra text {text[pos:]!r}")


def lines_of(b):
    return [] if b is None else b.split(b"\n")


HUNK = re.compile(r"^@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@$")


def check_diff(lines, file, old, new, what):
    if len(lines) < 3:
        raise Violation(f"{what}: no header: {lines!r}")
    action = "created" if old is None else "deleted" if new is None else "modified"
    head, body = lines[:3], lines[3:]
    if head[1] != f"{action}: {file}":
        raise Violation(f"{what}: titled {head[1]!r}, expected {action!r} for {file!r}")
    for l in lines:
        bad = [c for c in l if not c.isprintable()]
        if bad:
            raise Violation(f"{what}: the diff contains the unprintable characters {bad[:4]!r} in {l!r}")
    o, n = lines_of(old), lines_of(new)
    io = in_ = 0           # position in the old and new lines
    i = 0

    def same(upto_o, upto_n):
        """The lines between hunks are the same on both sides."""
        nonlocal io, in_
        if upto_o - io != upto_n - in_ or upto_o < io or o[io:upto_o] != n[in_:upto_n]:
            raise Violation(f"{what}: the diff leaves out differences: old lines {io}..{upto_o} and new lines {in_}..{upto_n}; {old!r} -> {new!r}: {body!r}")
        io, in_ = upto_o, upto_n
    while i < len(body):
        m = HUNK.match(body[i])
        if not m:
            raise Violation(f"{what}: expected a hunk header, got {body[i]!r} in {body!r} for {old!r} -> {new!r}")
        a, b, c, d = (1 if g is None else int(g) for g in m.groups())
        i += 1
        same(a - 1 if b else a, c - 1 if d else c)
        eo, en = io + b, in_ + d
        while io < eo or in_ < en:
            if i >= len(body) or not body[i]:
                raise Violation(f"{what}: the hunk {m.group(0)!r} is incomplete in {body!r}")
            l = body[i]
            i += 1
            if l[0] == " ":
                if io >= len(o) or in_ >= len(n) or o[io] != n[in_]:
                    raise Violation(f"{what}: {l!r} is shown as unchanged, but isn't, for {old!r} -> {new!r}")
                check_decoded(o[io], l[1:], "utf-8", what)
                io += 1
                in_ += 1
            elif l[0] == "-":
                if io >= len(o):
                    raise Violation(f"{what}: removes more lines than there are: {body!r}")
                check_decoded(o[io], l[1:], "utf-8", what)
                io += 1
            elif l[0] == "+":
                if in_ >= len(n):
                    raise Violation(f"{what}: adds more lines than there are: {body!r}")
                check_decoded(n[in_], l[1:], "utf-8", what)
                in_ += 1
            else:
                raise Violation(f"{what}: unexpected diff line {l!r}")
        if io != eo or in_ != en:
            raise Violation(f"{what}: the hunk {m.group(0)!r} doesn't have the announced size in {body!r}")
    same(len(o), len(n))


SGR = re.compile("\x1b\\[[0-9;]*m")


class Ctx:
    def __init__(self, scratch):
        self.root = os.path.join(scratch, "r")
        os.makedirs(self.root, exist_ok=True)
        env.reset_globals()
        self.he = HostEnv(scratch, connector=make_guard(self.root))

    def close(self):
        self.he.close()


def run(case, ctx):
    from fora import logger
    if case["mode"] == "decode":
        data = case["data"]
        text = logger.decode_escape(data) if case["enc"] is None else logger.decode_escape(data, encoding=case["enc"])
        check_decoded(data, text, case["enc"] or "utf-8", "decode_escape")
        return Outcome(text != data.decode("latin-1"), ["decode"])
    if case["mode"] == "command":
        return run_command(case, ctx)
    old, new = case["pair"]
    if old == new:
        return Outcome(False, ["equal"])
    if case["mode"] == "diff":
        lines = logger.diff(case["file"], old, new, color=case["color"])
        if any("\n" in l for l in lines):
            raise Violation(f"a diff line contains a newline: {lines!r}")
        if case["color"]:
            plain = logger.diff(case["file"], old, new, color=False)
            stripped = []
            for l in lines:
                m = re.fullmatch("\x1b\\[[0-9;]*m(.*)\x1b\\[m", l, re.S)
                stripped.append(m.group(1) if m else l)
            if stripped != plain:
                raise Violation(f"the colored diff differs from the plain one: {lines!r} / {plain!r}")
            lines = stripped
        check_diff(lines, case["file"], old, new, "diff")
        return Outcome(True, ["diff", "created" if old is None else "deleted" if new is None else "modified"])
    # through an operation
    wipe(ctx.root)
    via = case.get("via", "upload_content")
    path = os.path.join(ctx.root, case["file"])
    if via == "upload_dir":
        path = os.path.join(ctx.root, "dest", case["file"])
        os.mkdir(os.path.join(ctx.root, "dest"))
    if new is None:
        return Outcome(False, ["no such operation"])
    if old is not None:
        with open(path, "wb") as f:
            f.write(old)
    src = os.path.join(ctx.root, "src")
    os.mkdir(src)
    text = None
    if via in ("template", "template_content"):
        try:
            text = new.decode("utf-8")
        except UnicodeDecodeError:
            return Outcome(False, ["not text"])
    line = None
    if via == "line":
        try:
            lines = [l.decode("utf-8") for l in (new + b"\n" + (old or b"")).splitlines()]
        except UnicodeDecodeError:
            return Outcome(False, ["not text"])
        lines = [l for l in lines if len(l.splitlines()) == 1]
        if not lines:
            return Outcome(False, ["no line"])
        line = lines[case["which"] % len(lines)]
    with open(os.path.join(src, case["file"]), "wb") as f:
        f.write(b"{{ t }}" if via == "template" else new)

    def fn():
        from fora.operations import files
        if via == "upload_content":
            files.upload_content(new, path)
        elif via == "upload":
            files.upload(os.path.join(src, case["file"]), path)
        elif via == "template_content":
            files.template_content("{{ t }}", path, context={"t": text})
        elif via == "template":
            files.template(os.path.join(src, case["file"]), path, context={"t": text})
        elif via == "upload_dir":
            files.upload_dir(src, os.path.join(ctx.root, "dest"))
        else:
            files.line(path, line, present=case["present"])

    def content():
        if not os.path.lexists(path):
            return None
        with open(path, "rb") as f:
            return f.read()
    ctx.he.in_script(fn, diff=True, dry=case["dry"], no_color=not case["color"])
    out = ctx.he.out.getvalue()
    if not case["color"] and "\x1b" in out:
        raise Violation(f"with color disabled, an escape character was printed: {out!r}")
    if case["dry"]:
        if content() != old:
            raise Violation(f"a dry run of {via} changed the file")
        ctx.he.in_script(fn)
    became = content()
    if via != "line" and became != new:
        raise Violation(f"{via} of {new!r} left {became!r}")
    new = became
    if new == old:
        bad = [l for l in out.split("\n") if "modified: " in l or "created: " in l or "deleted: " in l]
        if bad:
            raise Violation(f"{via} left the contents as they were, but a difference is shown: {bad}")
        return Outcome(False, ["op-unchanged"])
    plain = SGR.sub("", out) if case["color"] else out
    at = [i for i, l in enumerate(plain.split("\n")) if l.endswith(f": {path}") and not l.startswith("script")]
    got = None
    for i in at:
        ls = plain.split("\n")
        head = ls[i][:ls[i].index(("created" if old is None else "modified"))] if ("created" if old is None else "modified") in ls[i] else None
        if head is not None:
            w = len(head)
            rest = [l[w:] for l in ls[i - 1:] if l]
            got = rest
            break
    if got is None:
        raise Violation(f"with --diff, no diff titled {'created' if old is None else 'modified'} was printed for {path}: {out!r}")
    check_diff(got, path, old, new, "printed diff")
    return Outcome(True, ["op", "op-" + via, "created" if old is None else "modified"])


def run_command(case, ctx):
    """The output of a failed command is shown, so that it can be read, but cannot control the terminal."""
    import subprocess
    wipe(ctx.root)
    for n in ("out", "err"):
        with open(os.path.join(ctx.root, n), "wb") as f:
            f.write(case[n])
    argv = ["sh", "-c", f"cat '{ctx.root}/out'; cat '{ctx.root}/err' >&2; exit {case['rc']}"]

    def fn():
        import fora
        from fora.operations.api import operation

        @operation("failing")
        def failing(name=None, check=True, op=None):
            op.desc("x")
            fora.host.connection.run(argv, check=True)
        if case["inside"]:
            failing()
        else:
            fora.host.connection.run(argv, check=True)
    errs = io.StringIO()
    try:
        with contextlib.redirect_stderr(errs):
            ctx.he.in_script(fn, no_color=not case["color"])
        raise Violation(f"a command that failed with {case['rc']} raised no error")
    except subprocess.CalledProcessError:
        pass
    text = errs.getvalue()
    if case["color"]:
        text = SGR.sub("", text)
    lines = text.split("\n")
    bad = [c for l in lines for c in l if not c.isprintable()]
    if bad:
        raise Violation(f"the output of a failed command reaches the terminal with the unprintable characters {bad[:5]!r}: {text!r}")
    at = {}
    for i, l in enumerate(lines):
        m = re.match("──────── (stdout|stderr|end)\\b", l)
        if m:
            at.setdefault(m.group(1), []).append(i)
    if sorted(at) != ["end", "stderr", "stdout"] or any(len(v) != 1 for v in at.values()):
        raise Violation(f"the output of a failed command isn't shown exactly once: {text!r}")
    for n, a, b in (("out", "stdout", "stderr"), ("err", "stderr", "end")):
        shown, want = lines[at[a][0] + 1:at[b][0]], case[n].split(b"\n")
        while shown and not shown[-1]:
            shown.pop()
        while want and not want[-1]:
            want.pop()
        if len(shown) != len(want):
            raise Violation(f"{len(want)} lines of {a} of a failed command are shown as {shown!r}")
        for w, s in zip(want, shown):
            check_decoded(w, s, "utf-8", f"{a} of a failed command")
    return Outcome(bool(case["out"] or case["err"]), ["command"])


def examples():
    allc = bytes(range(256))
    cps = [0x300, 0x200b, 0x200e, 0x2028, 0x2029, 0x202e, 0x2066, 0xfeff, 0xfff9, 0xe000, 0xe0041, 0x10ffff, 0x1d173, 0x378, 0x3000, 0xad]
    return [{"mode": "decode", "data": allc, "enc": "utf-8"}, {"mode": "decode", "data": allc, "enc": "ascii"}, {"mode": "decode", "data": "".join(map(chr, range(0x100))).encode(), "enc": None},
            {"mode": "decode", "data": "".join(map(chr, cps)).encode(), "enc": None}, {"mode": "diff", "pair": [None, b""], "color": False, "file": "f"}, {"mode": "diff", "pair": [b"", None], "color": True, "file": "f"},
            {"mode": "op", "pair": [b"a\n\x1b[2J\n", b"a\nb\n"], "dry": True, "color": False, "file": "f"}]


def exhaustive(tier):
    if tier != "thorough":
        step, out = 1024, []
        for lo in list(range(0, 0x3000, step)) + [0xd000, 0xe000, 0xf000, 0xfc00, 0x1d000, 0xe0000]:
            out.append({"mode": "decode", "data": "".join(chr(c) for c in range(lo, lo + step) if not 0xd800 <= c < 0xe000).encode(), "enc": "utf-8"})
        return out
    return [{"mode": "decode", "data": "".join(chr(c) for c in range(lo, lo + 4096) if not 0xd800 <= c < 0xe000).encode(), "enc": "utf-8"} for lo in range(0, 0x110000, 4096)]


CHECK = Check(id="C23", strategy=strategy, run=run, quick=6000, thorough=200000, examples=examples, exhaustive_examples=exhaustive, context=Ctx, batch=500,
              rule="the data contains something other than plain text (decode), the two contents differ (diff, directly or printed by an operation), or a failing command produced output (which is shown escaped, line by line)")
