"""Shared generators, including a dictionary harvested from the code under test.

The dictionary holds the integer and string constants found in the source tree (the usual fuzzing
"auto-dictionary"): sizes around every constant and every constant string are offered to the
generators, so behaviour keyed to a particular length or name is within reach."""
import ast
import os

from hypothesis import strategies as st

from vf import env


def _harvest():
    ints, strs = set(), set()
    for root, _, files in os.walk(os.path.join(env.SRC, "fora")):
        for f in sorted(files):
            if not f.endswith(".py") or f in ("example_deploys.py", "version.py"):
                continue
            try:
                with open(os.path.join(root, f), encoding="utf-8") as fh:
                    tree = ast.parse(fh.read())
            except (SyntaxError, OSError):
                continue
            docs = set()
            for node in ast.walk(tree):
                if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                    docs.add(id(node.value))
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant) and id(node) not in docs:
                    v = node.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int) and 0 <= v < 2**63:
                        ints.add(v)
                    elif isinstance(v, str) and 0 < len(v) <= 40:
                        strs.add(v)
                    elif isinstance(v, bytes) and 0 < len(v) <= 40:
                        strs.add(v.decode("latin-1"))
                elif isinstance(node, ast.BinOp):
                    # 64 * 1024, 1 << 20, 2 ** 16 ...
                    try:
                        v = eval(compile(ast.Expression(node), "x", "eval"), {"__builtins__": {}}, {})  # constant arithmetic only
                        if isinstance(v, int) and 0 <= v < 2**63:
                            ints.add(v)
                    except Exception:
                        pass
    return sorted(ints), sorted(strs)


DICT_INTS, DICT_STRS = _harvest()
_POW = [1 << k for k in range(0, 21)]


def _sizes(limit):
    out = set()
    for n in _POW + [1000, 1500, 4000, 10000, 50000, 65535, 100000] + [i for i in DICT_INTS if i <= limit]:
        for d in (-1, 0, 1):
            if 0 <= n + d <= limit:
                out.add(n + d)
    return sorted(out)


def sizes(limit=300000):
    """Byte counts: small ones, and the neighbourhood of every power of two and of every constant in the code."""
    return st.one_of(st.integers(0, 64), st.sampled_from(_sizes(limit)), st.integers(0, limit))


def blobs(limit=300000, raw_max=60):
    """Blob descriptions (see core.blob): raw bytes, or a length with a fill pattern."""
    return st.one_of(
        st.binary(max_size=raw_max),
        st.sampled_from([b"", b"\n", b"\0", b"a", b"\r\n", b"\xff\xfe", b"\xef\xbb\xbfbom", b"no newline", b"line\n", b"\x04", b"\x1a\x00"]),
        st.tuples(st.sampled_from(["fill", "rep", "lines"]), sizes(limit), st.integers(0, 255)).map(list),
    )


def dict_strings(pred=lambda s: True):
    xs = [s for s in DICT_STRS if pred(s)]
    return st.sampled_from(xs or ["x"])


# names for path components: ordinary ones and ones that trip quoting, option parsing, globbing or decoding.
# Every fragment of them is harmless when split or expanded by a shell in the scratch directory.
NASTY = ["-rf", "--help", "-n", "a b", " lead", "trail ", "new\nline", "tab\tx", "qu'ote", 'dq"uote', "$HOME", "$(touch pwn)", "`touch pwn`",
         ";touch pwn", "a&b", "a|b", "star*", "q?", "[ab]", "{a,b}", "~", "back\\slash", "%s", "{}", "{{x}}", "#h", "!x", "é", "日本", "🐸", "..a", ".hidden",
         "...", "a:b", "root:root", "=", "a=b", "x.py", "con\x01trol", "\x7f", "\u2028", "\u00a0", "A" * 120]


# names that tools commonly treat as unimportant
JUNK = [".git", ".gitignore", ".svn", "CVS", "x.pyc", "__pycache__", "x~", "x.bak", ".x.swp", "x.tmp", "x.orig", ".DS_Store", "lost+found", "core", "#x#", "Thumbs.db", "nohup.out", ".nfs0001"]


def names():
    return st.one_of(
        st.sampled_from(JUNK),
        st.sampled_from(["a", "b", "c", "dir", "file", "etc", "x1"]),
        st.sampled_from(NASTY),
        st.text(alphabet=st.characters(blacklist_characters="/\0", blacklist_categories=("Cs",)), min_size=1, max_size=12).filter(lambda s: s not in (".", "..")),
        dict_strings(lambda s: "/" not in s and "\0" not in s and s not in (".", "..") and len(s.encode("utf-8", "replace")) < 200),
    )


MODES_FILE = ["600", "644", "755", "400", "000", "777", "640", "4755", "2755", "6711", "1644", "1777", "7777", "2644", "0644", "00600", "100"]
MODES_DIR = ["700", "755", "777", "750", "2755", "1777", "4755", "6775", "000", "0755", "00700", "7777", "311", "2750"]


def modes(pool):
    return st.one_of(st.sampled_from(pool), st.integers(0, 0o7777).map(lambda m: oct(m)[2:]))
