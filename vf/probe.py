"""Runs on the "remote": reports its own execution environment, then behaves as its spec says.
argv: <base> <args...>; <base>.spec holds {"out": n, "err": n, "end": rc or -signal, "order": ...}, the report goes to <base>.report"""
import json
import os
import sys
import time


def main():
    base = sys.argv[1]
    old = os.umask(0)
    os.umask(old)
    with open(base + ".spec") as f:
        spec = json.load(f)
    args = [os.fsencode(a).hex() for a in sys.argv[2:]]

    def emit():
        # interleaved chunks, so that either stream may fill up first
        for fd, n, ch in ((1, spec["out"], b"o"), (2, spec["err"], b"e")) if spec["order"] else ((2, spec["err"], b"e"), (1, spec["out"], b"o")):
            unit = b"".join(ch + b"%d\n\0\xff\r" % i for i in range(64))
            while n > 0:
                k = os.write(fd, (unit * 64)[:n] if n < len(unit) * 64 else unit * 64)
                n -= k
    if spec["early"]:
        emit()
    data = b""
    if spec["read"]:
        while True:
            b = os.read(0, 65536)
            if not b:
                break
            data += b
    if not spec["early"]:
        emit()
    rep = {"args": args, "stdin": data.hex(), "cwd": os.getcwd(), "umask": old, "uids": os.getresuid(), "gids": os.getresgid(), "groups": sorted(os.getgroups())}
    with open(base + ".report", "w") as f:
        json.dump(rep, f)
    if spec["end"] < 0:
        os.kill(os.getpid(), -spec["end"])
        time.sleep(5)  # not reached unless the signal was ignored
        os._exit(97)
    os._exit(spec["end"])


def stream(n, ch):
    """What the probe writes on a stream of n bytes (chunk-size independent)."""
    unit = b"".join(ch + b"%d\n\0\xff\r" % i for i in range(64)) * 64
    out = b""
    while len(out) < n:
        out += unit[:n - len(out)]
    return out


if __name__ == "__main__":
    main()
