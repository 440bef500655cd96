"""Command line: vf.runner <ID> [--tier T] [--replay FILE] | --selftest | --list"""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from vf import env

CHECKS = "vf.checks"


def find_module(pid):
    d = os.path.join(os.path.dirname(__file__), "checks")
    for f in sorted(os.listdir(d)):
        if f.lower().startswith(pid.lower() + "_") and f.endswith(".py"):
            return f"{CHECKS}.{f[:-3]}"
    raise SystemExit(f"no check for {pid}")


def load_check(pid):
    env.bootstrap_hypothesis()
    env.bootstrap_fora()
    return importlib.import_module(find_module(pid)).CHECK


def run_shard(a):
    """Child process: runs one shard, writes its result as JSON."""
    from vf import core
    try:
        check = load_check(a.id)
    except BaseException as e:
        # The code under test cannot even be imported: that is not a property violation by itself.
        with open(a.out, "w") as f:
            json.dump({"error": "import: " + traceback.format_exc()}, f)
        return 0
    shard = core.Shard(check, a.tier, a.seed, a.shard, a.count, a.budget)
    try:
        shard.go()
    except BaseException as e:  # pylint: disable=broad-except
        shard.harness_error = traceback.format_exc()
    with open(a.out + ".part", "w") as f:
        json.dump(shard.result(), f)
    os.replace(a.out + ".part", a.out)
    return 0


def write_evidence(check, tier, seed, cov, wall, violations):
    ev = {"property": check.id, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
          "assumptions": check.assumptions, "wall_s": round(wall, 2), "violations": violations}
    d = os.path.join(env.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{check.id}.json")
    with open(p + ".part", "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(p + ".part", p)


def normalise_process():
    """Whatever started this may have ignored signals (nohup), blocked them or set an unusual umask, all of which commands inherit."""
    for sig in (signal.SIGHUP, signal.SIGQUIT, signal.SIGTERM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM, signal.SIGCHLD):
        signal.signal(sig, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    os.umask(0o022)


def main():
    normalise_process()
    for f in (sys.stdout, sys.stderr):
        f.reconfigure(encoding="utf-8", errors="backslashreplace")
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--count", type=int)
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"

    if a.selftest:
        env.bootstrap_hypothesis()
        import hypothesis
        env.bootstrap_fora()
        env.reset_globals()
        for f in sorted(os.listdir(os.path.join(os.path.dirname(__file__), "checks"))):
            if f[0] == "c" and f.endswith(".py"):
                importlib.import_module(f"{CHECKS}.{f[:-3]}")
        print("ok: hypothesis", hypothesis.__version__, "python", sys.version.split()[0])
        return 0

    if a.shard is not None:
        return run_shard(a)

    check = load_check(a.id)
    from vf import core

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        sh = core.Shard(check, a.tier, a.seed, 0, 1, 600)
        try:
            res = sh.run_case(core.dec(rep["case"]))
        finally:
            sh.drop_context()
            shutil.rmtree(sh.scratch, ignore_errors=True)
        if res is None:
            print("replay: property holds on this case")
            return 0
        print(res[2], file=sys.stderr)
        if res[1] is not None and res[1] in sh.known:
            print(f"KNOWN-FINDING: property={check.id} {sh.known[res[1]]}")
            return 0
        print("replay:", res[0])
        print(f"VIOLATION property={check.id} replay={a.replay}")
        return 1

    t0 = time.monotonic()
    count = int(os.environ.get("VF_SHARDS") or 0) or check.shards
    budget = float(os.environ.get("VF_BUDGET") or 0) or (check.quick_budget if a.tier == "quick" else check.thorough_budget)
    tmp = tempfile.mkdtemp(prefix=f"vf-run-{check.id}-")
    os.chmod(tmp, 0o755)
    procs = []
    try:
        for i in range(count):
            out = os.path.join(tmp, f"s{i}.json")
            log = open(os.path.join(tmp, f"s{i}.log"), "wb")
            p = subprocess.Popen([sys.executable, "-m", "vf.runner", check.id, "--tier", a.tier, "--seed", str(a.seed),
                                  "--shard", str(i), "--count", str(count), "--out", out, "--budget", str(budget)],
                                 stdin=subprocess.DEVNULL, stdout=log, stderr=log, cwd=env.VERIF, start_new_session=True,
                                 env={**os.environ, "TMPDIR": tmp})
            procs.append((p, out))
        hard = t0 + budget + check.case_limit + 60
        pending = list(procs)
        failed_at = None
        while pending:
            time.sleep(0.05)
            for p, out in list(pending):
                if p.poll() is not None:
                    pending.remove((p, out))
                    if failed_at is None and os.path.exists(out):
                        try:
                            with open(out) as f:
                                if json.load(f).get("failure"):
                                    failed_at = time.monotonic()
                        except ValueError:
                            pass
            # one shard found a violation: give the others a moment, then stop them
            if failed_at is not None and time.monotonic() > failed_at + 1:
                break
            if time.monotonic() > hard:
                break
        for p, _ in pending:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        results, errors = [], []
        for i, (p, out) in enumerate(procs):
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                if r.get("error"):
                    errors.append(f"shard {i}: {r['error']}")
                if "evaluations" in r:
                    results.append(r)
            elif failed_at is None:
                with open(os.path.join(tmp, f"s{i}.log"), "rb") as f:
                    errors.append(f"shard {i}: no result (exit {p.returncode}): " + f.read()[-3000:].decode(errors="replace"))
        for p, _ in procs:  # anything a case left running
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    labels, known, samples, hashes, nontriv, evals = {}, {}, [], set(), set(), 0
    failure = None
    for r in results:
        evals += r["evaluations"]
        hashes.update(r["hashes"])
        nontriv.update(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["known_hit"].items():
            known[k] = known.get(k, 0) + v
        samples.extend(r["samples"])
        if r["failure"] and (failure is None or len(json.dumps(r["failure"]["case"])) < len(json.dumps(failure["case"]))):
            failure = r["failure"]
    cov = {"evaluations": evals, "distinct_cases": len(hashes), "distinct_nontrivial": len(nontriv), "rule": check.rule,
           "samples": samples[:8], "labels": labels, "shards": count}
    if known:
        cov["known_finding_hits"] = known
    write_evidence(check, a.tier, a.seed, cov, time.monotonic() - t0, 1 if failure else 0)

    if failure is not None:
        d = os.path.join(env.VERIF, "out", "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(failure["case"], sort_keys=True).encode()).hexdigest()[:12]
        path = os.path.join(d, f"{check.id}-{h}.json")
        with open(path, "w") as f:
            json.dump({"property": check.id, "seed": a.seed, "case": failure["case"], "message": failure["message"], "trace": failure["trace"]}, f, indent=1)
        print(f"{check.id}: {failure['message'][:2000]}")
        print(f"case: {json.dumps(failure['case'])[:2000]}")
        print(f"VIOLATION property={check.id} replay={path}")
        return 1
    if errors:
        print("\n".join(errors)[-6000:], file=sys.stderr)
        print(f"{check.id}: the check could not run ({len(errors)} shard errors)", file=sys.stderr)
        return 2
    listed = core.load_known(check.id)
    for k in sorted(listed):
        print(f"KNOWN-FINDING: property={check.id} {listed[k]}" + ("" if k in known else " (not re-observed in this run)"))
    print(f"{check.id}: held on {evals} cases ({len(nontriv)} distinct non-trivial) in {time.monotonic() - t0:.1f} s; labels: {json.dumps(labels, sort_keys=True)[:1500]}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
