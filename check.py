#!/usr/bin/env python3
"""Run one property's check:  check.py --prop C01 [--tier quick|thorough] [--replay FILE] [--seconds N]

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Anything else: the check could not run.
"""
import argparse
import json
import os
import pwd
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = "/opt/pypyvenv/bin/python"
QUICK, THOROUGH = 36.0, 600.0


def build_shim(scratch):
    """Compile the monitor library; returns its path."""
    src = os.path.join(HERE, "vz", "shim.c")
    out = os.path.join(scratch, "shim.so")
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", out, src, "-ldl"], check=True)
    os.chmod(out, 0o755)
    return out


def scratch_dir():
    last = None
    for top in ("/dev/shm", "/tmp"):
        try:
            if shutil.disk_usage(top).free < 512 << 20:
                continue
            d = tempfile.mkdtemp(prefix="vz.", dir=top)
            os.chmod(d, 0o755)
            return d
        except OSError as e:
            last = e
    raise SystemExit("no scratch space: %s" % last)


def sweep():
    """Remove scratch left behind by checks that were killed (their owner process is gone)."""
    for top in ("/dev/shm", "/tmp"):
        try:
            names = os.listdir(top)
        except OSError:
            continue
        for n in names:
            p = os.path.join(top, n)
            if n.startswith("vz.") and os.path.isfile(os.path.join(p, "owner")):
                try:
                    with open(os.path.join(p, "owner")) as f:
                        pid = int(f.read())
                    os.kill(pid, 0)
                except (ValueError, ProcessLookupError):
                    shutil.rmtree(p, ignore_errors=True)
                except OSError:
                    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    seed = os.environ.get("VERIF_SEED", "1")
    from vz import meta
    info = meta.CHECKS[a.prop]
    seconds = a.seconds or (info.get("quick", QUICK) if a.tier == "quick" else info.get("thorough", THOROUGH))
    workers = a.workers or info.get("workers") or min(8, max(2, os.cpu_count() or 2))
    if a.replay:
        workers = 1
    sweep()
    scratch = scratch_dir()
    with open(os.path.join(scratch, "owner"), "w") as f:
        f.write(str(os.getpid()))
    t0 = time.monotonic()
    procs = []
    try:
        shim = build_shim(scratch)
        nob = pwd.getpwnam("nobody")
        arena = os.path.join(scratch, "arena")
        os.mkdir(arena, 0o755)
        os.chown(arena, nob.pw_uid, nob.pw_gid)
        env = {"HOME": "/nonexistent", "PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
               "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYPY_GC_NURSERY": "512K", "PYTHONPYCACHEPREFIX": os.path.join(scratch, "nopyc"),
               "LD_PRELOAD": shim, "TMPDIR": arena, "VZ_REPO": os.environ.get("VZ_REPO", "/repo")}
        if os.environ.get("VZ_ANY"):
            env["VZ_ANY"] = "1"
        cmd = []
        if os.getuid() == 0:
            cmd = ["setpriv", "--reuid", str(nob.pw_uid), "--regid", str(nob.pw_gid), "--clear-groups", "--no-new-privs"]
        msgs, lock, done = [], threading.Lock(), threading.Event()
        replay = None
        if a.replay:
            replay = os.path.join(scratch, "replay.json")
            shutil.copyfile(a.replay, replay)
            os.chmod(replay, 0o644)

        def reader(p, k):
            for line in p.stdout:
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                m["worker"] = k
                with lock:
                    msgs.append(m)
                if m["t"] == "viol" and not a.keep_going:
                    done.set()
            p.wait()

        threads = []
        for k in range(workers):
            argv = cmd + [PY, os.path.join(HERE, "vz", "worker.py"), "--prop", a.prop, "--tier", a.tier, "--seed", seed, "--worker", str(k),
                          "--workers", str(workers), "--seconds", str(seconds), "--base", arena]
            if replay:
                argv += ["--replay", replay]
            errf = open(os.path.join(scratch, "err%d" % k), "w")
            p = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=errf, text=True, env=env, cwd=arena,
                                 start_new_session=True)
            procs.append(p)
            t = threading.Thread(target=reader, args=(p, k), daemon=True)
            t.start()
            threads.append(t)
        limit = t0 + seconds + info.get("grace", 200)
        while time.monotonic() < limit:
            if done.is_set() or not any(t.is_alive() for t in threads):
                break
            time.sleep(0.05)
        timed_out = any(t.is_alive() for t in threads) and not done.is_set()
        killall(procs)
        for t in threads:
            t.join(5)
        errs = ""
        for k in range(workers):
            with open(os.path.join(scratch, "err%d" % k)) as f:
                errs += f.read()[-1500:]
    finally:
        killall(procs)
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.monotonic() - t0
    ends = [m for m in msgs if m["t"] == "end"]
    if a.replay:
        for m in ends:
            for t, v in m["viols"]:
                print("  [%s] %s" % (",".join(t), v))
            if m["mine"]:
                print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
                return 1
            print("replay: no violation of %s" % a.prop)
            return 0
        print("replay failed to run\n" + errs + str(msgs))
        return 2

    viols = [m for m in msgs if m["t"] == "viol"]
    fatal = [m["msg"] for m in msgs if m["t"] == "fatal"]
    tot = {}
    sigs, samples, notes = set(), [], []
    nums = {k: 0 for k in ("evals", "skipped", "inconclusive", "unconfirmed", "other", "broken")}
    for m in ends:
        for k, v in m["stats"].items():
            tot[k] = tot.get(k, 0) + v
        for k in nums:
            nums[k] += m[k]
        sigs.update(m["sigs"])
        samples += m["samples"]
        notes += m["notes"]
    rdir = os.path.join(HERE, "replays")
    lines = []
    for i, m in enumerate(viols[:1] if not a.keep_going else viols):
        try:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s-%s%s.json" % (a.prop, a.tier, seed, "-%d" % i if i else ""))
            with open(path, "w") as f:
                json.dump({"property": a.prop, "case": m["case"], "violations": m["viols"]}, f, indent=1)
        except OSError:
            path = "-"
        for t, v in m["viols"][:4]:
            print("  [%s] %s" % (",".join(t), v[:1000]))
        lines.append("VIOLATION property=%s replay=%s" % (a.prop, path))
    ev = {
        "property": a.prop, "tier": a.tier, "seed": int(seed) if seed.lstrip("-").isdigit() else 0, "level": info["level"],
        "coverage": {
            "evaluations": nums["evals"], "distinct_nontrivial": len(sigs), "rule": info["rule"],
            "samples": samples[:6] or ["(none)"], "observed": dict(sorted(tot.items())), "workers": workers,
            "skipped_cases": nums["skipped"], "inconclusive_cases": nums["inconclusive"], "unconfirmed_alarms": nums["unconfirmed"],
            "violations_of_other_properties": nums["other"], "notes": sorted(set(notes))[:8],
        },
        "assumptions": info.get("assumptions", []) + meta.ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": len(viols),
    }
    try:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
    except OSError as e:
        print("cannot write evidence: %s" % e)
        return 2
    for k in meta.known_findings(a.prop):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k))
    print("%s %s: %d cases, %d distinct, %s in %.1f s" % (a.prop, a.tier, nums["evals"], len(sigs), json.dumps(dict(sorted(tot.items()))), wall))
    for n in sorted(set(notes))[:6]:
        print("  note: " + n)
    if lines:
        for x in lines:
            print(x)
        return 1
    if fatal or not ends or timed_out or nums["evals"] == 0:
        print("INCONCLUSIVE: %s %s" % (fatal[:1], "timed out" if timed_out else ""))
        print(errs[-3000:])
        return 3
    if nums["broken"]:
        print("the harness failed on %d cases" % nums["broken"])
        return 3
    if len(ends) < workers:
        print("warning: %d workers ended abnormally\n%s" % (workers - len(ends), errs[-2000:]))
        return 3
    return 0


def killall(procs):
    for p in procs:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


if __name__ == "__main__":
    sys.exit(main())
