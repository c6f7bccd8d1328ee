"""One worker: runs cases of one check for a while, as an unprivileged user, and reports what it saw.

Prints one JSON object per line: {"t": "viol", ...}, {"t": "end", ...}.
"""
import argparse
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vz import world as W          # noqa: E402
from vz import registry            # noqa: E402


def say(**kw):
    sys.stdout.write(json.dumps(kw) + "\n")
    sys.stdout.flush()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--worker", type=int, default=0)
    ap.add_argument("--workers", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=20)
    ap.add_argument("--base", required=True)
    ap.add_argument("--replay")
    a = ap.parse_args()
    base = os.path.join(a.base, "w%d" % a.worker)
    os.makedirs(base, exist_ok=True)
    if not W.HAVE_SHIM:
        say(t="fatal", msg="the LD_PRELOAD monitor is not loaded")
        return 2
    if os.getuid() == 0:
        say(t="fatal", msg="refusing to run as root")
        return 2
    try:
        W.preload()
    except Exception:
        # A tree that can't even be imported.
        say(t="fatal", msg=traceback.format_exc())
        return 2
    chk = registry.get(a.prop)
    if os.environ.get("VZ_ANY"):
        chk.mine = lambda tags: True        # for sweeps during development
    if a.replay:
        with open(a.replay) as f:
            case = json.load(f)["case"]
        out = chk.replay(base, case)
        say(t="end", viols=[[sorted(t), m] for t, m in out.viols], mine=any(chk.mine(t) for t, m in out.viols), stats=dict(out.stats))
        return 0

    t0 = time.monotonic()
    broken = n = evals = skipped = inconclusive = unconfirmed = other = 0
    stats, sigs, samples, notes = {}, set(), [], []
    if not hasattr(chk, "cases"):
        todo = iter(lambda: None, 1)
    else:
        # a fixed list of cases, dealt out to the workers; then random ones
        todo = iter([c for k, c in enumerate(chk.cases(a.tier)) if k % a.workers == a.worker])
    fixed = True
    while True:
        if time.monotonic() - t0 > a.seconds and (n or not fixed):
            break
        n += 1
        idx = a.worker + n * a.workers
        rng = random.Random("%s/%s/%s/%d/%d" % (a.prop, a.seed, a.tier, a.worker, n))
        case = None
        try:
            if hasattr(chk, "cases") and fixed:
                case = next(todo, None)
                if case is None:
                    fixed = False
                    if not getattr(chk, "random_too", True):
                        break
            if case is not None:
                out = chk.run(base, case)
            else:
                case, out = chk.explore(base, rng, a.tier, idx)
        except W.Inconclusive as e:
            inconclusive += 1
            if len(notes) < 5:
                notes.append(str(e)[:300])
            continue
        except Exception:
            broken += 1
            if len(notes) < 5:
                notes.append("harness error: " + traceback.format_exc()[-700:])
            if broken > 20:
                break
            continue
        if out.skipped:
            skipped += 1
            continue
        evals += 1
        for k, v in out.stats.items():
            stats[k] = stats.get(k, 0) + v
        if out.sig is not None:
            sigs.add(hashlib.md5(repr(out.sig).encode()).hexdigest()[:16])
        if out.sample is not None and len(samples) < 2:
            samples.append(out.sample)
        mine = [v for v in out.viols if chk.mine(v[0])]
        if out.viols and not mine:
            other += 1
            if len(notes) < 5:
                notes.append("not about this property: " + str(out.viols[0][1])[:300])
        if mine:
            # An alarm has to be reproducible from the recorded case.
            good = None
            for _ in range(3):
                try:
                    again = chk.replay(base, case)
                except Exception:
                    continue
                m2 = [v for v in again.viols if chk.mine(v[0])]
                if m2:
                    good = m2
                    break
            if good:
                say(t="viol", case=case, viols=[[sorted(t), m] for t, m in good[:10]], n=n)
                break
            unconfirmed += 1
            if len(notes) < 8:
                notes.append("seen once, not again on replay: " + mine[0][1][:300])
                say(t="unconfirmed", case=case, viols=[[sorted(t), m] for t, m in mine[:3]])
    say(t="end", evals=evals, skipped=skipped, inconclusive=inconclusive, unconfirmed=unconfirmed, other=other, broken=broken, stats=stats,
        sigs=sorted(sigs), samples=samples, notes=notes, wall=time.monotonic() - t0)
    return 0


if __name__ == "__main__":
    sys.exit(main())
