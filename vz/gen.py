"""Random worlds and random steps. Everything comes from one seeded generator and is recorded as concrete steps."""
import os

from . import hist, model

LIMITS = ["0KiB", "8KiB", "20KiB", "40KiB", "64KB", "100KiB", "1MiB", "10000KiB", "1GB"]


def pick_names(rng, hostile):
    if hostile:
        names = rng.sample(hist.NAMES, 7) + rng.sample(hist.PLAIN, 3)
    else:
        names = rng.sample(hist.PLAIN, 7)
    return names


def rand_path(rng, names, depth=3):
    n = rng.choice([1, 1, 1, 2, 2, 3][:depth * 2])
    return "/".join(rng.choice(names) for _ in range(n))


ROOTS = ["w", "w", "w", "w sp", "w[1]", "w*", "wü"]


def world_spec(rng, nclients=None, hostile=None, **over):
    hostile = rng.random() < 0.5 if hostile is None else hostile
    names = pick_names(rng, hostile)
    n = nclients or rng.choice([1, 2, 2, 2, 3])
    clients = []
    for i in range(n):
        o = {"StorageLimit": rng.choice(over.get("limits", LIMITS))}
        if rng.random() < 0.3:
            o["AccountForSize"] = rng.choice(["yes", "no", "True", "FALSE"])
        if rng.random() < 0.3:
            o["InflatePriority"] = rng.choice(["yes", "no"])
        if rng.random() < over.get("notrash", 0.15):
            o["UseTrash"] = "no"
        cs = {"opts": o}
        if rng.random() < over.get("excl", 0.25):
            cs["excludes"] = patterns(rng, names)
        clients.append(cs)
    spec = {"clients": clients, "names": names, "tree": [], "real": rng.random() < over.get("real", 0.25)}
    if hostile:
        spec["root"] = rng.choice(ROOTS)
        spec["umask"] = rng.choice([0o022, 0o022, 0o077, 0o002, 0o027])
        spec["tz"] = rng.choice([None, "UTC", "America/New_York", "Asia/Kolkata", "XYZ-13:45"])
    sizes = over.get("sizes", hist.SIZES)
    for _ in range(rng.randint(*over.get("initial", (0, 8)))):
        x = rng.random()
        p = rand_path(rng, names)
        if x < 0.8:
            spec["tree"].append(["put", "c0", p, rng.choice(sizes), "new", rng.choice([None, None, 0o600, 0o755, 0o444, 0o640])])
        elif x < 0.9:
            spec["tree"].append(["mkdir", "c0", p])
        else:
            spec["tree"].append(["ln", "c0", p, link_target(rng, names, p, over.get("unsafe", 0.3))])
    return spec


def link_target(rng, names, path, unsafe):
    up = "../" * path.count("/")
    if rng.random() < unsafe:
        return rng.choice(["/nonexistent", "@DECOY@/precious0", up + "../outside", up + "../../x", "/etc/hostname", "@R@-old/x", "@R@2"])
    x = rng.random()
    if x < 0.3:
        return rng.choice(["dangling", "./dangling", up + "dangling/deep"])
    return up + rand_path(rng, names)


def patterns(rng, names):
    """Exclude patterns about names that occur. Patterns with a trailing slash or '**' only as directories."""
    out = []
    for _ in range(rng.randint(1, 3)):
        n = rng.choice(names)
        lit = "".join("[%s]" % ch if ch in "*?[" else ch for ch in n)
        if n != n.strip() or "\n" in n or n.startswith("#") or "\\" in n:
            lit = "a"
        x = rng.random()
        if x < 0.3:
            pat = lit
        elif x < 0.45:
            pat = "/" + lit
        elif x < 0.55:
            pat = "/" + lit + "/*"
        elif x < 0.65:
            pat = lit + "/"
        elif x < 0.72:
            pat = "*.o"
        elif x < 0.78:
            pat = "*" + lit[-2:] if "[" not in lit and "]" not in lit else "*.txt"
        elif x < 0.84:
            pat = "?"
        elif x < 0.9:
            pat = "[a-c]*"
        elif x < 0.95:
            pat = "/**/" + lit
        else:
            pat = "# " + lit
        out.append(pat)
    return out


def existing(h, side, kinds="fld"):
    import os
    top = h.top(side)
    from . import world
    skip = (".zielen",) if side == "R" else ()
    return sorted((p for p, e in world.snapshot(top, skip=skip).items() if e.kind in kinds),
                  key=lambda p: (hist.STAMP.sub("_conflict-*", p), p))


DEFAULT = {"sync": 30, "put_new": 10, "put_old": 16, "inplace": 8, "rm": 10, "rmdir": 3, "mkdir": 3, "ln": 4, "mv": 4,
           "touch": 3, "remote_put": 5, "remote_rm": 3, "remote_ln": 1, "eqput": 3, "excl": 3, "opt": 2, "prio": 3, "init": 6,
           "empty": 1, "reset": 0, "jump": 0, "period": 0, "fifo": 1, "swap": 3, "both": 6}


def step(rng, h, weights=None, sizes=None, unsafe=0.3):
    """One random step for the present state of history `h`; may be inapplicable."""
    wt = dict(DEFAULT)
    wt.update(weights or {})
    sizes = sizes or hist.SIZES
    w = h.w
    live = [i for i in range(len(w.clients)) if h.alive[i]]
    dead = [i for i in range(len(w.clients)) if not h.alive[i]]
    names = h.spec["names"]
    if not dead:
        wt["init"] = 0
    if not live:
        return [["init", rng.choice(dead)]]
    ops = [o for o in wt if wt[o] > 0]
    op = rng.choices(ops, [wt[o] for o in ops])[0]
    i = rng.choice(live)
    side = "c%d" % i
    mode = rng.choice([None, None, None, 0o600, 0o755, 0o444, 0o666])

    def some(kinds, s=side):
        ex = existing(h, s, kinds)
        return rng.choice(ex) if ex else rand_path(rng, names)
    if op == "sync":
        return [["sync", i]]
    if op == "init":
        return [["init", rng.choice(dead)]]
    if op == "put_new":
        d = ""
        if rng.random() < 0.4:
            ds = existing(h, side, "d")
            d = rng.choice(ds) + "/" if ds else ""
        return [["put", side, d + rand_path(rng, names, 2), rng.choice(sizes), "new", mode]]
    if op == "put_old":
        return [["put", side, some("fl"), rng.choice(sizes), "replace", mode]]
    if op == "inplace":
        return [["put", side, some("fl"), rng.choice(sizes), "inplace"]]
    if op == "rm":
        return [["rm", side, some("fl")]]
    if op == "rmdir":
        return [["rm", side, some("d")]]
    if op == "mkdir":
        return [["mkdir", side, rand_path(rng, names)]]
    if op == "ln":
        p = some("fl") if rng.random() < 0.3 else rand_path(rng, names)
        return [["ln", side, p, link_target(rng, names, p, unsafe)]]
    if op == "mv":
        s = side if rng.random() < 0.7 else "R"
        return [["mv", s, some("fd", s), rand_path(rng, names)]]
    if op == "touch":
        s = side if rng.random() < 0.7 else "R"
        return [["touch", s, some("f", s)]]
    if op == "remote_put":
        p = some("f", "R") if rng.random() < 0.6 else rand_path(rng, names)
        return [["put", "R", p, rng.choice(sizes), rng.choice(["replace", "inplace"]), mode]]
    if op == "remote_rm":
        return [["rm", "R", some("fld", "R")]]
    if op == "remote_ln":
        p = rand_path(rng, names)
        return [["ln", "R", p, link_target(rng, names, p, unsafe)]]
    if op == "eqput":
        return [["eqput", side, some("fl"), rng.choice(sizes), rng.choice(sizes)]]
    if op == "both":
        # the same path edited on two sides before either syncs
        p = some("fl") if rng.random() < 0.7 else rand_path(rng, names)
        others = ["c%d" % j for j in live if j != i] + ["R"]
        o = rng.choice(others)
        acts = []
        for s in rng.sample([side, o], 2):
            x = rng.random()
            if x < 0.6:
                acts.append(["put", s, p, rng.choice(sizes), "replace", mode])
            elif x < 0.8:
                acts.append(["rm", s, p])
            else:
                acts.append(["rm", s, p])
                acts.append(["put", s, p + "/" + rng.choice(names), rng.choice(sizes), "new", None])
        if rng.random() < 0.4:
            acts.append(["sync", i])
        return acts
    if op == "swap":
        # a file becomes a directory or the other way round
        s = side if rng.random() < 0.7 else "R"
        p = some("fld", s)
        if os.path.isdir(os.path.join(h.top(s), p)) and not os.path.islink(os.path.join(h.top(s), p)):
            return [["rm", s, p], ["put", s, p, rng.choice(sizes), "new", mode]]
        return [["rm", s, p], ["put", s, p + "/" + rng.choice(names), rng.choice(sizes), "new", mode]]
    if op == "excl":
        return [["excl", i, patterns(rng, names) if rng.random() < 0.7 else []]]
    if op == "opt":
        k, v = rng.choice([("StorageLimit", rng.choice(LIMITS)), ("UseTrash", rng.choice(["yes", "no"])),
                           ("AccountForSize", rng.choice(["yes", "no"])), ("InflatePriority", rng.choice(["yes", "no"]))])
        return [["opt", i, {k: v}]]
    if op == "period":
        return [["opt", i, {"TrashCleanupPeriod": rng.choice(["0", "1", "2", "7", "30", "31", "365", "-1", "-2", "-30", None])}]]
    if op == "jump":
        # to just before or after the moment at which some trash entry expires
        p = hist.cleanup_seconds(h.w.clients[i].opts.get("TrashCleanupPeriod"))
        if h.trashed_at and p and rng.random() < 0.7:
            n = rng.choice(sorted(h.trashed_at))
            dt = h.trashed_at[n][1] + p - h.w.now() + rng.choice([-90, 90, -3600, 3600, -86400, 86400])
            if dt > 0:
                return [["jump", round(dt, 3)], ["sync", i]]
        return [["jump", rng.choice([3600, 86400, 3 * 86400, 10 * 86400, 40 * 86400])], ["sync", i]]
    if op == "prio":
        known = sorted(p for p, d in h.cm[i].known.items() if not d)
        if not known:
            return []
        return [["prio", i, {p: rng.randint(0, 20) for p in rng.sample(known, min(len(known), rng.randint(1, 4)))}]]
    if op == "empty":
        return [["empty", i]]
    if op == "reset":
        return [["reset", i, rng.choice([[], ["-k"], ["-n"]])]]
    if op == "fifo":
        return [["fifo", side, rand_path(rng, names)]]
    raise AssertionError(op)
