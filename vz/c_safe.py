"""C15: nothing outside the two directories is written or followed, whatever symlinks there are.

Histories full of hostile links: to files and directories outside, to other places inside, in place of synced files and of whole
directories (with files of the same names behind them), in the trash, on either side. There is no model of what a sync makes of
them: only what lies outside is watched, what the files out there contain, and which links get across.
"""
import os
import random
import shutil

from . import gen, hist, model
from . import world as W
from .base import Check, Outcome
from .c_hist import HistCheck, LOW

SECRET = "SECRET"
PATTERNS = ["../*", "/../decoy/*", "/../../*", "*/precious*", "/*/inner", "/d/*", "d", "*", "a/", "own-*", "?", ".."]


class Wild(hist.History):
    """Real commands and hostile edits; what is judged is only what must never happen."""

    def __init__(self, base, spec):
        self.secrets = set()
        self.nsec = 0
        super().__init__(base, spec)

    def setup(self):
        s, w = self.spec, self.w
        w.remote = os.path.join(w.root, s.get("remote", "remote"))
        os.makedirs(os.path.dirname(w.remote), exist_ok=True)
        for i, cs in enumerate(s["clients"]):
            w.add_client(local=os.path.join(w.root, cs.get("local", "local%d" % i)), opts=self.opts_for(i), remote=w.remote)
            self.cm.append(model.Knowledge())
            self.alive.append(False)
            os.makedirs(w.clients[i].local)
        # neighbours whose paths begin like those of the directories
        for d in [w.remote] + [c.local for c in w.clients]:
            for sfx in ("x", "-evil/" + os.path.basename(d), " 2"):
                self.secret(os.path.join(d + sfx, "a"))
        for d in (w.decoy, os.path.join(w.root, "home", "stuff")):
            for n in s["names"][:5]:
                self.secret(os.path.join(d, "own-" + n.strip("/"), n))
        for st in s.get("tree", []):
            self.edit(st)
        for st in s.get("hostile", []):
            self.edit(st)
        self.command(["init", 0])

    def secret(self, path):
        """A file outside, whose content must never get anywhere."""
        self.nsec += 1
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if os.path.islink(path) or os.path.isdir(path):
            return
        self.w.write(path, "%s %d %s" % (SECRET, self.nsec, "s" * (self.nsec % 40)))
        if self.nsec % 3 == 0:      # both older and newer than anything that is synced
            os.utime(path, (1000000000, 1000000000))
        elif self.nsec % 3 == 1:
            t = self.w.now() + 500
            os.utime(path, (t, t))
        self.secrets.add(W.digest(path))

    def edit(self, st):
        if st[0] not in ("lnk", "trap", "trashlnk", "behind"):
            return super().edit(st)
        w = self.w
        if st[0] == "trashlnk":
            t = os.path.join(w.remote, ".zielen", "Trash")
            p = os.path.join(t, st[1])
            if not os.path.isdir(t) or os.path.lexists(p):
                return False
            os.symlink(self.target(st[2], "R", st[1]), p)
            return True
        side, path = st[1], st[2]
        top = self.top(side)
        if "_conflict-" in path:
            path = hist.retime(top, path)
        full = os.path.join(top, path)
        if not os.path.isdir(top) or not self.parent_ok(top, path):
            return False
        w.tick(0.01)
        if st[0] == "lnk":
            if os.path.lexists(full):
                w.remove(full)
            if not os.path.isdir(os.path.dirname(full)):
                os.makedirs(os.path.dirname(full))
            w.symlink(self.target(st[3], side, path), full)
            return True
        if st[0] == "behind":       # new files behind a link that is already there
            if os.path.islink(full) and os.path.isdir(full):
                d = os.path.realpath(full)
                if not any(model.under(d, t) for t in [w.remote] + [c.local for c in w.clients]) and d.startswith(w.root + "/"):
                    self.secret(os.path.join(d, st[3]))
                    return True
            return False
        # trap: a directory is moved elsewhere, or exists elsewhere, and a link takes its place
        if not os.path.isdir(full) or os.path.islink(full):
            return False
        self.nsec += 1
        away = os.path.join(w.decoy, "away%d" % self.nsec)
        if st[3] == "moved":
            shutil.move(full, away)
        else:
            for rel, e in W.snapshot(full).items():
                if e.kind == "d":
                    os.makedirs(os.path.join(away, rel), exist_ok=True)
            os.makedirs(away, exist_ok=True)
        for rel, e in (W.snapshot(away) if st[3] == "moved" else W.snapshot(full)).items():
            if e.kind == "f" or (e.kind == "l" and st[3] != "moved"):
                p = os.path.join(away, rel)
                if os.path.lexists(p):
                    os.unlink(p)
                self.secret(p)
        if os.path.lexists(full):
            w.remove(full)
        w.symlink(away if st[4] == "abs" else os.path.relpath(away, os.path.dirname(full)), full)
        return True

    def target(self, t, side, path):
        w = self.w
        top = self.top(side)
        up = os.path.relpath(w.root, os.path.dirname(os.path.join(top, path)))
        return (t.replace("@UP@", up).replace("@ROOT@", w.root).replace("@DECOY@", w.decoy).replace("@R@", w.remote)
                .replace("@L@", w.clients[0].local).replace("@SELF@", top))

    # -- what is outside ------------------------------------------------------------------------------------------
    def outside(self, i):
        """Everything there is but the directories that a command of client i works on."""
        w, c = self.w, self.w.clients[i]
        skip = {os.path.relpath(d, w.root) for d in (c.local, w.remote, c.cfg)}
        return {p: e.full() for p, e in W.snapshot(w.root, skip=skip).items()}

    def links(self, i):
        w, c = self.w, self.w.clients[i]
        return c.snap(), w.rsnap(), w.trash()

    def do(self, st):
        if st[0] in ("sync", "init", "reset", "empty"):
            done = self.command(st)
        else:
            done = self.edit(st)
            if done:
                self.stats["hostile" if st[0] in ("lnk", "trap", "trashlnk", "behind") else "edits"] = self.stats.get(
                    "hostile" if st[0] in ("lnk", "trap", "trashlnk", "behind") else "edits", 0) + 1
        self.steps.append(st)
        return done

    def command(self, st):
        w, i = self.w, st[1]
        c = w.clients[i]
        if self.alive[i] == (st[0] == "init"):
            return False
        w.tick(1)
        argv = {"sync": ["sync"], "reset": ["reset"] + (st[2] if len(st) > 2 else []), "empty": ["empty-trash"]}.get(st[0])
        add = os.path.isdir(os.path.join(w.remote, ".zielen"))
        if st[0] == "init":
            if add:
                for n in os.listdir(c.local):
                    w.remove(os.path.join(c.local, n))
            tmpl, ex = os.path.join(w.root, "template-" + c.name), os.path.join(w.root, "exclude-" + c.name)
            c.write_config(tmpl)
            with open(ex, "w") as f:
                f.write("".join(p + "\n" for p in self.spec["clients"][i].get("excludes", [])))
            argv = ["init", "-t", tmpl, "-e", ex] + (["-a"] if add else [])
        argv = argv + [c.profile]
        O0 = self.outside(i)
        L0, R0, T0 = self.links(i)
        r = w.run(c, argv)
        O1 = self.outside(i)
        L1, R1, T1 = self.links(i)
        w.tick(1)
        self.stats["commands_" + ("ok" if r.ok else "refused" if r.clean_error else "crashed")] = self.stats.get(
            "commands_" + ("ok" if r.ok else "refused" if r.clean_error else "crashed"), 0) + 1
        if st[0] == "sync":
            self.stats["syncs"] += 1
        what = r.brief()
        if O0 != O1:
            bad = sorted(p for p in set(O0) | set(O1) if O0.get(p) != O1.get(p))
            self.bad({"escape"}, "%s; outside its directories it changed %r" % (what, [(p, O0.get(p), O1.get(p)) for p in bad[:3]]))
        if r.escapes:
            self.bad({"escape"}, "%s; it tried to change %r" % (what, r.escapes[:3]))
        for op in r.ops:
            for p in (op[3], op[4]):
                if p and not any(p == d or p.startswith(d + "/") for d in (c.local, w.remote, c.cfg)):
                    self.bad({"escape"}, "%s; it tried to change %r" % (what, p))
        for name, s in (("local directory", L1), ("remote directory", R1), ("trash", T1)):
            for p, e in s.items():
                if e.kind == "f" and e.data in self.secrets:
                    self.bad({"escape"}, "%s; the content of a file outside is now in the %s as %r" % (what, name, p))
        if st[0] == "init" and r.ok:
            self.alive[i] = True
        elif st[0] == "reset" and r.ok:
            self.alive[i] = False
        if self.viol:
            return True
        # unsafe links don't get across
        had = {e.data for e in L0.values() if e.kind == "l"}
        for p, e in L1.items() if st[0] != "reset" else ():     # a reset retrieves everything
            if e.kind == "l" and not model.is_placeholder(p, e, w.remote) and model.unsafe_link(p, e, c.local) and e.data not in had:
                self.bad({"unsafe"}, "%s; the local directory got a symlink %r to %r" % (what, p, e.data))
        had = {e.data for s in (R0, T0) for e in s.values() if e.kind == "l"}
        for s in (R1, T1) if st[0] != "reset" or "-k" in argv else ():      # what it empties at the end
            for p, e in s.items():
                if e.kind == "l" and e.data not in had and (s is R1 and model.unsafe_link(p, e, w.remote) or e.data.startswith("/")):
                    self.bad({"unsafe"}, "%s; the remote directory got a symlink %r to %r" % (what, p, e.data))
        if st[0] == "sync" and r.ok:
            for p, e in R1.items():
                if model.unsafe_link(p, e, w.remote) and p in L1 and model.is_placeholder(p, L1[p], w.remote) and not (
                        p in L0 and model.is_placeholder(p, L0[p], w.remote)):
                    self.bad({"unsafe"}, "%s; the remote symlink %r to %r is shown in the local directory" % (what, p, e.data))
        return True


class Safe(HistCheck):
    prop = "C15"
    tags = {"escape", "unsafe"}
    always = set()
    need = "hostile"
    steps = (10, 30)
    deep = (20, 60)
    ordinary = {"sync": 0, "init": 0, "reset": 0, "empty": 0, "prio": 0, "opt": 2, "excl": 0, "put_new": 8, "put_old": 8, "rm": 8, "rmdir": 5,
                "both": 5, "mkdir": 5, "jump": 1, "period": 1}

    def spec(self, rng, tier):
        s = gen.world_spec(rng, nclients=rng.choice([1, 2, 2]), initial=(3, 10), excl=0, limits=LOW + ["10000KiB"] * 8, real=0.1)
        s["remote"] = rng.choice(["remote", "remote", "local0-r/x", "a/b/c/remote", "loc"])
        s["hostile"] = []
        for c in s["clients"]:      # no "**": links to directories make those walk in circles
            if rng.random() < 0.3:
                c["excludes"] = [rng.choice(PATTERNS) for _ in range(rng.randint(1, 2))]
        for _ in range(rng.randint(0, 3)):
            s["hostile"].append(self.hostile(rng, None, ["c0"], s["names"]))
        return s

    def make(self, base, spec):
        return Wild(base, spec)

    def target(self, rng, names):
        n = rng.choice(names)
        return rng.choice(["@DECOY@/precious0", "@DECOY@/dir", "@UP@/decoy/dir", "@UP@/decoy", "@UP@", "@UP@/..", "@ROOT@/home", "@R@", "@L@",
                           "@R@/" + n, "@L@/" + n, "@R@/.zielen", "@R@/.zielen/Trash", "@SELF@", "@SELF@/" + n, "@SELF@x", "@SELF@x/a", "@R@x/a", "@L@x",
                           "@UP@/local0/" + n, "@UP@/remote/" + n, "..", ".", "../..", n, n + "/..", "../" + n, "/", "/etc", "/etc/passwd", "loop",
                           "@UP@/home/stuff", "@DECOY@/own-" + n.strip("/"), "./" + n + "/../../../decoy"])

    def hostile(self, rng, h, sides, names):
        side = rng.choice(sides)
        x = rng.random()
        if x < 0.4 and h is not None:
            ds = gen.existing(h, side, "d")
            if ds:
                return ["trap", side, rng.choice(ds), rng.choice(["moved", "mirror"]), rng.choice(["abs", "rel"])]
        if x < 0.5 and h is not None:
            return ["trashlnk", rng.choice(names), self.target(rng, names)]
        if x < 0.6 and h is not None:
            ls = [p for p in gen.existing(h, side, "l")]
            if ls:
                return ["behind", side, rng.choice(ls), rng.choice(names)]
        ex = gen.existing(h, side, "fld") if h is not None else []
        p = rng.choice(ex) if ex and rng.random() < 0.6 else gen.rand_path(rng, names)
        t = self.target(rng, names)
        return ["lnk", side, p, t]

    def extra(self, h, rng):
        live = [i for i in range(len(h.w.clients)) if h.alive[i]]
        dead = [i for i in range(len(h.w.clients)) if not h.alive[i]]
        x = rng.random()
        if dead and (not live or x < 0.1):
            return [["init", rng.choice(dead)]]
        i = rng.choice(live)
        if x < 0.4:
            return [["sync", i]]
        if x < 0.44:
            return [["reset", i, rng.choice([[], ["-k"], ["-n"]])]]
        if x < 0.46:
            return [["empty", i]]
        if x < 0.49:
            return [["excl", i, [rng.choice(PATTERNS) for _ in range(rng.randint(1, 2))]]]
        if x < 0.75:
            return [self.hostile(rng, h, ["R"] + ["c%d" % j for j in live] * 2, h.spec["names"])]
        return gen.step(rng, h, self.ordinary)

    def explore(self, base, rng, tier, n):
        out = Outcome()
        spec = self.spec(rng, tier)
        h = self.make(base, spec)
        lo, hi = self.steps if tier == "quick" else self.deep
        for _ in range(rng.randint(lo, hi)):
            for st in self.extra(h, rng):
                if not h.viol:
                    h.do(st)
            if h.viol:
                break
        for i in range(len(h.w.clients)):
            if not h.viol and h.alive[i]:
                h.do(["sync", i])
        case = {"spec": spec, "steps": list(h.steps)}
        self.finish(h, out, case)
        return case, out
