"""C14: one command at a time per profile.

One command is stopped at a chosen system call; while it stands still, other commands are run on the same profile (each must be
refused without changing anything, once the first one has begun to work) and on another profile (which must succeed). Then the
first one goes on or ends in some other way, and the profile must be available again. In races, several commands start at once.
"""
import os
import signal

from . import hist
from . import world as W
from .c_crash import Crash, State

WORK = ("sync", "reset", "reset-k", "reset-n", "empty", "init")


class Lock(Crash):
    prop = "C14"
    tags = {"lock", "retry", "final", "loss", "partial", "escape"}
    always = {"crash"}
    per_case = 5
    per_case_deep = 16
    every = 6

    def steps_before(self, rng, tier, spec):
        return rng.randint(*((2, 8) if tier == "quick" else (2, 20)))

    def weights(self, rng):
        w = super().weights(rng)
        w.update(put_new=16, rm=12)
        return w

    def command(self, rng, h):
        live = [i for i in range(len(h.w.clients)) if h.alive[i]]
        dead = [i for i in range(len(h.w.clients)) if not h.alive[i]]
        kinds = (["sync"] * 5 + ["reset"] * 2 + ["empty"] if live else []) + (["init"] * 2 if dead else [])
        x = rng.choice(kinds)
        if x == "init":
            return ["init", rng.choice(dead), os.path.isdir(os.path.join(h.w.remote, ".zielen"))]
        if x == "reset":
            return ["reset", rng.choice(live), rng.choice([["-k"], ["-n"], []]) if len(live) == 1 else rng.choice([["-k"], ["-n"]])]
        return [x, rng.choice(live)]

    def perform(self, h, cmd):
        look = {"mode": W.M_LOOK_ERR, "trigger": -1}
        if cmd[0] == "sync":
            return h.sync(cmd[1], **look)
        if cmd[0] == "empty":
            return h.w.run(h.w.clients[cmd[1]], ["empty-trash", h.w.clients[cmd[1]].profile], **look)
        c = h.w.clients[cmd[1]]
        if cmd[0] == "init":
            return h.init(cmd[1], **look)
        return h.reset(cmd[1], cmd[2])

    def argv(self, h, cmd):
        if cmd[0] == "empty":
            return ["empty-trash", h.w.clients[cmd[1]].profile]
        return super().argv(h, cmd)

    def go(self, h, case, out, choose):
        w, c = h.w, h.w.clients[case["cmd"][1]]
        if case["cmd"][0] == "init" and case["cmd"][2] and os.path.isdir(c.local):
            for n in os.listdir(c.local):       # what a reset left there goes somewhere else
                w.remove(os.path.join(c.local, n))
        # a profile that has nothing to do with the other one but the user, the configuration directory and most of its name
        by = self.by = W.Client(w, "by", os.path.join(w.root, "by-local"), c.cfg, case.setdefault("by", "%") .replace("%", c.profile) + "x",
                                os.path.join(w.root, "by-remote"), {"StorageLimit": "1MiB"})
        os.mkdir(by.local)
        w.write(os.path.join(by.local, "first"), "first")
        r = w.init(by)
        if not r.ok:
            out.bad({"crash"}, "init of another profile: %s" % r.brief())
            return
        w.tick(1)
        self.pdir = c.pdir
        super().go(h, case, out, choose)

    # -- points ----------------------------------------------------------------------------------------------
    def choose(self, rng, ref, tier):
        pts = []
        for _ in range(self.per_case if tier == "quick" else self.per_case_deep):
            others = [rng.choice(WORK) for _ in range(rng.randint(1, 3))]
            how = rng.choice(["name", "name", "path", "rel"])
            end = rng.choice(["cont", "cont", "cont", "kill", "term", "int", "hup"])
            x = rng.random()
            if x < 0.2:
                pts.append(["race", rng.randint(2, 4), [rng.choice(["sync", "sync", "sync", "empty"]) for _ in range(4)], how, "cont"])
            elif x < 0.55 and ref.looks:
                # early looks come before the lock
                k = rng.randint(1, min(14, len(ref.looks))) if rng.random() < 0.6 else rng.randint(1, len(ref.looks))
                pts.append(["look", k, others, how, end])
            elif ref.ops:
                # the last thing init does, after it has released the profile, is to tidy up if there is anything to tidy up
                k = self.pick(rng, [o for o in ref.ops if not (o[2] == "rmdir" and o[3] == self.pdir)], 1)[0]
                pts.append([rng.choice(["before", "after"]), k, others, how, end])
        return pts

    def other(self, h, case, kind, how):
        w, c = h.w, h.w.clients[case["cmd"][1]]
        name = c.profile
        if how == "path":
            name = c.local
        elif how == "rel":
            name = os.path.relpath(c.local, w.root)
        if kind == "init":
            return self.argv(h, ["init", case["cmd"][1], case["cmd"][2] if case["cmd"][0] == "init" else False])
        return {"sync": ["sync"], "reset": ["reset"], "reset-k": ["reset", "-k"], "reset-n": ["reset", "-n"],
                "empty": ["empty-trash"]}[kind] + [name]

    def whole(self, h, c):
        w = h.w
        return {"local": hist.fulls(c.snap()), "remote": hist.fulls(W.snapshot(w.remote)),
                "profile": {p: e.key() for p, e in W.snapshot(c.pdir).items()}}

    def begun(self, h, c, hd):
        """Has the stopped command read or changed anything in the directories it works on?"""
        with open(hd["log"], encoding="utf-8", errors="replace") as f:
            for line in f:
                x = line.split("\2")
                if x[0] in ("OP", "LOOK"):
                    for p in x[3:5]:
                        p = p.rstrip("\n")
                        if any(p == d or p.startswith(d + "/") for d in (os.path.realpath(c.local), os.path.realpath(h.w.remote))):
                            return True
        return False

    def disturb(self, h, case, pt, out):
        w, cmd = h.w, case["cmd"]
        c = w.clients[cmd[1]]
        if pt[0] == "race":
            return self.race(h, case, pt, out)
        mode = {"look": W.M_LOOK_STOP, "before": W.M_STOP, "after": W.M_STOP_AFTER}[pt[0]]
        self.replaced = False
        hd = w.start(c, self.argv(h, cmd), trigger=pt[1], mode=mode)
        if not w.wait_stopped(hd):
            out.stats["not_reached"] += 1
            return hd["res"]
        begun = self.begun(h, c, hd)
        out.stats["stopped_working" if begun else "stopped_early"] += 1
        what = "%s stopped at %s %d" % (" ".join(map(str, cmd)), pt[0], pt[1])
        done = None
        for kind in pt[2]:
            s0 = self.whole(h, c)
            r = w.run(c, self.other(h, case, kind, pt[3]))
            s1 = self.whole(h, c)
            if r.ok:
                if begun:
                    out.bad({"lock"}, "%s: %s was run on the same profile meanwhile" % (what, r.brief()))
                else:
                    done = kind
                out.stats["went_first"] += 1
                break
            if not r.clean_error:
                out.bad({"lock", "crash"}, "%s; meanwhile %s" % (what, r.brief()))
            if s0 != s1:
                out.bad({"lock"}, "%s: %s was refused, but changed %s" % (what, r.brief(), [
                    (k, [(p, s0[k].get(p), s1[k].get(p)) for p in set(s0[k]) | set(s1[k]) if s0[k].get(p) != s1[k].get(p)][:3])
                    for k in s0 if s0[k] != s1[k]]))
            out.stats["refused"] += 1
        # another profile doesn't notice
        by = self.by
        w.tick(1)
        w.write(os.path.join(by.local, "second"), "while %d" % pt[1])
        w.tick(1)
        r = w.run(by, ["sync", by.profile])
        if not r.ok:
            out.bad({"lock"}, "%s: another profile can't be synced: %s" % (what, r.brief()))
        elif not os.path.isfile(os.path.join(by.remote, "second")):
            out.bad({"lock"}, "%s: syncing another profile did nothing" % what)
        out.stats["other_profile_syncs"] += 1
        s2 = self.whole(h, c)
        if pt[4] == "kill":
            os.kill(hd["pid"], signal.SIGKILL)
        elif pt[4] != "cont":
            os.kill(hd["pid"], {"term": signal.SIGTERM, "int": signal.SIGINT, "hup": signal.SIGHUP}[pt[4]])
        out.stats["end:" + pt[4]] += 1
        w.cont(hd) if pt[4] != "kill" else None
        r = w.finish(hd)
        if r.sig == 0 and not r.ok and not r.clean_error:
            out.bad({"lock", "crash"}, "%s; %s ran meanwhile; it ended with %s" % (what, done, r.brief()))
        if done is not None and r.sig == 0:
            s3 = self.whole(h, c)
            if r.ok and (done.startswith("reset") or cmd[0] == "init" and done == "init"):
                out.bad({"lock"}, "%s before it had begun to work; %s ran meanwhile; it went on: %s" % (what, done, r.brief()))
            elif not r.ok and pt[4] == "cont" and s2 != s3:
                out.bad({"lock"}, "%s before it had begun to work; %s ran meanwhile; it failed (%s), but changed %s" % (
                    what, done, r.brief(), [k for k in s2 if s2[k] != s3[k]]))
            elif r.ok and cmd[0] == "sync" and done == "sync":
                return r        # as if there had been one sync
        if done is not None:
            self.replaced = True
        return r

    def race(self, h, case, pt, out):
        """Several commands at once, no stops."""
        w, cmd = h.w, case["cmd"]
        c = w.clients[cmd[1]]
        self.replaced = cmd[0] != "sync" and cmd[0] != "empty"
        if self.replaced:
            return w.run(c, self.argv(h, cmd))
        kinds = (pt[2] + [cmd[0]])[-pt[1]:]
        self.replaced = len(set(kinds)) > 1
        hs = [w.start(c, self.other(h, case, kind, pt[3])) for kind in kinds]
        rs = [w.finish(x) for x in hs]
        for r in rs:
            if not r.ok and not r.clean_error:
                out.bad({"lock", "crash"}, "%d commands at once: %s" % (len(rs), r.brief()))
        if not any(r.ok for r in rs):
            out.bad({"lock"}, "%d commands at once, all failed: %s" % (len(rs), [r.brief() for r in rs]))
        out.stats["races"] += 1
        out.stats["race_refused"] += sum(not r.ok for r in rs)
        good = [r for r in rs if r.ok]
        return good[0] if good else rs[0]

    def point(self, h, case, pt, S0, ref, post, out):
        self.replaced = False
        super().point(h, case, pt, S0, ref, post, out)

    def examine(self, h, S0, mid, ref, r, what, out, case):
        if not self.replaced:
            super().examine(h, S0, mid, ref, r, what, out, case)

    def compare(self, h, case, S0, ref, fin, what, out):
        if not self.replaced:
            super().compare(h, case, S0, ref, fin, what, out)

    def aftermath(self, h, case, S0, ref, fin, post, what, out):
        if not self.replaced and case["cmd"][0] == "sync":
            super().aftermath(h, case, S0, ref, fin, post, what, out)

    def retry(self, h, cmd):
        return None if self.replaced else super().retry(h, cmd)

    def already_done(self, h, cmd, r2):
        return r2.clean_error and ("already exists" in r2.err if cmd[0] == "init" else cmd[0] == "reset" and "not a profile name" in r2.err)

    def describe(self, r, pt):
        return "%r, result %s" % (pt, r.brief()[-160:])

    def count(self, r, pt, out):
        out.stats["ended_ok" if r.ok else "ended_killed" if r.sig else "ended_error"] += 1
