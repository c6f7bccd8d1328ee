"""C22: edits and other clients' syncs while a sync is running.

One client's sync is stopped at a chosen system call; then the user edits local or remote files, or another client syncs, and the
first sync goes on. What the edits put there, and whatever an undisturbed sync would have kept, must survive; the next syncs must
succeed and show everyone the same tree.
"""
import os
import random
import re

from . import gen, globref, hist, model
from . import world as W
from .c_crash import Crash, State, is_temp

EDITS = {"put": 26, "inplace": 20, "rm": 12, "swap": 6, "mkdir": 3, "ln": 3, "mv": 7, "put_new": 14, "touch": 2}


def related(a, b):
    return a == b or a.startswith(b + "/") or b.startswith(a + "/")


class Concurrent(Crash):
    prop = "C22"
    tags = {"conc"}
    always = {"crash"}
    per_case = 16
    per_case_deep = 50
    every = 10 ** 9

    def spec(self, rng):
        s = gen.world_spec(rng, nclients=rng.choice([1, 2, 2, 3]), initial=(3, 10), excl=0.15, real=0.3)
        return s

    def weights(self, rng):
        w = super().weights(rng)
        w.update(both=18, put_old=20, rm=12, excl=2)
        return w

    def steps_before(self, rng, tier, spec):
        return rng.randint(*((4, 12) if tier == "quick" else (4, 24)))

    def command(self, rng, h):
        live = [i for i in range(len(h.w.clients)) if h.alive[i]]
        return ["sync", rng.choice(live)] if live else None

    def perform(self, h, cmd):
        return h.sync(cmd[1], mode=W.M_LOOK_ERR, trigger=-1)    # log what is looked at

    def choose(self, rng, ref, tier):
        pts = []
        for _ in range(self.per_case if tier == "quick" else self.per_case_deep):
            seed = rng.getrandbits(32)
            what = "sync" if rng.random() < 0.12 else "edit"
            x = rng.random()
            if x < 0.45 and ref.looks:
                pts.append(["look", rng.randint(1, len(ref.looks)), seed, what])
            elif ref.ops:
                k = self.pick(rng, ref.ops, 1)[0]
                pts.append([rng.choice(["before", "after"]), k, seed, what])
        return pts

    def go(self, h, case, out, choose):
        def after(ref):
            # what is still there once everybody has synced
            ref.final = None
            for rnd in range(3):
                for j in [case["cmd"][1]] + [j for j in range(len(h.w.clients)) if h.alive[j] and j != case["cmd"][1]]:
                    h.w.tick(1)
                    r = h.w.run(h.w.clients[j], ["sync", h.w.clients[j].profile])
                    if not r.ok:
                        out.bad({"crash"}, "an undisturbed sync failed: %s" % r.brief())
            ref.final = set(self.everything(h))
            return choose(ref)
        super().go(h, case, out, after)

    # -- what the user does in the meantime --------------------------------------------------------------------
    def interesting(self, h, i, ref):
        """Paths that the sync works on, by side."""
        got = {"R": set(), "c%d" % i: set()}
        for o in ref.ops:
            for p in (o[3], o[4]):
                for side in got:
                    top = h.top(side)
                    if p and p.startswith(top + "/") and not p.startswith(top + "/.zielen"):
                        q = p[len(top) + 1:]
                        if not is_temp(q):
                            got[side].add(q)
        both = sorted(got["R"] | got["c%d" % i])
        return both

    def edits(self, h, i, ref, S0, rng, near):
        """One to four edits, made at once; returns what was done as [(side, path, was, is)]."""
        w = h.w
        hot = self.interesting(h, i, ref)
        names = h.spec["names"]
        done = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            side = rng.choice(["R", "c%d" % i, "c%d" % i])
            op = rng.choices(list(EDITS), list(EDITS.values()))[0]
            here = gen.existing(h, side, "fl")
            x = rng.random()
            if x < 0.35 and near and rng.random() < 0.8:
                p = rng.choice(near)
            elif x < 0.7 and hot:
                p = rng.choice(hot)
            elif here:
                p = rng.choice(here)
            else:
                p = gen.rand_path(rng, names)
            if "_conflict-" in p:
                p = hist.retime(h.top(side), p)
            size = rng.choice([10, 100, 1000, 4096, 5000, 20000])
            steps = {"put": [["put", side, p, size, "replace", rng.choice([None, None, 0o600])]],
                     "inplace": [["put", side, p, size, "inplace"]],
                     "put_new": [["put", side, rng.choice([p, p + "x", gen.rand_path(rng, names)]), size, "new", None]],
                     "rm": [["rm", side, rng.choice([p, p, os.path.dirname(p) or p])]],
                     "swap": [["rm", side, p], ["put", side, p + "/" + rng.choice(names), size, "new", None]],
                     "mkdir": [["mkdir", side, gen.rand_path(rng, names)]],
                     "ln": [["ln", side, gen.rand_path(rng, names), "dangling"]],
                     "mv": [["mv", side, p, gen.rand_path(rng, names) + "-moved"]],
                     "touch": [["touch", side, p]]}[op]
            for st in steps:
                before = State(h, i)
                if not self.safe(h, i, st, S0, ref):
                    break
                if not h.edit(st):
                    break
                done.append((st, before, State(h, i)))
        return done

    def safe(self, h, i, st, S0, ref):
        """Leave out what the program can't be expected to notice."""
        side, p = st[1], st[2]
        top = h.top(side)
        if st[0] == "mv" and any(st[3] in s for s in (S0.L, S0.R, ref.L, ref.R)):
            return False        # a file with an old mtime in place of one that the sync is about to put there
        if side == "R" and (p == ".zielen" or p.startswith(".zielen/")):
            return False
        if st[0] == "ln" and any(p in s for s in (S0.L, S0.R, ref.L, ref.R)):
            return False
        if is_temp(p):
            return False
        e = os.path.join(top, p)
        if st[0] == "put" and os.path.islink(e) and side != "R" and os.readlink(e) != os.path.join(h.w.remote, p):
            return False        # an unsafe link, or a link to somewhere else
        if st[0] == "rm" and side != "R" and os.path.isdir(e) and not os.path.islink(e) and any(
                x.kind == "o" for x in W.snapshot(e).values()):
            return False
        return True

    def disturb(self, h, case, pt, out):
        w, i = h.w, case["cmd"][1]
        c = w.clients[i]
        mode = {"look": W.M_LOOK_STOP, "before": W.M_STOP, "after": W.M_STOP_AFTER}[pt[0]]
        self.done, self.others, self.reached = [], [], False
        hd = w.start(c, self.argv(h, case["cmd"]), trigger=pt[1], mode=mode)
        if not w.wait_stopped(hd):
            return hd["res"]
        self.reached = True
        rng = random.Random(pt[2])
        w.frozen = True
        try:
            w.tick(0)
            if pt[3] == "sync":
                others = [j for j in range(len(w.clients)) if j != i and h.alive[j]]
                if others:
                    j = rng.choice(others)
                    # the other client has something to sync, too
                    self.done += self.edits(h, j, self.ref, self.S0, rng, self.near(h, i, hd))
                    w.tick(0)
                    r = w.run(w.clients[j], ["sync", w.clients[j].profile])
                    self.others.append((j, r))
                    out.stats["others_synced" if r.ok else "others_locked_out"] += 1
                    w.tick(0)
            if pt[3] == "edit" or rng.random() < 0.3:
                self.done += self.edits(h, i, self.ref, self.S0, rng, self.near(h, i, hd))
            w.tick(0)
        finally:
            w.frozen = False
            w.cont(hd)
        return w.finish(hd)

    def near(self, h, i, hd):
        """The paths that the stopped sync has just been dealing with."""
        got = []
        with open(hd["log"], encoding="utf-8", errors="replace") as f:
            lines = f.read().split("\n")[-14:]
        for line in lines:
            for p in line.replace("\1", "\n").split("\2")[3:5]:
                for side in ("R", "c%d" % i):
                    top = h.top(side)
                    if p.startswith(top + "/"):
                        q = p[len(top) + 1:]
                        if not is_temp(q) and not q.startswith(".zielen"):
                            got.append(q)
        return got

    # -- judging -----------------------------------------------------------------------------------------------
    def raced(self, h, i, pt, r):
        """Was the sync stopped right before it changed what was edited? No program can do anything about that."""
        edited = [os.path.join(h.top(st[1]), p) for st, b, a in self.done for p in st[2:4:1] if isinstance(p, str)]
        nxt, looked = None, set()
        if pt[0] == "look":
            on = False
            for x in r.log:
                if x[0] == "LOOK" and x[1] == pt[1]:
                    on = True
                if on and x[0] == "LOOK":
                    looked.add(x[3])
                if on and x[0] == "OP":
                    nxt = x
                    break
        else:
            k = pt[1] + (pt[0] == "after")
            nxt = next((o for o in r.ops if o[1] == k), None)
        if nxt is None:
            return False
        return any(q and related(p, q) and q not in looked for p in edited for q in (nxt[3], nxt[4]))

    def point(self, h, case, pt, S0, ref, post, out):
        w = h.w
        i = case["cmd"][1]
        self.S0, self.ref = S0, ref
        r = self.disturb(h, case, pt, out)
        if r.escapes:
            out.bad({"escape"}, "touched %r" % r.escapes[:3])
        if not self.reached or not (self.done or self.others):
            out.stats["not_reached" if not self.reached else "nothing_done"] += 1
            return
        out.stats["stopped"] += 1
        out.stats["edits"] += len(self.done)
        out.stats["sync_ok" if r.ok else "sync_failed_cleanly" if r.clean_error else "sync_crashed"] += 1
        what = "sync %d stopped %s %d; %s%s; result %s" % (
            i, pt[0], pt[1], [st for st, b, a in self.done], "".join("; client %d synced: %s" % (j, x.brief()[-100:]) for j, x in self.others), r.brief()[-160:])
        had, ends = S0.contents(), ref.contents()
        must = {d: had[d] for d in had if d in ends and d in ref.final}
        for st, b, a in self.done:
            for side, x, y in (("local", b.L, a.L), ("remote", b.R, a.R)):
                for p, e in x.items():
                    if (p not in y or y[p].key() != e.key()):
                        if e.kind == "f":
                            must.pop(e.data, None)
                        if e.kind == "l" and p in b.R:
                            must.pop(b.R[p].data, None)     # the placeholder was removed or replaced: so will be the file
                for p, e in y.items():
                    if e.kind == "f" and (p not in x or x[p].key() != e.key()):
                        must[e.data] = [(side, p, st)]
                        if side == "local" and p not in x and p in b.R and any(p in k.known for k in h.cm):
                            must.pop(b.R[p].data, None)     # deleted and made anew: replaced
        must = {d: v for d, v in must.items() if d != "=" }
        known = set(had) | set(ends) | {e.data for st, b, a in self.done for s in (a.L, a.R) for e in s.values()} | set(must)
        for j in range(len(w.clients)):
            known |= {e.data for e in w.clients[j].snap().values()}
        raced = self.raced(h, i, pt, r)
        if raced:
            out.stats["raced"] += 1
            return
        self.survive(h, must, what, out)
        if out.viols:
            return
        # everybody syncs
        live = [i] + [j for j in range(len(w.clients)) if h.alive[j] and j != i]
        for rnd in range(4):
            for j in live:
                w.tick(1)
                x = w.run(w.clients[j], ["sync", w.clients[j].profile])
                if not x.ok:
                    out.bad({"conc"}, "%s; then sync of client %d: %s" % (what, j, x.brief()))
                    return
                if rnd == 0:
                    self.survive(h, must, what + "; then client %d synced" % j, out)
                    if out.viols:
                        return
        self.survive(h, must, what + "; then everyone synced", out)
        if not out.viols:
            self.settled(h, live, known, what, out)

    def everything(self, h):
        """All file contents there are."""
        has = {e.data for s in (h.w.rsnap(), h.w.trash()) for e in s.values() if e.kind == "f"}
        for c in h.w.clients:
            has |= {e.data for e in c.snap().values() if e.kind == "f"}
        return has

    def survive(self, h, must, what, out):
        has = self.everything(h)
        for d, v in must.items():
            if d not in has:
                out.bad({"conc", "loss"}, "%s: content %s (was at %r) exists nowhere any more" % (what, d, v[:2]))

    def settled(self, h, live, known, what, out):
        w = h.w
        R = w.rsnap()
        snaps = {j: w.clients[j].snap() for j in live}
        tree = dict(R)
        for s in snaps.values():
            tree.update(s)
        skip = set()
        for j, c in enumerate(w.clients):
            for pats in (c.excludes, h.cm[j].stored):
                skip |= globref.excluded(pats, tree)
        for p, e in tree.items():
            for s in [R] + list(snaps.values()):
                if p in s and (s[p].kind == "o" or is_temp(p)):
                    skip.add(p)
        for s, top in [(R, w.remote)] + [(snaps[j], w.clients[j].local) for j in live]:
            for p, e in s.items():
                if e.kind == "l" and not (s is not R and model.is_placeholder(p, e, w.remote)) and model.unsafe_link(p, e, top):
                    skip.add(p)

        def out_of_it(p):
            while p:
                if p in skip:
                    return True
                p = os.path.dirname(p)
            return False
        for p, e in tree.items():
            if e.kind == "f" and e.data not in known:
                out.bad({"conc"}, "%s; in the end there is a file %r with content %s, which nobody wrote" % (what, p, e.data))
        for j in live:
            L = snaps[j]
            for p in sorted(set(R) | set(L)):
                if out_of_it(p):
                    continue
                a, b = L.get(p), R.get(p)
                if a is None or b is None:
                    out.bad({"conc"}, "%s; after four rounds of syncs %r is only %s" % (what, p, "in the remote directory" if a is None else "at client %d" % j))
                    return
                if b.kind == "d" and a.kind == "d" or b.kind != "d" and (model.is_placeholder(p, a, w.remote) or a.key() == b.key()):
                    continue
                out.bad({"conc"}, "%s; after four rounds of syncs %r is %r at client %d and %r in the remote directory" % (what, p, a, j, b))
                return
        out.stats["settled"] += 1
