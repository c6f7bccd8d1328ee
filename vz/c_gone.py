"""C16: commands while the remote directory is not there."""
import os

from . import gen, hist, model
from . import world as W
from .c_hist import HistCheck

KINDS = ["missing", "missing", "empty", "empty", "empty", "foreign", "foreign", "file", "dangling", "loop", "elsewhere", "unreadable", "noutil",
         "emptyutil", "utilfile", "parent"]
CMDS = ["sync", "sync", "sync", "reset", "reset-k", "reset-n", "empty-trash", "init"]


class GoneHistory(hist.History):
    def do(self, st):
        if st[0] != "gone":
            return super().do(st)
        self.gone(st[1], st[2])
        self.steps.append(st)
        return True

    def away(self, kind):
        """Make the remote directory unavailable; returns how to undo it."""
        w = self.w
        R, A = w.remote, os.path.join(w.base, "away")
        util = os.path.join(R, ".zielen")
        if kind == "parent":
            R = os.path.dirname(R) if os.path.dirname(R) != w.root else R
            kind = "missing"
        if kind == "unreadable":
            mode = os.stat(R).st_mode & 0o7777
            os.chmod(R, 0)
            return lambda: os.chmod(R, mode)
        src = util if "util" in kind else R
        os.rename(src, A)
        if kind == "empty":
            os.mkdir(src)
        elif kind == "foreign":
            os.mkdir(src)
            for n in ("a", "other/b"):
                w.write(os.path.join(src, n), "foreign " + n)
        elif kind in ("file", "utilfile"):
            w.write(src, "not a directory")
        elif kind == "dangling":
            os.symlink("nowhere", src)
        elif kind == "loop":
            os.symlink(src, src)
        elif kind == "elsewhere":
            os.symlink(w.decoy, src)
        elif kind == "emptyutil":
            os.mkdir(src)

        def back():
            if os.path.lexists(src):
                W.wipe(src)
            os.rename(A, src)
        return back

    def place(self, kind):
        """What can be seen at the remote path."""
        if kind == "unreadable":
            return None
        w = self.w
        st = os.lstat(w.remote) if os.path.lexists(w.remote) else None
        return st and (st.st_mode, os.path.islink(w.remote) and os.readlink(w.remote), hist.fulls(W.snapshot(w.remote)))

    def gone(self, kind, cmds):
        w = self.w
        w.tick(1)
        R0 = hist.fulls(W.snapshot(w.remote))
        back = self.away(kind)
        ended = []
        try:
            for i, cmd in cmds:
                if self.viol:
                    break
                c = w.clients[i]
                if i in ended or (not self.alive[i] and cmd != "init"):
                    continue
                if not self.alive[i]:
                    self.new(i, kind)
                    continue
                argv = {"sync": ["sync"], "reset": ["reset"], "reset-k": ["reset", "-k"], "reset-n": ["reset", "-n"],
                        "empty-trash": ["empty-trash"], "init": ["init"]}[cmd] + [c.profile]
                L0, P0, D0 = c.snap(), {p: e.key() for p, e in W.snapshot(c.pdir).items()}, self.place(kind)
                r = w.run(c, argv)
                L1, P1, D1 = c.snap(), {p: e.key() for p, e in W.snapshot(c.pdir).items()}, self.place(kind)
                what = "remote directory %s: %s" % (kind, r.brief())
                self.stats["refusals"] = self.stats.get("refusals", 0) + 1
                self.stats["kind:" + kind] = self.stats.get("kind:" + kind, 0) + 1
                if r.escapes or not w.decoy_ok():
                    self.bad({"gone", "escape"}, "%s; touched %r" % (what, r.escapes[:3]))
                if D0 != D1:
                    self.bad({"gone"}, "%s; what is at its path changed: %r -> %r" % (what, D0, D1))
                if r.ok and cmd == "reset-n":
                    # nothing has to be retrieved, so there is no need for it
                    want = {p: e.full() for p, e in L0.items() if not model.is_placeholder(p, e, w.remote)}
                    if hist.fulls(L1) != want:
                        self.bad({"gone", "reset"}, "%s; local directory: %s" % (what, hist.diff(L0, L1)))
                    if os.path.lexists(c.pdir):
                        self.bad({"gone", "reset"}, "%s; the profile is still there" % what)
                    ended.append(i)
                    self.stats["reset_without"] = self.stats.get("reset_without", 0) + 1
                    continue
                if not r.clean_error:
                    self.bad({"gone", "crash"}, "%s" % what)
                if hist.fulls(L0) != hist.fulls(L1):
                    self.bad({"gone", "loss"}, "%s; the local directory changed: %s" % (what, hist.diff(L0, L1)))
                if P0 != P1:
                    self.bad({"gone", "db"}, "%s; the profile changed: %r" % (what, [p for p in set(P0) | set(P1) if P0.get(p) != P1.get(p)]))
        finally:
            back()
        for i in ended:
            self.alive[i] = False
        if ended:
            # their stored exclude patterns are still in the remote directory
            pid = os.path.join(w.remote, ".zielen", "exclude")
            for n in os.listdir(pid):
                if n not in [self.pid(j) for j in range(len(w.clients)) if self.alive[j]]:
                    os.remove(os.path.join(pid, n))
        if not ended and hist.fulls(W.snapshot(w.remote)) != R0:
            self.bad({"gone"}, "remote directory %s: it was changed" % kind)

    def pid(self, j):
        import json
        with open(os.path.join(self.w.clients[j].pdir, "info.json")) as f:
            return json.load(f).get("ID")

    def new(self, i, kind):
        """init --add-remote of a new profile is refused."""
        w, c = self.w, self.w.clients[i]
        os.makedirs(c.local, exist_ok=True)
        for n in os.listdir(c.local):
            w.remove(os.path.join(c.local, n))
        if kind in ("foreign", "elsewhere", "noutil", "emptyutil", "utilfile", "unreadable"):
            return      # those could be (or become) remote directories for all that init knows
        if kind == "empty":
            return
        D0 = self.place(kind)
        tmpl = os.path.join(w.root, "template-" + c.name)
        c.write_config(tmpl)
        r = w.run(c, ["init", "--template", tmpl, "--add-remote", c.profile])
        what = "remote directory %s: %s" % (kind, r.brief())
        if not r.clean_error:
            self.bad({"gone", "crash"}, what)
        if D0 != self.place(kind):
            self.bad({"gone"}, "%s; what is at its path changed" % what)
        if c.snap():
            self.bad({"gone"}, "%s; the local directory has %r" % (what, list(c.snap())[:4]))
        if os.path.lexists(os.path.join(c.pdir, "config")):
            self.bad({"gone"}, "%s; the profile exists" % what)
        self.stats["refusals"] = self.stats.get("refusals", 0) + 1


class Gone(HistCheck):
    prop = "C16"
    tags = {"gone"}
    weights = {"sync": 20, "both": 6, "rm": 10, "init": 8, "reset": 1}
    world = {"excl": 0.2, "real": 0.15}
    steps = (10, 28)
    need = "refusals"

    def spec(self, rng, tier):
        s = super().spec(rng, tier)
        if rng.random() < 0.3:
            s["remote"] = "mnt/disk/remote"
        return s

    def make(self, base, spec):
        return GoneHistory(base, spec)

    def extra(self, h, rng):
        if not any(h.alive) or rng.random() > 0.3:
            return None
        cmds = [[rng.randrange(len(h.w.clients)), rng.choice(CMDS)] for _ in range(rng.randint(1, 3))]
        steps = [["gone", rng.choice(KINDS), cmds]]
        if rng.random() < 0.6:
            i = rng.randrange(len(h.w.clients))
            if h.alive[i]:
                steps.append(["sync", i])
        return steps

    def finish(self, h, out, case):
        first = [k for k, st in enumerate(h.steps) if st[0] == "gone"]
        for v in h.viol:
            # When it is back, everything goes on as if nothing had happened.
            if first and v.step is not None and v.step > first[0]:
                v.tags = set(v.tags) | {"gone"}
        super().finish(h, out, case)
