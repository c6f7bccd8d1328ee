"""C18: the real daemon with real inotify events, a clock that can be moved, and the syncs it starts."""
import json
import os
import random
import shutil
import signal
import sqlite3
import sys
import threading
import time

from . import hist, model
from . import world as W
from .base import Check, Outcome

SPEED = {"TRANSACTION_SLEEP_TIME": 0.25, "SYNC_SLEEP_TIME": 0.25}
COOLDOWN, ADJUST = 1.0, 600.0
PY = "/opt/pypyvenv/bin/python"
NAMES = ["a", "b c", "été", "x.o", ".hid", "[1]", "it's", "名前", "d", "per%cent", "z"]


class Lag(threading.Thread):
    """How late this machine wakes sleepers up: no verdict from timing when it is overloaded."""

    def __init__(self):
        super().__init__(daemon=True)
        self.worst, self.on = 0.0, True

    def run(self):
        while self.on:
            t = time.monotonic()
            time.sleep(0.02)
            self.worst = max(self.worst, time.monotonic() - t - 0.02)


class DaemonCheck(Check):
    prop = "C18"
    tags = {"daemon"}
    always = set()

    def gen(self, rng, tier, n):
        files = []
        for _ in range(rng.randint(3, 8)):
            files.append("/".join(rng.choice(NAMES) for _ in range(rng.randint(1, 3))))
        files = [f for f in dict.fromkeys(files) if not any(o != f and (o.startswith(f + "/") or f.startswith(o + "/")) for o in files)] or ["a"]
        spec = {"files": [[f, rng.choice([10, 5000, 9000, 20000])] for f in files], "limit": rng.choice(["0 KiB", "20KiB", "40KiB", "10000KiB", "10000KiB"]),
                "half": rng.choice([1, 2, 24, 120, 1000]), "interval": rng.choice([20, 45, 120]), "prio": [rng.choice([0, 0, 1, 7.5, 100]) for _ in files],
                "linked": rng.choice([None, None, None, "local", "remote"]), "size": rng.random() < 0.5, "excl": rng.random() < 0.5}
        kinds = {"burst": 10, "slide": 2, "many": 2, "idle": 3, "decay": 4, "half-decay": 2, "write": 1, "unsynced": 2, "sync": 3, "syncread": 2, "newdir": 2,
                 "movedir": 2, "redir": 2, "failsync": 2, "restart": 2, "badconfig": 1, "flood": 1, "reader": 1, "nosync": 1, "delete": 1, "cmdsync": 2,
                 "rmdir": 1, "half": 1, "busy": 1}
        steps = []
        for _ in range(rng.randint(4, 8) if tier == "quick" else rng.randint(6, 20)):
            k = rng.choices(list(kinds), list(kinds.values()))[0]
            steps.append([k, rng.randrange(1 << 30)])
        return {"spec": spec, "steps": steps, "start": {"sync_due": rng.random() < 0.3, "adjust_due": rng.random() < 0.4}}

    # -- the daemon process --------------------------------------------------------------------------------------
    def launch(self):
        w, c = self.w, self.c
        rfd, self.pipe = os.pipe()

        def main():
            os.close(self.pipe)
            import zielen.cli
            import zielen.daemon
            for k, v in SPEED.items():
                if hasattr(zielen.daemon.Daemon, k):
                    setattr(zielen.daemon.Daemon, k, v)

            def clock():
                buf = b""
                while True:
                    x = os.read(rfd, 100)
                    if not x:
                        return
                    buf += x
                    while b"\n" in buf:
                        line, buf = buf.split(b"\n", 1)
                        W._lib.shim_clock(float(line))
            threading.Thread(target=clock, daemon=True).start()
            zielen.cli.daemon(c.profile)

        env = w.env_for(c)
        env["PATH"] = self.bin + ":" + env["PATH"]
        self.h = w.start(c, ["daemon", c.profile], func=main, env=env)
        os.close(rfd)
        self.live = True
        self.out.stats["daemons"] += 1
        # until it watches both directories (it watches what is below them too, but that is for the counts to show)
        want = {os.stat(c.local).st_ino, os.stat(c.remote).st_ino}
        full = {os.stat(d).st_ino for top in (c.local, c.remote) for d, ds, fs in os.walk(top)}
        t0, roots = time.monotonic(), None
        while time.monotonic() - t0 < 25:
            if not self.alive("at the start"):
                return False
            got = self.watched()
            if want <= got and roots is None:
                roots = time.monotonic()
            if full <= got or roots and time.monotonic() - roots > 3:
                time.sleep(0.05)
                return True
            time.sleep(0.02)
        self.out.bad({"daemon"}, "the daemon does not watch the directories")
        return False

    def watched(self):
        got = set()
        d = "/proc/%d/fdinfo" % self.h["pid"]
        try:
            for n in os.listdir(d):
                with open(os.path.join(d, n)) as f:
                    for line in f:
                        if line.startswith("inotify wd:"):
                            got.add(int(line.split("ino:")[1].split()[0], 16))
        except (OSError, ValueError, IndexError):
            pass
        return got

    def alive(self, when):
        pid, status = os.waitpid(self.h["pid"], os.WNOHANG)
        if not pid:
            return True
        self.live = False
        r = self.w.collect(self.h, status)
        self.out.bad({"daemon"}, "the daemon ended %s: rc=%s sig=%s %s" % (when, r.rc, r.sig, (r.tb or r.err).strip()[-400:]))
        return False

    def end(self, when):
        """SIGTERM ends it, with exit status 0 and without complaints."""
        if not self.alive(when):
            return
        t0 = time.monotonic()
        os.kill(self.h["pid"], signal.SIGTERM)
        while time.monotonic() - t0 < 20:
            pid, status = os.waitpid(self.h["pid"], os.WNOHANG)
            if pid:
                self.live = False
                r = self.w.collect(self.h, status)
                if r.rc != 0 or r.sig or r.tb or "Traceback" in r.err.replace("Traceback of a sync", ""):
                    if not self.failed or r.rc != 0 or r.sig or r.tb:
                        self.out.bad({"daemon"}, "told to end %s, the daemon did not end cleanly: rc=%s sig=%s %s" % (when, r.rc, r.sig, (r.tb or r.err)[-400:]))
                if r.escapes:
                    self.out.bad({"daemon"}, "the daemon touched %r" % (r.escapes[:2],))
                os.close(self.pipe)
                return
            time.sleep(0.01)
        self.out.bad({"daemon"}, "the daemon does not end when it is told to (%s)" % when)

    def kill(self):
        if self.live:
            try:
                os.killpg(self.h["pid"], signal.SIGKILL)
            except OSError:
                pass
            try:
                os.kill(self.h["pid"], signal.SIGKILL)
                os.waitpid(self.h["pid"], 0)
            except OSError:
                pass
            self.live = False
        if getattr(self, "h", None):
            try:
                os.killpg(self.h["pid"], signal.SIGKILL)
            except OSError:
                pass

    def advance(self, seconds):
        self.w.offset += seconds
        os.write(self.pipe, b"%f\n" % self.w.offset)

    # -- what is recorded ------------------------------------------------------------------------------------------
    def db(self):
        for _ in range(100):
            try:
                return self.c.db()
            except sqlite3.OperationalError:
                time.sleep(0.05)
        raise W.Inconclusive("the profile database stays locked")

    def base_line(self):
        db = self.db()
        self.want = {p: v[1] for p, v in db.items() if not v[0]}
        self.dirs = {p for p, v in db.items() if v[0]}

    def expected(self):
        want = dict(self.want)
        for d in self.dirs:
            want[d] = sum(x for p, x in self.want.items() if p.startswith(d + "/"))
        return want

    def differ(self, want=None):
        db = self.db()
        want = self.expected() if want is None else want
        got = {p: v[1] for p, v in db.items()}
        return [(p, want.get(p), got.get(p)) for p in sorted(set(want) | set(got))
                if p not in want or p not in got or abs(want[p] - got[p]) > 1e-9 * max(1.0, abs(want[p]))]

    def settle(self, what, timeout=9):
        """The daemon records what is expected before long, and leaves it at that."""
        t0 = time.monotonic()
        while True:
            d = self.differ()
            if not d:
                break
            if time.monotonic() - t0 > timeout:
                self.out.bad({"daemon"}, "%s: priorities (path, expected, recorded) %r" % (what, d[:4]))
                return False
            if not self.alive(what):
                return False
            time.sleep(0.05)
        self.out.stats["settled"] += 1
        return True

    def quiet(self, what):
        """Nothing more is recorded later."""
        time.sleep(0.8)
        d = self.differ()
        if d:
            time.sleep(0.3)
            d = self.differ()
        if d:
            self.out.bad({"daemon"}, "%s: later the priorities are (path, expected, recorded) %r" % (what, d[:4]))
            return False
        return True

    def read(self, p):
        with open(os.path.join(self.c.local, p), "rb") as f:
            f.read(1)

    # -- syncs -------------------------------------------------------------------------------------------------------
    def syncs(self):
        out = []
        try:
            with open(self.synclog) as f:
                for line in f:
                    x = line.rstrip("\n").split("\t")
                    if not line.endswith("\n") or len(x) < 3:
                        continue        # it is being written
                    if x[0] == "B":
                        out.append({"argv": x[2:], "pid": x[1], "rc": None})
                    else:
                        for y in out:
                            if y["pid"] == x[1]:
                                y["rc"] = int(x[2])
        except FileNotFoundError:
            pass
        return out

    def wait_sync(self, what, ok=True, timeout=45):
        """One more sync is started by the daemon, and it ends well."""
        self.nsyncs += 1
        t0 = time.monotonic()
        while time.monotonic() - t0 < timeout:
            s = self.syncs()
            if len(s) >= self.nsyncs and s[-1]["rc"] is not None:
                break
            if len(s) < self.nsyncs and time.monotonic() - t0 > 12:
                break
            if not self.alive(what):
                return False
            time.sleep(0.03)
        s = self.syncs()
        if len(s) != self.nsyncs:
            self.out.bad({"daemon"}, "%s: the daemon has started %d syncs instead of %d" % (what, len(s), self.nsyncs))
            return False
        if s[-1]["rc"] is None:
            raise W.Inconclusive("a sync takes too long")
        if "sync" not in s[-1]["argv"] or self.c.profile not in s[-1]["argv"]:
            self.out.bad({"daemon"}, "%s: the daemon has run %r" % (what, s[-1]["argv"]))
            return False
        if ok and s[-1]["rc"] != 0:
            err = open(os.path.join(self.bin, "err")).read()[-500:] if os.path.exists(os.path.join(self.bin, "err")) else ""
            self.out.bad({"daemon"}, "%s: the sync failed with status %d: %s" % (what, s[-1]["rc"], err))
            return False
        if not ok and s[-1]["rc"] == 0:
            raise W.Inconclusive("a sync without the remote directory succeeded")
        self.out.stats["daemon_syncs"] += 1
        return True

    def after_sync(self, what, lower):
        """Reads are not lost by a sync; what it reads itself may count too."""
        t0 = time.monotonic()
        while True:
            db = self.db()
            low = [(p, x, db[p][1]) for p, x in lower.items() if p in db and not db[p][0] and db[p][1] < x - 1e-9 * max(1, x)]
            if not low or time.monotonic() - t0 > 9:
                break
            if not self.alive(what):
                return False
            time.sleep(0.05)
        if low:
            self.out.bad({"daemon"}, "%s: priorities got lost: %r" % (what, low[:3]))
            return False
        time.sleep(COOLDOWN + 0.7)     # what the sync has read is recorded now
        self.base_line()
        for tags, msg in hist.check_profile_db(self.db()):
            self.out.bad({"daemon"}, "%s: %s" % (what, msg))
            return False
        return self.alive(what)

    # -- the case ------------------------------------------------------------------------------------------------------
    def run(self, base, case):
        out = self.out = Outcome()
        spec = case["spec"]
        w = self.w = W.World(base, real_time=True)
        self.live, self.h, self.failed, self.nsyncs = False, None, False, 0
        self.bin = os.path.join(w.root, "bin")
        os.mkdir(self.bin)
        self.synclog = os.path.join(self.bin, "syncs")
        with open(os.path.join(self.bin, "zielen"), "w") as f:
            f.write("#!/bin/sh\nprintf 'B\\t%%s' $$ >> %s\nfor a in \"$@\"; do printf '\\t%%s' \"$a\" >> %s; done\nprintf '\\n' >> %s\n"
                    "%s %s/scripts/zielen \"$@\" 2> %s/err\nrc=$?\ncat %s/err >&2\nprintf 'E\\t%%s\\t%%s\\n' $$ $rc >> %s\nexit $rc\n" % (
                        self.synclog, self.synclog, self.synclog, PY, W.REPO, self.bin, self.bin, self.synclog))
        os.chmod(os.path.join(self.bin, "zielen"), 0o755)
        lag = Lag()
        lag.start()
        try:
            c = self.c = w.add_client(opts={"StorageLimit": spec["limit"], "SyncInterval": str(spec["interval"]), "PriorityHalfLife": str(spec["half"]),
                                            "AccountForSize": "yes" if spec["size"] else "no"})
            if spec["linked"]:
                real = os.path.join(w.root, "real-" + spec["linked"])
                os.mkdir(real)
                os.symlink(real, c.local if spec["linked"] == "local" else c.remote)
            else:
                pass
            os.makedirs(c.local, exist_ok=True)
            os.makedirs(c.remote, exist_ok=True)
            for p, n in spec["files"]:
                w.write(os.path.join(c.local, p), "x" * n)
            w.write(os.path.join(c.local, "excluded.tmp"), "excluded")
            r = w.init(c, excludes=["*.tmp"])
            if not r.ok:
                raise W.Inconclusive("init: " + r.brief())
            r = w.sync(c)
            if not r.ok:
                raise W.Inconclusive("sync: " + r.brief())
            self.set_prio(dict(zip([f[0] for f in spec["files"]], spec["prio"])))
            self.info(case["start"])
            self.base_line()
            if case["start"]["adjust_due"]:
                self.decayed()
            if not self.launch():
                return out
            if case["start"]["sync_due"]:
                lower = dict(self.want)
                if self.wait_sync("a sync was due at the start"):
                    self.after_sync("a sync was due at the start", {})
                    self.low(lower)
            else:
                self.settle("at the start (adjustment due: %s)" % case["start"]["adjust_due"])
            done = []
            for st in case["steps"]:
                if out.viols or not self.alive("before %r" % st[0]):
                    break
                out.stats["step:" + st[0]] += 1
                done.append(st[0])
                getattr(self, "do_" + st[0].replace("-", "_"))(random.Random(st[1]), spec)
            if not out.viols:
                self.settle("at the end") and self.quiet("at the end (%s)" % ", ".join(done[-3:]))
            if not out.viols:
                n = len(self.syncs())
                if n != self.nsyncs:
                    out.bad({"daemon"}, "the daemon has started %d syncs, of which %d were due" % (n, self.nsyncs))
            if not out.viols:
                self.end("at the end")
            if not w.decoy_ok():
                out.bad({"daemon"}, "files outside were changed")
            if lag.worst > 0.25:
                out.stats["lagging"] += 1
                if out.viols:
                    raise W.Inconclusive("the machine is too slow for a verdict: %.2f s; %s" % (lag.worst, out.viols[0][1][:200]))
            out.sig = (tuple(done), spec["limit"], spec["half"], len(spec["files"]), spec["linked"])
            out.sample = {"steps": done, "half_life": spec["half"], "files": spec["files"][:3], "priorities": dict(list(self.want.items())[:3])}
        finally:
            lag.on = False
            self.kill()
            try:
                os.close(self.pipe)
            except (OSError, AttributeError):
                pass
            w.close()
        return out

    def low(self, lower):
        pass

    def info(self, start):
        """Set the times of the last sync and adjustment."""
        p = os.path.join(self.c.pdir, "info.json")
        with open(p) as f:
            d = json.load(f)

        def ts(t):
            return time.strftime("%Y-%m-%dT%H:%M:%S", time.gmtime(t)) + ".%06d" % (t % 1 * 1e6)
        now = time.time()
        # (a little less than the interval ago if nothing is due: the daemon needs time to start)
        d["LastAdjust"] = ts(now - (ADJUST + 5 if start["adjust_due"] else 5))
        self.iv = int(self.c.opts["SyncInterval"]) * 60
        if start["sync_due"]:
            d["LastSync"] = ts(now - self.iv - 5)
        with open(p, "w") as f:
            json.dump(d, f)
        self.last_adjust_rel = 5 if not start["adjust_due"] else 0
        self.clock_marks()

    def clock_marks(self):
        self.t_adjust = time.time() + self.w.offset - self.last_adjust_rel
        self.t_sync = time.time() + self.w.offset

    def set_prio(self, prio):
        db = sqlite3.connect(os.path.join(self.c.pdir, "local.db"))
        rows = db.execute("SELECT path, directory FROM nodes").fetchall()
        leaf = {p: float(prio.get(p, 0)) for p, d in rows if not d}
        for p, d in rows:
            x = sum(v for q, v in leaf.items() if q.startswith(p + "/")) if d else leaf[p]
            db.execute("UPDATE nodes SET priority = ? WHERE path = ?", (x, p))
        db.commit()
        db.close()

    def decayed(self):
        k = 0.5 ** (ADJUST / (self.spec_half * 3600.0))
        self.want = {p: x * k for p, x in self.want.items()}

    @property
    def spec_half(self):
        return int(self.c.opts["PriorityHalfLife"])

    # -- steps: reading ---------------------------------------------------------------------------------------------
    def some(self, rng, n=1):
        ps = sorted(p for p in self.want if os.path.isfile(os.path.join(self.c.local, p)))
        return rng.sample(ps, min(n, len(ps)))

    def gap(self):
        time.sleep(COOLDOWN + 0.5)

    def do_burst(self, rng, spec):
        ps = self.some(rng, rng.randint(1, 3))
        t0 = time.monotonic()
        for _ in range(rng.randint(1, 6)):
            for p in ps:
                self.read(p)
        if time.monotonic() - t0 > 0.5:
            raise W.Inconclusive("reading took too long")
        for p in ps:
            self.want[p] += 1
        self.out.stats["reads"] += len(ps)
        self.settle("after reading %r" % ps)
        self.gap()

    def do_slide(self, rng, spec):
        """Reads at 0, 0.7, 1.4 and 2.1 s: the second and the fourth are within the cooldown of a counted one."""
        ps = self.some(rng, 1)
        t0 = time.monotonic()
        for k in range(4):
            time.sleep(max(0, t0 + k * 0.7 - time.monotonic()))
            for p in ps:
                self.read(p)
        if time.monotonic() - t0 > 2.3:
            raise W.Inconclusive("reading took too long")
        for p in ps:
            self.want[p] += 2
        self.out.stats["reads"] += 2 * len(ps)
        self.settle("after reading %r every 0.7 s, 4 times" % ps)
        self.gap()

    def do_many(self, rng, spec):
        ps = self.some(rng, 100)
        for p in ps:
            self.read(p)
        for p in ps:
            self.want[p] += 1
        self.out.stats["reads"] += len(ps)
        self.settle("after reading everything")
        self.gap()

    def do_idle(self, rng, spec):
        """Looking at directories and at the attributes of files is not reading them."""
        for d, ds, fs in os.walk(self.c.local):
            for f in fs:
                os.lstat(os.path.join(d, f))
                os.path.exists(os.path.join(d, f))
        os.listdir(self.c.remote)
        self.settle("after looking at the directories") and self.quiet("after looking at the directories")

    def do_write(self, rng, spec):
        """Writing a file opens it, too."""
        ps = [p for p in self.some(rng, 100) if not os.path.islink(os.path.join(self.c.local, p))][:1]
        for p in ps:
            with open(os.path.join(self.c.local, p), "ab") as f:
                f.write(b"+")
            self.want[p] += 1
        self.settle("after writing %r" % ps)
        self.gap()

    def do_unsynced(self, rng, spec):
        """Files that are not synced (yet) have no priority."""
        n = "fresh%d" % rng.randrange(1000)
        f = os.path.join(self.c.local, n)
        if not os.path.lexists(f):
            with open(f, "w") as g:
                g.write("x")
        self.read(n)
        self.read("excluded.tmp")
        self.settle("after reading new and excluded files") and self.quiet("after reading new and excluded files")
        os.remove(f)

    def do_flood(self, rng, spec):
        """More events than the kernel keeps."""
        ps = self.some(rng, 2)
        if len(ps) < 2:
            return
        os.kill(self.h["pid"], signal.SIGSTOP)
        fs = [os.path.join(self.c.local, p) for p in ps]
        for _ in range(8400):
            for f in fs:
                os.close(os.open(f, os.O_RDONLY))
        os.kill(self.h["pid"], signal.SIGCONT)
        time.sleep(2.5)
        if not self.alive("when there were more events than the kernel keeps"):
            return
        self.base_line()
        self.gap()
        self.do_burst(rng, spec)

    def do_busy(self, rng, spec):
        """Reads while another process is writing to the database for a while."""
        db = sqlite3.connect(os.path.join(self.c.pdir, "local.db"), timeout=10)
        try:
            db.execute("BEGIN IMMEDIATE")
        except sqlite3.OperationalError:
            db.close()
            return
        ps = self.some(rng, 2)
        for p in ps:
            self.read(p)
        time.sleep(rng.choice([1.0, 2.0, 6.0]))
        db.rollback()
        db.close()
        for p in ps:
            self.want[p] += 1
        self.settle("after reading %r while the database was locked" % ps, 15) and self.gap()

    def do_reader(self, rng, spec):
        """Reads while another process is reading the database for a while."""
        db = sqlite3.connect(os.path.join(self.c.pdir, "local.db"), timeout=10)
        db.execute("BEGIN")
        db.execute("SELECT count(*) FROM nodes").fetchall()
        ps = self.some(rng, 2)
        for p in ps:
            self.read(p)
        time.sleep(rng.choice([1.0, 6.5, 7.0]))
        db.rollback()
        db.close()
        for p in ps:
            self.want[p] += 1
        self.settle("after reading %r while another process was reading the database" % ps, 15) and self.quiet(
            "after reading %r while another process was reading the database" % ps) and self.gap()

    # -- steps: time ---------------------------------------------------------------------------------------------------
    def due(self, seconds):
        """Would moving the clock make a sync due? Then it is left alone."""
        return time.time() + self.w.offset + seconds + 150 > self.t_sync + self.iv

    def do_decay(self, rng, spec):
        if self.due(ADJUST + 5):
            self.do_sync(rng, spec)
            if self.out.viols or self.due(ADJUST + 5):
                return
        left = self.t_adjust + ADJUST - time.time() - self.w.offset
        self.advance(max(left, 0) + 4)
        self.t_adjust = time.time() + self.w.offset
        self.decayed()
        self.out.stats["decays"] += 1
        self.settle("after %d s, with a half-life of %d h" % (ADJUST, self.spec_half)) and self.quiet("after an adjustment")

    def do_half_decay(self, rng, spec):
        left = self.t_adjust + ADJUST - time.time() - self.w.offset
        if left < 100 or self.due(left + 5):
            return
        self.advance(left - 40)
        self.quiet("%d s after the last adjustment" % (ADJUST - 40))
        if not self.out.viols:
            self.do_decay(rng, spec)

    def do_half(self, rng, spec):
        """The half-life is changed in the config file."""
        self.c.opts["PriorityHalfLife"] = str(rng.choice([1, 3, 48]))
        self.rewrite()
        time.sleep(1.5)
        self.do_decay(rng, spec)

    def do_nosync(self, rng, spec):
        """Shortly before the next sync is due, none is started."""
        left = self.t_sync + self.iv - time.time() - self.w.offset
        adj = self.t_adjust + ADJUST - time.time() - self.w.offset
        if left < 60 or left - 30 > adj - 150:
            return
        self.advance(left - 30)
        time.sleep(1)
        if len(self.syncs()) != self.nsyncs:
            self.out.bad({"daemon"}, "a sync was started 30 s early")
        else:
            self.do_sync(rng, spec)

    # -- steps: syncs --------------------------------------------------------------------------------------------------
    def make_due(self):
        left = self.t_sync + self.iv - time.time() - self.w.offset
        more = max(left, 0) + 1.5
        adj = self.t_adjust + ADJUST - time.time() - self.w.offset
        if more - 1 < adj < more + 150:
            more = adj + 2      # not shortly before an adjustment
        self.advance(more)
        now = time.time() + self.w.offset
        if now >= self.t_adjust + ADJUST - 0.5:
            self.t_adjust = now
            self.decayed()
        self.t_sync = now

    def do_sync(self, rng, spec, during=None, ok=True, what="a sync was due"):
        n = "made%d" % rng.randrange(10000)
        p = os.path.join(self.c.local, n)
        if ok and not os.path.lexists(p):
            with open(p, "w") as f:
                f.write("new")
        self.settle("before a sync")
        if self.out.viols:
            return
        self.make_due()
        if during:
            during()
        if not self.wait_sync(what, ok):
            return
        self.t_sync = time.time() + self.w.offset
        if ok and not os.path.lexists(os.path.join(self.c.remote, n)):
            self.out.bad({"daemon"}, "%s: it did not sync a new file" % what)
            return
        self.after_sync(what, dict(self.want))

    def do_cmdsync(self, rng, spec):
        """The user syncs while the daemon runs and files are being read."""
        p = self.some(rng, 1)
        if p:
            self.read(p[0])
            self.want[p[0]] += 1
        with open(os.path.join(self.c.local, "by-hand%d" % rng.randrange(1000)), "w") as f:
            f.write("new")
        off, self.w.offset = self.w.offset, 0.0
        try:
            r = self.w.run(self.c, ["sync", self.c.profile])
        finally:
            self.w.offset = off
        if not r.ok:
            self.out.bad({"daemon"}, "a sync failed next to the daemon: %s %s" % (r.brief(), r.tb[-300:]))
            return
        self.after_sync("a sync by hand", dict(self.want))

    def do_syncread(self, rng, spec):
        """Files are read while the sync runs."""
        ps = self.some(rng, 3)

        def during():
            for _ in range(10):
                for p in ps:
                    try:
                        self.read(p)
                    except OSError:
                        pass
                time.sleep(0.12)
            for p in ps:
                self.want[p] += 1
        self.do_sync(rng, spec, during, what="a sync was due while files were read")

    def do_failsync(self, rng, spec):
        """The remote directory is away when a sync is due; the daemon goes on and the next one works."""
        if spec["linked"] == "remote":
            return
        away = self.c.remote + "-away"
        self.settle("before the remote directory goes away")
        if self.out.viols:
            return
        os.rename(self.c.remote, away)
        if rng.random() < 0.5:
            os.mkdir(self.c.remote)
        self.failed = True
        try:
            self.make_due()
            fine = self.wait_sync("a sync was due without the remote directory", ok=False)
            self.t_sync = time.time() + self.w.offset
        finally:
            if os.path.isdir(self.c.remote):
                os.rmdir(self.c.remote)
            os.rename(away, self.c.remote)
        if not fine or not self.alive("after a failed sync"):
            return
        time.sleep(1.2)
        if len(self.syncs()) != self.nsyncs:
            self.out.bad({"daemon"}, "after a failed sync the daemon does not wait for the next interval")
            return
        self.base_line()
        self.do_sync(rng, spec, what="the next sync after a failed one")

    def change(self, rng, spec, edit, what):
        """Edit directories, let them sync, then read what is in there now."""
        p = edit()
        if p is None:
            return
        self.do_sync(rng, spec, what="a sync was due after " + what)
        if self.out.viols:
            return
        if p not in self.want:
            self.out.bad({"daemon"}, "%r is not in the database after %s" % (p, what))
            return
        self.gap()
        self.read(p)
        self.want[p] += 1
        self.out.stats["reads"] += 1
        self.settle("after %s and reading %r" % (what, p)) and self.gap()

    def do_newdir(self, rng, spec):
        def edit():
            d = "nd%d/sub" % rng.randrange(10000)
            os.makedirs(os.path.join(self.c.local, d))
            with open(os.path.join(self.c.local, d, "f"), "w") as f:
                f.write("x")
            return d + "/f"
        self.change(rng, spec, edit, "making a directory")

    def a_dir(self, rng):
        ds = sorted({p.split("/")[0] for p in self.want if "/" in p and os.path.isdir(os.path.join(self.c.local, p.split("/")[0]))})
        return rng.choice(ds) if ds else None

    def do_movedir(self, rng, spec):
        def edit():
            d = self.a_dir(rng)
            if d is None:
                return None
            new = "moved%d" % rng.randrange(10000)
            os.rename(os.path.join(self.c.local, d), os.path.join(self.c.local, new))
            # (the files are new ones under new names: only copies can be moved)
            keep = None
            for top, ds, fs in os.walk(os.path.join(self.c.local, new)):
                for f in fs:
                    q = os.path.join(top, f)
                    if os.path.islink(q):
                        os.remove(q)
                    elif not f.endswith(".tmp"):
                        keep = os.path.relpath(q, self.c.local)
            if keep is None:
                keep = new + "/put"
                with open(os.path.join(self.c.local, keep), "w") as f:
                    f.write("x")
            return keep
        self.change(rng, spec, edit, "renaming a directory")

    def do_redir(self, rng, spec):
        def edit():
            d = self.a_dir(rng)
            if d is None:
                return None
            shutil.rmtree(os.path.join(self.c.local, d))
            os.makedirs(os.path.join(self.c.local, d))
            with open(os.path.join(self.c.local, d, "again"), "w") as f:
                f.write("x")
            return d + "/again"
        self.change(rng, spec, edit, "replacing a directory")

    def do_rmdir(self, rng, spec):
        d = self.a_dir(rng)
        if d is not None:
            shutil.rmtree(os.path.join(self.c.local, d))
            self.do_sync(rng, spec, what="a sync was due after removing a directory")

    def do_delete(self, rng, spec):
        ps = self.some(rng, 1)
        for p in ps:
            os.remove(os.path.join(self.c.local, p))
        self.do_sync(rng, spec, what="a sync was due after deleting a file")

    # -- steps: the rest -----------------------------------------------------------------------------------------------
    def rewrite(self, **over):
        f = os.path.join(self.c.pdir, "config")
        self.c.write_config(f + ".new", **over)
        os.replace(f + ".new", f)

    def do_badconfig(self, rng, spec):
        """A mistake in the config file, which is put right again."""
        bad = rng.choice([{"PriorityHalfLife": "long"}, {"SyncInterval": "-1"}, {"UseTrash": "perhaps"}, {"Bogus": "1"}])
        self.rewrite(**bad)
        time.sleep(1.2)
        self.rewrite()
        if not self.alive("when there was a mistake in the config file"):
            return
        time.sleep(1)
        self.do_burst(rng, spec)

    def do_restart(self, rng, spec):
        self.end("for a restart")
        if self.out.viols:
            return
        p = os.path.join(self.c.pdir, "info.json")
        with open(p) as f:
            d = json.load(f)
        import calendar

        def t(s):
            return calendar.timegm(time.strptime(s.split(".")[0], "%Y-%m-%dT%H:%M:%S")) + float("0." + s.split(".")[1])
        now = time.time() + self.w.offset
        self.base_line()
        # (about to be due: wait until it is)
        left = [x - now for x in (t(d["LastSync"]) + self.iv, t(d["LastAdjust"]) + ADJUST)]
        more = 0
        for x in sorted(left):
            if x < more + 150:
                more = max(more, x + 5)
        self.w.offset += max(0, more)
        now = time.time() + self.w.offset
        due = now >= t(d["LastSync"]) + self.iv
        self.t_adjust = t(d["LastAdjust"])
        if now >= self.t_adjust + ADJUST:
            self.t_adjust = now
            self.decayed()
        self.t_sync = time.time() + self.w.offset if due else t(d["LastSync"])
        if not self.launch():
            return
        if due:
            if self.wait_sync("a sync was due at the restart"):
                self.t_sync = time.time() + self.w.offset
                self.after_sync("a sync was due at the restart", {})
        else:
            self.settle("after a restart")
