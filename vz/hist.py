"""Histories: several clients, arbitrary edits, real commands, the reference model judging every step."""
import os
import random
import re
import shutil
import sqlite3
import stat as statmod
import time

from . import globref, model
from . import world as W

# Names chosen to be awkward: for globbing, for sqlite, for path arithmetic, for conflict and trash naming.
NAMES = ["a", "b", "ab", "a b", "doc.txt", "doc", "img.tar.gz", ".hid", "x[1]", "q*", "per%cent", "it's", "\"q\"", "-dash",
         "new\nline", "ünï", "名前", "~tilde", "back\\slash", "a.b.c", "..two", "...", "_conflict-x", "N" * 120, "{br}", "$HOME",
         "tab\there", "a.", "e\u0301", "é", "remote", "Trash", ".zielenx", "A", "?", "[!a]", "f_conflict-20200101-000000.txt", "d"]
PLAIN = ["a", "b", "c", "d", "doc.txt", "pic.png", "x.o", "y.o", "src", "lib", ".hid", "k1", "k2", "k3"]

SIZES = [0, 1, 10, 100, 1000, 4096, 4097, 5000, 8192, 20000]


def content(uid, size):
    if size == 0:
        return b""
    head = ("v%d:" % uid).encode()
    body = head
    r = random.Random(uid)
    while len(body) < size:
        body += bytes(r.getrandbits(8) for _ in range(min(64, size - len(body)))) * 1
        if len(body) < size:
            body += head * min(8, (size - len(body)) // len(head) + 1)
    return body[:max(size, len(head))]


STAMP = re.compile(r"_conflict-\d{8}-\d{6}(?:\(\d+\))?")


def retime(top, path):
    """The path as it is called this time: conflict copies are named after the time of the sync."""
    cur = ""
    for comp in path.split("/"):
        nxt = cur + "/" + comp if cur else comp
        if not os.path.lexists(os.path.join(top, nxt)) and STAMP.search(comp):
            rx = re.compile("".join(STAMP.pattern if i % 2 else re.escape(x)
                                    for i, x in enumerate(re.split("(" + STAMP.pattern + ")", comp))))
            try:
                hit = sorted(n for n in os.listdir(os.path.join(top, cur)) if rx.fullmatch(n))
            except OSError:
                hit = []
            if hit:
                nxt = cur + "/" + hit[0] if cur else hit[0]
        cur = nxt
    return cur


class Violation:
    def __init__(self, tags, msg, step=None):
        self.tags = set(tags)
        self.msg = msg
        self.step = step

    def __repr__(self):
        return "[%s] %s%s" % (",".join(sorted(self.tags)), self.msg, "" if self.step is None else " (step %s)" % (self.step,))


class History:
    def __init__(self, base, spec, stop_on=None):
        """spec: a JSON-able description of the world; see gen.world_spec()."""
        self.spec = spec
        self.w = W.World(base, tz=spec.get("tz"), umask=spec.get("umask", 0o022), root_name=spec.get("root", "w"),
                         real_time=spec.get("real", False))
        self.uid = 0
        self.trashed_at = {}    # trash entry -> (earliest, latest) time at which it can have got there
        self.cm = []            # Knowledge per client
        self.alive = []         # is the client's profile initialised?
        self.rdb = {}           # paths the remote database tracks -> is it a directory
        self.viol = []
        self.steps = []         # concrete steps done so far
        self.stats = {"syncs": 0, "inits": 0, "resets": 0, "conflicts": 0, "deletions": 0, "trashed": 0, "excluded": 0,
                      "pushes": 0, "pulls": 0, "placeholders": 0, "kept": 0, "skipped": 0, "edits": 0, "noop": 0,
                      "excl_removed": 0, "unsafe": 0, "mod_both": 0}
        self.states = set()
        self.stop_on = stop_on
        self.setup()

    # -- setting up ----------------------------------------------------------------------------------------
    def bad(self, tags, msg):
        self.viol.append(Violation(tags, msg, len(self.steps)))

    def opts_for(self, i):
        return dict(self.spec["clients"][i].get("opts", {}))

    def setup(self):
        s, w = self.spec, self.w
        w.remote = os.path.join(w.root, s.get("remote", "remote"))
        os.makedirs(os.path.dirname(w.remote), exist_ok=True)
        for i, cs in enumerate(s["clients"]):
            c = w.add_client(local=os.path.join(w.root, cs.get("local", "local%d" % i)), opts=self.opts_for(i), remote=w.remote)
            self.cm.append(model.Knowledge())
            self.alive.append(False)
        for st in s.get("tree", []):
            self.edit(st)
        if not s.get("noinit"):
            self.init(0)

    def init(self, i, **kw):
        w, c = self.w, self.w.clients[i]
        cs = self.spec["clients"][i]
        pats = cs.get("excludes", [])
        add = os.path.isdir(os.path.join(w.remote, ".zielen"))
        os.makedirs(c.local, exist_ok=True)
        if add:
            for n in os.listdir(c.local):       # what a reset left there goes somewhere else
                p = os.path.join(c.local, n)
                if os.path.isdir(p) and not os.path.islink(p):
                    shutil.rmtree(p)
                else:
                    os.remove(p)
        L0, R0 = w.clients[i].snap(), w.rsnap()
        w.tick(1)
        r = w.init(c, add_remote=add, excludes=pats, timeout=60, **kw)
        self.stats["inits"] += 1
        if not r.ok:
            self.bad({"crash", "init"}, "init failed: %s" % r.brief())
            return r
        L, R = w.clients[i].snap(), w.rsnap()
        self.judge_init(i, add, L0, R0, L, R, pats)
        k = self.cm[i] = model.Knowledge()
        k.known = {p: e.kind == "d" for p, e in R.items() if not model.unsafe_link(p, e, w.remote) and e.kind != "o"}
        k.local, k.remote = L, R
        k.kept = {p: p in L and not model.is_placeholder(p, L[p], w.remote) for p in k.known}
        k.stored = list(pats)
        c.excludes = list(pats)
        self.touch_others(i, {p for p in k.known if p not in self.rdb})
        self.rdb.update(k.known)
        self.alive[i] = True
        self.after_command(i, r)
        return r

    def judge_init(self, i, add, L0, R0, L, R, pats):
        """init moves (or links) everything that syncs and leaves the rest alone."""
        w, c = self.w, self.w.clients[i]
        if add:
            for p in set(R0) | set(R):
                if p not in R0 or p not in R or model.same(R0[p], R[p]):
                    self.bad({"init", "remote"}, "init --add-remote changed remote %r: %s -> %s" % (
                        p, model.brief(R0.get(p)), model.brief(R.get(p))))
            want = {p: e for p, e in model.usable(R).items() if not model.unsafe_link(p, e, w.remote)}
            keep = {}
        else:
            E = globref.excluded(pats, L0)
            U = model.usable(L0)
            want = {p: e for p, e in U.items() if p not in E and not model.unsafe_link(p, e, c.local)}
            for q in model.parents(want):
                want[q] = U[q]
            keep = {p: e for p, e in L0.items() if p not in want}
            for p in sorted(set(want) | set(R)):
                if p not in R:
                    self.bad({"init", "remote", "loss"}, "init did not copy %r to the remote directory" % p)
                elif p not in want:
                    self.bad({"init", "remote", "exclude"}, "init put %r in the remote directory" % p)
                else:
                    b = model.same(want[p], R[p])
                    if b:
                        self.bad({"init", "remote"} | ({"meta"} if b == "meta" else set()), "init: remote %r is %s instead of %s" % (
                            p, model.brief(R[p]), model.brief(want[p])))
        for p, e in sorted(want.items()):
            g = L.get(p)
            if g is None:
                self.bad({"init", "local"}, "init: local %r missing" % p)
            elif e.kind == "d":
                if g.kind != "d":
                    self.bad({"init", "local"}, "init: local %r should be a directory" % p)
            elif not model.is_placeholder(p, g, w.remote) and model.same(e, g):
                self.bad({"init", "local"}, "init: local %r is %s" % (p, model.brief(g)))
        for p, e in sorted(keep.items()):
            g = L.get(p)
            if g is None or g.full() != e.full():
                self.bad({"init", "local", "exclude"}, "init: local %r is not synced and must stay: was %s, is %s" % (
                    p, model.brief(e), model.brief(g)))
        for p in sorted(set(L) - set(want) - set(keep)):
            self.bad({"init", "local"}, "init: unexpected local %r" % p)

    def touch_others(self, i, paths):
        for j, k in enumerate(self.cm):
            if j != i and self.alive[j]:
                k.pushed |= set(paths)

    def after_command(self, i, r):
        w = self.w
        if r.escapes:
            self.bad({"escape"}, "%s tried to change files outside its directories: %r" % (r.argv[0], r.escapes[:3]))
        if not w.decoy_ok():
            self.bad({"escape", "loss"}, "%s changed files outside its directories" % r.argv[0])
        c = w.clients[i]
        for op in r.ops:
            for p in (op[3], op[4]):
                if not p:
                    continue
                if not any(p == d or p.startswith(d + "/") for d in (c.local, w.remote, c.cfg)) \
                        and not p.startswith(os.path.join(w.root, "home")):
                    self.bad({"escape"}, "%s changed %r, which is not in its local, remote or program directory" % (r.argv[0], p))

    # -- edits a user makes --------------------------------------------------------------------------------
    def top(self, side):
        return self.w.remote if side == "R" else self.w.clients[int(side[1:])].local

    def parent_ok(self, top, path):
        """The parent directories exist or can be made, none of them a symlink or file."""
        p = ""
        for comp in path.split("/")[:-1]:
            p = p + "/" + comp if p else comp
            f = os.path.join(top, p)
            if os.path.islink(f) or (os.path.lexists(f) and not os.path.isdir(f)):
                return False
        return True

    def free_names(self, side, path):
        """May an entry with an arbitrary mtime appear here without looking like an old, known file?"""
        for j, k in enumerate(self.cm):
            if self.alive[j] and (side == "R" or side == "c%d" % j) and path in k.known:
                return False
        return True

    def edit(self, st):
        """Perform one edit if it makes sense in the present state. True if done."""
        op, w = st[0], self.w
        if op == "tick":
            w.tick(st[1])
            return True
        if op == "jump":        # days go by
            if w.real_time:
                return False
            w.offset += st[1]
            self.stats["jumps"] = self.stats.get("jumps", 0) + 1
            return True
        if op == "excl":
            i = st[1]
            if not self.alive[i]:
                return False
            w.clients[i].set_excludes(st[2])
            return True
        if op == "opt":
            i = st[1]
            if not self.alive[i]:
                return False
            c = w.clients[i]
            c.opts.update(st[2])
            c.write_config(os.path.join(c.pdir, "config"))
            return True
        if op == "prio":
            return self.set_priorities(st[1], st[2])
        side, path = st[1], st[2]
        if side != "R" and int(side[1:]) >= len(w.clients):
            return False
        top = self.top(side)
        if side == "R" and not os.path.isdir(os.path.join(top, ".zielen")):
            return False
        if "_conflict-" in path:
            path = retime(top, path)
        full = os.path.join(top, path)
        if not self.parent_ok(top, path):
            return False
        kind = None
        if os.path.lexists(full):
            m = os.lstat(full).st_mode
            kind = "l" if statmod.S_ISLNK(m) else "d" if statmod.S_ISDIR(m) else "f" if statmod.S_ISREG(m) else "o"
        placeholder = kind == "l" and side != "R" and os.readlink(full) == os.path.join(w.remote, path)
        w.tick(0.01)
        if op == "put":
            size, how = st[3], st[4]
            if kind in ("d", "o"):
                return False
            self.uid += 1
            data = content(self.uid, size)
            if how == "inplace" and kind is not None and not os.access(full, os.W_OK):
                return False
            if how == "inplace" and kind == "l":
                if not placeholder or not os.path.isfile(full) or os.path.islink(os.path.realpath(full)):
                    return False
                if os.path.islink(os.path.join(w.remote, path)):
                    return False
                w.write(full, data)
            elif how == "inplace" and kind == "f":
                w.write(full, data)
            else:
                w.write(full, data, replace=True)
            if len(st) > 5 and st[5] is not None and not os.path.islink(full):
                os.chmod(full, st[5])
                w.stamp(full)
            return True
        if op == "mkdir":
            if kind is not None:
                return False
            os.makedirs(full)
            return True
        if op == "rm":
            if kind is None:
                return False
            w.remove(full)
            return True
        if op == "ln":
            target = st[3]
            rel = os.path.normpath(os.path.join(os.path.dirname(path), target))
            unsafe = target.startswith("/") or rel == ".." or rel.startswith("../") or rel == "."
            if kind in ("d", "o"):
                return False
            if unsafe and (kind is not None or not self.free_names(side, path) or not self.free_names("R", path)):
                return False
            rt = os.path.join(os.path.dirname(full), target)
            if os.path.isdir(rt) or (full + "/").startswith(os.path.normpath(rt) + "/"):
                return False        # links to directories make '**' patterns walk in circles
            w.symlink(target.replace("@DECOY@", w.decoy).replace("@R@", w.remote), full)
            return True
        if op == "mv":
            dst = st[3]
            if kind is None or dst == path or dst.startswith(path + "/") or not self.parent_ok(top, dst):
                return False
            fdst = os.path.join(top, dst)
            if os.path.lexists(fdst):
                return False
            if side == "R":
                sub = W.snapshot(full) if kind == "d" else {}
                ren = [dst] + [dst + "/" + x for x in sub]
            else:
                sub = W.snapshot(full) if kind == "d" else {}
                ren = [dst] + [dst + "/" + x for x in sub]
                ents = {path: None}
                for x, e in list(sub.items()):
                    if e.kind == "l" and e.data.startswith(w.remote):
                        return False
                if kind == "l" and os.readlink(full).startswith(w.remote):
                    return False
            if not all(self.free_names(side, x) for x in ren):
                return False
            if any(x.kind == "l" for x in sub.values()) or kind == "l":
                return False
            os.makedirs(os.path.dirname(fdst), exist_ok=True)
            os.rename(full, fdst)
            return True
        if op == "touch":
            if kind == "f" or (placeholder and os.path.isfile(full)):
                w.stamp(os.path.realpath(full))
                return True
            return False
        if op == "eqput":
            # both sides get different content with exactly the same mtime
            rfull = os.path.join(w.remote, path)
            if side == "R" or kind in ("d", "o") or not self.parent_ok(w.remote, path) or not os.path.isdir(os.path.join(w.remote, ".zielen")):
                return False
            if os.path.isdir(rfull) and not os.path.islink(rfull):
                return False
            self.uid += 2
            w.write(full, content(self.uid - 1, st[3]), replace=True)
            w.write(rfull, content(self.uid, st[4]), replace=True)
            t = os.stat(full).st_mtime_ns
            for f in (full, rfull):
                os.utime(f, ns=(t, t))
            return True
        if op == "fifo":
            if kind is not None:
                return False
            os.makedirs(os.path.dirname(full), exist_ok=True)
            os.mkfifo(full)
            return True
        raise AssertionError(op)

    last_cmd_time = 0

    def set_priorities(self, i, prios):
        """Give files priorities, as accesses recorded by the daemon would (sums kept for directories)."""
        c = self.w.clients[i]
        if not self.alive[i]:
            return False
        set_priorities(os.path.join(c.pdir, "local.db"), prios)
        return True

    # -- commands --------------------------------------------------------------------------------------------
    def wall(self, off=0):
        t = self.w.now() + off
        old = os.environ.get("TZ")
        if self.w.tz:
            os.environ["TZ"] = self.w.tz
            time.tzset()
        try:
            return time.strftime("%Y%m%d-%H%M%S", time.localtime(t))
        finally:
            if self.w.tz:
                if old is None:
                    os.environ.pop("TZ", None)
                else:
                    os.environ["TZ"] = old
                time.tzset()

    def make_plan(self, i):
        w, c, k = self.w, self.w.clients[i], self.cm[i]
        L0, R0 = c.snap(), w.rsnap()
        stored = {j: self.cm[j].stored for j in range(len(self.cm)) if j != i and self.alive[j]}
        trash = c.opts.get("UseTrash", "yes").lower() in ("yes", "true", "")
        return model.plan(k, L0, R0, c.excludes, self.rdb, stored, c.local, w.remote, trash), L0, R0

    def sync(self, i, **kw):
        w, c, k = self.w, self.w.clients[i], self.cm[i]
        if not self.alive[i]:
            return None
        w.tick(1)
        pl, L0, R0 = self.make_plan(i)
        tb = w.trash()
        db0 = c.db()
        t0 = self.wall(-1)
        v0 = w.now()
        r = w.run(c, ["sync", c.profile], **kw)
        v1 = w.now()
        t1 = self.wall(1)
        w.tick(1)
        self.last_cmd_time = w.now()
        self.stats["syncs"] += 1
        if not r.ok:
            self.bad({"crash"}, "sync failed: %s" % r.brief())
            return r
        L1, R1, ta = c.snap(), w.rsnap(), w.trash()
        self.last = (i, pl, L0, R0, L1, R1)
        may_go, gone_new = self.cleanup_check(c, tb, ta, v0, v1)
        res = model.judge(pl, L1, R1, tb, ta, c.local, w.remote, t0, t1, may_go, gone_new)
        for tags, msg in res:
            self.bad(tags, msg)
        self.ledger(i, pl, L0, R0, L1, R1, ta)
        model.learn(k, pl, L1, R1, w.remote, c.excludes)
        self.rdb = {p: R1[p].kind == "d" for p in set(pl.rdb3) | set(pl.conf_names) if p in R1}
        self.touch_others(i, pl.touched | set(pl.conf_names))
        self.after_command(i, r)
        self.limit_check(i, pl, L0, L1, R1)
        self.db_check(i, pl)
        self.select_check(i, pl, db0, L0, L1, R1)
        s = self.stats
        s["conflicts"] += len(pl.conflicts)
        s["deletions"] += len(pl.root_l) + len(pl.root_r)
        s["trashed"] += len(pl.trash)
        s["excluded"] += len(pl.E)
        s["excl_removed"] += len(pl.excl_rm)
        s["pushes"] += len(pl.push)
        s["pulls"] += len(pl.new_r) + len(pl.mod_r)
        s["unsafe"] += len(pl.unsafe_l) + len(pl.unsafe_r)
        s["kept"] += sum(1 for p, x in k.kept.items() if x and not k.known[p])
        s["placeholders"] += sum(1 for p, x in k.kept.items() if not x)
        s["noop"] += not (pl.push or pl.new_r or pl.mod_r or pl.del_l or pl.del_r)
        self.states.add(hash((i, frozenset((p, e.kind) for p, e in L1.items()), frozenset(R1))))
        return r

    def ledger(self, i, pl, L0, R0, L1, R1, ta):
        """No version that somebody made since the last sync may vanish, and nothing untouched may vanish.

        Independent of the plan: only what each side looked like at this client's last sync is used.
        """
        w, c, k = self.w, self.w.clients[i], self.cm[i]
        after = {}
        for where, snap in (("local", L1), ("remote", R1), ("trash", ta)):
            for p, e in snap.items():
                if e.kind == "f":
                    after.setdefault(e.data, []).append((where, p))
        for side, now, then in (("local", L0, k.local), ("remote", R0, k.remote)):
            for p, e in now.items():
                if e.kind != "f" or e.data == "=" or any(x.startswith(".zielen-tmp-") for x in p.split("/")):
                    continue
                b = then.get(p)
                fresh = b is None or b.key() != e.key()
                if fresh and e.data not in after:
                    self.bad({"loss"}, "content created in the %s directory at %r since the last sync (%s) is nowhere any more" % (side, p, e.data))
        for p, e in R0.items():
            if e.kind != "f" or e.data == "=" or p not in k.remote or k.remote[p].key() != e.key():
                continue
            l0, l_then = L0.get(p), k.local.get(p)
            if l0 is not None and l_then is not None and l0.key() == l_then.key() and p not in pl.E:
                # neither side changed it: it must still be there
                if not any(where == "remote" for where, q in after.get(e.data, ())):
                    self.bad({"loss"}, "remote %r changed or vanished although neither side touched it" % p)

    def cleanup_check(self, c, tb, ta, v0, v1):
        """Old entries leave the trash when their time has come, and not before."""
        w = self.w
        period = cleanup_seconds(c.opts.get("TrashCleanupPeriod"))
        may, must = set(), set()
        for n in [x for x in tb if "/" not in x]:
            lo, hi = self.trashed_at.get(n, (None, None))
            if period is None:
                continue
            if lo is None:
                may.add(n)
            elif v0 - hi - 1 >= period:
                must.add(n)
            elif v1 - lo + 1 >= period:
                may.add(n)
        for n in sorted(must):
            self.stats["cleaned"] = self.stats.get("cleaned", 0) + 1
            if n in ta:
                self.bad({"trash"}, "%r has been in the trash for %.1f days and is still there after a sync with a cleanup period of %.1f days" % (
                    n, (v0 - self.trashed_at[n][1]) / 86400, period / 86400))
        self.stats["aged_kept"] = self.stats.get("aged_kept", 0) + sum(
            1 for n in tb if n in ta and n in self.trashed_at and v0 - self.trashed_at[n][1] > 86400)
        for n in ta:
            if "/" in n:
                continue
            if n not in tb:
                self.trashed_at[n] = (v0, v1)
        for n in list(self.trashed_at):
            if n not in ta:
                del self.trashed_at[n]
        return may | must, period is not None and period <= 5

    def limit_check(self, i, pl, L0, L1, R1):
        w, c, k = self.w, self.w.clients[i], self.cm[i]
        limit = parse_limit(c.opts["StorageLimit"])
        if any(model.is_placeholder(p, L0[p], w.remote) for p in pl.E if p in L0) or any(p not in L0 for p in pl.excl_remote):
            return      # files became excluded just now; they count from the next sync on
        if any((p in L0 and L0[p].blocks) != (p in L1 and L1[p].blocks) for p in pl.E):
            return      # excluded files were updated or renamed by this sync
        blk = os.stat(c.local).st_blksize
        kept = [p for p, d in k.known.items() if not d and k.kept.get(p)]
        inside = {p for p in k.known if p in pl.E or model.parents([p]) & pl.E}
        free = [p for p in kept if p not in inside]
        if not free:
            return
        # (what has become an unsafe link in the remote directory stays as it is, and counts as that link)
        stuck = {p for p in k.known if p in R1 and model.unsafe_link(p, R1[p], w.remote)}
        used = sum(L1[p].blocks * 512 for p in free if p not in stuck)
        links = sum(1 for p, d in k.known.items() if not d and not k.kept.get(p) and p not in inside and p not in stuck)
        excl = sum(L1[p].blocks * 512 for p in pl.E if p in L1)
        self.stats["limit_checks"] = self.stats.get("limit_checks", 0) + 1
        if used + links * blk + excl > limit:
            self.bad({"limit"}, "the local directory keeps %d files (%d bytes), %d placeholders of %d bytes and %d bytes of excluded files: "
                     "%d > limit %d" % (len(free), used, links, blk, excl, used + links * blk + excl, limit))

    def select_check(self, i, pl, db0, L0, L1, R1):
        """Which files are kept is decided by their priorities, and priorities only change as documented."""
        w, c, k = self.w, self.w.clients[i], self.cm[i]
        db = c.db()
        if set(db) != set(k.known):
            return
        files = [p for p, d in k.known.items() if not d]
        prio = {p: db[p][1] for p in files}
        # priorities: carried over, or those of a new file
        top = max([db0[p][1] for p in pl.K1 if not pl.K1[p] and p in db0] or [0])
        inflate = c.opts.get("InflatePriority", "yes").lower() in ("yes", "true", "")
        for p in files:
            if p in pl.K1 and p in db0:
                want = db0[p][1]
            elif p in pl.new_l and p not in pl.conf_names and not (p in pl.R1 and pl.R1[p].kind == "d"):
                want = top if inflate else 0
            elif p in pl.new_r and p not in pl.new_l:
                want = 0
            else:
                continue
            if abs(prio[p] - want) > 1e-9 * max(1, abs(want)):
                self.bad({"prio", "select"}, "%r has priority %r after the sync instead of %r" % (p, prio[p], want))
        for d in k.known:
            if k.known[d] and not any(model.under(p, d) and p != d for p in k.known) and abs(db[d][1]) > 1e-9:
                self.bad({"prio", "select", "db"}, "the empty directory %r has priority %r after the sync" % (d, db[d][1]))
        # the selection
        for p in pl.E:
            if p in L0 and (p not in L1 or L1[p].key() != L0[p].key()):
                return      # excluded files came, went or were renamed during the sync
        if pl.excl_rm or pl.excl_remote or any(p not in R1 for p in files):
            return
        limit = parse_limit(c.opts["StorageLimit"])
        by_size = c.opts.get("AccountForSize", "yes").lower() in ("yes", "true", "")
        blk = os.stat(c.local).st_blksize
        budget = limit - sum(L0[p].blocks * 512 for p in pl.E if p in L0)
        size = {p: R1[p].blocks * 512 for p in self.rdb if p in R1}
        want = selection(files, [p for p, d in k.known.items() if d], prio, size, budget, limit, blk, by_size)
        got = {p for p in files if k.kept.get(p)}
        self.stats["selections"] = self.stats.get("selections", 0) + 1
        if want and len(want) < len(files):
            self.stats["partial_selections"] = self.stats.get("partial_selections", 0) + 1
        # what has become an unsafe link in the remote directory stays as it is
        stuck = {p for p in files if model.unsafe_link(p, R1[p], w.remote)}
        if got - stuck != want - stuck:
            self.bad({"select"}, "kept %r instead of %r (limit %d, by size: %s, priorities %r, sizes %r)" % (
                sorted(got - want)[:5], sorted(want - got)[:5], limit, by_size, dict(sorted(prio.items())[:12]),
                {p: size.get(p) for p in sorted(files)[:12]}))

    def db_check(self, i, pl):
        """The databases describe exactly the synced tree, with consistent directory entries."""
        w, c, k = self.w, self.w.clients[i], self.cm[i]
        db = c.db()
        for tags, msg in check_profile_db(db):
            self.bad(tags, msg)
        if set(db) != set(k.known):
            self.bad({"db"}, "profile database tracks the wrong paths: missing %r, extra %r" % (
                sorted(set(k.known) - set(db))[:4], sorted(set(db) - set(k.known))[:4]))
        rdb = w.rdb()
        if set(rdb) != set(self.rdb):
            self.bad({"db"}, "remote database tracks the wrong paths: missing %r, extra %r" % (
                sorted(set(self.rdb) - set(rdb))[:4], sorted(set(rdb) - set(self.rdb))[:4]))
        for p in set(db) & set(k.known):
            if bool(db[p][0]) != k.known[p]:
                self.bad({"db"}, "profile database: %r directory flag is %r" % (p, db[p][0]))
            if not k.known[p] and bool(db[p][2]) != bool(k.kept.get(p)):
                self.bad({"db", "trashflag"}, "profile database: %r local flag is %r, but it is %s" % (p, db[p][2], "kept" if k.kept.get(p) else "a placeholder"))
        for p in set(rdb) & set(k.known):
            if bool(rdb[p][0]) != k.known[p]:
                self.bad({"db"}, "remote database: %r directory flag is %r" % (p, rdb[p][0]))

    def empty_trash(self, i):
        w, c = self.w, self.w.clients[i]
        if not self.alive[i]:
            return None
        L0, R0 = c.snap(), w.rsnap()
        n = len([x for x in w.trash() if "/" not in x])
        r = w.run(c, ["empty-trash", c.profile])
        w.tick(1)
        self.last_cmd_time = w.now()
        if not r.ok:
            self.bad({"crash", "trash"}, "empty-trash failed: %s" % r.brief())
            return r
        if w.trash():
            self.bad({"trash"}, "empty-trash left %r" % sorted(w.trash()))
        if "%d files deleted" % n not in r.out:
            self.bad({"trash"}, "empty-trash of %d entries said %r" % (n, r.out.strip()))
        if {p: e.full() for p, e in c.snap().items()} != {p: e.full() for p, e in L0.items()} or \
                {p: e.full() for p, e in w.rsnap().items()} != {p: e.full() for p, e in R0.items()}:
            self.bad({"trash", "loss"}, "empty-trash changed files outside the trash")
        self.after_command(i, r)
        return r

    def do(self, st):
        """Run one step; records it if it was applicable."""
        op = st[0]
        if op == "sync":
            done = self.sync(st[1]) is not None
        elif op == "init":
            done = not self.alive[st[1]] and self.init(st[1]) is not None
        elif op == "empty":
            done = self.empty_trash(st[1]) is not None
        elif op == "reset":
            done = self.reset(st[1], st[2]) is not None
        else:
            done = self.edit(st)
            self.stats["edits"] += bool(done)
        if done:
            self.steps.append(st)
        else:
            self.stats["skipped"] += 1
        return done

    def reset(self, i, flags):
        from . import resets
        return resets.reset(self, i, flags)

    # -- the end of a history ----------------------------------------------------------------------------------
    def converge(self):
        """Once nobody edits any more, two rounds make every client show the same tree, and a third changes nothing.

        A remote file which a client excludes first appears there as a placeholder, and only then as a copy that
        uses up space, so that exclusion takes two more rounds to settle.
        """
        w = self.w
        live = [i for i in range(len(w.clients)) if self.alive[i]]
        for rnd in range(4 if any(w.clients[i].excludes for i in live) else 2):
            for i in live:
                self.do(["sync", i])
                if self.viol:
                    return
        before = [(w.clients[i].snap()) for i in live]
        rb, tb = w.rsnap(), w.trash()
        for i in live:
            self.do(["sync", i])
            if self.viol:
                return
        ra, ta = w.rsnap(), w.trash()
        if fulls(ra) != fulls(rb):
            self.bad({"idem", "remote"}, "a sync with nothing to do changed the remote directory: %s" % diff(rb, ra))
        if fulls(ta) != fulls(tb):
            self.bad({"idem", "trash"}, "a sync with nothing to do changed the trash: %s" % diff(tb, ta))
        for i, b in zip(live, before):
            a = w.clients[i].snap()
            for s in (a, b):        # a placeholder's own mtime means nothing
                for p, e in s.items():
                    if model.is_placeholder(p, e, w.remote):
                        e.mtime = 0
            if fulls(a) != fulls(b):
                self.bad({"idem", "local"}, "a sync with nothing to do changed local directory %d: %s" % (i, diff(b, a)))
        # every client sees every remote entry that is safe and not hidden by an excluded local one
        for i in live:
            k = self.cm[i]
            for p, e in model.usable(ra).items():
                if model.unsafe_link(p, e, w.remote):
                    continue
                if p not in k.known and p not in self.last_unsynced(i):
                    self.bad({"converge", "remote"}, "remote %r never reached client %d" % (p, i))

    def last_unsynced(self, i):
        pl, _, _ = self.make_plan(i)
        return pl.unsynced


def selection(files, dirs, prio, size, budget, limit, blk, by_size):
    """The files that the documented policy keeps: whole directories first, then files, highest priority first."""
    def rate(p, n):
        return (p / n if n else 0) if by_size else p
    under = {d: [p for p in size if model.under(p, d)] for d in dirs}
    dsize = {d: sum(size[p] for p in under[d]) for d in dirs}
    dprio = {d: sum(prio[p] for p in files if model.under(p, d)) for d in dirs}
    left = budget - len(files) * blk
    chosen, kept = set(), set()
    for d in sorted(dirs, key=lambda d: (-rate(dprio[d], dsize[d]), d)):
        if any(model.under(d, x) for x in chosen) or dsize[d] > limit:
            continue
        inner = {x for x in chosen if model.under(x, d)}
        mine = {p for p in files if model.under(p, d)}
        cost = dsize[d] - sum(dsize[x] for x in inner) - len(mine - kept) * blk
        if left - cost >= 0:
            left -= cost
            chosen = chosen - inner | {d}
            kept |= mine
    for p in sorted((p for p in files if p not in kept), key=lambda p: (-rate(prio[p], size[p]), p)):
        if left - size[p] + blk > 0:
            left += blk - size[p]
            kept.add(p)
    return kept


def fulls(s):
    return {p: e.full() for p, e in s.items()}


def diff(a, b):
    out = []
    for p in sorted(set(a) | set(b)):
        x, y = a.get(p), b.get(p)
        if x is None or y is None or x.full() != y.full():
            out.append("%r: %s -> %s" % (p, model.brief(x), model.brief(y)))
    return "; ".join(out[:6])


def cleanup_seconds(v):
    """The documented meaning of TrashCleanupPeriod: days, never if negative, 30 by default."""
    if v is None:
        return 30 * 86400
    n = int(v)
    return None if v.startswith("-") else n * 86400


def parse_limit(s):
    """The documented meaning of a storage limit, read independently of the program."""
    s = s.strip()
    n = ""
    while s and s[0].isdigit():
        n, s = n + s[0], s[1:]
    s = s.strip().lower()
    exp = {"k": 1, "m": 2, "g": 3}[s[0]]
    base = 1000 if s[1:] == "b" else 1024
    return int(n) * base ** exp


def check_profile_db(db):
    """Structural invariants of a profile database given as {path: (directory, priority, local)}."""
    out = []
    kids = {}
    for p in db:
        kids.setdefault(model.dirname(p), []).append(p)
    for p, (d, prio, loc) in db.items():
        par = model.dirname(p)
        if par and par not in db:
            out.append(({"db"}, "database has %r but not its parent" % p))
        if kids.get(p) and not d:
            out.append(({"db"}, "%r has children in the database but is not marked as a directory" % p))
        if d and kids.get(p):
            tot = sum(db[q][1] for q in kids[p])
            if abs(tot - prio) > 1e-6 * max(1.0, abs(tot)):
                out.append(({"db", "prio"}, "directory %r has priority %r, its children add up to %r" % (p, prio, tot)))
            want = min(bool(db[q][2]) for q in kids[p])
            if bool(loc) != want:
                out.append(({"db", "trashflag"}, "directory %r has local flag %r, its children say %r" % (p, loc, want)))
        if prio < 0:
            out.append(({"db", "prio"}, "%r has negative priority %r" % (p, prio)))
    return out


def set_priorities(dbpath, prios):
    c = sqlite3.connect(dbpath, timeout=20)
    try:
        rows = c.execute("SELECT path, directory, priority FROM nodes").fetchall()
        cur = {p: [d, x] for p, d, x in rows}
        for p, n in prios.items():
            if p in cur and not cur[p][0]:
                cur[p][1] = float(n)
        tot = {p: 0.0 for p, (d, x) in cur.items() if d}
        for p, (d, x) in cur.items():
            if not d:
                q = model.dirname(p)
                while q:
                    if q in tot:
                        tot[q] += x
                    q = model.dirname(q)
        for p, t in tot.items():
            cur[p][1] = t
        c.executemany("UPDATE nodes SET priority = ? WHERE path = ?", [(v[1], p) for p, v in cur.items()])
        c.commit()
    finally:
        c.close()
