"""Checks that interrupt or disturb one command at chosen system calls: C10 (kills), C11 (faults), parts of C12 and C13.

A case is a history, then one command of one client. The command is run undisturbed first (and judged by the usual oracles);
then, for each chosen point, everything is put back, the command is run with a fault at that system call, what it left is
examined, the command is run again and must end where the undisturbed one did.
"""
import copy
import errno
import os
import re
import signal

from . import gen, globref, hist, model
from . import world as W
from . import c_hist
from .base import Check, Mix, Outcome

STAMP = re.compile(r"_conflict-\d{8}-\d{6}(\(\d+\))?")
TEMP = ".zielen-tmp-"
DB = (".db", ".db-journal", ".db-wal", ".db-shm")


def is_temp(p):
    return any(x.startswith(TEMP) for x in p.split("/"))


def norm(p, old):
    """A path without the time of a conflict, unless it is an old name."""
    return p if p in old else STAMP.sub("_conflict-*", p)


def same(a, b):
    return a is not None and b is not None and a.full() == b.full()


class State:
    """Everything observable at one moment."""

    def __init__(self, h, i):
        w = h.w
        self.L = w.clients[i].snap()
        self.R = w.rsnap()
        self.T = w.trash()

    def contents(self):
        out = {}
        for where, snap in (("local", self.L), ("remote", self.R), ("trash", self.T)):
            for p, e in snap.items():
                if e.kind == "f":
                    out.setdefault(e.data, []).append((where, p))
        return out


class Crash(Check):
    """Base: subclasses choose the fault points and the command."""
    prop = None
    tags = None
    per_case = 14
    per_case_deep = 60
    every = 5           # how many points are tried until everybody syncs on after one
    temp_ok = False     # may temporary files stay in the local directory until the next sync?

    def gen(self, rng, tier, n):
        raise NotImplementedError

    # -- making a case ---------------------------------------------------------------------------------------
    def explore(self, base, rng, tier, n):
        out = Outcome()
        spec = self.spec(rng)
        h = hist.History(base, spec)
        for _ in range(self.steps_before(rng, tier, spec)):
            if h.viol:
                break
            for st in gen.step(rng, h, self.weights(rng)):
                h.do(st)
                if h.viol:
                    break
        case = {"spec": spec, "steps": None, "cmd": None, "points": None}
        cmd = None
        if not h.viol:
            cmd = self.prepare(rng, h)
        if not h.viol and cmd is None:
            cmd = self.command(rng, h)
        case["steps"] = list(h.steps)
        if cmd is None:
            out.skipped = not h.viol
            self.absorb(h, out)
            return case, out
        case["cmd"] = cmd
        self.go(h, case, out, lambda ref: self.choose(rng, ref, tier))
        return case, out

    def run(self, base, case):
        out = Outcome()
        h = hist.History(base, case["spec"])
        for st in case["steps"]:
            if h.viol:
                break
            h.do(st)
        if h.viol or case["cmd"] is None:
            self.absorb(h, out)
            return out
        self.go(h, case, out, lambda ref: case["points"])
        return out

    def steps_before(self, rng, tier, spec):
        return rng.randint(*((4, 14) if tier == "quick" else (4, 30)))

    def spec(self, rng):
        return gen.world_spec(rng, nclients=rng.choice([1, 2, 2]), initial=(2, 8), excl=0.25, real=0.1)

    def weights(self, rng):
        return {"sync": 14, "init": 10, "fifo": 0, "both": 10, "prio": 6, "swap": 6, "excl": 5, "opt": 5}

    def command(self, rng, h):
        live = [i for i in range(len(h.w.clients)) if h.alive[i]]
        return ["sync", rng.choice(live)] if live else None

    def prepare(self, rng, h):
        """Often the others have synced after the edits which the interrupted sync is about to push."""
        live = [i for i in range(len(h.w.clients)) if h.alive[i]]
        if self.prop not in ("C10", "C11") or len(live) < 2 or rng.random() < 0.3:
            return None
        i, j = rng.sample(live, 2)
        files = gen.existing(h, "c%d" % i, "fl")
        for p in rng.sample(files, min(len(files), rng.randint(1, 3))):
            if not h.viol:
                h.do(["put", "c%d" % i, p, rng.choice(hist.SIZES), "replace", None])
        if not h.viol:
            h.do(["sync", j])
        return ["sync", i]

    def absorb(self, h, out):
        for v in h.viol:
            out.bad(v.tags, v.msg)
        h.viol = []

    # -- one case --------------------------------------------------------------------------------------------
    def go(self, h, case, out, choose):
        w = h.w
        cmd, i = case["cmd"][0], case["cmd"][1]
        w.tick(1)
        w.save("pre")
        keep = ("cm", "rdb", "alive", "uid", "last_cmd_time")
        pre = {k: copy.deepcopy(getattr(h, k)) for k in keep}
        pre_opts = copy.deepcopy([(c.opts, c.excludes) for c in w.clients])
        S0 = State(h, i)
        off0 = w.offset
        r = self.perform(h, case["cmd"])
        if h.viol or r is None:
            self.absorb(h, out)
            out.skipped = not out.viols
            return
        ref = State(h, i)
        post = {k: copy.deepcopy(getattr(h, k)) for k in keep}
        ref.ops, ref.looks, ref.stats = r.ops, r.looks, r.stats
        ref.db = w.clients[i].db() if h.alive[i] else None
        out.stats["cases"] += 1
        out.stats["ops_in_command"] += len(r.ops)
        points = choose(ref)
        case["points"] = points
        for pt in points:
            w.restore("pre")
            w.offset = max(w.offset, off0)
            for k in keep:
                setattr(h, k, copy.deepcopy(pre[k]))
            for c, (o, e) in zip(w.clients, pre_opts):
                c.opts, c.excludes = dict(o), list(e)
            h.viol = []
            w.tick(1)
            before = len(out.viols)
            self.at, self.late = pt[1], {o[1] for o in ref.ops[-6:]}
            self.point(h, case, pt, S0, ref, post, out)
            out.stats["points"] += 1
            if len(out.viols) > before:
                case["points"] = [pt]
                break
        out.sig = repr((case["steps"], case["cmd"], len(points)))
        out.sample = {"world": case["spec"], "steps": case["steps"][-12:], "command": case["cmd"], "points": points[:6],
                      "ops": len(ref.ops)}
        out.stats["commands"] += w.commands
        out.stats["ops_monitored"] += w.ops_seen

    def perform(self, h, cmd):
        """The undisturbed command, judged by the usual oracles; None if not applicable."""
        if cmd[0] == "sync":
            return h.sync(cmd[1])
        if cmd[0] == "init":
            return h.init(cmd[1])
        return h.reset(cmd[1], cmd[2])

    def argv(self, h, cmd):
        c = h.w.clients[cmd[1]]
        if cmd[0] == "sync":
            return ["sync", c.profile]
        if cmd[0] == "reset":
            return ["reset"] + list(cmd[2]) + [c.profile]
        # init(): the same call as World.init() makes
        w = h.w
        cs = h.spec["clients"][cmd[1]]
        tmpl, ex = os.path.join(w.root, "template-" + c.name), os.path.join(w.root, "exclude-" + c.name)
        c.write_config(tmpl)
        with open(ex, "w") as f:
            f.write("".join(p + "\n" for p in cs.get("excludes", [])))
        add = os.path.isdir(os.path.join(w.remote, ".zielen")) if len(cmd) < 3 else cmd[2]
        return ["init", "--template", tmpl, "--exclude", ex] + (["--add-remote"] if add else []) + [c.profile]

    # -- one point -------------------------------------------------------------------------------------------
    def disturb(self, h, case, pt, out):
        """Run the command with the fault; returns the result."""
        mode, k, arg, prefix = pt
        c = h.w.clients[case["cmd"][1]]
        pfx = {None: None, "R": h.w.remote, "L": c.local}[prefix]
        return h.w.run(c, self.argv(h, case["cmd"]), trigger=k, mode=mode, arg=arg, prefix=pfx, timeout=60)

    def point(self, h, case, pt, S0, ref, post, out):
        w = h.w
        cmd, i = case["cmd"], case["cmd"][1]
        c = w.clients[i]
        if cmd[0] == "init":
            os.makedirs(c.local, exist_ok=True)
        self.t_start = w.now()
        r = self.disturb(h, case, pt, out)
        self.count(r, pt, out)
        what = "%s disturbed at %s" % (" ".join(map(str, cmd)), self.describe(r, pt))
        mid = State(h, i)
        self.examine(h, S0, mid, ref, r, what, out, case)
        if r.escapes:
            out.bad({"escape"}, "%s: touched %r" % (what, r.escapes[:3]))
        if out.viols:
            return
        if r.ok:
            # it says that it has done everything
            self.compare(h, case, S0, ref, mid, what + " but it succeeded", out)
            if out.viols:
                return
            out.stats["survived"] += 1
        w.tick(1)
        if not r.ok or cmd[0] == "sync":
            r2 = self.retry(h, cmd)
            if r2 is not None:
                if not r2.ok:
                    if self.already_done(h, cmd, r2):
                        out.stats["already_done"] += 1
                    else:
                        out.bad({"retry"}, "%s; run again: %s" % (what, r2.brief()))
                        return
                if r2.escapes:
                    out.bad({"escape"}, "%s; run again touched %r" % (what, r2.escapes[:3]))
        w.tick(1)
        fin = State(h, i)
        self.compare(h, case, S0, ref, fin, what, out)
        if out.viols:
            return
        self.aftermath(h, case, S0, ref, fin, post, what, out)

    def retry(self, h, cmd):
        return h.w.run(h.w.clients[cmd[1]], self.argv(h, cmd))

    def already_done(self, h, cmd, r2):
        return False

    def describe(self, r, pt):
        op = [x for x in r.log if x[0] in ("OP", "ERR", "LOOK") and x[1] == pt[1]]
        o = op[-1] if op else None
        return "point %r (%s), result %s" % (pt, "%s %s %s" % (o[2], os.path.basename(o[3]), o[4]) if o else "not reached", r.brief()[-160:])

    def count(self, r, pt, out):
        if r.sig == signal.SIGKILL:
            out.stats["killed"] += 1
        elif r.errs:
            out.stats["faulted"] += 1
        else:
            out.stats["undisturbed"] += 1
        if r.ops:
            o = r.ops[-1]
            out.stats["at:" + o[2]] += 1

    def examine(self, h, S0, mid, ref, r, what, out, case):
        """Right after the disturbance: nothing lost, nothing half-written."""
        had, ends, has = S0.contents(), ref.contents(), mid.contents()
        for d in had:
            if d in ends and d not in has:
                out.bad({"loss"}, "%s: content %s (was at %r) exists nowhere any more" % (what, d, had[d][:3]))
        for side, snap, top in (("local", mid.L, h.w.clients[case["cmd"][1]].local), ("remote", mid.R, h.w.remote)):
            for p, e in snap.items():
                if is_temp(p):
                    continue
                if e.kind == "f":
                    if e.data not in had:
                        out.bad({"partial", "loss"}, "%s: %s %r has content %s, which never existed" % (what, side, p, e.data))
                    elif not self.origin(p, e, S0):
                        out.bad({"partial"}, "%s: %s %r has content %s, which was at %r" % (what, side, p, e.data, had[e.data][:3]))
                elif e.kind == "l" and not self.origin(p, e, S0) and not model.is_placeholder(p, e, h.w.remote):
                    # conflict names and placeholders aside, symlinks are copies too
                    out.bad({"partial"}, "%s: %s %r -> %r came from nowhere" % (what, side, p, e.data))
        for p, e in mid.T.items():
            if e.kind == "f" and e.data not in had and e.data != "=":
                out.bad({"partial", "trash"}, "%s: trash has content %s, which never existed" % (what, e.data))

    def origin(self, p, e, S0):
        cands = [p]
        m = STAMP.search(p)
        if m:
            cands.append(p[:m.start()] + p[m.end():])
            for mm in STAMP.finditer(p):
                cands.append(p[:mm.start()] + p[mm.end():])
        return any(s.get(q) is not None and s[q].key() == e.key() for s in (S0.L, S0.R) for q in cands)

    def compare(self, h, case, S0, ref, fin, what, out):
        """After running it again: where the undisturbed command ended."""
        w = h.w
        old = set(S0.L) | set(S0.R) | set(S0.T)
        had, ends, has = S0.contents(), ref.contents(), fin.contents()
        for d in had:
            if d in ends and d not in has:
                out.bad({"loss"}, "%s; run again: content %s (was at %r) exists nowhere any more" % (what, d, had[d][:3]))
        skip = self.excluded = self.exclusions(h, case, S0, ref, fin)
        def view(snap, side, rem):
            d = {}
            for p, e in snap.items():
                if (side == "remote" or self.temp_ok) and is_temp(p) or p in skip:
                    continue
                q = norm(p, old)
                v = e.full()
                if side == "local":
                    # kept or not may depend on the name of a conflict copy, and on what the first run recorded
                    r = rem.get(p)
                    if e.kind == "l" and model.is_placeholder(p, e, w.remote) and r is not None and r.kind != "d":
                        v = r.full()
                d.setdefault(q, []).append(v)
            return {q: sorted(v, key=repr) for q, v in d.items()}
        for side, a, b in (("remote", ref.R, fin.R), ("local", ref.L, fin.L)):
            if side == "remote" and case["cmd"][0] == "reset":
                # what of the local changes gets to the remote directory before it is left alone doesn't matter
                a = {p: e for p, e in ref.R.items() if p in S0.R and e.kind != "d" and same(e, S0.R[p])}
                b = {p: e for p, e in fin.R.items() if p in a}
            x, y = view(a, side, ref.R), view(b, side, fin.R)
            if x != y:
                bad = ["%r: %s instead of %s" % (q, y.get(q), x.get(q)) for q in sorted(set(x) | set(y)) if x.get(q) != y.get(q)]
                out.bad({"final"}, "%s; run again, the %s directory differs from an undisturbed run: %s" % (what, side, "; ".join(bad[:4])))
        have = [e.data for e in fin.T.values() if e.kind == "f"]
        for p, e in ref.T.items():
            if e.kind == "f":
                if e.data in have:
                    have.remove(e.data)
                else:
                    out.bad({"loss", "trash", "final"}, "%s; run again, %r is not in the trash as after an undisturbed run" % (what, p))

    def exclusions(self, h, case, S0, ref, fin):
        """Excluded paths and what contains them: it may take one sync more or less until they leave the remote directory."""
        w = h.w
        out = set()
        trees = [{}, ref.R, S0.R, ref.L, fin.L, S0.L, fin.R]
        for s in trees[1:]:
            trees[0].update(s)
        for j, c in enumerate(w.clients):
            for pats in (c.excludes, h.cm[j].stored):
                for tree in trees:
                    out |= globref.excluded(pats, tree)
        return out | model.parents(out)

    def aftermath(self, h, case, S0, ref, fin, post, what, out):
        """The databases are right, and the histories go on as if nothing had happened."""
        w = h.w
        cmd, i = case["cmd"], case["cmd"][1]
        c = w.clients[i]
        old = set(S0.L) | set(S0.R)
        if not post["alive"][i]:
            return
        db = c.db()
        for t, m in hist.check_profile_db(db):
            out.bad({"final"} | t, "%s; run again: %s" % (what, m))
        a = {norm(p, old): d for p, (d, pr, l) in ref.db.items() if p not in self.excluded}
        b = {norm(p, old): d for p, (d, pr, l) in db.items() if p not in self.excluded}
        for p, (d, pr, l) in db.items():
            if not d and p in fin.L and bool(l) == model.is_placeholder(p, fin.L[p], w.remote):
                out.bad({"final", "db"}, "%s; run again, the profile database has local=%r for %r, which is %r" % (what, l, p, fin.L[p]))
        if a != b:
            out.bad({"final", "db"}, "%s; run again, the profile database differs from an undisturbed run: %s" % (
                what, [(p, a.get(p), b.get(p)) for p in sorted(set(a) | set(b)) if a.get(p) != b.get(p)][:4]))
        if out.viols or not (self.go_on(case, what) or self.at in self.late):
            return
        # Everybody syncs on.
        h.cm, h.alive, h.uid, h.last_cmd_time = (copy.deepcopy(post[k]) for k in ("cm", "alive", "uid", "last_cmd_time"))
        k = h.cm[i]
        k.known = {p: bool(d) for p, (d, pr, l) in db.items()}
        k.local, k.remote = fin.L, {p: e for p, e in fin.R.items() if not is_temp(p)}
        k.kept = {p: p in fin.L and not model.is_placeholder(p, fin.L[p], w.remote) for p in k.known}
        h.rdb = {p: bool(v[0]) for p, v in w.rdb().items()}
        for j in range(len(w.clients)):
            if j != i and h.alive[j]:
                # what the interrupted run had already copied counts as an update once more
                h.cm[j].pushed |= {p for p, v in w.rdb().items() if v[1] >= self.t_start}
        h.viol = []
        h.steps = []
        # Whoever edits a file that the interrupted command has updated must still notice that.
        for j in range(len(w.clients)):
            if j != i and h.alive[j]:
                mine = sorted(p for p in post["cm"][j].pushed & h.cm[j].known.keys()
                              if p in fin.R and fin.R[p].kind == "f" and os.path.lexists(os.path.join(w.clients[j].local, p)))
                for p in mine[:2]:
                    if not h.viol:
                        h.do(["put", "c%d" % j, p, 900, "replace", None])
                        out.stats["edited_after"] += 1
        if not h.viol:
            h.converge()
        out.stats["converged"] += 1
        for v in h.viol:
            out.bad({"final"} | v.tags, "%s; after running it again and going on: %s" % (what, v.msg))
        h.viol = []

    def go_on(self, case, what):
        """Only some points are worth the time of going on."""
        if len(case["points"]) == 1:
            return True
        self.turn = getattr(self, "turn", 0) + 1
        return self.turn % self.every == 0

    # -- choosing points -------------------------------------------------------------------------------------
    def weight(self, o):
        return 1 if o[3].endswith(DB) else 6

    def pick(self, rng, ops, m):
        """A weighted sample of operations: database writes are many and alike."""
        pool = [(o[1], self.weight(o)) for o in ops]
        if m >= len(pool):
            return [k for k, _ in pool]
        got = set()
        for _ in range(m * 6):
            if len(got) == m:
                break
            got.add(rng.choices([k for k, _ in pool], [x for _, x in pool])[0])
        return sorted(got)


class Kill(Crash):
    prop = "C10"
    tags = {"loss", "partial", "retry", "final", "escape"}

    def choose(self, rng, ref, tier):
        ops = ref.ops
        byk = {o[1]: o for o in ops}
        pts = []
        ks = self.pick(rng, ops, self.per_case if tier == "quick" else self.per_case_deep)
        if self.prop == "C10":
            # the end of the command, where it records what it has done
            ks = sorted(set(ks) | {o[1] for o in rng.sample(ops[-12:], min(3, len(ops)))})
        for k in ks:
            if byk[k][2] in ("write", "pwrite", "sendfile", "copy_file_range", "writev") and rng.random() < 0.6:
                pts.append([W.M_KILL_PARTIAL, k, 0, None])
            else:
                pts.append([rng.choice([W.M_KILL_BEFORE, W.M_KILL_BEFORE, W.M_KILL_AFTER]), k, 0, None])
        rng.shuffle(pts)
        return pts


ERRS = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EDQUOT, errno.EROFS]


class Fault(Crash):
    """System calls that fail, a remote directory that goes away, and requests to terminate."""
    prop = "C11"
    tags = {"loss", "partial", "retry", "final", "escape", "silent", "mountpoint"}

    def perform(self, h, cmd):
        if cmd[0] == "sync":
            return h.sync(cmd[1], mode=W.M_STAT_ERR, trigger=-1)    # log what is looked at
        return super().perform(h, cmd)

    def choose(self, rng, ref, tier):
        n = self.per_case if tier == "quick" else self.per_case_deep
        pts = []
        under = {"R": [], "L": []}
        for o in ref.ops:
            for s, top in self.tops.items():
                if any(p and (p + "/").startswith(top + "/") for p in (o[3], o[4])):
                    under[s].append(o)
        looks = [x for x in ref.looks]
        for _ in range(n):
            kind = "swap" if len(pts) < 2 else rng.choice(["errno", "errno", "errno", "on", "look", "look", "look_on", "down", "down", "swap", "swap", "sig", "sig",
                               "stat", "stat"])
            op = self.pick(rng, ref.ops, 1)[0] if ref.ops else 1
            if kind == "errno":
                pts.append([W.M_ERRNO, op, rng.choice(ERRS), None])
            elif kind == "on":
                s = rng.choice("RRL")
                k = under[s].index(rng.choice(under[s])) + 1 if under[s] else 1
                pts.append([W.M_ERRNO_ON, k, rng.choice(ERRS), s])
            elif kind in ("look", "look_on"):
                k = rng.randint(1, max(1, len(looks)))
                pts.append([W.M_LOOK_ERR if kind == "look" else W.M_LOOK_ERR_ON, k, rng.choice([errno.EIO, errno.EACCES]), None])
            elif kind == "down":
                pts.append([W.M_DOWN, op, rng.choice([errno.ENOENT, errno.ENOENT, errno.EIO, errno.ESTALE, errno.ENOTCONN]), "R"])
            elif kind == "swap":
                how = "stat" if len(pts) < 2 else rng.choice(["op", "op", "stat", "look"])
                m = {"op": len(ref.ops), "stat": len(ref.stats), "look": len(looks)}[how]
                # around the moments at which the program looks whether the remote directory is there
                near = [x[1] for x in {"op": ref.ops, "stat": ref.stats, "look": looks}[how] if "/.zielen/" in x[3] + "/"]
                x = rng.random()
                k = rng.choice(near) if near and x < 0.5 else rng.randint(1, max(1, m)) if x < 0.8 else max(1, m - rng.randint(0, 15))
                pts.append(["SWAP", k, how, None])
            elif kind == "stat":
                pts.append([W.M_STAT_ERR, rng.randint(1, max(1, len(ref.stats))), rng.choice([errno.EIO, errno.EACCES]), None])
            else:
                pts.append([W.M_SIGNAL, op, rng.choice([signal.SIGTERM, signal.SIGINT]), None])
        return pts

    def go(self, h, case, out, choose):
        self.tops = {"R": h.w.remote, "L": h.w.clients[case["cmd"][1]].local}
        super().go(h, case, out, choose)

    def disturb(self, h, case, pt, out):
        if pt[0] != "SWAP":
            return super().disturb(h, case, pt, out)
        # The remote file system is unmounted: an empty directory is in its place.
        w = h.w
        c = w.clients[case["cmd"][1]]
        hd = w.start(c, self.argv(h, case["cmd"]), trigger=pt[1],
                     mode={"stat": W.M_STAT_STOP, "look": W.M_LOOK_STOP}.get(pt[2], W.M_STOP))
        if not w.wait_stopped(hd):
            return hd["res"]
        away = os.path.join(w.root, "away")
        os.rename(w.remote, away)
        os.mkdir(w.remote)
        w.cont(hd)
        r = w.finish(hd)
        left = []
        for d, ds, fs in os.walk(w.remote):
            left += [os.path.relpath(os.path.join(d, n), w.remote) for n in ds + fs]
        if left:
            out.bad({"mountpoint"}, "%s unmounted at %d: %r was put in the empty mount point" % (" ".join(map(str, case["cmd"])), pt[1], left[:4]))
        W.wipe(w.remote)
        os.rename(away, w.remote)
        out.stats["unmounted"] += 1
        return r

    def count(self, r, pt, out):
        name = {W.M_ERRNO: "failing_call", W.M_ERRNO_ON: "failing_from_then_on", W.M_LOOK_ERR: "failing_read", W.M_LOOK_ERR_ON: "failing_reads", W.M_STAT_ERR: "failing_stat",
                W.M_DOWN: "remote_gone", W.M_SIGNAL: "signals", "SWAP": "swaps"}[pt[0]]
        hit = bool(r.errs) or pt[0] in ("SWAP", W.M_SIGNAL) or any(x[0] == "DOWN" for x in r.log)
        out.stats[name if hit else "not_reached"] += 1


class InitKill(Kill):
    """init killed at a system call, then resumed."""
    prop = "C12"
    temp_ok = True
    tags = {"loss", "partial", "retry", "final", "escape", "init", "crash"}
    per_case = 10

    def spec(self, rng):
        self.first = rng.random() < 0.6
        s = gen.world_spec(rng, nclients=rng.choice([1, 2]) if self.first else 2, initial=(1, 12), excl=0.4, real=0.1)
        if self.first:
            s["noinit"] = True
        return s

    def command(self, rng, h):
        dead = [i for i in range(len(h.w.clients)) if not h.alive[i]]
        return ["init", dead[0], os.path.isdir(os.path.join(h.w.remote, ".zielen"))] if dead else None

    def weights(self, rng):
        w = super().weights(rng)
        w.update(init=0, reset=2)
        return w

    def steps_before(self, rng, tier, spec):
        return 0 if spec.get("noinit") else super().steps_before(rng, tier, spec)

    def retry(self, h, cmd):
        c = h.w.clients[cmd[1]]
        full = self.argv(h, cmd)
        if os.path.isfile(os.path.join(c.pdir, "config")) and self.bare:
            # the options need not be given again
            return h.w.run(c, ["init", c.profile])
        return h.w.run(c, full)

    def point(self, h, case, pt, S0, ref, post, out):
        self.bare = pt[1] % 3 != 0
        super().point(h, case, pt, S0, ref, post, out)

    def go(self, h, case, out, choose):
        local = h.w.clients[case["cmd"][1]].local
        if case["cmd"][2] and os.path.isdir(local):
            for n in os.listdir(local):         # what a reset left there goes somewhere else
                h.w.remove(os.path.join(local, n))
        super().go(h, case, out, choose)

    def already_done(self, h, cmd, r2):
        return r2.clean_error and "already exists" in r2.err

    def aftermath(self, h, case, S0, ref, fin, post, what, out):
        i = case["cmd"][1]
        c = h.w.clients[i]
        c.excludes = list(h.spec["clients"][i].get("excludes", []))
        for d, ds, fs in os.walk(c.local):
            for n in fs + ds:
                if is_temp(n):
                    os.unlink(os.path.join(d, n))       # the next sync would do that
        fin = State(h, i)
        super().aftermath(h, case, S0, ref, fin, post, what, out)

    def examine(self, h, S0, mid, ref, r, what, out, case):
        super().examine(h, S0, mid, ref, r, what, out, case)
        c = h.w.clients[case["cmd"][1]]
        if out.viols or r.ok or not os.path.isfile(os.path.join(c.pdir, "config")):
            return
        # Nothing else can be done with the profile in the meantime.
        r3 = h.w.run(c, ["sync", c.profile])
        if r3.ok:
            return      # it was complete but for the exit
        if not r3.clean_error:
            out.bad({"init", "crash"}, "%s; then sync: %s" % (what, r3.brief()))
        n = State(h, case["cmd"][1])
        if any(hist.fulls(a) != hist.fulls(b) for a, b in ((mid.L, n.L), (mid.R, n.R))):
            out.bad({"init"}, "%s; a sync that failed (%s) changed something" % (what, r3.brief()))
        out.stats["syncs_refused"] += 1


class ResetKill(Kill):
    """reset killed at a system call, then run again."""
    prop = "C13"
    every = 3
    tags = {"loss", "partial", "retry", "final", "escape", "reset", "crash"}
    per_case = 10

    def weights(self, rng):
        w = super().weights(rng)
        w["reset"] = 2
        return w

    def command(self, rng, h):
        live = [i for i in range(len(h.w.clients)) if h.alive[i]]
        if not live:
            return None
        flags = rng.choice([[], [], ["-k"], ["-n"]]) if len(live) == 1 else rng.choice([["-k"], ["-k"], ["-n"]])
        return ["reset", rng.choice(live), flags]

    def already_done(self, h, cmd, r2):
        return r2.clean_error and "argument is not a profile name" in r2.err

    def exclusions(self, h, case, S0, ref, fin):
        return set()

    def aftermath(self, h, case, S0, ref, fin, post, what, out):
        w = h.w
        c, flags = w.clients[case["cmd"][1]], case["cmd"][2]
        if os.path.lexists(os.path.join(c.pdir, "config")):
            out.bad({"final", "reset"}, "%s; run again, the profile is still there: %r" % (what, os.listdir(c.pdir)))
        out.stats["leftover_profile_files"] += os.path.lexists(c.pdir)
        if not flags and os.listdir(w.remote):
            out.bad({"final", "reset"}, "%s; run again, the remote directory still contains %r" % (what, os.listdir(w.remote)[:4]))
        others = [j for j in range(len(w.clients)) if post["alive"][j]]
        if out.viols or not self.go_on(case, what):
            return
        h.cm, h.alive, h.uid, h.last_cmd_time = (copy.deepcopy(post[k]) for k in ("cm", "alive", "uid", "last_cmd_time"))
        db = w.rdb()
        h.rdb = {p: bool(v[0]) for p, v in db.items()}
        for j in others:
            h.cm[j].pushed |= {p for p, v in db.items() if v[1] >= self.t_start}
        h.viol = []
        h.steps = []
        if "-n" not in flags:
            # the name can be used again
            w.tick(1)
            h.init(case["cmd"][1])
            w.tick(1)
            out.stats["initialized_again"] += 1
        if not h.viol:
            h.converge()
        out.stats["converged"] += 1
        for v in h.viol:
            out.bad({"final"} | v.tags, "%s; after running it again and going on: %s" % (what, v.msg))
        h.viol = []


class Reset(Mix):
    prop = "C13"
    parts = (("histories", 3, c_hist.Reset), ("killed", 1, ResetKill))
