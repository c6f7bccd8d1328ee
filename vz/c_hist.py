"""Checks that judge random histories of several clients: C01-C09, C17 (histories), C20."""
import os

from . import gen, hist, model
from . import world as W
from .base import Check, Outcome

LOW = ["0KiB", "8KiB", "12KiB", "20KiB", "24KiB", "32KiB", "40KiB", "52KiB", "64KB", "80KiB", "100KiB"]


class HistCheck(Check):
    weights = {}
    world = {}
    steps = (20, 45)
    deep = (40, 120)
    sizes = None
    need = "syncs"          # the statistic that makes a case non-trivial

    def spec(self, rng, tier):
        return gen.world_spec(rng, **self.world)

    def make(self, base, spec):
        return hist.History(base, spec)

    def extra(self, h, rng):
        """A chance to add steps of the property's own."""
        return None

    def finish(self, h, out, case):
        for v in h.viol:
            out.bad(v.tags, v.msg)
        out.stats.update({k: v for k, v in h.stats.items() if v})
        out.stats["steps"] += len(h.steps)
        out.stats["commands"] += h.w.commands
        out.stats["ops_monitored"] += h.w.ops_seen
        out.stats["distinct_states"] += len(h.states)
        if h.stats.get(self.need):
            out.sig = repr((h.spec.get("names"), h.steps, h.spec["tree"]))
        out.sample = {"world": h.spec, "steps": h.steps[:30], "of": len(h.steps),
                      "last": h.w.trace[-1] if h.w.trace else None}

    def explore(self, base, rng, tier, n):
        out = Outcome()
        spec = self.spec(rng, tier)
        h = self.make(base, spec)
        lo, hi = self.steps if tier == "quick" else self.deep
        end = rng.randint(lo, hi)
        rounds = 0
        while len(h.steps) < end and rounds < 3 * end and not h.viol:
            rounds += 1
            sts = self.extra(h, rng) or gen.step(rng, h, self.weights, self.sizes)
            for st in sts:
                h.do(st)
                if h.viol:
                    break
            else:
                if not sts:
                    end -= 1
                continue
            break
        if not h.viol:
            h.steps.append(["converge"])
            h.converge()
        case = {"spec": spec, "steps": [s for s in h.steps]}
        # the steps that converge() itself recorded come after the marker
        if ["converge"] in case["steps"]:
            case["steps"] = case["steps"][:case["steps"].index(["converge"]) + 1]
        self.finish(h, out, case)
        return case, out

    def run(self, base, case):
        out = Outcome()
        h = self.make(base, case["spec"])
        for st in case["steps"]:
            if h.viol:
                break
            if st == ["converge"]:
                h.converge()
            else:
                h.do(st)
        self.finish(h, out, case)
        return out


class Loss(HistCheck):
    prop = "C01"
    tags = {"loss"}
    weights = {"both": 14, "eqput": 5, "rm": 10, "inplace": 10, "put_old": 18, "swap": 5, "remote_put": 7, "mv": 6}
    world = {"excl": 0.3}
    need = "pushes"


class Mirror(HistCheck):
    prop = "C02"
    tags = {"remote", "local", "converge", "new", "modified", "unchanged"}
    weights = {"mkdir": 5, "mv": 6, "ln": 5, "remote_put": 8, "swap": 4, "both": 3, "init": 9}
    world = {"excl": 0.1}
    need = "pulls"


class Idem(HistCheck):
    prop = "C03"
    tags = {"idem"}
    weights = {"twice": 30, "sync": 12, "prio": 6, "opt": 4, "eqput": 5, "both": 8}
    world = {"limits": LOW, "excl": 0.1}
    need = "repeats"

    def make(self, base, spec):
        h = TwiceHistory(base, spec)
        return h

    def extra(self, h, rng):
        live = [i for i in range(len(h.w.clients)) if h.alive[i]]
        if live and rng.random() < 0.3:
            i = rng.choice(live)
            return [["sync", i], ["again", i]]
        return None


Idem.weights.pop("twice")


class TwiceHistory(hist.History):
    def do(self, st):
        if st[0] == "again":
            done = self.again(st[1])
            if done:
                self.steps.append(st)
            return done
        return super().do(st)

    def again(self, i):
        """Right after a sync, another one changes nothing at all."""
        w, c = self.w, self.w.clients[i]
        if not self.alive[i] or not self.steps or self.steps[-1] != ["sync", i]:
            return False
        settle = 3 if c.excludes else 0     # see converge()
        for _ in range(settle):
            self.sync(i)
            if self.viol:
                return True
        L0, R0, T0, D0, P0 = c.snap(), w.rsnap(), w.trash(), w.rdb(), c.db()
        self.sync(i)
        if self.viol:
            return True
        L1, R1, T1, D1, P1 = c.snap(), w.rsnap(), w.trash(), w.rdb(), c.db()
        self.stats["repeats"] = self.stats.get("repeats", 0) + 1
        for s in (L0, L1):
            for p, e in s.items():
                if model.is_placeholder(p, e, w.remote):
                    e.mtime = 0
        for name, a, b in (("remote directory", R0, R1), ("trash", T0, T1), ("local directory", L0, L1)):
            if hist.fulls(a) != hist.fulls(b):
                self.bad({"idem"}, "a second sync with nothing to do changed the %s: %s" % (name, hist.diff(a, b)))
        if {p: e.ino for p, e in R0.items() if e.kind != "d"} != {p: e.ino for p, e in R1.items() if e.kind != "d"}:
            self.bad({"idem"}, "a second sync with nothing to do copied files to the remote directory again: %r" % [
                p for p in R1 if p in R0 and R0[p].ino != R1[p].ino][:5])
        if P0 != P1:
            self.bad({"idem", "db"}, "a second sync with nothing to do changed the profile database: %r" % [
                (p, P0.get(p), P1.get(p)) for p in set(P0) | set(P1) if P0.get(p) != P1.get(p)][:5])
        if D0 != D1:
            self.bad({"idem", "db"}, "a second sync with nothing to do changed the remote database: %r" % [
                (p, D0.get(p), D1.get(p)) for p in set(D0) | set(D1) if D0.get(p) != D1.get(p)][:5])
        return True


class Conflict(HistCheck):
    prop = "C04"
    tags = {"conflict"}
    weights = {"both": 25, "eqput": 12, "sync": 26, "rm": 4, "rmdir": 1, "mkdir": 1, "excl": 1, "opt": 1, "swap": 5, "touch": 4}
    world = {"excl": 0.08, "initial": (2, 8)}
    need = "conflicts"


class Deletion(HistCheck):
    prop = "C05"
    tags = {"deleted", "kept-remote"}
    weights = {"rm": 20, "rmdir": 10, "remote_rm": 10, "both": 10, "mkdir": 5, "swap": 6, "sync": 30, "mv": 6}
    world = {"initial": (4, 12), "excl": 0.2}
    need = "deletions"


class Trash(HistCheck):
    prop = "C06"
    tags = {"trash"}
    weights = {"rm": 24, "rmdir": 10, "opt": 4, "prio": 5, "sync": 30, "empty": 3, "swap": 4, "put_new": 14, "jump": 10, "period": 7}
    world = {"initial": (5, 14), "limits": LOW, "notrash": 0.2, "excl": 0.1, "real": 0.1}
    need = "trashed"

    def extra(self, h, rng):
        """Files of the same name from different directories end up in the trash together or one after the other."""
        live = [i for i in range(len(h.w.clients)) if h.alive[i]]
        if not live or rng.random() > 0.05:
            return None
        i = rng.choice(live)
        side = "c%d" % i
        n = rng.choice(["x", "x.txt", "x.tar.gz", ".x", "x(1)", "x(1).txt", rng.choice(h.spec["names"])])
        ds = rng.sample(h.spec["names"], min(len(h.spec["names"]), rng.randint(2, 5)))
        paths = [d + "/" + n for d in ds] + ([n] if rng.random() < 0.5 else [])
        if rng.random() < 0.3:
            paths = [p + "/f" for p in paths]
        steps = [["opt", i, {"StorageLimit": "0KiB", "UseTrash": "yes"}]]
        steps += [["put", side, p, rng.choice([10, 5000]), "new", None] for p in paths] + [["sync", i]]
        dirs = rng.random() < 0.3
        for p in paths:
            steps.append(["rm", side, os.path.dirname(p) if dirs and "/" in p else p])
            if rng.random() < 0.5:
                steps.append(["sync", i])
        return steps + [["sync", i]]


class Limit(HistCheck):
    prop = "C07"
    tags = {"limit"}
    weights = {"prio": 10, "opt": 8, "put_new": 16, "put_old": 18, "excl": 5, "remote_put": 6, "rm": 4}
    world = {"initial": (5, 14), "limits": LOW, "excl": 0.25}
    sizes = [0, 10, 4096, 4097, 5000, 8192, 12288, 20000, 30000, 60000]
    need = "limit_checks"


class Select(HistCheck):
    prop = "C08"
    tags = {"select", "prio"}
    weights = {"prio": 16, "opt": 8, "put_new": 16, "put_old": 12, "mkdir": 4, "excl": 2, "rm": 4, "eqput": 2, "swap": 1}
    world = {"initial": (6, 16), "limits": LOW, "excl": 0.1}
    sizes = [0, 10, 4096, 4097, 5000, 8192, 12288, 20000, 30000]
    need = "partial_selections"


class Exclude(HistCheck):
    prop = "C09"
    tags = {"exclude"}
    weights = {"excl": 14, "sync": 34, "put_new": 12, "swap": 3, "init": 8}
    world = {"initial": (4, 12), "excl": 0.7}
    need = "excluded"


class DbHistory(HistCheck):
    prop = "C17"
    tags = {"db", "trashflag"}
    weights = {"mkdir": 6, "swap": 8, "mv": 8, "both": 8, "excl": 5, "rmdir": 5, "prio": 6}
    world = {"initial": (3, 10)}


class Meta(HistCheck):
    prop = "C20"
    tags = {"meta"}
    weights = {"put_old": 24, "put_new": 16, "ln": 12, "touch": 6, "remote_put": 8, "both": 8}
    world = {"initial": (4, 10), "excl": 0.1, "unsafe": 0.1}
    need = "pushes"


class Reset(HistCheck):
    prop = "C13"
    tags = {"reset"}
    weights = {"reset": 14, "init": 14, "both": 8, "sync": 24, "excl": 6}
    world = {"excl": 0.35}
    need = "resets"
    after = {"remote", "exclude", "db", "loss", "converge", "crash", "idem", "local", "deleted"}

    def finish(self, h, out, case):
        # With --keep-remote, the others go on as if the client had never been there.
        kept = [k for k, st in enumerate(h.steps) if st[0] == "reset" and "-k" in st[2]]
        if kept:
            for v in h.viol:
                if v.step is not None and v.step > kept[0] and v.tags & self.after:
                    v.tags = set(v.tags) | {"reset"}
        super().finish(h, out, case)
