"""C17 at the level of the databases' own interface: random sequences of operations against a plain tree."""
import os
import sqlite3

from . import hist, model
from . import c_hist
from .base import Check, Mix, Outcome

ODD = ["a", "b", "c", "d.txt", "it's", "\"q\"", "%", "_", "per%cent", "new\nline", "ünï", "é", "e\u0301", "名前", "A", "a b", " ", "*", "?", "[x]", "..x", "-", ";--",
       "N" * 200, "\\", "'", "NULL", "0", "1e5"]


class TreeModel:
    """What the profile database should say: {path: [directory, own priority, own local flag]}."""

    def __init__(self):
        self.n = {}

    def kids(self, p):
        return [q for q in self.n if model.dirname(q) == p]

    def totals(self):
        """{path: (priority, local)} from the leaves up."""
        out, has = {}, set()
        acc = {}
        for p in sorted(self.n, key=lambda x: -x.count("/")):
            pr, lo = acc[p] if p in acc else (self.n[p][1], bool(self.n[p][2]))
            out[p] = (pr, lo)
            par = model.dirname(p)
            if par:
                a = acc.get(par, (0, True))
                acc[par] = (a[0] + pr, a[1] and lo)
        return out

    def under(self, root):
        return [p for p in self.n if model.under(p, root)]


class DbOps(Check):
    prop = "C17"
    tags = {"db"}
    KINDS = ["profile", "profile", "profile", "remote"]

    def gen(self, rng, tier, n):
        kind = rng.choice(self.KINDS)
        names = rng.sample(ODD, rng.randint(3, 8))
        length = rng.randint(5, 30) if tier == "quick" else rng.randint(10, 80)
        big = rng.random() < 0.1
        if big:
            length = min(length, 12)
        return {"kind": kind, "ops": self.ops(rng, kind, names, length, big), "file": rng.random() < 0.5}

    def ops(self, rng, kind, names, length, big):
        """A valid sequence: parents before children, as the interface demands."""
        t = {}                                  # path -> directory
        out = []

        def some(k):
            ps = sorted(t)
            return rng.sample(ps, min(len(ps), rng.randint(0, k)))

        def fresh():
            """A path whose parent is a directory, or can become one in the same batch."""
            ds = sorted(p for p in t if t[p])
            base = rng.choice(ds + [""] * (1 + len(ds) // 3))
            return (base + "/" if base else "") + rng.choice(names)
        for _ in range(length):
            op = rng.choices(["add", "inflate", "rm", "upd", "inc", "adj", "reopen", "read"],
                             [10, 4 if kind == "profile" else 0, 4, 6, 5 if kind == "profile" else 0, 2 if kind == "profile" else 0, 1, 2])[0]
            if op in ("add", "inflate"):
                files, dirs = set(), set()
                for _ in range(rng.choice([0, 1, 1, 2, 4, 8]) if not big else 150):
                    p = fresh()
                    if big:
                        p += "%d" % rng.randint(0, 400)
                    d = rng.random() < 0.4
                    if p in t or p in files or p in dirs:
                        # adding a path again changes nothing
                        (dirs if t.get(p, p in dirs) else files).add(p)
                        continue
                    (dirs if d else files).add(p)
                    if d and rng.random() < 0.5:
                        q = p + "/" + rng.choice(names)
                        for _ in range(rng.randint(0, 2)):
                            dirs.add(q)
                            q += "/" + rng.choice(names)
                        files.add(q)
                for p in files:
                    t.setdefault(p, False)
                for p in dirs:
                    t.setdefault(p, True)
                st = [op, sorted(files - dirs), sorted(dirs)]
                if op == "add" and kind == "profile":
                    st += [rng.choice([0, 0, 1, 2.5, 10]), rng.random() < 0.6]
                out.append(st)
            elif op == "rm":
                ps = some(3) + ([rng.choice(names) + "-none"] if rng.random() < 0.2 else [])
                out.append(["rm", ps])
                for p in ps:
                    for q in [q for q in t if model.under(q, p)]:
                        del t[q]
            elif op == "upd":
                leaves = [p for p in some(5) if not t[p]]
                if kind == "profile":
                    what = rng.choice([{"priority": rng.choice([0, 1, 7, 0.5])}, {"local": rng.random() < 0.5}, {"local": rng.random() < 0.5},
                                       {"priority": 3, "local": True}])
                else:
                    what = {"lastsync": rng.choice([0, 1e9, 1.5e9 + 0.25])}
                out.append(["upd", leaves, what])
            elif op == "inc":
                out.append(["inc", [p for p in some(4) if not t[p]], rng.choice([1, 1, 0.5, 3])])
            elif op == "adj":
                out.append(["adj", rng.choice([0.5, 0.9, 0.999, 1])])
            else:
                out.append([op])
        return out

    def run(self, base, case):
        from zielen import profile, userdata
        out = Outcome()
        path = ":memory:"
        if case["file"]:
            os.makedirs(base, exist_ok=True)
            path = os.path.join(base, "t.db")
            for x in ("", "-wal", "-shm", "-journal"):
                if os.path.exists(path + x):
                    os.unlink(path + x)
        cls = profile.ProfileDBFile if case["kind"] == "profile" else userdata.RemoteDBFile
        try:
            self.go(case, cls, path, out)
        except sqlite3.Error as e:
            out.bad({"db"}, "%s: %s" % (type(e).__name__, e))
        out.sig = repr(case["ops"])
        out.sample = {"database": case["kind"], "operations": case["ops"][:8]}
        return out

    def go(self, case, cls, path, out):
        db = cls(path)
        db.create()
        m = TreeModel()
        m.sync = {}
        try:
            for st in case["ops"]:
                db = self.apply(case, cls, path, db, m, st, out)
                out.stats["operations"] += 1
                self.compare(case, db, m, st, out)
                if out.viols:
                    break
            out.stats["paths_tracked"] += len(m.n)
        finally:
            if db._conn is not None:
                db.close()

    def apply(self, case, cls, path, db, m, st, out):
        op = st[0]
        prof = case["kind"] == "profile"
        if op in ("add", "inflate"):
            files, dirs = st[1], st[2]
            if op == "inflate":
                top = max([m.n[p][1] for p in m.n if not m.n[p][0]] or [0])
                db.add_inflated(files, dirs)
                vals = {True: (0, True), False: (top, True)}
            elif prof:
                db.add_paths(files, dirs, priority=st[3], local=st[4])
                vals = {True: (st[3], st[4]), False: (st[3], st[4])}
            else:
                db.add_paths(files, dirs)
                vals = {True: (0, True), False: (0, True)}
            for p in sorted(set(files) | set(dirs), key=lambda x: x.count("/")):
                if p not in m.n:
                    d = p in dirs
                    m.n[p] = [d, vals[d][0], vals[d][1]]
                    m.sync[p] = None
        elif op == "rm":
            db.rm_paths(st[1])
            for p in st[1]:
                par = model.dirname(p)
                for q in m.under(p):
                    del m.n[q]
                # what is left without children counts for nothing
                while par in m.n and not m.kids(par):
                    m.n[par][1], m.n[par][2] = 0, False
                    par = model.dirname(par)
        elif op == "upd":
            db.update_paths(st[1], **st[2])
            for p in st[1]:
                if "priority" in st[2]:
                    m.n[p][1] = st[2]["priority"]
                if "local" in st[2]:
                    m.n[p][2] = st[2]["local"]
                if "lastsync" in st[2]:
                    m.sync[p] = st[2]["lastsync"]
        elif op == "inc":
            db.increment(st[1], st[2])
            for p in st[1]:
                m.n[p][1] += st[2]
        elif op == "adj":
            db.adjust_all(st[1])
            for p in m.n:
                m.n[p][1] *= st[1]
        elif op == "reopen" and path != ":memory:":
            db.commit()
            db.close()
            db = cls(path)
        return db

    def compare(self, case, db, m, st, out):
        prof = case["kind"] == "profile"
        got = {p: tuple(v) for p, v in db.get_paths().items()}
        what = "after %r" % (st,)
        if len(what) > 300:
            what = what[:300] + "..."
        if set(got) != set(m.n):
            out.bad({"db"}, "%s the database has extra %r, lacks %r" % (what, sorted(set(got) - set(m.n))[:4], sorted(set(m.n) - set(got))[:4]))
            return
        tot = m.totals()
        leaf = set(m.n) - {model.dirname(p) for p in m.n}
        for p in got:
            if bool(got[p][0]) != m.n[p][0]:
                out.bad({"db"}, "%s: %r has directory flag %r" % (what, p, got[p][0]))
            if prof:
                want = tot[p][0]
                if abs(got[p][1] - want) > 1e-6 * max(1, abs(want)):
                    out.bad({"db"}, "%s: %r has priority %r instead of %r" % (what, p, got[p][1], want))
                if bool(got[p][2]) != tot[p][1] and not (m.n[p][0] and p in leaf):
                    out.bad({"db"}, "%s: %r has local flag %r instead of %r" % (what, p, got[p][2], tot[p][1]))
            elif m.sync.get(p) is not None and abs(got[p][1] - m.sync[p]) > 1e-6:
                out.bad({"db"}, "%s: %r has time %r instead of %r" % (what, p, got[p][1], m.sync[p]))
        # queries
        ps = sorted(m.n)
        for p in ps[:3] + ps[-2:]:
            info = db.get_path_info(p)
            if info is None or tuple(info) != got[p]:
                out.bad({"db"}, "%s: get_path_info(%r) is %r, get_paths has %r" % (what, p, info, got[p]))
            if set(db.get_paths(root=p)) != set(m.under(p)):
                out.bad({"db"}, "%s: get_paths(root=%r) is %r" % (what, p, sorted(db.get_paths(root=p))[:5]))
        for d in (True, False):
            if set(db.get_paths(directory=d)) != {p for p in got if bool(got[p][0]) == d}:
                out.bad({"db"}, "%s: get_paths(directory=%r) is wrong" % (what, d))
            if prof and set(db.get_paths(local=d)) != {p for p in got if bool(got[p][2]) == d}:
                out.bad({"db"}, "%s: get_paths(local=%r) is wrong" % (what, d))
        if not prof:
            at = sorted(v[1] for v in got.values())
            if at:
                t = at[len(at) // 2]
                if set(db.get_paths(min_lastsync=t)) != {p for p in got if got[p][1] > t}:
                    out.bad({"db"}, "%s: get_paths(min_lastsync=...) is wrong" % what)
        if db.get_path_info("no such path") is not None:
            out.bad({"db"}, "%s: get_path_info() of an unknown path is %r" % (what, db.get_path_info("no such path")))



class Databases(Mix):
    prop = "C17"
    parts = (("operations", 30, DbOps), ("histories", 1, c_hist.DbHistory))
