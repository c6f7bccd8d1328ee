"""C12: what init accepts and refuses, and that refusing changes nothing."""
import os

from . import gen, globref, hist, model
from . import world as W
from .base import Check, Mix, Outcome
from .c_crash import InitKill

LOCALS = ["full", "full", "full", "empty", "missing", "deep", "file", "readonly", "under-file", "same", "in-remote", "around-remote", "other", "in-other",
          "around-other", "program", "in-program", "around-program", "link", "link-other", "link-in-other", "relative", "tilde", "slash", "dots",
          "prefix-other", "prefix-remote"]
REMOTES = ["missing", "missing", "empty", "empty", "full", "shared", "shared", "file", "readonly", "under-file", "relative", "tilde", "slash", "link-local", "deep"]
NAMES = ["fresh"] * 8 + ["existing", "a b", "a/b", "", ".", "..", "a.b", "x\ty", "a\n", "../x", "x;y", "%s", "uni", "dash"]
TMPL = ["ok"] * 9 + ["missing", "dir", "badvalue", "unknown", "blank", "blank", "blank-bad", "comments"]
BAD = [("StorageLimit", "10"), ("StorageLimit", "x"), ("StorageLimit", "10 XB"), ("SyncInterval", "ten"), ("PriorityHalfLife", "0"), ("UseTrash", "maybe"),
       ("TrashCleanupPeriod", "3d"), ("InflatePriority", "2"), ("SyncInterval", "-1"), ("StorageLimit", "-1GB")]


class InitArgs(Check):
    prop = "C12"
    tags = {"init", "loss", "escape", "partial"}

    def gen(self, rng, tier, n):
        spec = gen.world_spec(rng, nclients=1, initial=(1, 8), excl=0.3, real=0.0, unsafe=0.3)
        add = rng.random() < 0.35
        # mostly one thing is wrong at most
        local, remote, name, tmpl, excl = ("empty" if add else "full"), ("shared" if add else "missing"), "fresh", "ok", rng.choice([None, "ok"])
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            what = rng.choice("llllrrrnte")
            if what == "l":
                local = rng.choice(LOCALS)
            elif what == "r":
                remote = rng.choice(REMOTES)
            elif what == "n":
                name = rng.choice(NAMES)
            elif what == "t":
                tmpl = rng.choice(TMPL)
            else:
                excl = rng.choice(["ok", "missing", "dir"])
        tree = [st for st in gen.world_spec(rng, nclients=1, initial=(1, 8), unsafe=0.3)["tree"]]
        return {"spec": spec, "add": add, "local": local, "remote": remote, "name": name, "tmpl": tmpl, "excl": excl,
                "tree": tree, "bad": rng.choice(BAD), "pats": gen.patterns(rng, spec["names"]), "opts": {"StorageLimit": rng.choice(gen.LIMITS)}}

    def run(self, base, case):
        out = Outcome()
        h = hist.History(base, case["spec"])
        w = h.w
        if h.viol:
            out.skipped = True
            return out
        w.tick(2)
        c0 = w.clients[0]
        local, lok, remote, rok = self.places(w, c0, case)
        c = w.add_client(cfg=c0.cfg, opts=case["opts"])
        name = {"fresh": c.profile, "existing": c0.profile, "uni": c.profile + "-é_", "dash": c.profile + "--"}.get(case["name"], case["name"])
        nok = case["name"] in ("fresh", "uni", "dash")
        c.profile = name
        c.home_local, c.home_remote = local, remote
        c.local, c.remote = os.path.realpath(self.expand(c, local)), os.path.realpath(self.expand(c, remote))
        add = case["add"]
        argv, tok, stdin = self.template(w, c, case, local, remote)
        argv = ["init"] + argv
        pats, eok = [], True
        if case["excl"]:
            ex = os.path.join(w.root, "exclude-new")
            if case["excl"] == "ok":
                pats = case["pats"]
                with open(ex, "w") as f:
                    f.write("".join(p + "\n" for p in pats))
            elif case["excl"] == "dir":
                os.mkdir(ex)
            eok = case["excl"] == "ok"
            argv += ["--exclude", ex]
        if add:
            argv.append("-a")
        argv += ["--", name] if name.startswith("-") else [name]
        # is it valid? Judged from what is there, not from how the case was made
        lok = lok and self.dir_ok(c.local, add)
        rok = rok and self.dir_ok(c.remote, not add) and not self.overlap(c.local, c.remote)
        prog = os.path.realpath(os.path.join(c.cfg, "zielen"))
        lok = lok and not self.overlap(c.local, prog) and not self.overlap(c.local, os.path.realpath(c0.local))
        if rok and self.overlap(c.remote, prog):
            out.skipped = True      # nothing says what is right here
            return out
        # a local directory inside another profile's remote directory, or the other way round, is nobody's business
        if lok and rok and (self.overlap(c.local, w.remote) or self.overlap(c.remote, os.path.realpath(c0.local))):
            out.skipped = True
            return out
        good = lok and rok and nok and tok and eok
        if good and self.overlap(c.remote, w.remote) and c.remote != w.remote:
            out.skipped = True
            return out
        w.tick(2)
        before = W.snapshot(w.root)
        L0, R0 = W.snapshot(c.local), W.snapshot(c.remote, skip=(".zielen",))
        r = w.run(c, argv, stdin=stdin)
        if stdin is not None:
            os.close(stdin)
        w.tick(2)
        after = W.snapshot(w.root)
        what = "init of %s" % {k: case[k] for k in ("name", "local", "remote", "add", "tmpl", "excl")}
        out.sig = repr((sorted((k, repr(v)) for k, v in case.items() if k not in ("spec", "tree")), good))
        out.sample = {k: case[k] for k in ("name", "local", "remote", "add", "tmpl", "excl", "bad")}
        out.stats["valid" if good else "invalid"] += 1
        out.stats["ops_monitored"] += w.ops_seen
        if r.escapes:
            out.bad({"escape", "init"}, "%s: touched %r" % (what, r.escapes[:3]))
        if not good:
            if r.ok:
                out.bad({"init"}, "%s was accepted" % what)
            elif not r.clean_error:
                out.bad({"init"}, "%s: no clean error: %s" % (what, r.brief()))
            self.unchanged(what, before, after, c, prog, out)
            return out
        if not r.ok:
            out.bad({"init", "crash"}, "%s failed: %s" % (what, r.brief()))
            return out
        self.judge(h, case, c, add, L0, R0, pats, out, what)
        mine = (c.local, c.remote, c.pdir)

        def others(s):
            return {p: e.full() for p, e in s.items() if not any(os.path.join(w.root, p) == m or os.path.join(w.root, p).startswith(m + "/") for m in mine)}
        a, b = others(before), others(after)
        bad = [p for p in sorted(set(a) | set(b)) if a.get(p) != b.get(p) and b.get(p) != ("d", None, 0, 0o777 & ~w.umask)]
        if bad:
            out.bad({"init", "escape"}, "%s changed something else: %r" % (what, [(p, a.get(p), b.get(p)) for p in bad[:4]]))
        if out.viols:
            return out
        # and it works
        R1 = W.snapshot(c.remote, skip=(".zielen",))
        r = w.run(c, ["sync", name])
        if not r.ok:
            out.bad({"init"}, "%s; the first sync: %s" % (what, r.brief()))
        R2 = W.snapshot(c.remote, skip=(".zielen",))
        E = globref.excluded(pats, R1)      # the first sync removes what every client excludes
        for p in E | model.parents(E):
            R1.pop(p, None)
            R2.pop(p, None)
        if hist.fulls(R1) != hist.fulls(R2):
            out.bad({"init"}, "%s; the first sync changed the remote directory: %s" % (what, hist.diff(R1, R2)))
        out.stats["synced"] += 1
        # the other profile goes on
        if c.remote != w.remote:
            h.do(["sync", 0])
            for v in h.viol:
                out.bad({"init"} | v.tags, "%s; then the other profile: %s" % (what, v.msg))
        return out

    # -- preparing -------------------------------------------------------------------------------------------
    def expand(self, c, p):
        return os.path.join(c.home, p[2:]) if p.startswith("~/") else p

    def fill(self, w, top, case):
        os.makedirs(top, exist_ok=True)
        sub = hist.History.__new__(hist.History)
        sub.w, sub.uid, sub.cm, sub.alive = w, 1000, [], []
        sub.top = lambda side: top
        for st in case["tree"]:
            st = list(st)
            st[1] = "c0"
            if st[0] in ("put", "mkdir", "ln"):
                hist.History.edit(sub, st)

    def places(self, w, c0, case):
        """Make the candidate's directories: (local, acceptable as a value?, remote, acceptable?)."""
        j = lambda *a: os.path.join(w.root, *a)
        kind, rk = case["local"], case["remote"]
        lok = rok = True
        remote = j("newremote")
        for n in ("a file",):
            with open(j(n), "w") as f:
                f.write("a file in the way")
        if rk == "empty":
            os.mkdir(remote)
        elif rk == "full":
            self.fill(w, remote, case)
        elif rk == "shared":
            remote = w.remote
        elif rk == "file":
            remote = j("a file")
        elif rk == "readonly":
            os.mkdir(remote)
        elif rk == "under-file":
            remote = j("a file", "sub")
        elif rk == "relative":
            remote, rok = "newremote", False
        elif rk == "tilde":
            remote = "~/newremote"
        elif rk == "slash":
            remote += "/"
        elif rk == "deep":
            remote = j("newdeep", "er", "remote")
        full_remote = os.path.join(w.root, "home", remote[2:]) if remote.startswith("~/") else remote
        local = j("newlocal")
        if kind in ("full", "readonly", "slash", "dots", "prefix-remote"):
            self.fill(w, local, case)
            if kind == "slash":
                local += "/"
            elif kind == "dots":
                local = j("decoy", "..", "newlocal")
            elif kind == "readonly":
                os.chmod(local, 0o555)
            elif kind == "prefix-remote" and rk in ("missing", "empty"):
                # names that begin alike are no overlap
                if os.path.isdir(remote):
                    os.rmdir(remote)
                remote = full_remote = local + "-remote"
                if rk == "empty":
                    os.mkdir(remote)
        elif kind == "empty":
            os.mkdir(local)
        elif kind == "deep":
            local = j("newdeep", "er", "local")
        elif kind == "file":
            local = j("a file")
        elif kind == "under-file":
            local = j("a file", "sub")
        elif kind == "same":
            local = full_remote
        elif kind == "in-remote":
            local = os.path.join(full_remote, "inner")
            if os.path.isdir(full_remote):
                os.makedirs(local, exist_ok=True)
        elif kind == "around-remote":
            os.mkdir(local)
            if rk in ("missing", "empty"):
                if os.path.isdir(remote):
                    os.rmdir(remote)
                remote = os.path.join(local, "newremote")
        elif kind == "other":
            local = c0.local
        elif kind == "in-other":
            local = os.path.join(c0.local, "inner")
            os.makedirs(local, exist_ok=True)
        elif kind == "around-other":
            local = w.root
        elif kind == "program":
            local = os.path.join(c0.cfg, "zielen")
        elif kind == "in-program":
            local = os.path.join(c0.cfg, "zielen", "inner")
            os.mkdir(local)
        elif kind == "around-program":
            local = c0.cfg
        elif kind == "link":
            self.fill(w, j("reallocal"), case)
            os.symlink(j("reallocal"), local)
        elif kind == "link-other":
            os.symlink(c0.local, local)
        elif kind == "link-in-other":
            os.makedirs(os.path.join(c0.local, "inner"), exist_ok=True)
            os.symlink(os.path.join(c0.local, "inner"), local)
        elif kind == "relative":
            local, lok = "newlocal", False
            os.mkdir(j("newlocal"))
        elif kind == "tilde":
            local = "~/newlocal"
            self.fill(w, j("home", "newlocal"), case)
        elif kind == "prefix-other":
            local = c0.local + "x"
            self.fill(w, local, case)
        if rk == "link-local":
            if os.path.isdir(local):
                os.symlink(local, remote)
        if rk == "readonly" and os.path.isdir(remote):
            os.chmod(remote, 0o555)
        if case["add"] and kind in ("tilde", "link", "slash", "dots", "prefix-other", "prefix-remote"):
            # an empty one is wanted then
            real = os.path.realpath(os.path.join(w.root, "home", local[2:]) if local.startswith("~/") else local)
            for n in os.listdir(real):
                w.remove(os.path.join(real, n))
        return local, lok, remote, rok

    def template(self, w, c, case, local, remote):
        """(arguments, is it acceptable?, what the user types)."""
        t = os.path.join(w.root, "template-new")
        vals = {"LocalDir": local, "RemoteDir": remote, "StorageLimit": case["opts"]["StorageLimit"]}
        kind = case["tmpl"]
        ok, stdin = True, None
        if kind == "missing":
            return ["-t", t], False, None
        if kind == "dir":
            os.mkdir(t)
            return ["-t", t], False, None
        if kind == "badvalue":
            vals[case["bad"][0]] = case["bad"][1]
            ok = False
        elif kind == "unknown":
            vals["NoSuchOption"] = "1"
            ok = False
        typed = ""
        if kind in ("blank", "blank-bad"):
            for k in ("LocalDir", "RemoteDir", "StorageLimit"):
                if kind == "blank-bad":
                    typed += "nonsense\n\n"
                    if k != "StorageLimit" and vals[k] in ("newlocal", "newremote"):
                        continue
                typed += vals[k] + "\n"
                vals[k] = ""
            if not (local.startswith(("/", "~/")) and remote.startswith(("/", "~/"))):
                ok = False      # the input ends before there is an acceptable answer
            p = os.path.join(w.ctl, "typed")
            with open(p, "w") as f:
                f.write(typed)
            stdin = os.open(p, os.O_RDONLY)
        with open(t, "w") as f:
            for k, v in vals.items():
                if kind == "comments":
                    f.write("  # about %s = x\n\n  %s  =  %s  \n" % (k, k, v))
                else:
                    f.write("%s=%s\n" % (k, v))
        return ["--template", t], ok, stdin

    # -- the documented rules --------------------------------------------------------------------------------
    def overlap(self, a, b):
        a, b = os.path.realpath(a), os.path.realpath(b)
        return a == b or a.startswith(b.rstrip("/") + "/") or b.startswith(a.rstrip("/") + "/")

    def dir_ok(self, p, empty):
        """Existing and writable; or, if it is to be filled, empty or to be made."""
        if os.path.exists(p):
            return os.path.isdir(p) and os.access(p, os.W_OK) and not (empty and os.listdir(p))
        if not empty:
            return False
        q = p
        while not os.path.lexists(q):
            q = os.path.dirname(q)
        return os.path.isdir(q) and os.access(q, os.W_OK)

    def unchanged(self, what, before, after, c, prog, out):
        bad = []
        for p in sorted(set(before) | set(after)):
            x, y = before.get(p), after.get(p)
            if x is not None and y is not None and x.full() == y.full():
                continue
            full = os.path.join(c.world.root, p)
            if x is None and y.kind == "d" and any((m + "/").startswith(full + "/") for m in (c.local, c.remote, os.path.join(prog, "profiles"))) \
                    and full != c.pdir:
                continue        # an empty directory was made
            bad.append("%r: %s -> %s" % (p, model.brief(x), model.brief(y)))
        if bad:
            out.bad({"init"}, "%s was refused but changed something: %s" % (what, "; ".join(bad[:4])))

    def judge(self, h, case, c, add, L0, R0, pats, out, what):
        """As for any other initialization, see hist.History.judge_init()."""
        w = h.w
        old = w.remote
        i = w.clients.index(c)
        n = len(h.viol)
        w.remote = c.remote
        try:
            # placeholders name the remote directory as the user did
            L, R = c.snap(), w.rsnap()
            named = self.expand(c, c.home_remote).rstrip("/")
            if named != c.remote:
                for e in L.values():
                    if e.kind == "l" and e.data.startswith(named + "/"):
                        e.data = c.remote + e.data[len(named):]
            h.judge_init(i, add, L0, R0, L, R, pats)
            for v in h.viol[n:]:
                out.bad({"init"} | v.tags, "%s: %s" % (what, v.msg))
            h.viol = h.viol[:n]
            want = {p: e.kind == "d" for p, e in R.items() if not model.unsafe_link(p, e, w.remote) and e.kind != "o"}
            db = c.db()
            if {p: bool(v[0]) for p, v in db.items()} != want:
                out.bad({"init", "db"}, "%s: recorded %r instead of %r" % (what, sorted(db)[:9], sorted(want)[:9]))
            rdb = w.rdb()
            if not set(want) <= set(rdb):
                out.bad({"init", "db"}, "%s: the remote database lacks %r" % (what, sorted(set(want) - set(rdb))[:5]))
        finally:
            w.remote = old


class Init(Mix):
    prop = "C12"
    parts = (("arguments", 6, InitArgs), ("killed", 1, InitKill))
