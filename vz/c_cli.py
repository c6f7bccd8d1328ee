"""C21: which profile a command acts on, what `list` shows, and how failures are reported."""
import json
import os
import re
import string

from . import hist
from . import world as W
from .base import Check, Outcome

NAMES = ["work", "home", "a", "A", "x-1", "_", "0", "été", "名前", "local0", "local1", "remote0", "config", "home_2", "zielen", "sync", "list",
         "very_long_" + "n" * 60, "profile"]
GOOD = ["name", "name", "abs", "abs", "slash", "dots", "dslash", "rel", "rel", "here", "up", "link", "linkparent", "relink", "dotrel", "clash", "linkslash"]
BAD = ["nothing", "empty", "sub", "file", "remote", "decoy", "cfg", "profiledir", "root", "upper", "pre", "suf", "nameslash", "dotname", "space", "parent",
       "danglink", "util", "newline", "placeholder"]
BROKEN = ["info-missing", "info-empty", "info-cut", "info-binary", "info-list", "info-nokeys", "cfg-empty", "cfg-junk", "cfg-nokey", "cfg-nolocal",
          "cfg-binary", "cfg-dup", "cfg-unreadable", "db-missing", "db-junk", "db-empty", "db-cut", "cfg-wrong", "local-gone", "stray"]
ARGS = [[], ["--bogus"], ["bogus"], ["sync"], ["reset"], ["empty-trash"], ["init"], ["list", "x"], ["sync", "@", "x"], ["reset", "-x", "@"],
        ["reset", "--keep", "@", "y"], ["init", "--template"], ["init", "-t", "/nonexistent", "newone"], ["init", "-e", "/nonexistent", "newone"],
        ["sync", "--bogus", "@"], ["empty-trash", "@", "@"], ["--quiet"], ["-q"], ["--debug"], ["sync", ""], [""], ["reset", ""], ["empty-trash", ""],
        ["init", ""], ["init", "a b"], ["init", "a/b"], ["init", ".."], ["init", "."], ["init", "/"], ["init", "x\ny"], ["init", "-t", "@dir", "newone"],
        ["sync", "-"], ["sync", "--"], ["sync", "\x01"], ["syn", "@"], ["SYNC", "@"], ["list", "--bogus"], ["--profile", "@"], ["sync", "-k", "@"],
        ["empty-trash", "-n", "@"], ["init", "new*one"], ["init", "new.one"], ["reset", "-t", "@"], ["sync", "@\n"], ["sync", "%s"], ["sync", "{}"],
        ["sync", "x" * 5000]]
HELP = [["--help"], ["sync", "--help"], ["reset", "--help"], ["init", "--help"], ["list", "--help"], ["empty-trash", "--help"], ["--version"], ["-q", "list"],
        ["--quiet", "list"], ["--debug", "list"]]


class Cli(Check):
    prop = "C21"
    tags = {"cli"}
    always = set()

    def gen(self, rng, tier, n):
        k = rng.choice([1, 2, 2, 3, 3, 4])
        names = rng.sample(NAMES, k)
        prof = []
        for i in range(k):
            state = rng.choices(["ok", "partial", "none"], [10, 2 if i else 0, 1 if i else 0])[0]
            if i and state == "ok" and rng.random() < 0.3:
                state = "broken"
            prof.append({"name": names[i], "state": state, "how": rng.choice(BROKEN), "k": rng.choice([rng.randrange(1, 40), rng.randrange(10, 200)]),
                         "limit": rng.choice(["10000KiB", "1 GB", "500m", "0 KiB", "30MiB"])})
        spec = {"prof": prof, "aliases": rng.random() < 0.7, "nest": rng.random() < 0.3, "spaces": rng.random() < 0.3,
                "relcfg": rng.random() < 0.2}
        steps = []
        for _ in range(rng.randint(6, 14)):
            x = rng.random()
            if x < 0.5:
                steps.append(["good", rng.choice(["sync", "sync", "sync", "empty-trash", "reset", "reset-k"]), rng.randrange(k), rng.choice(GOOD),
                              rng.random() < 0.3])
            elif x < 0.72:
                steps.append(["bad", rng.choice(["sync", "sync", "empty-trash", "reset", "reset-n"]), rng.randrange(k), rng.choice(BAD)])
            elif x < 0.84:
                steps.append(["args", rng.choice(ARGS + [[self.junk(rng) for _ in range(rng.randint(1, 3))] for _ in range(3)]), rng.randrange(k)])
            elif x < 0.9:
                steps.append(["help", rng.choice(HELP)])
            else:
                steps.append(["list"])
        steps.append(["list"])
        return {"spec": spec, "steps": steps}

    def junk(self, rng):
        return "".join(rng.choice(string.ascii_letters + "-_./*%{}\\ é=,:;'\"") for _ in range(rng.randint(1, 12)))

    # -- the world ---------------------------------------------------------------------------------------------
    def world(self, base, spec):
        w = W.World(base)
        sub = "my files" if spec["spaces"] else "dirs"
        top = os.path.join(w.root, sub, "deep/er") if spec["nest"] else w.root
        os.makedirs(top, exist_ok=True)
        cfg = os.path.join(w.root, "cfg")
        for i, pr in enumerate(spec["prof"]):
            R = os.path.join(top, "remote%d" % i)
            c = w.add_client(profile=pr["name"] , local=os.path.join(top, "local%d" % i), cfg=cfg, remote=R, opts={"StorageLimit": pr["limit"]})
            os.makedirs(c.local)
            os.makedirs(R)
            w.write(os.path.join(c.local, "f%d" % i), "file of %d" % i)
            w.write(os.path.join(c.local, "sub/g"), "other of %d" % i)
        os.makedirs(os.path.join(w.root, "links"))
        for i, c in enumerate(w.clients):
            os.symlink(c.local, os.path.join(w.root, "links", "to%d" % i))
            os.makedirs(os.path.join(w.root, "clash%d" % i))
        os.symlink(top, os.path.join(w.root, "links", "top"))
        os.symlink("nowhere", os.path.join(w.root, "links", "dangling"))
        # profile names are system-wide locks: keep other workers' apart
        w.tick()
        return w

    def start(self, w, spec, out):
        self.state = []
        for c, pr in zip(w.clients, spec["prof"]):
            st = pr["state"]
            if st == "none":
                self.state.append("none")
                continue
            if st == "partial":
                r = w.init(c, trigger=pr["k"], mode=W.M_KILL_BEFORE)
                if r.sig != 9:
                    st = "ok"
            else:
                r = w.init(c)
            if st in ("ok", "broken") and not r.ok:
                out.bad({"setup"}, "init failed: " + r.brief())
                return False
            if not os.path.isfile(os.path.join(c.pdir, "config")):
                st = "none"
            elif st == "partial":
                with open(os.path.join(c.pdir, "info.json")) as f:
                    if json.load(f)["Status"] != "partial":
                        st = "ok"       # it was about to exit
            self.state.append(st)
        for i, (c, pr) in enumerate(zip(w.clients, spec["prof"])):
            if self.state[i] == "broken":
                self.damage(w, c, pr["how"])
        return True

    def damage(self, w, c, how):
        p = lambda n: os.path.join(c.pdir, n)
        what, kind = how.split("-") if "-" in how else (how, "")
        if what == "local":
            W.wipe(c.local)
            return
        if what == "stray":
            os.remove(p("config"))
            return
        f = p({"info": "info.json", "cfg": "config", "db": "local.db"}[what])
        with open(f, "rb") as g:
            data = g.read()
        if kind == "missing":
            os.remove(f)
            return
        if kind == "unreadable":
            os.chmod(f, 0)
            return
        if kind == "nokey":
            data = b"\n".join(x for x in data.split(b"\n") if not x.startswith(b"RemoteDir"))
        elif kind == "nolocal":
            data = b"\n".join(x for x in data.split(b"\n") if not x.startswith(b"LocalDir"))
        elif kind == "dup":
            data += b"LocalDir=\nStorageLimit=lots\n"
        elif kind == "wrong":
            data = data.replace(b"StorageLimit=", b"StorageLimit=-")
        else:
            data = {"empty": b"", "cut": data[:len(data) // 2], "binary": b"\xff\xfe\x80=\xc3\x28\n" + data, "list": b"[]", "nokeys": b"{}",
                    "junk": b"junk that means nothing\n" * 50}[kind]
        with open(f, "wb") as g:
            g.write(data)

    # -- what is expected ---------------------------------------------------------------------------------------
    def resolve(self, w, arg, cwd):
        """The profile an argument stands for, worked out independently: its name first, else a directory."""
        names = {c.profile: i for i, c in enumerate(w.clients) if os.path.isfile(os.path.join(c.pdir, "config"))}
        if arg in names:
            return names[arg]
        if not arg or "\0" in arg:
            path = cwd
        else:
            path = os.path.normpath(os.path.join(cwd, arg))
        try:
            st = os.stat(path)
        except OSError:
            return None
        for name, i in names.items():
            try:
                s = os.stat(w.clients[i].local)
            except OSError:
                continue
            if (s.st_dev, s.st_ino) == (st.st_dev, st.st_ino):
                return i
        return None

    def form(self, w, i, form):
        """(argument, cwd) of a way to say profile i."""
        c = w.clients[i]
        top, base = os.path.split(c.local)
        L = os.path.join(w.root, "links")
        return {
            "name": (c.profile, w.root), "abs": (c.local, w.root), "slash": (c.local + "/", w.root), "dots": (c.local + "/sub/..", L),
            "dslash": (c.local.replace("/", "//", 3) + "//", w.root), "rel": (base, top), "here": (".", c.local), "up": ("..", c.local + "/sub"),
            "link": (os.path.join(L, "to%d" % i), w.root), "linkparent": (os.path.join(L, "top", base), w.root), "relink": ("to%d" % i, L),
            "dotrel": ("./" + base, top), "clash": (c.profile, os.path.join(w.root, "clash%d" % i)),
            "linkslash": (os.path.join(L, "to%d" % i) + "/", w.root),
            "nothing": ("nothing-like-it", w.root), "empty": ("", w.root), "sub": (os.path.join(c.local, "sub"), w.root),
            "file": (os.path.join(c.local, "f%d" % i), w.root), "remote": (c.remote, w.root), "decoy": (w.decoy, w.root), "cfg": (c.cfg, w.root),
            "profiledir": (c.pdir, w.root), "root": ("/", w.root), "upper": (c.profile.swapcase(), w.root), "pre": (c.profile[:-1], w.root),
            "suf": (c.profile + "1", w.root), "nameslash": (c.profile + "/", w.root), "dotname": ("./" + c.profile, w.root), "space": (c.profile + " ", w.root),
            "parent": ("..", c.local), "danglink": (os.path.join(L, "dangling"), w.root), "util": (os.path.join(c.remote, ".zielen"), w.root),
            "newline": (c.profile + "\n", w.root), "placeholder": (os.path.join(c.local, "sub", "g"), w.root),
        }[form]

    # -- running -------------------------------------------------------------------------------------------------
    def look(self, w):
        def fulls(p):
            try:
                return {k: e.full() for k, e in W.snapshot(p).items()}
            except OSError:
                return None
        d = {}
        for i, c in enumerate(w.clients):
            d[i] = {"local": fulls(c.local), "remote": fulls(c.remote), "profile": {k: v[:2] for k, v in (fulls(c.pdir) or {}).items()}}
        return d

    def compare(self, a, b, skip, what, out, tags=("cli",)):
        for i in a:
            if i in skip:
                continue
            for k in a[i]:
                if a[i][k] != b[i][k]:
                    ks = set(a[i][k] or ()) | set(b[i][k] or ())
                    out.bad(tags, "%s; the %s of another profile (or one that was not to be touched) changed: %s" % (
                        what, k, [(p, (a[i][k] or {}).get(p), (b[i][k] or {}).get(p)) for p in sorted(ks)
                                  if (a[i][k] or {}).get(p) != (b[i][k] or {}).get(p)][:3]))
                    return

    def clean(self, r, out, what):
        if r.tb or "Traceback" in r.err:
            out.bad({"cli"}, "%s: a stack trace instead of a message: %s" % (what, (r.tb or r.err).strip().splitlines()[-1]))
        elif r.rc == 0 or r.sig:
            out.bad({"cli"}, "%s: should have failed" % what)
        elif not re.search(r"^Error: .*\S", r.err, re.M):
            out.bad({"cli"}, "%s: no message on stderr: %r" % (what, r.err[-200:]))
        elif len(r.err) > 12000:
            out.bad({"cli"}, "%s: the message is %d characters long" % (what, len(r.err)))

    def run(self, base, case):
        out = Outcome()
        spec = case["spec"]
        w = self.world(base, spec)
        try:
            # a name is a lock shared by all processes of a user: make it unique to this worker
            for c in w.clients:
                c.plain = c.profile
                c.profile = "%s-%d" % (c.profile, os.getpid()) if not spec["relcfg"] else "%s_%d" % (c.profile, os.getpid())
            for i, c in enumerate(w.clients):
                # a link to another profile's directory that is called like this profile
                os.symlink(w.clients[i - 1].local, os.path.join(w.root, "clash%d" % i, c.profile))
            if not self.start(w, spec, out):
                return out
            names = {}
            for n, st in enumerate(case["steps"]):
                getattr(self, "do_" + st[0])(w, spec, st, n, out)
                if out.viols:
                    break
                names[st[0]] = names.get(st[0], 0) + 1
            if not w.decoy_ok():
                out.bad({"cli"}, "files outside were changed")
            out.sig = (tuple(sorted((s, p["how"] if s == "broken" else "") for s, p in zip(self.state, spec["prof"]))),
                       tuple(tuple(str(x)[:12] for x in st) for st in case["steps"]))
            out.sample = {"profiles": [[c.profile, s] for c, s in zip(w.clients, self.state)], "steps": case["steps"][:5]}
            out.stats["commands"] += w.commands
        finally:
            w.close()
        return out

    def touch(self, w, n):
        for i, c in enumerate(w.clients):
            if os.path.isdir(c.local):
                w.write(os.path.join(c.local, "new%d" % n), "new %d of %d" % (n, i))
            t = os.path.join(c.remote, ".zielen", "Trash")
            if os.path.isdir(t):
                w.write(os.path.join(t, "junk%d" % n), "junk")
        w.tick()

    def argv(self, cmd, arg):
        cmd, _, fl = cmd.partition("-") if cmd.startswith("reset-") else (cmd, "", "")
        return [cmd] + (["-" + fl] if fl else []) + [arg]

    def do_good(self, w, spec, st, n, out):
        _, cmd, i, form, quiet = st
        self.act(w, cmd, i, form, n, out, quiet)

    def do_bad(self, w, spec, st, n, out):
        _, cmd, i, form = st
        self.act(w, cmd, i, form, n, out, False)

    def act(self, w, cmd, i, form, n, out, quiet):
        arg, cwd = self.form(w, i, form)
        if not os.path.isdir(cwd):
            return
        self.touch(w, n)
        who = self.resolve(w, arg, cwd)
        a = self.look(w)
        argv = self.argv(cmd, arg)
        if quiet:
            argv = ["--quiet"] + argv
        r = w.run(w.clients[i], argv, cwd=cwd)
        b = self.look(w)
        what = "%r in %s (%s of %s, which is %s)" % (argv, cwd, form, w.clients[i].profile, self.state[i])
        if r.escapes:
            out.bad({"cli"}, "%s touched %r" % (what, r.escapes[:2]))
        out.stats["form:" + form] += 1
        if who is None:
            out.stats["refused"] += 1
            self.clean(r, out, what)
            self.compare(a, b, (), what, out)
            return
        c, state = w.clients[who], self.state[who]
        if quiet and r.ok and r.out.strip():
            out.bad({"cli"}, "%s printed %r" % (what, r.out[:100]))
        self.compare(a, b, (who,), what, out)
        if state == "broken":
            out.stats["broken"] += 1
            if not r.ok:
                self.clean(r, out, what)
            if not r.ok or cmd == "empty-trash":
                # a failure must not cost anything
                miss = {k for k in (a[who]["local"] or {}) if k not in (b[who]["local"] or {})}
                miss |= {k for k in (a[who]["remote"] or {}) if k not in (b[who]["remote"] or {}) and not k.startswith(".zielen")}
                if miss:
                    out.bad({"cli"}, "%s failed, but %r is gone" % (what, sorted(miss)[:3]))
            elif cmd.startswith("reset"):
                self.state[who] = "none"
            return
        if state == "partial":
            out.stats["partial"] += 1
            self.clean(r, out, what)
            if "init" not in r.err:
                out.bad({"cli"}, "%s: the user is not told what to do: %r" % (what, r.err))
            self.compare({who: a[who]}, {who: b[who]}, (), what, out)
            return
        out.stats["acted"] += 1
        if not r.ok:
            out.bad({"cli"}, "%s failed: %s" % (what, r.brief()))
            return
        if r.err.strip():
            out.bad({"cli"}, "%s succeeded, but wrote %r to stderr" % (what, r.err[:200]))
        if cmd == "sync":
            if "new%d" % n not in b[who]["remote"]:
                out.bad({"cli"}, "%s did not sync %s" % (what, c.profile))
        elif cmd == "empty-trash":
            if any(k.startswith(".zielen/Trash/") for k in b[who]["remote"]):
                out.bad({"cli"}, "%s did not empty the trash of %s" % (what, c.profile))
            if b[who]["local"] != a[who]["local"]:
                out.bad({"cli"}, "%s changed the local directory" % what)
        else:
            if os.path.lexists(os.path.join(c.pdir, "config")):
                out.bad({"cli"}, "%s did not remove the profile %s" % (what, c.profile))
            if cmd != "reset-n" and any(k not in b[who]["local"] for k in ("f%d" % who, "sub/g")):
                out.bad({"cli"}, "%s did not bring back the files" % what)
            self.state[who] = "none"

    def do_args(self, w, spec, st, n, out):
        c = w.clients[st[2]]
        argv = [x.replace("@dir", w.decoy).replace("@", c.profile) for x in st[1]]
        if self.legal(w, argv):
            return
        a = self.look(w)
        r = w.run(c, argv)
        b = self.look(w)
        out.stats["bad_arguments"] += 1
        if "--debug" not in argv:
            self.clean(r, out, "%r" % (argv,))
        elif r.ok:
            out.bad({"cli"}, "%r should have failed" % (argv,))
        self.compare(a, b, (), "%r" % (argv,), out)
        for n in ("newone", "a b", "x\ny", "new*one", "new.one"):
            if os.path.lexists(os.path.join(c.cfg, "zielen", "profiles", n)):
                out.bad({"cli"}, "%r left a profile %r behind" % (argv, n))

    def legal(self, w, argv):
        """Would this (made up) command line mean something?"""
        if any(x in ("--help", "--version") or x.startswith("--h") or x.startswith("--v") for x in argv):
            return True
        rest = [x for x in argv if not x.startswith("-")]
        if rest[:1] == ["list"] and len(argv) == 1:
            return True
        if len(rest) >= 2 and rest[0] in ("sync", "reset", "empty-trash") and self.resolve(w, rest[1], w.root) is not None and len(rest) == 2:
            return not any(x.startswith("-") for x in argv)
        return False

    def do_help(self, w, spec, st, n, out):
        a = self.look(w)
        r = w.run(w.clients[0], st[1])
        b = self.look(w)
        what = "%r" % (st[1],)
        if "list" in st[1] and "--help" not in st[1]:
            if not self.readable(w):
                return
            if not r.ok:
                out.bad({"cli"}, "%s failed: %s" % (what, r.brief()))
            if ("-q" in st[1] or "--quiet" in st[1]) and r.out.strip():
                out.bad({"cli"}, "%s printed %r" % (what, r.out[:100]))
        else:
            if not r.ok or r.err.strip():
                out.bad({"cli"}, "%s failed: %s" % (what, r.brief()))
            if not r.out.strip():
                out.bad({"cli"}, "%s printed nothing" % what)
        out.stats["help"] += 1
        self.compare(a, b, (), what, out)

    def readable(self, w):
        """Can every config file be read?"""
        for c in w.clients:
            p = os.path.join(c.pdir, "config")
            if os.path.isfile(p):
                try:
                    with open(p, encoding="utf-8") as f:
                        f.read()
                except (OSError, ValueError):
                    return False
        return True

    def do_list(self, w, spec, st, n, out):
        a = self.look(w)
        r = w.run(w.clients[0], ["list"])
        b = self.look(w)
        self.compare(a, b, (), "list", out)
        out.stats["lists"] += 1
        want, open_ = {}, set()
        for i, c in enumerate(w.clients):
            p = os.path.join(c.pdir, "config")
            if not os.path.isfile(p):
                continue
            if self.state[i] == "broken":
                open_.add(c.profile)
            else:
                want[c.profile] = (c.local, c.remote, c.opts["StorageLimit"])
        if not self.readable(w):
            if not r.ok:
                self.clean(r, out, "list")
                return
        elif not r.ok:
            out.bad({"cli"}, "list failed: %s" % r.brief())
            return
        rows = {}
        for line in r.out.split("\n"):
            line = re.sub("\x1b\\[[0-9;]*m", "", line)
            if line.startswith("\u2502"):
                f = [x.strip() for x in line.strip("\u2502").split("\u2502")]
                if f[0] in rows:
                    out.bad({"cli"}, "list shows %r twice" % f[0])
                rows[f[0]] = tuple(f[1:])
        head = rows.pop("Profile", None)
        if not want and not open_:
            if rows or "No profiles" not in r.out:
                out.bad({"cli"}, "list without profiles printed %r" % r.out[:200])
            return
        if head != ("Local Directory", "Remote Directory", "Limit"):
            out.bad({"cli"}, "list has the headings %r" % (head,))
        for n in sorted(set(want) | set(rows)):
            if n in open_:
                continue
            if rows.get(n) != want.get(n):
                out.bad({"cli"}, "list shows %r for the profile %r, which is %r" % (rows.get(n), n, want.get(n)))
