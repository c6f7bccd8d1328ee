"""C19: what configuration values mean, and that wrong ones are refused.

Three kinds of cases: config files read by the program's own profile object in a forked child ("values"), templates turned into
config files by `zielen init` ("template"), and commands run with a config file that is wrong ("refuse"). The meaning of every
value is worked out here from the documentation, character by character, without the program's regular expressions.
"""
import json
import os

from . import hist
from . import world as W
from .base import Check, Mix, Outcome

REQUIRED = ["LocalDir", "RemoteDir", "StorageLimit"]
BOOLS = ["UseTrash", "InflatePriority", "AccountForSize"]
NUMS = ["SyncInterval", "PriorityHalfLife", "TrashCleanupPeriod"]
DEFAULTS = {"SyncInterval": "20", "PriorityHalfLife": "120", "UseTrash": "yes", "TrashCleanupPeriod": "30", "InflatePriority": "yes",
            "AccountForSize": "yes"}
ALL = REQUIRED + list(DEFAULTS)
DIGITS = "0123456789"
WS = " \t"


def digits(s):
    return bool(s) and all(ch in DIGITS for ch in s)


def meaning(key, v, home):
    """(value, None) or (None, 'bad'), or (None, None) when the documentation leaves it open."""
    if key in ("LocalDir", "RemoteDir"):
        if not v:
            return None, "bad"
        if v.startswith("~/"):
            v = home + v[1:]
        elif not v.startswith("/"):
            return None, "bad"
        if v.startswith("//") and not v.startswith("///"):
            return None, None       # POSIX leaves that open
        return os.path.normpath(v), None
    if key == "StorageLimit":
        i = 0
        while i < len(v) and v[i] in DIGITS:
            i += 1
        n, u = v[:i], v[i:].lstrip(WS + "\x0b\x0c").lower()
        if not n or u not in ("k", "m", "g", "kb", "mb", "gb", "kib", "mib", "gib"):
            return None, "bad"
        return int(n) * (1000 if u in ("kb", "mb", "gb") else 1024) ** ("kmg".index(u[0]) + 1), None
    if key in BOOLS:
        if v == "":
            return DEFAULTS[key] == "yes", None
        if v.lower() in ("yes", "true"):
            return True, None
        if v.lower() in ("no", "false"):
            return False, None
        return None, "bad"
    if v == "":
        return None, None           # blank: the default or an error
    if key == "SyncInterval":
        return (int(v) * 60, None) if digits(v) else (None, "bad")
    if key == "PriorityHalfLife":
        return (int(v) * 3600, None) if digits(v) and int(v) > 0 else (None, "bad")
    if key == "TrashCleanupPeriod":
        if v.startswith("-") and digits(v[1:]):
            return (None, None) if int(v) == 0 else ("never", None)
        return (int(v) * 86400, None) if digits(v) else (None, "bad")
    raise AssertionError(key)


def parse(text):
    """{key: value} of a config file: the last of several lines counts."""
    out = {}
    for line in text.split("\n"):
        if line.lstrip().startswith("#") or "=" not in line:
            continue
        k, _, v = line.partition("=")
        out[k.strip()] = v.strip()
    return out


def expected(text, home):
    """({attribute: value}, [keys that are wrong], [keys left open])"""
    raw = parse(text)
    vals, bad, open_ = {}, [], []
    for k in REQUIRED:
        if k not in raw:
            bad.append(k)
    for k in raw:
        if k not in ALL:
            bad.append(k)
    for k in ALL:
        if k in raw or k in DEFAULTS:
            v, e = meaning(k, raw.get(k, DEFAULTS.get(k)), home)
            if e:
                bad.append(k)
            elif v is None:
                open_.append(k)
            else:
                vals[k] = v
    return vals, bad, open_


ATTR = {"LocalDir": "local_path", "RemoteDir": "remote_path", "StorageLimit": "storage_limit", "SyncInterval": "sync_interval",
        "PriorityHalfLife": "priority_half_life", "UseTrash": "use_trash", "TrashCleanupPeriod": "cleanup_period",
        "InflatePriority": "inflate_priority", "AccountForSize": "account_for_size"}


def rand_value(rng, key, good=None):
    """A value, usually of a sensible shape."""
    good = rng.random() < 0.8 if good is None else good
    if not good:
        return rng.choice(["", "x", "10", "-5", "1.5", "10 XB", "GB", "10G B", "1e3", "ten", "maybe", "0x10", "10 ", "+3", "--1", "- 1", "y", "on",
                           "1", "0", "yes no", "~", "~user/x", "relative/p", "./x", "$HOME/x", "10TB", "10KiBB", "10 K i B", "=", "1 0MB", "10,5MB",
                           "-10MB", "K", "None", "10BK", "10IB", "5kbit", "١٢", "file:///x"])
    if key in ("LocalDir", "RemoteDir"):
        return rng.choice(["/", "~/", "/a/", "/a/../", "~/x/../", "/./", "/a//", "~/../", "~//", "/a b/", "/ü/", "/#", "/x=y/", "/~/"]) + \
            rng.choice(["loc", "rem", "a b", "x/y", "x/./y", "", "z/", "~", "ü", "a=b", "[x]", "'q'"])
    if key == "StorageLimit":
        n = rng.choice(["0", "1", "7", "10", "007", "1024", "99999", str(rng.randrange(10 ** 6))])
        u = rng.choice("kmgKMG") + rng.choice(["", "", "b", "B", "ib", "iB", "IB", "Ib"])
        return n + rng.choice(["", "", " ", "  ", "\t"]) + u
    if key in BOOLS:
        v = rng.choice(["yes", "no", "true", "false"])
        return rng.choice([v, v.upper(), v.title(), "".join(rng.choice([ch, ch.upper()]) for ch in v), "" if rng.random() < 0.5 else v])
    n = rng.choice(["0", "1", "2", "30", "007", "365", "100000", str(rng.randrange(10 ** 5))])
    if key == "TrashCleanupPeriod" and rng.random() < 0.4:
        return rng.choice(["-1", "-2", "-30", "-07", "-1000"])
    return n


def rand_text(rng, fix=None):
    """The text of a config file."""
    lines = []
    keys = list(REQUIRED) + [k for k in DEFAULTS if rng.random() < 0.6]
    if rng.random() < 0.06:
        keys.remove(rng.choice(keys[:3]))
    if rng.random() < 0.06:
        keys.append(rng.choice(["Localdir", "storagelimit", "Foo", "X", "SyncIntervall", "", "Local Dir"]))
    rng.shuffle(keys)
    if rng.random() < 0.15:
        keys.append(rng.choice(ALL))        # twice
    wrong = rng.random() < 0.3
    bad = rng.choice(keys) if wrong else None
    for k in keys:
        v = (fix or {}).get(k)
        if v is None:
            v = rand_value(rng, k, good=k != bad) if k in ALL else "1"
        x = rng.random()
        sep = "=" if x < 0.6 else " = " if x < 0.8 else "=  " if x < 0.9 else "\t=\t"
        lines.append(rng.choice(["", "", "", " ", "\t"]) + k + sep + v + rng.choice(["", "", "", " ", "\t"]))
        while rng.random() < 0.35:
            lines.append(rng.choice(["# comment", "", "   # LocalDir=/elsewhere", "#StorageLimit=1KB", "free text without a sign", "  ",
                                     "#", "# UseTrash=no", "ünïcödé", "#" * 40]))
    return "\n".join(lines) + rng.choice(["\n", "\n", ""])


class Conf(Check):
    prop = "C19"
    tags = {"conf"}
    always = {"conf"}

    def world(self, base):
        w = W.World(base)
        c = w.add_client()
        os.mkdir(c.local)
        w.write(os.path.join(c.local, "f"), "f")
        r = w.init(c)
        if not r.ok:
            raise W.Inconclusive("init failed: " + r.brief())
        return w, c


class Values(Conf):
    """Config files, read through the profile object; many per world."""

    def gen(self, rng, tier, n):
        return {"texts": [rand_text(rng) for _ in range(40)]}

    def run(self, base, case):
        out = Outcome()
        w, c = self.world(base)
        for text in case["texts"]:
            with open(os.path.join(c.pdir, "config"), "w") as f:
                f.write(text)

            def read():
                from zielen.profile import Profile
                from zielen.exceptions import ProgramError
                p = Profile(c.profile)
                try:
                    p.read()
                except ProgramError as e:
                    print(json.dumps({"error": [str(x) for x in e.args]}))
                    return
                print(json.dumps({k: getattr(p, a) for k, a in ATTR.items()}))
            r = w.run(c, ["values"], func=read)
            vals, bad, open_ = expected(text, c.home)
            out.stats["files"] += 1
            out.stats["values"] += len(vals)
            what = "config file %r" % text
            if not r.ok or not r.out.strip():
                out.bad({"conf"}, "%s: %s" % (what, r.brief()))
                continue
            got = json.loads(r.out)
            if "error" in got:
                out.stats["rejected"] += 1
                msg = "\n".join(got["error"])
                if not bad and not open_:
                    out.bad({"conf"}, "%s is rejected: %r" % (what, got["error"]))
                for k in bad:
                    if "'%s'" % k not in msg:
                        out.bad({"conf"}, "%s: the error doesn't name %r: %r" % (what, k, msg))
                continue
            if bad:
                out.bad({"conf"}, "%s is accepted in spite of %r: %r" % (what, bad, {k: got.get(k) for k in bad}))
                continue
            for k, v in vals.items():
                g = got[k]
                if k == "TrashCleanupPeriod" and g is None:
                    g = "never"
                if g != v or isinstance(g, bool) != isinstance(v, bool):
                    out.bad({"conf"}, "%s: %s means %r, not %r" % (what, k, v, g))
        if out.viols and len(case["texts"]) > 1:
            # keep the replay small
            for t in case["texts"]:
                if self.run(base, {"texts": [t]}).viols:
                    case["texts"] = [t]
                    break
        out.sig = repr(case["texts"])
        out.sample = {"text": case["texts"][0]}
        return out


class Refuse(Conf):
    """Commands with a config file that is wrong: a clean error which names the option, and nothing changes."""

    def gen(self, rng, tier, n):
        runs = []
        while len(runs) < 6:
            t = rand_text(rng, {"LocalDir": "%L", "RemoteDir": "%R"} if rng.random() < 0.8 else None)
            if expected(t.replace("%L", "/l").replace("%R", "/r"), "/h")[1]:
                runs.append([t, rng.choice(["sync", "sync", "reset", "reset-k", "reset-n", "empty", "path"])])
        return {"runs": runs}

    def run(self, base, case):
        out = Outcome()
        w, c = self.world(base)
        w.write(os.path.join(c.local, "new"), "new")
        for text, cmd in case["runs"]:
            text = text.replace("%L", c.local).replace("%R", c.remote)
            bad = expected(text, c.home)[1]
            with open(os.path.join(c.pdir, "config"), "w") as f:
                f.write(text)
            before = {p: e.full() for p, e in W.snapshot(w.root).items()}
            argv = {"sync": ["sync"], "path": ["sync"], "reset": ["reset"], "reset-k": ["reset", "-k"], "reset-n": ["reset", "-n"],
                    "empty": ["empty-trash"]}[cmd] + [c.local if cmd == "path" else c.profile]
            r = w.run(c, argv)
            after = {p: e.full() for p, e in W.snapshot(w.root).items()}
            what = "config file %r: %s" % (text, r.brief())
            out.stats["refused"] += 1
            if not r.clean_error:
                out.bad({"conf"}, what)
            elif cmd != "path":
                for k in bad:
                    if "'%s'" % k not in r.err:
                        out.bad({"conf"}, "%s: the error doesn't name %r" % (what, k))
            if before != after:
                out.bad({"conf"}, "%s; changed %r" % (what, [p for p in set(before) | set(after) if before.get(p) != after.get(p)][:4]))
        out.sig = repr(case["runs"])
        out.sample = {"text": case["runs"][0]}
        return out


class Template(Conf):
    """init --template: the config file is the template with the answers filled in."""

    def gen(self, rng, tier, n):
        fix = {"LocalDir": "%L", "RemoteDir": "%R"}
        blank = [k for k in REQUIRED if rng.random() < 0.3]
        for k in blank:
            fix[k] = ""
        t = rand_text(rng, fix)
        tries = {k: [rand_value(rng, k, False) for _ in range(rng.choice([0, 0, 1, 2]))] for k in REQUIRED}
        limit = rand_value(rng, "StorageLimit", True)
        return {"text": t, "tries": tries, "limit": limit}

    def run(self, base, case):
        out = Outcome()
        w = W.World(base)
        c = w.add_client()
        os.mkdir(c.local)
        w.write(os.path.join(c.local, "f"), "f")
        text = case["text"].replace("%L", c.local).replace("%R", c.remote)
        tmpl = os.path.join(w.root, "tmpl")
        with open(tmpl, "w") as f:
            f.write(text)
        raw = parse(text)
        # what is wrong with the template itself? Blank required values are asked for.
        wrong = [k for k in REQUIRED if k not in raw] + [k for k in raw if k not in ALL]
        open_ = []
        for k, v in raw.items():
            if k in ALL and v:
                m, e = meaning(k, v, c.home)
                if e:
                    wrong.append(k)
                elif m is None:
                    open_.append(k)
        ask = [k for k in REQUIRED if k in raw and not raw[k]]
        answers = {"LocalDir": c.local, "RemoteDir": c.remote, "StorageLimit": case["limit"]}
        script = []
        for k in ask:
            script += [x for x in case["tries"][k] if meaning(k, x.strip(), c.home)[1]] + [" " + answers[k] + " "]
        p = os.path.join(w.root, "stdin")
        with open(p, "w") as f:
            f.write("".join(x + "\n" for x in script))
        fd = os.open(p, os.O_RDONLY)
        w.tick(1)
        r = w.run(c, ["init", "--template", tmpl, c.profile], stdin=fd)
        os.close(fd)
        what = "template %r, answers %r: %s" % (text, script, r.brief())
        out.sig = repr(case)
        out.sample = {"template": text, "answers": script}
        cfg = os.path.join(c.pdir, "config")
        if wrong:
            out.stats["templates_refused"] += 1
            if not r.clean_error:
                out.bad({"conf"}, "%s (%r is wrong)" % (what, wrong))
            else:
                for k in wrong:
                    if "'%s'" % k not in r.err:
                        out.bad({"conf"}, "%s: the error doesn't name %r" % (what, k))
            if os.path.lexists(c.pdir) or os.path.lexists(c.remote):
                out.bad({"conf"}, "%s left something behind" % what)
            return out
        want = dict(raw)
        for k in ask:
            want[k] = answers[k]
        # the directories may be unusable for other reasons, which C12 is about
        usable = [want["LocalDir"] == c.local and want["RemoteDir"] == c.remote]
        if not all(usable):
            if r.crashed:
                out.bad({"conf"}, what)
            return out
        if not r.ok:
            out.bad({"conf"}, what)
            return out
        out.stats["templates"] += 1
        out.stats["answers"] += len(script)
        with open(cfg) as f:
            got = f.read()
        if parse(got) != want:
            out.bad({"conf"}, "%s: the values became %r instead of %r" % (what, parse(got), want))

        def rest(t):
            return [x.strip() for x in t.split("\n") if x.lstrip().startswith("#") or "=" not in x]
        a, b = rest(text), rest(got)
        if [x for x in a if x] != [x for x in b if x]:
            out.bad({"conf"}, "%s: comments and other lines became %r" % (what, b))
        keys = [x.partition("=")[0].strip() for x in text.split("\n") if not x.lstrip().startswith("#") and "=" in x]
        gotk = [x.partition("=")[0].strip() for x in got.split("\n") if not x.lstrip().startswith("#") and "=" in x]
        if keys != gotk:
            out.bad({"conf"}, "%s: the options became %r" % (what, gotk))
        # what was asked for is what counts
        blanks = [k for k in NUMS if raw.get(k) == ""]
        w.tick(1)
        r = w.run(c, ["sync", c.profile])
        if not r.ok and not (blanks and r.clean_error):
            out.bad({"conf"}, "%s; then: %s" % (what, r.brief()))
        return out


class Configs(Mix):
    prop = "C19"
    parts = (("values", 4, Values), ("refuse", 1, Refuse), ("template", 4, Template))
