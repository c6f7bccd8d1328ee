"""A scratch world in which the real zielen commands run, observed from outside.

A world is one directory holding a remote directory, one local directory and configuration home per client,
and a decoy area that no command has any business touching. Every command is the real `scripts/zielen` of the
tree under test, executed in a forked child with the LD_PRELOAD monitor (shim.c) armed.
"""
import atexit
import ctypes
import errno
import hashlib
import os
import runpy
import shutil
import signal
import sqlite3
import stat as statmod
import subprocess
import sys
import time
import traceback

REPO = os.environ.get("VZ_REPO", "/repo")

M_NONE, M_KILL_BEFORE, M_KILL_AFTER, M_KILL_PARTIAL, M_SIGNAL, M_STOP, M_ERRNO, M_DOWN, M_STOP_AFTER, M_ERRNO_ON, M_LOOK_ERR, M_LOOK_ERR_ON, M_LOOK_STOP, M_STAT_ERR, M_STAT_STOP = range(15)

_lib = ctypes.CDLL(None)
try:
    _lib.shim_setup.argtypes = [ctypes.c_char_p, ctypes.c_int]
    _lib.shim_clock.argtypes = [ctypes.c_double]
    _lib.shim_arm.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_char_p]
    HAVE_SHIM = True
except AttributeError:
    HAVE_SHIM = False


class Inconclusive(Exception):
    """The run could not decide: watchdog fired, monitor missing, environment trouble."""


class Result:
    def __init__(self, argv, rc, sig, out, err, tb, log):
        self.argv, self.rc, self.sig, self.out, self.err, self.tb = argv, rc, sig, out, err, tb
        self.ops = [x for x in log if x[0] == "OP"]
        self.escapes = [x for x in log if x[0] == "ESC"]
        self.errs = [x for x in log if x[0] in ("ERR", "DOWN")]
        self.looks = [x for x in log if x[0] == "LOOK"]
        self.stats = [x for x in log if x[0] == "STAT"]
        self.log = log

    @property
    def ok(self):
        return self.rc == 0 and self.sig == 0

    @property
    def clean_error(self):
        """The documented way to fail: exit status 1, 'Error: ...' lines, no stack trace."""
        return self.rc == 1 and self.sig == 0 and not self.tb and "Error: " in self.err

    @property
    def crashed(self):
        return bool(self.tb)

    def brief(self):
        s = "%s -> rc=%s sig=%s" % (" ".join(self.argv), self.rc, self.sig)
        if self.tb:
            s += " TRACEBACK " + self.tb.strip().splitlines()[-1]
        elif self.rc:
            s += " err=" + self.err.strip()[-300:]
        return s

    def __repr__(self):
        return "<%s>" % self.brief()


class Entry:
    """One observed directory entry."""
    __slots__ = ("kind", "data", "mtime", "mode", "size", "blocks", "ino")

    def __init__(self, kind, data, st):
        self.kind = kind            # 'f', 'd', 'l', 'o'
        self.data = data            # content digest (f) or link target (l)
        self.mtime = st.st_mtime_ns
        self.mode = statmod.S_IMODE(st.st_mode)
        self.size = st.st_size
        self.blocks = st.st_blocks
        self.ino = st.st_ino

    def key(self):
        return (self.kind, self.data)

    def full(self):
        return (self.kind, self.data, self.mtime if self.kind != "d" else 0, self.mode if self.kind != "l" else 0)

    def __repr__(self):
        return "%s:%s" % (self.kind, self.data if self.data is None else self.data[:40])


def digest(path):
    with open(path, "rb") as f:
        b = f.read()
    if len(b) <= 24:
        return "=" + b.decode("latin-1")
    return hashlib.md5(b).hexdigest()[:12] + "/%d" % len(b)


def snapshot(top, skip=()):
    """Every entry under `top` (symlinks not followed), as {relative path: Entry}."""
    out = {}

    def walk(d, rel):
        for name in os.listdir(d):
            r = name if not rel else rel + "/" + name
            if r in skip:
                continue
            p = os.path.join(d, name)
            st = os.lstat(p)
            if statmod.S_ISLNK(st.st_mode):
                out[r] = Entry("l", os.readlink(p), st)
            elif statmod.S_ISDIR(st.st_mode):
                out[r] = Entry("d", None, st)
                walk(p, r)
            elif statmod.S_ISREG(st.st_mode):
                out[r] = Entry("f", digest(p), st)
            else:
                out[r] = Entry("o", None, st)

    if os.path.isdir(top):
        walk(top, "")
    return out


def wipe(path):
    """Remove a scratch tree, whatever its permissions."""
    assert path.startswith(("/dev/shm/vz.", "/tmp/vz.")), path
    if os.path.islink(path) or not os.path.isdir(path):
        try:
            os.unlink(path)
        except FileNotFoundError:
            pass
        return
    for d, dirs, files in os.walk(path):
        for n in dirs:
            p = os.path.join(d, n)
            if not os.path.islink(p):
                try:
                    os.chmod(p, 0o700)
                except OSError:
                    pass
    shutil.rmtree(path, ignore_errors=True)


class Client:
    def __init__(self, world, name, local, cfg, profile, remote, opts):
        self.world, self.name, self.local, self.cfg, self.profile = world, name, local, cfg, profile
        self.remote = remote
        self.opts = dict(opts)
        self.home = os.path.join(world.root, "home")
        self.excludes = []

    @property
    def pdir(self):
        return os.path.join(self.cfg, "zielen", "profiles", self.profile)

    def write_config(self, path, **over):
        vals = {"LocalDir": self.local, "RemoteDir": self.remote}
        vals.update(self.opts)
        vals.update(over)
        with open(path, "w") as f:
            f.write("# generated by the harness\n")
            for k, v in vals.items():
                if v is not None:
                    f.write("%s=%s\n" % (k, v))

    def set_excludes(self, pats):
        self.excludes = list(pats)
        with open(os.path.join(self.pdir, "exclude"), "w") as f:
            f.write("# patterns\n" + "".join(p + "\n" for p in pats))

    def snap(self):
        return snapshot(self.local)

    def db(self):
        """The profile database as {path: (directory, priority, local)}, read independently."""
        return read_db(os.path.join(self.pdir, "local.db"), ("path", "directory", "priority", "local"))


def read_db(path, cols):
    if not os.path.isfile(path):
        return {}
    c = sqlite3.connect(path, timeout=20)
    try:
        rows = c.execute("SELECT %s FROM nodes" % ", ".join(cols)).fetchall()
    finally:
        c.close()
    return {r[0]: tuple(r[1:]) for r in rows}


class World:
    seq = 0
    frozen = False      # a command is running: its clock can't be moved

    def __init__(self, base, real_time=False, root_name="w", tz=None, umask=0o022):
        self.base = base
        self.root = os.path.join(base, root_name)
        self.ctl = os.path.join(base, "ctl")
        self.real_time = real_time
        self.tz = tz
        self.umask = umask
        self.offset = 0.0
        wipe(self.root)
        os.makedirs(self.root)
        os.makedirs(self.ctl, exist_ok=True)
        os.mkdir(os.path.join(self.root, "home"))
        self.decoy = os.path.join(self.root, "decoy")
        os.mkdir(self.decoy)
        for i in range(3):
            with open(os.path.join(self.decoy, "precious%d" % i), "w") as f:
                f.write("decoy %d" % i)
        os.mkdir(os.path.join(self.decoy, "dir"))
        with open(os.path.join(self.decoy, "dir", "inner"), "w") as f:
            f.write("decoy inner")
        self.decoy_snap = snapshot(self.decoy)
        self.remote = os.path.join(self.root, "remote")
        self.clients = []
        self.commands = 0
        self.ops_seen = 0
        self.trace = []

    # -- clock ---------------------------------------------------------------------------------------------
    def now(self):
        return time.time() + self.offset

    def tick(self, seconds=2.0):
        """Let time pass: virtually, or really when the world runs in real time."""
        if self.real_time or self.frozen:
            time.sleep(0.012)
        else:
            self.offset += seconds

    # -- running commands ----------------------------------------------------------------------------------
    def add_client(self, profile=None, local=None, cfg=None, opts=None, remote=None):
        i = len(self.clients)
        World.seq += 1
        profile = profile or "p%d-%d-%d" % (os.getpid(), World.seq, i)
        c = Client(self, "c%d" % i, local or os.path.join(self.root, "local%d" % i),
                   cfg or os.path.join(self.root, "cfg%d" % i), profile, remote or self.remote,
                   opts or {"StorageLimit": "10000KiB"})
        self.clients.append(c)
        return c

    def env_for(self, client):
        e = {"HOME": client.home, "XDG_CONFIG_HOME": client.cfg, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
             "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "COLUMNS": "80"}
        if self.tz:
            e["TZ"] = self.tz
        return e

    def start(self, client, argv, cwd=None, trigger=-1, mode=M_NONE, arg=0, prefix=None, env=None, func=None, stdin=None):
        """Fork a child that runs one command; returns its handle."""
        World.seq += 1
        tag = "%d" % (World.seq % 64)
        out, err, tbf, logf = (os.path.join(self.ctl, n + tag) for n in ("out", "err", "tb", "log"))
        for p in (tbf, out, err, logf):
            if os.path.exists(p):
                os.unlink(p)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            rc = 70
            try:
                atexit._clear()
                os.setpgid(0, 0)
                _lib.prctl(1, signal.SIGKILL, 0, 0, 0)      # PR_SET_PDEATHSIG: end with the worker
                fd0 = os.open("/dev/null", os.O_RDONLY) if stdin is None else stdin
                os.dup2(fd0, 0)
                o = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(o, 1)
                e = os.open(err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(e, 2)
                lg = os.open(logf, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o600)
                tbfd = os.open(tbf, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.environ.clear()
                os.environ.update(self.env_for(client) if env is None else env)
                time.tzset()
                os.umask(self.umask)
                os.chdir(cwd or self.root)
                if HAVE_SHIM:
                    _lib.shim_setup(self.root.encode(), lg)
                    if self.offset:
                        _lib.shim_clock(self.offset)
                    _lib.shim_arm(trigger, mode, arg, prefix.encode() if prefix else None)
                sys.argv = ["zielen"] + list(argv)
                try:
                    try:
                        if func is not None:
                            func()
                            rc = 0
                        else:
                            runpy.run_path(os.path.join(REPO, "scripts", "zielen"), run_name="__main__")
                            rc = 0
                    except SystemExit as ex:
                        rc = ex.code if isinstance(ex.code, int) else (0 if ex.code is None else 1)
                    except BaseException:
                        t = traceback.format_exc()
                        os.write(tbfd, t.encode("utf-8", "replace"))
                        rc = 1
                    try:
                        atexit._run_exitfuncs()
                    except BaseException:
                        os.write(tbfd, ("atexit: " + traceback.format_exc()).encode("utf-8", "replace"))
                    if HAVE_SHIM:
                        _lib.shim_disarm()
                    try:
                        sys.stdout.flush()
                        sys.stderr.flush()
                    except BaseException:
                        pass
                except BaseException:
                    rc = 71
            finally:
                os._exit(rc)
        self.commands += 1
        return {"pid": pid, "argv": list(argv), "out": out, "err": err, "tb": tbf, "log": logf}

    def finish(self, h, timeout=60):
        """Wait for a command started with start()."""
        deadline = time.monotonic() + timeout
        nap = 0.0005
        while True:
            pid, status = os.waitpid(h["pid"], os.WNOHANG)
            if pid:
                break
            if time.monotonic() > deadline:
                os.kill(h["pid"], signal.SIGKILL)
                os.waitpid(h["pid"], 0)
                raise Inconclusive("command did not finish in %d s: %s" % (timeout, h["argv"]))
            time.sleep(nap)
            nap = min(nap * 1.3, 0.01)
        return self.collect(h, status)

    def collect(self, h, status):
        def rd(p):
            try:
                with open(p, encoding="utf-8", errors="replace") as f:
                    return f.read()
            except FileNotFoundError:
                return ""
        log = []
        for line in rd(h["log"]).split("\n"):
            f = line.replace("\1", "\n").split("\2") if line else []
            if len(f) >= 5:
                log.append((f[0], int(f[1]), f[2], f[3], f[4]))
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
        rc = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -sig
        if rc == 71:
            raise Inconclusive("harness failure in child")
        r = Result(h["argv"], rc, sig, rd(h["out"]), rd(h["err"]), rd(h["tb"]), log)
        self.ops_seen += len(r.ops)
        return r

    def run(self, client, argv, timeout=60, **kw):
        """Run one command to completion."""
        r = self.finish(self.start(client, argv, **kw), timeout)
        self.trace.append((client.name, r.brief()))
        return r

    def wait_stopped(self, h, timeout=60):
        """Wait until the command stops itself (True) or ends (False, with the result in h['res'])."""
        deadline = time.monotonic() + timeout
        while True:
            pid, status = os.waitpid(h["pid"], os.WNOHANG | os.WUNTRACED)
            if pid:
                if os.WIFSTOPPED(status):
                    return True
                h["res"] = self.collect(h, status)
                return False
            if time.monotonic() > deadline:
                os.kill(h["pid"], signal.SIGKILL)
                os.waitpid(h["pid"], 0)
                raise Inconclusive("command neither stopped nor ended")
            time.sleep(0.0005)

    def cont(self, h):
        os.kill(h["pid"], signal.SIGCONT)

    # -- profiles ------------------------------------------------------------------------------------------
    def init(self, client, add_remote=False, excludes=None, timeout=60, **kw):
        tmpl = os.path.join(self.root, "template-" + client.name)
        client.write_config(tmpl)
        argv = ["init", "--template", tmpl]
        if excludes is not None:
            ex = os.path.join(self.root, "exclude-" + client.name)
            with open(ex, "w") as f:
                f.write("".join(p + "\n" for p in excludes))
            client.excludes = list(excludes)
            argv += ["--exclude", ex]
        if add_remote:
            argv.append("--add-remote")
        r = self.run(client, argv + [client.profile], timeout=timeout, **kw)
        self.tick()
        return r

    def sync(self, client, **kw):
        r = self.run(client, ["sync", client.profile], **kw)
        self.tick()
        return r

    # -- observation ---------------------------------------------------------------------------------------
    def rsnap(self):
        return snapshot(self.remote, skip=(".zielen",))

    def trash(self):
        return snapshot(os.path.join(self.remote, ".zielen", "Trash"))

    def rdb(self):
        return read_db(os.path.join(self.remote, ".zielen", "remote.db"), ("path", "directory", "lastsync"))

    def decoy_ok(self):
        s = snapshot(self.decoy)
        return {k: v.full() for k, v in s.items()} == {k: v.full() for k, v in self.decoy_snap.items()}

    # -- saving and restoring ------------------------------------------------------------------------------
    def save(self, name):
        d = os.path.join(self.base, "save-" + name)
        wipe(d)
        subprocess.run(["cp", "-a", self.root, d], check=True)
        return d

    def restore(self, name):
        d = os.path.join(self.base, "save-" + name)
        wipe(self.root)
        subprocess.run(["cp", "-a", d, self.root], check=True)

    def close(self):
        for n in os.listdir(self.base):
            wipe(os.path.join(self.base, n))

    # -- edits a user makes, with mtimes on the world's clock ------------------------------------------------
    def stamp(self, path):
        if not self.real_time:
            t = self.now()
            os.utime(path, times=(t, t), follow_symlinks=False)

    def write(self, path, data, replace=False):
        if isinstance(data, str):
            data = data.encode()
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if replace:
            tmp = path + ".~tmp"
            with open(tmp, "wb") as f:
                f.write(data)
            os.replace(tmp, path)
        else:
            with open(path, "wb") as f:
                f.write(data)
        self.stamp(os.path.realpath(path))

    def symlink(self, target, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if os.path.lexists(path):
            os.unlink(path)
        os.symlink(target, path)
        self.stamp(path)

    def remove(self, path):
        if os.path.isdir(path) and not os.path.islink(path):
            shutil.rmtree(path)
        else:
            os.unlink(path)


def preload(repo=REPO):
    """Import the tree under test once, so that every forked command starts from it."""
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    import zielen.cli
    f = os.path.realpath(zielen.cli.__file__)
    if not f.startswith(os.path.realpath(repo) + "/"):
        raise Inconclusive("imported %s instead of the tree under test" % f)
