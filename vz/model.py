"""Reference model of what a sync must do, stated over observed trees only.

`plan()` takes what could be seen before a sync - the local tree, the remote tree, what this client and the
remote directory knew - and predicts what must be seen after it. `judge()` compares that with what was seen.
It never looks at the program's source, and reads its databases only where a property is about them.
"""
import os
import posixpath
import re

from . import globref


def dirname(p):
    return p.rsplit("/", 1)[0] if "/" in p else ""


def parents(paths):
    out = set()
    for p in paths:
        p = dirname(p)
        while p and p not in out:
            out.add(p)
            p = dirname(p)
    return out


def under(p, root):
    return p == root or p.startswith(root + "/")


def unsafe_link(path, ent, top):
    """Is this entry a symlink that must not be synced (absolute, or leading out of the directory)?"""
    if ent.kind != "l":
        return False
    t = ent.data
    if t.startswith("/"):
        return True
    rel = posixpath.normpath(posixpath.join(dirname(path), t))
    return rel == ".." or rel.startswith("../")


def is_placeholder(path, ent, remote):
    return ent is not None and ent.kind == "l" and ent.data == os.path.join(remote, path)


def link_into(path, ent, local, remote):
    if ent.kind != "l":
        return False
    t = os.path.join(local, dirname(path), ent.data)
    return t == remote or t.startswith(remote + "/")


class Knowledge:
    """What one client knew at the end of its last successful sync (or init)."""

    def __init__(self):
        self.known = {}      # path -> is it a directory
        self.local = {}      # local snapshot
        self.remote = {}     # remote snapshot
        self.pushed = set()  # paths that other clients have updated since
        self.kept = {}       # path -> kept as a real file (not a placeholder)
        self.stored = []     # exclude patterns the remote directory has for this client


class Plan:
    pass


CONFLICT_RE = r"_conflict-(\d{8}-\d{6})(\(\d+\))?"


def is_conflict_name(new, old):
    stem, ext = os.path.splitext(old)
    return re.fullmatch(re.escape(stem) + CONFLICT_RE + re.escape(ext), new) is not None


def usable(tree):
    """Entries that take part in syncing at all: no special files, no program files."""
    return {p: e for p, e in tree.items()
            if e.kind != "o" and p.split("/")[0] != ".zielen"
            and not any(c.startswith(".zielen-tmp-") for c in p.split("/"))}


def seen_through(L0, R0, remote):
    """The local tree as globbing sees it: placeholders of what has become a directory lead into it."""
    out = dict(L0)
    for p, e in L0.items():
        if is_placeholder(p, e, remote) and p in R0 and R0[p].kind == "d":
            for q, f in R0.items():
                if under(q, p):
                    out[q] = f
    return out


def plan(k, L0, R0, patterns, rdb, stored, local, remote, use_trash=True):
    """Predict one sync of the client with knowledge `k`.

    L0, R0: snapshots before. patterns: the client's exclude patterns. rdb: the paths the remote directory is
    known to track, and which are directories. stored: {client: patterns} as last published by the *other* clients.
    """
    pl = Plan()
    L, R = usable(L0), usable(R0)
    E = globref.excluded(patterns, seen_through(L0, R0, remote), L0)
    K = k.known
    pl.E, pl.L, pl.R = E, L, R

    def ldir(p):
        return L[p].kind == "d"

    def rdir(p):
        return R[p].kind == "d"

    unsafe_l = {p for p in L if unsafe_link(p, L[p], local)}
    unsafe_r = {p for p in R if unsafe_link(p, R[p], remote)}

    def changed(p, now, before):
        b = before.get(p)
        return b is None or b.key() != now.key() or b.mtime != now.mtime

    mod_l = {p for p in L if p in K and not ldir(p) and p not in unsafe_l and changed(p, L[p], k.local)}
    mod_r = {p for p in R if p in K and not rdir(p) and (changed(p, R[p], k.remote) or p in k.pushed)}

    # -- deletions
    replaced_r = {p for p in R if p in K and K[p] != rdir(p)}
    replaced_l = {p for p in L if p in K and K[p] != ldir(p)}
    del_l = ((set(K) - set(R)) | replaced_r) - mod_l - E - replaced_l
    del_r = ((set(K) - set(L)) | replaced_l) - mod_r - replaced_r - unsafe_r
    del_l -= parents(set(L) - del_l)
    del_r -= parents(set(R) - del_r)

    def roots(s):
        return {p for p in s if not (parents([p]) & s)}

    root_l, root_r = roots(del_l), {p for p in roots(del_r) if p in R}
    L1 = {p: e for p, e in L.items() if not any(under(p, q) for q in ([p] if p in root_l else []) or (parents([p]) & root_l))}
    R1 = {p: e for p, e in R.items() if not any(under(p, q) for q in ([p] if p in root_r else []) or (parents([p]) & root_r))}
    pl.root_l, pl.root_r = root_l, root_r
    pl.del_l = set(L) - set(L1)
    pl.del_r = set(R) - set(R1)

    # What goes to the trash, and what may.
    pl.trash, pl.trash_maybe = {}, {}
    if use_trash:
        for q in root_r:
            sub = {p: R[p] for p in R if under(p, q)}
            leaves = [p for p in K if under(p, q) and not K[p]]
            empties = [p for p in K if under(p, q) and K[p] and not any(x != p and under(x, p) for x in K)]
            sig = frozenset((p[len(q):], e.kind, e.data) for p, e in sub.items())
            if any(not k.kept.get(p, False) for p in leaves):
                pl.trash[q] = sig
            elif empties or not leaves:
                pl.trash_maybe[q] = sig

    # -- forget what is not on both sides any more
    swapped = {p for p in L1 if p in K and K[p] != (L1[p].kind == "d")}
    swapped |= {p for p in R1 if p in K and K[p] != (R1[p].kind == "d")}
    gone = set(K) - (set(L1) & set(R1)) | swapped
    K1 = {p: d for p, d in K.items() if p not in gone and not (parents([p]) & gone)}
    stale = {p for p, d in rdb.items() if p not in R1 or (R1[p].kind == "d") != d}
    rdb0 = {p for p in rdb if p not in stale and not (parents([p]) & stale)}
    rdb1 = rdb0 | set(K1)

    # -- what is new, what was modified
    unsynced = set()
    for p in sorted(R1):
        if dirname(p) in unsynced or p in L0 and L0[p].kind == "o":
            unsynced.add(p)
        elif p in L1 and not (L1[p].kind == "d" and R1[p].kind == "d") and p not in K1:
            if link_into(p, L1[p], local, remote):
                continue
            if p in E or p in unsafe_l:
                unsynced.add(p)
    new_l = {p for p in L1 if p not in K1 and p not in unsafe_l} - E
    # what is in the way of a directory in the remote directory, but does not sync
    wall = {p for p, e in R0.items() if e.kind == "o" or p in unsafe_r}
    pl.blocked = {p for p in new_l if (p in wall and ldir(p)) or parents([p]) & wall}
    new_l -= pl.blocked
    new_r = {p for p in R1 if p not in K1 and p not in unsafe_r} - unsynced
    mod_l = {p for p in mod_l if p in K1 and p in L1}
    mod_r = {p for p in mod_r if p in K1 and p in R1} - unsafe_r
    pl.unsynced, pl.new_l, pl.new_r, pl.mod_l, pl.mod_r = unsynced, new_l, new_r, mod_l, mod_r
    pl.unsafe_l, pl.unsafe_r = unsafe_l, unsafe_r

    # -- conflicts
    pl.conflicts = []        # (path, loser side, loser entry)
    up_l = new_l | mod_l
    up_r = new_r | mod_r
    R2 = dict(R1)
    push = set(up_l)
    for p in sorted(up_l & up_r):
        a, b = L1[p], R1[p]
        if a.kind == "d" and b.kind == "d":
            continue
        if b.kind == "d":
            loser = "l"
        elif a.kind == "d":
            loser = "r"
        elif a.mtime < b.mtime:
            loser = "l"
        elif b.mtime < a.mtime:
            loser = "r"
        elif a.key() != b.key():
            loser = "l"
        else:
            continue
        pl.conflicts.append((p, loser, a if loser == "l" else b))
        if loser == "l":
            push.discard(p)
    for p in push:
        R2[p] = L1[p]
    pl.push = push
    pl.R2 = R2
    pl.L1, pl.R1, pl.K1 = L1, R1, K1
    pl.touched = {p for p in push if L1[p].kind != "d"} | {p for p in (set(K1) | new_l | new_r | mod_l | mod_r) if p not in rdb0}

    # -- exclusion: removed from the remote once every client excludes it
    synced = {p for p in R2 if (p in K1 or p in new_l or p in new_r)}
    # get rid of remote entries only the remote has and that are not synced
    pl.excl_remote = {p for p in E if p in R2}
    rdb2 = rdb1 | new_l | new_r | mod_l | mod_r
    every = set(pl.excl_remote)
    for pats in stored.values():
        every &= globref.excluded(pats, L0) if every else every
    rm = {p for p in every if p in rdb2} - unsynced
    rm -= parents(set(R2) - rm) | parents(c[0] for c in pl.conflicts)
    pl.excl_rm = {p for p in R2 if p in rm}
    pl.R3 = {p: e for p, e in R2.items() if p not in pl.excl_rm}
    pl.synced = {p for p in synced if p in pl.R3}
    pl.rdb3 = {p for p in rdb2 if p in pl.R3}
    # known files that have become unsafe links in the remote directory: nothing is synced
    pl.stuck = {p for p in pl.synced if p in unsafe_r and p not in push}
    # local entries that a sync must leave alone
    pl.keep_local = {p: e for p, e in L0.items()
                     if p not in pl.del_l and p not in pl.synced
                     and not (e.kind == "o" and parents([p]) & pl.del_l)
                     and not (p in K1 and p not in pl.excl_rm)
                     and p not in new_l and p not in pl.excl_rm}
    return pl


def role(pl, p):
    """What kind of path this is, which decides the property a mismatch belongs to."""
    out = set()
    if p in pl.E or p in pl.unsynced or p in pl.excl_rm or p in pl.blocked:
        out.add("exclude")
    if p in pl.unsafe_l or p in pl.unsafe_r:
        out.add("unsafe")
    if any(p == c[0] or is_conflict_name(p, c[0]) for c in pl.conflicts):
        out.add("conflict")
    if p in pl.del_l or p in pl.del_r:
        out.add("deleted")
    if p in pl.new_l or p in pl.new_r:
        out.add("new")
    if p in pl.mod_l or p in pl.mod_r:
        out.add("modified")
    if not out:
        out.add("unchanged")
    return out


def brief(e):
    return "absent" if e is None else "%s %r mtime=%.6f mode=%o" % (e.kind, e.data, e.mtime / 1e9, e.mode)


def same(a, b, meta=True):
    """Do two observed entries agree? Returns None, 'content' or 'meta'."""
    if a is None or b is None or a.key() != b.key():
        return "content"
    if meta and a.kind != "d" and a.full() != b.full():
        return "meta"
    return None


def judge(pl, Lp0, Rp0, trash_before, trash_after, local, remote, t0=None, t1=None, may_go=(), gone_new=False):
    """Compare what was seen after the sync with the plan. Yields (tags, message)."""
    out = []
    Rp, Lp = usable(Rp0), usable(Lp0)

    # conflict copies: find the name each loser was given
    extra_r = {p for p in Rp if p not in pl.R3}
    pl.conf_names = {}
    for path, side, ent in pl.conflicts:
        cands = [q for q in extra_r if is_conflict_name(q, path) and q not in pl.conf_names]
        match = [q for q in cands if Rp[q].key() == ent.key()]
        if not match:
            out.append(({"conflict", "loss"},
                        "no conflict copy of the %s version of %r (%s) in the remote directory; candidates %r"
                        % ("local" if side == "l" else "remote", path, brief(ent), {q: brief(Rp[q]) for q in cands})))
            continue
        q = sorted(match)[0]
        pl.conf_names[q] = ent
        if t0 is not None:
            ts = re.search(CONFLICT_RE, q[len(os.path.splitext(path)[0]):]).group(1)
            if not t0 <= ts <= t1:
                out.append(({"conflict"}, "conflict copy %r is stamped outside [%s, %s]" % (q, t0, t1)))
    want_r = dict(pl.R3)
    want_r.update(pl.conf_names)

    for p in sorted(set(want_r) | set(Rp)):
        w, g = want_r.get(p), Rp.get(p)
        if w is None:
            tags = role(pl, p) | {"remote"}
            if p in pl.R:
                out.append((tags | {"kept-remote"}, "remote %r should have been removed, found %s" % (p, brief(g))))
            else:
                out.append((tags, "remote %r should not exist, found %s" % (p, brief(g))))
            continue
        bad = same(w, g)
        if bad == "content":
            out.append((role(pl, p) | {"remote"} | ({"loss"} if g is None else set()),
                        "remote %r: expected %s, found %s" % (p, brief(w), brief(g))))
        elif bad == "meta":
            out.append(({"meta"} | role(pl, p), "remote %r: expected %s, found %s" % (p, brief(w), brief(g))))

    # the local directory shows exactly the synced remote tree, plus what is local business only
    want_sync = set(pl.synced) | set(pl.conf_names)
    for p in sorted(want_sync):
        w, g = want_r[p], Lp0.get(p)
        tags = role(pl, p) | {"local"}
        if p in pl.stuck:
            was = pl.L1.get(p)
            if same(was, g):
                out.append((tags, "local %r should have been left alone, as an unsafe link has its name in the remote directory: "
                            "was %s, found %s" % (p, brief(was), brief(g))))
        elif g is None:
            out.append((tags, "local %r missing (remote has %s)" % (p, brief(w))))
        elif w.kind == "d":
            if g.kind != "d":
                out.append((tags, "local %r should be a directory, found %s" % (p, brief(g))))
        elif is_placeholder(p, g, remote):
            if p in pl.excl_remote:
                out.append((tags | {"exclude"}, "excluded %r was not copied to the local directory" % p))
        else:
            bad = same(w, g)
            if bad == "content":
                out.append((tags, "local %r: expected %s or a placeholder, found %s" % (p, brief(w), brief(g))))
            elif bad:
                out.append(({"meta"} | role(pl, p), "local %r: expected %s, found %s" % (p, brief(w), brief(g))))
    for p in sorted(pl.excl_rm):
        w, g = pl.R2[p], Lp0.get(p)
        if g is None or same(w, g, meta=False):
            out.append(({"exclude", "loss"}, "%r was removed from the remote directory because it is excluded, "
                        "but local has %s instead of %s" % (p, brief(g), brief(w))))
    for p, w in sorted(pl.keep_local.items()):
        g = Lp0.get(p)
        if g is None and is_placeholder(p, w, remote) and p not in pl.R2:
            continue        # the name of a placeholder, of something that does not exist
        if g is None or g.key() != w.key() or (w.kind != "d" and g.full() != w.full()):
            out.append((role(pl, p) | {"local", "localonly"},
                        "local %r is not synced and must stay as it is: was %s, found %s" % (p, brief(w), brief(g))))
    for p in sorted(Lp0):
        if p in want_sync or p in pl.excl_rm or p in pl.keep_local:
            continue
        out.append((role(pl, p) | {"local"}, "local %r should not exist, found %s" % (p, brief(Lp0[p]))))

    # the trash
    new = [n for n in trash_after if "/" not in n and n not in trash_before]
    sigs = []
    for n in new:
        sigs.append((n, frozenset((p[len(n):], e.kind, e.data) for p, e in trash_after.items() if under(p, n))))
    left = list(sigs)
    for q, sig in sorted(pl.trash.items()):
        hit = [x for x in left if x[1] == sig and trash_name(x[0], q)]
        if not hit and gone_new:
            continue        # the trash is set to be emptied at once
        if not hit:
            out.append(({"trash", "deleted", "loss"}, "%r was only in the remote directory and was deleted, but is not in the "
                        "trash (new in trash: %r)" % (q, [n for n, s in sigs])))
        else:
            left.remove(hit[0])
    for q, sig in sorted(pl.trash_maybe.items()):
        hit = [x for x in left if x[1] == sig and trash_name(x[0], q)]
        if hit:
            left.remove(hit[0])
    for n, s in left:
        out.append(({"trash"}, "unexpected entry %r in the trash" % n))
    for n in trash_before:
        a, b = trash_before[n], trash_after.get(n)
        if n.split("/")[0] in may_go and b is None:
            continue
        if b is None or a.key() != b.key():
            out.append(({"trash", "loss"}, "trash entry %r changed: was %s, is %s" % (n, brief(a), brief(b))))
    return out


def trash_name(name, path):
    base = path.rsplit("/", 1)[-1]
    if name == base:
        return True
    stem, ext = os.path.splitext(base)
    return re.fullmatch(re.escape(stem) + r"\(\d+\)" + re.escape(ext), name) is not None


def learn(k, pl, Lp, Rp, remote, patterns):
    """Update a client's knowledge after a sync that went as planned."""
    k.known = {p: Rp[p].kind == "d" for p in (set(pl.synced) | set(pl.conf_names)) if p in Rp}
    k.local = Lp
    k.remote = Rp
    k.pushed = set()
    k.kept = {p: p in Lp and not is_placeholder(p, Lp[p], remote) for p in k.known}
    k.stored = list(patterns)
