"""What `reset` must do, judged from what can be seen before and after it."""
import os

from . import globref, model


def usable(tree):
    return {p: e for p, e in tree.items() if e.kind != "o" and p.split("/")[0] != ".zielen"
            and not any(c.startswith(".zielen-tmp-") for c in p.split("/"))}


def changed(e, before):
    return before is None or before.key() != e.key() or before.mtime != e.mtime


def reset(h, i, flags):
    w, c, k = h.w, h.w.clients[i], h.cm[i]
    if not h.alive[i]:
        return None
    others = [j for j in range(len(w.clients)) if j != i and h.alive[j]]
    keep, none = "-k" in flags, "-n" in flags
    if others and not keep and not none:
        return None
    w.tick(1)
    L0, R0, T0 = c.snap(), w.rsnap(), w.trash()
    if any(e.kind == "o" and p in R0 for p, e in L0.items()) and not none:
        return None     # there is no place for the remote file; see DESIGN.md
    E = globref.excluded(c.excludes, model.seen_through(usable(L0), usable(R0), w.remote), usable(L0))
    r = w.run(c, ["reset"] + list(flags) + [c.profile])
    w.tick(1)
    h.stats["resets"] += 1
    if not r.ok:
        h.bad({"crash", "reset"}, "reset %s failed: %s" % (flags, r.brief()))
        return r
    h.after_command(i, r)
    judge(h, i, L0, R0, c.snap(), w.rsnap(), keep, none, E)
    if none and model_changed(T0, w.trash()):
        h.bad({"reset", "trash"}, "reset -n changed the trash")
    if os.path.lexists(c.pdir):
        h.bad({"reset"}, "the profile directory is still there after reset: %r" % os.listdir(c.pdir))
    if not keep and not none:
        left = os.listdir(w.remote) if os.path.isdir(w.remote) else None
        if left:
            h.bad({"reset", "remote"}, "reset left %r in the remote directory" % left[:5])
        h.rdb = {}
    elif keep:
        # local changes to existing remote files were pushed: other clients have to notice
        R1 = w.rsnap()
        h.touch_others(i, {p for p, e in R1.items() if p not in R0 or R0[p].full() != e.full()})
        new = {p for p in R1 if p not in R0}
        h.rdb = {p: d for p, d in h.rdb.items() if p in R1 and (R1[p].kind == "d") == d}
        h.rdb.update({p: False for p in new})
        db = w.rdb()
        h.rdb = {p: bool(db[p][0]) for p in db if p in R1}    # adding back paths is up to the next sync
    h.alive[i] = False
    # the next init starts from scratch
    return r


def model_changed(a, b):
    return {p: e.full() for p, e in a.items()} != {p: e.full() for p, e in b.items()}


def judge(h, i, L0, R0, L1, R1, keep, none, E):
    w, c, k = h.w, h.w.clients[i], h.cm[i]
    tag = {"reset"}

    def into(e, p):
        return e.kind == "l" and (os.path.join(c.local, model.dirname(p), e.data) + "/").startswith(w.remote + "/")

    for p, e in L1.items():
        if into(e, p):
            h.bad(tag | {"local"}, "reset left the link %r -> %r to the remote directory" % (p, e.data))
    if none:
        if model_changed(R0, R1):
            h.bad(tag | {"remote", "loss"}, "reset -n changed the remote directory")
        want = {p: e for p, e in L0.items() if not into(e, p)}
        bad = [p for p in set(want) | set(L1) if p not in want or p not in L1 or
               (want[p].full() != L1[p].full())]
        if bad:
            h.bad(tag | {"local", "loss"}, "reset -n changed local files: %r" % sorted(bad)[:5])
        return

    L, R = usable(L0), usable(R0)
    conf = {}
    for p in L1:
        if p not in L0 and p not in R0:
            conf[p] = L1[p]

    def at(p, e, where, what, extra=()):
        """The entry must be found at p or at a conflict name for p, with its metadata."""
        if e.kind == "d":
            if p not in where or where[p].kind != "d":
                h.bad(tag | {"local"} | set(extra), "reset: %s directory %r is %s" % (what, p, model.brief(where.get(p))))
            return None
        got = where.get(p)
        if got is not None and got.key() == e.key():
            if got.full() != e.full():
                # the other side may have the same content with other metadata
                o = L.get(p) if what == "remote" else R.get(p)
                if o is None or o.full() != got.full():
                    h.bad(tag | {"meta"}, "reset: %s %r was %s, is %s" % (what, p, model.brief(e), model.brief(got)))
            return p
        for q in where:
            if q not in L0 and q not in R0 and model.is_conflict_name(q, p) and where[q].key() == e.key():
                return q
        h.bad(tag | {"loss"} | set(extra), "reset: the %s version of %r (%s) is not in the local directory any more: %r" % (
            what, p, model.brief(e), {q: model.brief(where[q]) for q in where if q == p or model.is_conflict_name(q, p)}))
        return None

    unsynced = set()
    for p in sorted(R):
        if model.dirname(p) in unsynced:
            unsynced.add(p)
        elif p in L0 and L0[p].kind == "o":
            unsynced.add(p)
        elif p in L and (p not in k.known or k.known[p] != (L[p].kind == "d") or k.known[p] != (R[p].kind == "d")) and not (L[p].kind == "d" and R[p].kind == "d") and not into(L[p], p) and (
                p in E or model.unsafe_link(p, L[p], c.local)):
            unsynced.add(p)
    blocked = {p for p in R if any(q in L0 and L0[q].kind == "o" for q in [p] + list(model.parents([p])))}
    for p, e in sorted(R.items()):
        if p in blocked or (keep and p in unsynced):
            continue
        mine = L.get(p)
        if model.unsafe_link(p, e, w.remote) and mine is not None:
            continue        # a symlink that never syncs, in the place of a file that does
        # A local change to a file that the remote side didn't change replaces the remote version.
        if mine is not None and mine.kind != "d" and e.kind != "d" and p in k.known and not into(mine, p) and \
                changed(mine, k.local.get(p)) and not changed(e, k.remote.get(p)) and p not in k.pushed:
            continue
        at(p, e, L1, "remote")
    for p, e in sorted(L.items()):
        if into(e, p):
            continue
        if e.kind != "d" and p in k.known and p in R and not changed(e, k.local.get(p)):
            continue        # what the remote side has is at least as new
        if p in k.known and model.unsafe_link(p, e, c.local):
            continue        # a known file replaced by a symlink that can't sync
        q = at(p, e, L1, "local")
        if p not in R and q is not None and q != p:
            h.bad(tag | {"local"}, "reset renamed %r, which only exists in the local directory" % p)
    for p, e in L0.items():
        if e.kind == "o" and (p not in L1 or L1[p].kind != "o"):
            h.bad(tag | {"local"}, "reset: the special file %r is %s" % (p, model.brief(L1.get(p))))
    for p in sorted(conf):
        if not any(model.is_conflict_name(p, q) for q in set(L) & set(R)):
            h.bad(tag | {"local"}, "reset created %r" % p)
    # who wins
    for p in sorted(set(L) & set(R)):
        a, b = L[p], R[p]
        if into(a, p) or a.kind == "d" or b.kind == "d" or p in unsynced or p not in L1:
            continue
        ca = p not in k.known or changed(a, k.local.get(p))
        cb = p not in k.known or changed(b, k.remote.get(p)) or p in k.pushed
        if model.unsafe_link(p, a, c.local) or model.unsafe_link(p, b, w.remote):
            continue
        if k.known.get(p):
            continue
        want = b
        if ca and (not cb or a.mtime > b.mtime):
            want = a
        if ca and cb and a.mtime == b.mtime:
            continue
        if L1[p].key() != want.key():
            h.bad(tag | {"conflict", "local"}, "reset: %r is %s, should be %s" % (p, model.brief(L1[p]), model.brief(want)))
    if keep:
        for p, e in sorted(R0.items()):
            mine = L.get(p)
            got = R1.get(p)
            if got is not None and (got.key() == e.key()):
                continue
            if e.kind != "d" and mine is not None and not into(mine, p) and mine.kind != "d" and got is not None and got.key() == mine.key() \
                    and p in k.known and not changed(e, k.remote.get(p)) and p not in k.pushed:
                continue
            if e.kind != "d" and any(model.is_conflict_name(q, p) and R1[q].key() == e.key() for q in R1 if q not in R0):
                continue
            if e.kind != "d" and any(model.is_conflict_name(q, p) and L1[q].key() == e.key() for q in L1 if q not in L0):
                continue
            h.bad(tag | {"remote", "loss"}, "reset --keep-remote: remote %r was %s, is %s" % (p, model.brief(e), model.brief(got)))
