"""An independent matcher for exclude patterns, written from the manual page (section EXCLUDING).

Works on an observed tree, component by component; it shares nothing with glob.glob().
"""
import functools
import os
import re


@functools.lru_cache(maxsize=4096)
def component_regex(pat):
    """A compiled regex for one path component."""
    out, i = "", 0
    while i < len(pat):
        ch = pat[i]
        i += 1
        if ch == "*":
            out += ".*"
        elif ch == "?":
            out += "."
        elif ch == "[":
            j = i
            if j < len(pat) and pat[j] == "!":
                j += 1
            if j < len(pat) and pat[j] == "]":
                j += 1
            while j < len(pat) and pat[j] != "]":
                j += 1
            if j >= len(pat):
                out += re.escape("[")
                continue
            body = pat[i:j]
            i = j + 1
            neg = body.startswith("!")
            if neg:
                body = body[1:]
            alts, k = [], 0
            while k < len(body):
                if k + 2 < len(body) and body[k + 1] == "-":
                    lo, hi = body[k], body[k + 2]
                    if lo <= hi:
                        alts.append("%s-%s" % (re.escape(lo), re.escape(hi)))
                    k += 3
                else:
                    alts.append(re.escape(body[k]))
                    k += 1
            if not alts:
                out += "." if neg else "(?!)"
            else:
                out += "[%s%s]" % ("^" if neg else "", "".join(alts))
        else:
            out += re.escape(ch)
    return re.compile("(?s:%s)\\Z" % out)


def has_magic(comp):
    return any(c in comp for c in "*?[")


def comp_match(pat, name):
    if not has_magic(pat):
        return pat == name
    if name.startswith(".") and not pat.startswith("."):
        return False
    return component_regex(pat).match(name) is not None


def _match(pcs, parts):
    """Do the pattern components match the whole path?"""
    if not pcs:
        return not parts
    if pcs[0] == "**":
        if _match(pcs[1:], parts):
            # The directories that ** crosses are visible ones.
            return True
        return bool(parts) and not parts[0].startswith(".") and _match(pcs, parts[1:])
    if not parts:
        return False
    return comp_match(pcs[0], parts[0]) and _match(pcs[1:], parts[1:])


def patterns(lines):
    for line in lines:
        if re.match(r"\s*#", line):
            continue
        line = line.strip()
        if line:
            yield line


def leads_to_dir(path, ent, tree, depth=0):
    """Is it a directory, or a relative symlink to one in the tree?"""
    if ent is None or ent.kind != "l" or depth > 20:
        return ent is not None and ent.kind == "d"
    if ent.data.startswith("/"):
        return False
    dest = os.path.normpath(os.path.join(os.path.dirname(path), ent.data))
    return leads_to_dir(dest, tree.get(dest), tree, depth + 1)


def excluded(lines, tree, real=None):
    """The paths of `tree` ({path: Entry}) that the pattern lines exclude, with everything under them.

    Globbing follows symlinks to directories, excluding what is under a directory does not: `real` is the tree
    without what is only there through symlinks.
    """
    real = tree if real is None else real
    roots = set()
    for pat in patterns(lines):
        anchored = pat.startswith("/")
        only_dirs = pat.endswith("/")
        pcs = [c for c in pat.split("/") if c not in ("", ".")]
        if ".." in pcs:
            continue        # leaves the tree, never matches anything in it
        if not pcs and not anchored:
            pcs = ["**"]
        for path, ent in tree.items():
            if only_dirs and not leads_to_dir(path, ent, tree):
                continue
            parts = path.split("/")
            if anchored:
                tops = [0]
            else:
                # Any visible directory of the tree is searched; these are not followed through symlinks.
                tops = [k for k in range(len(parts)) if all(
                    not parts[j - 1].startswith(".") and real.get("/".join(parts[:j])) is not None
                    and real["/".join(parts[:j])].kind == "d" for j in range(1, k + 1))]
            tops = [k for k in tops if _match(pcs, parts[k:])]
            if not tops:
                continue
            if pcs and pcs[-1] == "**" and ent.kind != "d":
                # 'x/**' is about what is under x, not about a file called x.
                if not any(_match(pcs[:-1], parts[t:k]) and not any(n.startswith(".") for n in parts[k:])
                           for t in tops for k in range(t, len(parts))):
                    continue
            roots.add(path)
    out = set(roots)
    for path in tree:
        parts = path.split("/")
        for i in range(1, len(parts)):
            if "/".join(parts[:i]) not in roots:
                continue
            above = [real.get("/".join(parts[:j])) for j in range(i, len(parts))]
            if all(e is not None and e.kind == "d" for e in above):
                out.add(path)
                break
    return out
