"""Choice of fault points over the operations of an undisturbed run."""
WRITING = {"open-w", "write", "close", "os.open", "fdopen", "mkdir", "rmdir", "unlink", "remove", "rename", "replace", "link", "symlink", "chmod", "utime"}
ERRNOS = {"open-w": ["ENOSPC", "EACCES", "EMFILE", "EIO", "EROFS"], "open-r": ["EIO", "EACCES", "EMFILE", "ENFILE"], "read": ["EIO", "EISDIR"], "write": ["ENOSPC", "EIO", "EDQUOT"],
          "close": ["EIO", "ENOSPC", "EDQUOT"], "os.open": ["ENOSPC", "EACCES", "EMFILE"], "fdopen": ["ENOMEM"], "mkdir": ["ENOSPC", "EACCES", "EROFS"],
          "rename": ["EIO", "ENOSPC", "EACCES"], "replace": ["EIO", "EACCES"], "unlink": ["EIO", "EACCES"], "remove": ["EIO", "EACCES"], "rmdir": ["EACCES"], "chmod": ["EPERM", "EIO"],
          "utime": ["EPERM"], "listdir": ["EIO", "EACCES"], "scandir": ["EIO", "EACCES"], "link": ["EIO"], "symlink": ["EIO"]}
AFTER = {"mkdir", "rmdir", "unlink", "remove", "rename", "replace", "chmod", "link", "symlink"}


def points(ops, written):
    """indices of operations, by kind of interest"""
    w, rd = [], []
    for i, (kind, name, _) in enumerate(ops):
        if kind == "close" and name not in written:
            rd.append(i)
        elif kind in WRITING:
            w.append(i)
        else:
            rd.append(i)
    return w, rd


def written(ops):
    return {name for kind, name, _ in ops if kind in ("open-w", "os.open", "write")}


def atomic_points(ops):
    """operations on temporaries and what replaces them"""
    return [i for i, (kind, name, _) in enumerate(ops) if "simt" in name or kind in ("rename", "replace", "unlink", "chmod")]


def choose(r, ops, crash):
    """one fault for a run whose undisturbed operations are these"""
    if not ops:
        return None
    w, rd = points(ops, written(ops))
    at = atomic_points(ops)
    x = r.random()
    pool = at if at and x < 0.3 else w if w and x < 0.85 else rd or w
    k = r.choice(pool)
    kind, name, _ = ops[k]
    if crash and r.random() < 0.6:
        f = {"k": k, "kind": "crash"}
        if kind == "write" and r.random() < 0.5:
            f["kind"] = "torn"
        elif kind in AFTER and r.random() < 0.5:
            f["kind"] = "after"
        return f
    if kind == "write" and r.random() < 0.5:
        return {"k": k, "kind": r.choice(["full", "short"])}
    if kind == "read" and r.random() < 0.3:
        return {"k": k, "kind": "short"}
    return {"k": k, "kind": "error", "errno": r.choice(ERRNOS.get(kind, ["EIO"]))}
