"""Effects and shared state, from the resolved calls of every local body and the fields of every local type."""
import re

# Functions that reach outside the arguments of their caller: (pattern on the resolved path, what they do).
EFFECTS = [
    (r"^std::fs::|::fs::", "the file system"),
    (r"^std::path::Path(Buf)?::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|canonicalize|read_link|read_dir)$",
     "the file system"),
    (r"^std::path::absolute$|^std::env::|^std::os::", "the process environment"),
    (r"^std::process::", "processes"),
    (r"^std::net::(?!Ip|parser)|ToSocketAddrs|^std::os::unix::net", "the network"),
    (r"^std::(io::)?(stdio::)?(_print|_eprint|stdin|stdout|stderr|attempt_print|print_to)|^std::io::(_print|_eprint|stdin|stdout|stderr)", "standard streams"),
    (r"^std::time::(SystemTime|Instant)|SystemTime|Instant::", "the clock"),
    (r"^std::thread::|LocalKey|^std::sync::mpsc", "threads or thread-local state"),
    (r"sync::atomic::|::(Mutex|RwLock|Condvar|Barrier|ReentrantLock)::|^core::cell::|^std::panic::", "mutable state shared between calls"),
    (r"RandomState(::| as core::hash::BuildHasher)|BuildHasher::(hash_one|build_hasher)", "randomized hashing"),
    (r"^core::ptr::(write|write_volatile|write_unaligned|read_volatile)", "memory behind a raw pointer"),
]
MAYBE = [
    (r"::(OnceLock|LazyLock|LazyCell|OnceCell|Once)::", "a value computed once per process"),
    (r"(Hash(Map|Set)|hash::(map|set)::).*::(iter|iter_mut|into_iter|keys|values|into_keys|into_values|drain|next|retain)$",
     "the order of a hashed collection"),
    (r"^core::ptr::(eq|addr_eq|hash)|::addr$|expose_provenance", "an address"),
]
CELLS = re.compile(r"^(core::cell::|core::sync::atomic::|std::sync::(poison::)?(mutex::|rwlock::|once_lock::|lazy_lock::|Mutex|RwLock|OnceLock|LazyLock|Condvar)|"
                   r"std::sync::(nonpoison|reentrant_lock)|alloc::rc::|std::thread::)")


def fn_consts(F, body):
    """Indices of the functions a body mentions, as callee or value, with the line of the first mention."""
    out = {}

    def walk(o, line):
        if isinstance(o, list):
            if len(o) == 2 and o[0] == "k" and isinstance(o[1], int):
                c = F.consts[o[1]][0]
                if isinstance(c, list):
                    collect(c, line)
            for x in o:
                walk(x, line)

    def collect(c, line):
        if isinstance(c, list):
            if len(c) == 2 and c[0] == "fn" and isinstance(c[1], int):
                out.setdefault(c[1], line)
            else:
                for x in c:
                    collect(x, line)

    for st, term, _ in body["blocks"]:
        for s in st:
            walk(s, s[-1] if isinstance(s[-1], int) else 0)
        walk(term, term[-1] if isinstance(term[-1], int) else 0)
    return out


def paths_of(F, r):
    """Resolved paths a reference stands for: the trait item and the function it resolves to."""
    p = [r["path"]]
    if r["inst"] is not None:
        p.append(F.insts[r["inst"]]["path"])
        p.append(F.insts[r["inst"]]["key"])
    if r["trait"] and r["args"]:
        a = r["args"][0]
        if isinstance(a, int):
            p.append(F.tystr(F.strip_ref(a)) + "::" + r["name"])
    return p


def classify(paths, table):
    for rx, what in table:
        for p in paths:
            if re.search(rx, p):
                return what, p
    return None


def interior(F, t, seen=None, via=()):
    """Path of fields from type `t` to interior-mutable or reference-counted state, or None."""
    seen = seen if seen is not None else set()
    if not isinstance(t, int) or t in seen:
        return None
    seen.add(t)
    y = F.types[t]
    k = y[0]
    if k == "adt":
        if CELLS.match(y[1]) and not y[1].endswith("Ordering"):
            return via + (F.tystr(t),)
        for a in y[2]:
            r = interior(F, a, seen, via)
            if r:
                return r
        a = F.adts.get(y[1])
        if a and a["local"]:
            for v in a["variants"]:
                for f in v["fields"]:
                    r = interior(F, f["ty"], seen, via + ("%s.%s" % (y[1], f["name"]),))
                    if r:
                        return r
        return None
    if k in ("ref", "ptr", "slice", "array"):
        return interior(F, y[1], seen, via)
    if k == "tuple":
        for a in y[1]:
            r = interior(F, a, seen, via)
            if r:
                return r
    return None
