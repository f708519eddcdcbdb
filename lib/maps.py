"""Transfer functions for maps and sets as sequences of entries: ("map", kind, ((key, value), ...)).

kind is one of i/is (insertion ordered), b/bs (sorted), h/hs (arbitrary order)."""
import re
from absint import (Inconclusive, UNIT, TRUE, FALSE, OPT, none, some, tup)
import models as M
from models import strip, is_str, syms, streq, merge_pairs, get_it, drain, known_iter


def kind_of(path):
    k = "i" if "indexmap" in path else "b" if "btree" in path else "h"
    return k + "s" if re.search(r"Set\b|::set::", path) else k


def is_set(v):
    return v[1].endswith("s")


def core(v):
    """The text or number behind newtype wrappers and references."""
    while True:
        if v[0] == "rv":
            v = v[1]
        elif v[0] == "agg" and len(v[3]) == 1 and v[1] not in (OPT,):
            v = v[3][0]
        else:
            return v


def own_eq(I, adt):
    """The instance of a local type's own `eq`."""
    c = I.F.__dict__.setdefault("_own_eq", {})
    if adt not in c:
        fs = [f for f in I.F.trait_fn("core::cmp::PartialEq", adt, "eq") if f["mono"] and I.F.adt_of(f["sig"][0][1]) == adt
              and f["body"] is not None]
        c[adt] = fs[0]["id"] if len(fs) == 1 else None
    return c[adt]


def val_eq(I, st, x, y):
    """[(bool, state)]: are two values equal?"""
    x, y = strip(I, st, x), strip(I, st, y)
    if x == y:
        return [(True, st)]
    if x[0] == "agg" and y[0] == "agg" and x[1] == y[1]:
        f = own_eq(I, x[1])
        if f is not None:
            return merge_pairs([(b, s2) for r, s in I.call_inst(st, f, [("rv", x), ("rv", y)]) for b, s2 in I.split_bool(s, r)])
        if x[2] != y[2]:
            return [(False, st)]
        cur, out = [st], []
        for a, b in zip(x[3], y[3]):
            nxt = []
            for s in cur:
                for r, s2 in val_eq(I, s, a, b):
                    (nxt.append(s2) if r else out.append((False, s2)))
            cur = nxt
        return merge_pairs(out + [(True, s) for s in cur])
    cx, cy = core(x), core(y)
    if (is_str(cx) or is_str(cy)) and cx[0] != "agg" and cy[0] != "agg":
        return merge_pairs([(b, s2) for r, s in streq(I, st, cx, cy) for b, s2 in I.split_bool(s, r)])
    if cx[0] == "t" == cy[0] and cx[1][0] in ("ip", "ipnet") and cx[1][0] == cy[1][0]:
        return [(False, st)]
    if cx[0] in ("c", "t") and cy[0] in ("c", "t"):
        ex, ey = I.fact(st, cx), I.fact(st, cy)
        if ex is not None and ey is not None:
            return [(ex == ey, st)]
        if cx[0] == "t" and cx[1][0] == "num" or cy[0] == "t" and cy[1][0] == "num" or cx[0] == "c" or cy[0] == "c":
            return I.split_bool(st, M.compare(I, st, "Eq", cx, cy, None))
    if cx[0] in ("list", "map") and cy[0] == cx[0]:
        ex, ey = (cx[1], cy[1]) if cx[0] == "list" else (cx[2], cy[2])
        if len(ex) != len(ey):
            return [(False, st)]
        if cx[0] == "list":
            cur, out = [st], []
            for a, b in zip(ex, ey):
                nxt = []
                for s in cur:
                    for r, s2 in val_eq(I, s, a, b):
                        (nxt.append(s2) if r else out.append((False, s2)))
                cur = nxt
            return merge_pairs(out + [(True, s) for s in cur])
        if cx[1] == cy[1]:
            return merge_pairs([(b, s2) for r, s in eq(I, st, [cx, cy]) for b, s2 in I.split_bool(s, r)])
    if repr(cx) > repr(cy):
        cx, cy = cy, cx
    return I.split_bool(st, ("t", ("eq", cx, cy)))


def find_key(I, st, m, key):
    """[(index or None, state)] of the entry whose key equals `key`."""
    cur, out = [st], []
    for i, (k, _) in enumerate(m[2]):
        nxt = []
        for s in cur:
            for b, s2 in val_eq(I, s, k, key):
                (out.append((i, s2)) if b else nxt.append(s2))
        cur = nxt
    return out + [(None, s) for s in cur]


def themap(I, st, a):
    m = strip(I, st, a[0])
    return m if m[0] == "map" else None


def need(f):
    def g(I, st, a):
        m = themap(I, st, a)
        if m is None:
            return NotImplemented
        return f(I, st, m, a)
    return g


def setm(f):
    def g(I, st, a):
        m, put = get_it(I, st, a)
        if m[0] != "map" or put is None:
            return NotImplemented
        out = []
        for new, ret, s in f(I, st, m, a):
            s = s.fork()
            put(s, new)
            out.append((ret, s))
        return out
    return g


def new(I, st, a):
    fr, bb, caller, ref, inst, line = I.cur
    path = inst["path"] if inst is not None else ref["path"]
    return [(("map", kind_of(path), ()), st)]


def put_entry(I, s, m, i, key, val):
    es = m[2]
    if i is None:
        return ("map", m[1], es + ((key, val),))
    return ("map", m[1], es[:i] + ((es[i][0], val),) + es[i + 1:])


@setm
def insert(I, st, m, a):
    key = strip(I, st, a[1]) if a[1][0] == "rm" else a[1]
    val = a[2] if len(a) > 2 else UNIT
    for i, s in find_key(I, st, m, key):
        old = (some(m[2][i][1]) if i is not None else none()) if not is_set(m) else (FALSE if i is not None else TRUE)
        yield put_entry(I, s, m, i, key, val), old, s


@setm
def shift_insert(I, st, m, a):
    at = I.fact(st, strip(I, st, a[1]))
    if at is None:
        raise Inconclusive("shift_insert")
    key, val = a[2], a[3] if len(a) > 3 else UNIT
    for i, s in find_key(I, st, m, key):
        es = list(m[2])
        if i is not None:
            old = es.pop(i)
            es.insert(min(at, len(es)), (old[0], val))
            yield ("map", m[1], tuple(es)), (some(old[1]) if not is_set(m) else FALSE), s
        else:
            es.insert(at, (key, val))
            yield ("map", m[1], tuple(es)), (none() if not is_set(m) else TRUE), s


def swaps(I):
    path = I.cur[4]["path"] if I.cur[4] is not None else I.cur[3]["path"]
    return re.search(r"::(swap_\w+|remove|remove_entry|take)$", path) is not None


def remover(mode):
    @setm
    def g(I, st, m, a):
        for i, s in find_key(I, st, m, a[1]):
            if i is None:
                yield m, (none() if mode != "bool" else FALSE), s
                continue
            es = list(m[2])
            k, v = es[i]
            if swaps(I) and m[1][0] == "i":
                es[i] = es[-1]          # the last entry takes its place
                es.pop()
            else:
                es.pop(i)
            if mode == "entry":
                ret = some(tup(k, v))
            elif mode == "bool":
                ret = TRUE
            else:
                ret = some(v if not is_set(m) else k)
            yield ("map", m[1], tuple(es)), ret, s
    return g


remove_val, remove_entry, remove_bool = remover("val"), remover("entry"), remover("bool")


def remove(I, st, a):
    m = themap(I, st, a)
    if m is None:
        return NotImplemented
    path = I.cur[4]["path"] if I.cur[4] is not None else I.cur[3]["path"]
    if path.endswith("_entry"):
        return remove_entry(I, st, a)
    return (remove_bool if is_set(m) and not path.endswith("take") else remove_val)(I, st, a)


@need
def get(I, st, m, a):
    out = []
    for i, s in find_key(I, st, m, a[1]):
        out.append((none() if i is None else some(("rv", m[2][i][0] if is_set(m) else m[2][i][1])), s))
    return out


@need
def contains(I, st, m, a):
    return [(FALSE if i is None else TRUE, s) for i, s in find_key(I, st, m, a[1])]


@need
def length(I, st, m, a):
    return [(("c", len(m[2])), st)]


@need
def is_empty(I, st, m, a):
    return [(TRUE if not m[2] else FALSE, st)]


def order(I, st, m):
    """Entries in iteration order."""
    if m[1][0] != "b" or len(m[2]) < 2:
        if m[1][0] == "h" and len(m[2]) > 1:
            return m[2][::-1]           # any order may show: one that differs from the order of insertion
        return m[2]
    keys = [I.fact(st, core(k)) for k, _ in m[2]]
    if all(k is not None for k in keys):
        return tuple(e for _, e in sorted(zip(keys, m[2]), key=lambda p: p[0]))
    texts = [core(k) for k, _ in m[2]]
    if all(t[0] == "s" for t in texts):
        return tuple(e for _, e in sorted(zip([t[1] for t in texts], m[2]), key=lambda p: p[0]))
    return None


def seq(what, owned=False):
    @need
    def g(I, st, m, a):
        es = order(I, st, m)
        if es is None:
            raise Inconclusive("order of a sorted map with unknown keys")
        byref = not owned
        if what == "iter" and owned:
            byref = a[0][0] in ("rv", "rm")
        r = (lambda x: ("rv", x)) if byref else (lambda x: x)
        if what == "keys" or what == "iter" and is_set(m):
            el = tuple(r(k) for k, _ in es)
        elif what == "values":
            el = tuple(r(v) for _, v in es)
        else:
            el = tuple(tup(r(k), r(v)) for k, v in es)
        return [(("it", "seq", el), st)]
    return g


def at(which):
    @need
    def g(I, st, m, a):
        es = order(I, st, m)
        if es is None:
            raise Inconclusive("order")
        if which == "index":
            k = I.fact(st, strip(I, st, a[1]))
            if k is None:
                raise Inconclusive("index")
        else:
            k = 0 if which == "first" else len(es) - 1
        if not 0 <= k < len(es):
            return [(none(), st)]
        return [(some(("rv", es[k][0]) if is_set(m) else tup(("rv", es[k][0]), ("rv", es[k][1]))), st)]
    return g


def pop(which):
    @setm
    def g(I, st, m, a):
        es = order(I, st, m)
        if es is None:
            raise Inconclusive("order")
        if not es:
            yield m, none(), st
        else:
            e = es[0] if which == "first" else es[-1]
            rest = es[1:] if which == "first" else es[:-1]
            yield ("map", m[1], rest), some(e[0] if is_set(m) else tup(e[0], e[1])), st
    return g


@setm
def clear(I, st, m, a):
    yield ("map", m[1], ()), UNIT, st


def elements(I, st, x):
    """[(elements, state)] of an iterable argument."""
    fr, bb, caller, ref, inst, line = I.cur
    via = ref.get("via") or []
    its, nexti = [(x, st)], None
    for v in via:
        y = I.F.insts[v]
        if y["name"] == "into_iter":
            its = [r for i, s in its for r in I.call_inst(s, v, [i])]
        elif y["name"] == "next":
            nexti = v
    out = []
    for i, s in its:
        i = strip(I, s, i)
        if i[0] in ("list",):
            out.append((i[1], s))
            continue
        if i[0] == "map":
            es = order(I, s, i)
            if es is None:
                raise Inconclusive("order of a sorted map with unknown keys")
            out.append((tuple(k if is_set(i) else tup(k, v) for k, v in es), s))
            continue
        if i[0] == "agg" and i[1] == "core::ops::range::RangeInclusive":
            lo, hi = I.fact(s, core(i[3][0])), I.fact(s, core(i[3][1]))
            if lo is None or hi is None or hi - lo > 200:
                return None
            out.append((tuple(("c", n) for n in range(lo, hi + 1)), s))
            continue
        if i[0] == "agg" and i[1] == OPT:
            out.append((i[3] if i[2] == 1 else (), s))
            continue
        if not known_iter(i) or nexti is None and not (i[0] == "it" and i[1] == "seq"):
            return None
        r = drain(I, s, i, nexti)
        if r is None:
            return None
        out += r
    return out


def build(I, st, m, els):
    """[(map, state)] after inserting elements one by one."""
    cur = [(m, st)]
    for e in els:
        nxt = []
        for m1, s in cur:
            e1 = strip(I, s, e)
            if is_set(m1):
                k, v = e, UNIT
            elif e1[0] == "agg" and len(e1[3]) == 2:
                k, v = e1[3]
            else:
                return None
            k = strip(I, s, k) if k[0] == "rm" else k
            for i, s2 in find_key(I, s, m1, k):
                nxt.append((put_entry(I, s2, m1, i, k, v), s2))
        cur = nxt
    return cur


def from_iter(I, st, a):
    fr, bb, caller, ref, inst, line = I.cur
    path = inst["path"] if inst is not None else ref["path"]
    kind = kind_of(path.split(" as ")[0])
    els = elements(I, st, a[0])
    if els is None:
        return NotImplemented
    out = []
    for el, s in els:
        r = build(I, s, ("map", kind, ()), el)
        if r is None:
            return NotImplemented
        out += r
    return out


def extend(I, st, a):
    m, put = get_it(I, st, a)
    if m[0] != "map" or put is None:
        return NotImplemented
    els = elements(I, st, a[1])
    if els is None:
        return NotImplemented
    out = []
    for el, s in els:
        r = build(I, s, m, el)
        if r is None:
            return NotImplemented
        for m2, s2 in r:
            s2 = s2.fork()
            put(s2, m2)
            out.append((UNIT, s2))
    return out


def eq(I, st, a):
    x, y = strip(I, st, a[0]), strip(I, st, a[1])
    if x[0] != "map" or y[0] != "map":
        return NotImplemented
    if x == y:
        return [(TRUE, st)]
    if len(x[2]) != len(y[2]):
        return [(FALSE, st)]
    cur, out = [st], []
    for k, v in x[2]:
        nxt = []
        for s in cur:
            for i, s2 in find_key(I, s, y, k):
                if i is None:
                    out.append((FALSE, s2))
                else:
                    for b, s3 in val_eq(I, s2, v, y[2][i][1]):
                        (nxt.append(s3) if b else out.append((FALSE, s3)))
        cur = nxt
    return out + [(TRUE, s) for s in cur]


def as_slice(I, st, a):
    m, _ = get_it(I, st, a)
    if m[0] != "map":
        return NotImplemented
    return [(("rv", ("list", tuple(k if is_set(m) else tup(k, v) for k, v in m[2]))), st)]


def clone(I, st, a):
    m = strip(I, st, a[0])
    return [(m, st)]


# ---- the entry API -----------------------------------------------------------------------------
def entry(I, st, a):
    """The entry of a key: an enum value as the library's own (Occupied / Vacant) when matched on."""
    m, put = get_it(I, st, a)
    if m[0] != "map" or put is None:
        return NotImplemented
    fr, bb, caller, ref, inst, line = I.cur
    path = inst["path"] if inst is not None else ref["path"]
    adt = next((p for p in I.F.adts if p.endswith("Entry") and
                (("indexmap" in path and p.startswith("indexmap::map")) or
                 ("hash" in path and "hash" in p and "std" in p) or
                 ("btree" in path and "btree" in p)) and p.split("::")[-1] == "Entry"), None)
    out = []
    for i, s in find_key(I, st, m, a[1]):
        e = ("ent", a[0], i, a[1])
        if adt:
            names = [v["name"] for v in I.F.adts[adt]["variants"]]
            out.append((("agg", adt, names.index("Vacant" if i is None else "Occupied"), (e,)), s))
        else:
            out.append((e, s))
    return out


def ent(v):
    while v[0] in ("rv",):
        v = v[1]
    if v[0] == "agg" and len(v[3]) == 1:
        v = v[3][0]
    return v if v[0] == "ent" else None


def on_entry(f):
    def g(I, st, a):
        e = ent(strip(I, st, a[0]))
        if e is None:
            return NotImplemented
        m, put = get_it(I, st, [e[1]])
        if m[0] != "map" or put is None:
            return NotImplemented
        return f(I, st, e, m, put, a)
    return g


def slot(I, st, e, m, i):
    """`&mut` to the value of entry i: a snapshot (writes through it are not tracked)."""
    return ("rv", m[2][i][1])


def or_insert(make):
    @on_entry
    def g(I, st, e, m, put, a):
        if e[2] is not None:
            return [(slot(I, st, e, m, e[2]), st)]
        if make == "value":
            vals = [(a[1], st)]
        elif make == "call":
            vals = I.apply(st, a[1], [])
        else:
            raise Inconclusive("or_default")
        out = []
        for v, s in vals:
            s = s.fork()
            m2 = ("map", m[1], m[2] + ((e[3], v),))
            put(s, m2)
            out.append((("rv", v), s))
        return out
    return g


@on_entry
def ent_get(I, st, e, m, put, a):
    if e[2] is None:
        return NotImplemented
    return [(slot(I, st, e, m, e[2]), st)]


@on_entry
def ent_key(I, st, e, m, put, a):
    return [(("rv", e[3]), st)]


@on_entry
def ent_insert(I, st, e, m, put, a):
    s = st.fork()
    if e[2] is None:
        put(s, ("map", m[1], m[2] + ((e[3], a[1]),)))
        return [(("rv", a[1]), s)]
    old = m[2][e[2]]
    put(s, ("map", m[1], m[2][:e[2]] + ((old[0], a[1]),) + m[2][e[2] + 1:]))
    return [(old[1], s)]


COLL = r"(indexmap::(map|set)::Index(Map|Set)|std::collections::hash::(map|set)::Hash(Map|Set)|" \
       r"alloc::collections::btree::(map|set)::BTree(Map|Set))"
METHODS = {
    "new": new, "with_capacity": new, "with_hasher": new, "with_capacity_and_hasher": new, "insert": insert, "shift_insert": shift_insert,
    "insert_before": shift_insert, "shift_remove": remove, "remove": remove, "shift_remove_entry": remove,
    "remove_entry": remove, "swap_remove": remove, "swap_remove_entry": remove, "shift_take": remove_val, "take": remove_val,
    "get": get, "contains_key": contains, "contains": contains, "len": length, "is_empty": is_empty,
    "iter": seq("iter"), "keys": seq("keys"), "values": seq("values"), "into_keys": seq("keys", True),
    "into_values": seq("values", True), "first": at("first"), "last": at("last"), "get_index": at("index"),
    "as_slice": as_slice, "pop": pop("last"), "pop_first": pop("first"), "pop_last": pop("last"), "clear": clear, "entry": entry,
    "iter_mut": M.slice_iter_mut, "values_mut": M.map_values_mut, "reserve": M.unit, "shrink_to_fit": M.unit,
}
ENTRY = {"or_insert": or_insert("value"), "or_insert_with": or_insert("call"), "or_default": or_insert("default"),
         "get": ent_get, "into_mut": ent_get, "get_mut": ent_get, "key": ent_key, "insert": ent_insert}


def lookup(path):
    m = re.match(r"^" + COLL + r"::<[^>]*>::(\w+)$", path)
    if m:
        return METHODS.get(m.group(m.lastindex))
    m = re.match(r"^<" + COLL + r"<.*> as (.*)>::(\w+)$", path)
    if m:
        name = path.rsplit("::", 1)[1]
        tr = path.split(" as ", 1)[1]
        if name == "default":
            return new
        if name == "from_iter":
            return from_iter
        if name == "extend":
            return extend
        if name == "eq":
            return eq
        if name == "clone":
            return clone
        if name == "into_iter":
            return seq("iter", True)
        if name == "from" and "From<[" in tr:
            return from_iter
        return None
    if re.search(r"IntoIterator for (&'a (mut )?)?" + COLL + r"<", path) and path.endswith("::into_iter"):
        return seq("iter", True)
    m = re.search(r"(indexmap::map|std::collections::hash::map|alloc::collections::btree::map)::(core::)?(entry::)?(\w*Entry)::<[^>]*>::(\w+)$", path)
    if m:
        return ENTRY.get(m.group(5))
    return None
