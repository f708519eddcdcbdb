"""Transfer functions for Vec and slices as known sequences: ("list", (elements..))."""
import re
import functools
from absint import Inconclusive, UNIT, TRUE, FALSE, OPT, none, some
import models as M
from models import strip
import maps


def setl(f):
    def g(I, st, a):
        v, put = M.get_it(I, st, a)
        if v[0] != "list" or put is None:
            return NotImplemented
        r = f(I, st, v[1], a)
        if r is NotImplemented:
            return r
        out = []
        for new, ret, s in r:
            s = s.fork()
            put(s, ("list", tuple(new)))
            out.append((ret, s))
        return out
    return g


def num(I, st, v):
    k = I.fact(st, strip(I, st, v))
    if k is None:
        raise Inconclusive("index")
    return k


def plain_key(I, st, x):
    """Sort key of a scalar or text."""
    c = maps.core(strip(I, st, x))
    if c[0] == "s":
        return (1, c[1].encode())
    k = I.fact(st, c)
    if k is not None:
        return (0, k)
    if c[0] == "agg":
        return (2, c[2], tuple(plain_key(I, st, y) for y in c[3]))
    raise Inconclusive("order of unknown elements")


def one(I, st, f, args):
    rs = I.apply(st, f, args)
    if len(rs) != 1:
        raise Inconclusive("order of unknown elements")
    return rs[0][0]


def sorter(how):
    def key(I, st, els, a):
        if how == "key":
            return sorted(els, key=lambda x: plain_key(I, st, one(I, st, a[1], [("rv", x)])))
        if how == "by":
            def cmp(x, y):
                r = strip(I, st, one(I, st, a[1], [("rv", x), ("rv", y)]))
                if r[0] == "agg" and "Ordering" in str(r[1]):
                    return r[2] - 1
                k = I.fact(st, r)
                if k is None:
                    raise Inconclusive("order of unknown elements")
                return k if k < 128 else k - 256
            return sorted(els, key=functools.cmp_to_key(cmp))
        return sorted(els, key=lambda x: plain_key(I, st, x))

    @setl
    def g(I, st, els, a):
        return [(key(I, st, els, a) if len(els) > 1 else els, UNIT, st)]
    return g


def sort_map(how):
    @maps.setm
    def g(I, st, m, a):
        es = list(m[2])
        if len(es) > 1:
            if how == "keys":
                es.sort(key=lambda e: plain_key(I, st, e[0]))
            elif how == "reverse":
                es.reverse()
            else:
                def cmp(x, y):
                    args = [("rv", x[0]), ("rv", y[0])] if maps.is_set(m) else [("rv", x[0]), ("rv", x[1]), ("rv", y[0]), ("rv", y[1])]
                    r = strip(I, st, one(I, st, a[1], args))
                    if r[0] == "agg" and "Ordering" in str(r[1]):
                        return r[2] - 1
                    raise Inconclusive("order of unknown elements")
                es.sort(key=functools.cmp_to_key(cmp))
        yield ("map", m[1], tuple(es)), UNIT, st
    return g


@maps.setm
def retain_map(I, st, m, a):
    cur = [((), st)]
    for k, v in m[2]:
        nxt = []
        for acc, s in cur:
            args = [("rv", k)] if maps.is_set(m) else [("rv", k), ("rv", v)]
            for r, s2 in I.apply(s, a[1], args):
                for b, s3 in I.split_bool(s2, r):
                    nxt.append((acc + ((k, v),) if b else acc, s3))
        cur = nxt
    for acc, s in cur:
        yield ("map", m[1], acc), UNIT, s


@setl
def retain(I, st, els, a):
    cur = [((), st)]
    for x in els:
        nxt = []
        for acc, s in cur:
            for r, s2 in I.apply(s, a[1], [("rv", x)]):
                for b, s3 in I.split_bool(s2, r):
                    nxt.append((acc + (x,) if b else acc, s3))
        cur = nxt
    return [(acc, UNIT, s) for acc, s in cur]


@setl
def reverse(I, st, els, a):
    return [(els[::-1], UNIT, st)]


@setl
def swap(I, st, els, a):
    i, j = num(I, st, a[1]), num(I, st, a[2])
    if not (0 <= i < len(els) and 0 <= j < len(els)):
        return NotImplemented
    l = list(els)
    l[i], l[j] = l[j], l[i]
    return [(l, UNIT, st)]


@setl
def insert(I, st, els, a):
    i = num(I, st, a[1])
    if not 0 <= i <= len(els):
        return NotImplemented
    return [(els[:i] + (a[2],) + els[i:], UNIT, st)]


@setl
def remove(I, st, els, a):
    i = num(I, st, a[1])
    if not 0 <= i < len(els):
        return NotImplemented
    return [(els[:i] + els[i + 1:], els[i], st)]


@setl
def swap_remove(I, st, els, a):
    i = num(I, st, a[1])
    if not 0 <= i < len(els):
        return NotImplemented
    l = list(els)
    l[i] = l[-1]
    return [(l[:-1], els[i], st)]


@setl
def pop(I, st, els, a):
    return [(els[:-1], some(els[-1]), st)] if els else [(els, none(), st)]


@setl
def truncate(I, st, els, a):
    return [(els[:num(I, st, a[1])], UNIT, st)]


@setl
def clear(I, st, els, a):
    return [((), UNIT, st)]


@setl
def extend_slice(I, st, els, a):
    v = strip(I, st, a[1])
    if v[0] == "agg" and v[1] == "array":
        v = ("list", v[3])
    if v[0] != "list":
        return NotImplemented
    return [(els + tuple(v[1]), UNIT, st)]


def extend(I, st, a):
    v, put = M.get_it(I, st, a)
    if v[0] != "list" or put is None:
        return NotImplemented
    els = maps.elements(I, st, a[1])
    if els is None:
        return NotImplemented
    out = []
    for el, s in els:
        s = s.fork()
        put(s, ("list", v[1] + tuple(el)))
        out.append((UNIT, s))
    return out


def listed(f):
    def g(I, st, a):
        v = strip(I, st, a[0])
        if v[0] == "agg" and v[1] == "array":
            v = ("list", v[3])
        return f(I, st, v[1], a) if v[0] == "list" else NotImplemented
    return g


@listed
def is_empty(I, st, els, a):
    return [(FALSE if els else TRUE, st)]


@listed
def last(I, st, els, a):
    return [(some(("rv", els[-1])) if els else none(), st)]


@listed
def get(I, st, els, a):
    i = strip(I, st, a[1])
    if i[0] == "agg":
        return NotImplemented
    k = I.fact(st, i)
    if k is None:
        return NotImplemented
    return [(some(("rv", els[k])) if 0 <= k < len(els) else none(), st)]


@listed
def split_first(I, st, els, a):
    if not els:
        return [(none(), st)]
    return [(some(("agg", "tuple", 0, (("rv", els[0]), ("rv", ("list", tuple(els[1:])))))), st)]


@listed
def split_last(I, st, els, a):
    if not els:
        return [(none(), st)]
    return [(some(("agg", "tuple", 0, (("rv", els[-1]), ("rv", ("list", tuple(els[:-1])))))), st)]


SLICE = {"sort": sorter(""), "sort_unstable": sorter(""), "sort_by_key": sorter("key"), "sort_unstable_by_key": sorter("key"),
         "sort_by_cached_key": sorter("key"), "sort_by": sorter("by"), "sort_unstable_by": sorter("by"), "reverse": reverse, "swap": swap,
         "last": last, "get": get, "is_empty": is_empty, "split_first": split_first, "split_last": split_last}
VEC = {"insert": insert, "remove": remove, "swap_remove": swap_remove, "pop": pop, "truncate": truncate, "clear": clear, "retain": retain,
       "extend_from_slice": extend_slice, "is_empty": is_empty, "append": None}
MAP = {"sort_keys": sort_map("keys"), "sort_unstable_keys": sort_map("keys"), "sort": sort_map("keys"), "sort_unstable": sort_map("keys"),
       "sort_by": sort_map("by"), "sort_unstable_by": sort_map("by"), "reverse": sort_map("reverse"), "retain": retain_map}


def lookup(path):
    m = re.match(r"^(?:core|alloc)::slice::<impl \[T\]>::(\w+)$", path)
    if m:
        return SLICE.get(m[1])
    m = re.match(r"^alloc::vec::Vec::<T(?:, A)?>::(\w+)$", path)
    if m:
        return VEC.get(m[1])
    if re.match(r"^<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<.*>>::extend$", path):
        return extend
    m = re.match(r"^" + maps.COLL + r"::<[^>]*>::(\w+)$", path)
    if m:
        return MAP.get(m.group(m.lastindex))
    return None
