"""Transfer functions for the library calls whose bodies are not interpreted."""
import math, re
from absint import (Inconclusive, UNIT, TRUE, FALSE, OPT, CHARS, INT_RANGE, none, some, ok, err, tup, iset, inorm,
                    iand, iminus, ior, ulen, neg, arith)

ISIZE_MAX = 2 ** 63 - 1


# ---- basic views -------------------------------------------------------------------------------
def strip(I, st, v):
    while v[0] in ("rv", "rm"):
        v = v[1] if v[0] == "rv" else I.proj_get(st, I.load(st, v[1]), v[2], v[1][0])
    return v


def syms(v):
    """The characters of a string value, or None when part of it is opaque."""
    k = v[0]
    if k == "s":
        return tuple(("c", ord(c)) for c in v[1])
    if k == "q":
        return tuple(("t", ("ch", v[1], i)) for i in range(v[2], v[3]))
    if k == "cat":
        out = ()
        for p in v[1]:
            s = syms(p)
            if s is None:
                return None
            out += s
        return out
    if k == "t" and v[1][0] == "chs":
        return (v[1][1],)
    return None


def mk(sy):
    """String value of a character sequence."""
    out = []
    for s in sy:
        if s[0] == "c":
            if out and out[-1][0] == "s":
                out[-1] = ("s", out[-1][1] + chr(s[1]))
            else:
                out.append(("s", chr(s[1])))
        elif s[1][0] == "ch":
            b, i = s[1][1], s[1][2]
            if out and out[-1][0] == "q" and out[-1][1] == b and out[-1][3] == i:
                out[-1] = ("q", b, out[-1][2], i + 1)
            else:
                out.append(("q", b, i, i + 1))
        else:
            out.append(("t", ("chs", s)))
    if not out:
        return ("s", "")
    return out[0] if len(out) == 1 else ("cat", tuple(out))


def cat(*vs):
    pieces = []
    for v in vs:
        for p in (v[1] if v[0] == "cat" else (v,)):
            if p == ("s", ""):
                continue
            if pieces and p[0] == "s" and pieces[-1][0] == "s":
                pieces[-1] = ("s", pieces[-1][1] + p[1])
            elif pieces and p[0] == "q" and pieces[-1][0] == "q" and pieces[-1][1] == p[1] and pieces[-1][3] == p[2]:
                pieces[-1] = ("q", p[1], pieces[-1][2], p[3])
            else:
                pieces.append(p)
    if not pieces:
        return ("s", "")
    return pieces[0] if len(pieces) == 1 else ("cat", tuple(pieces))


def is_str(v):
    return v[0] in ("s", "q", "cat")


def cls(st, s):
    if s[0] == "c":
        return ((s[1], s[1]),)
    d = derived(s)
    if d is not None:
        return tuple((a + d[1], b + d[1]) for a, b in cls(st, d[0]))
    return st.facts.get(("r", s[1]), CHARS)


def derived(s):
    """(base character, offset) of a character obtained by changing case."""
    t = s[1]
    if t[0] == "op" and t[1] == "Add" and t[2][0] == "t" and t[3][0] == "c":
        return t[2], t[3][1]
    return None


def split_set(st, s, want):
    """[(bool, state)]: is the character s in the set `want`?"""
    d = derived(s) if s[0] == "t" else None
    if d is not None:
        return split_set(st, d[0], tuple((a - d[1], b - d[1]) for a, b in want))
    cur = cls(st, s)
    a, b = iand(cur, want), iminus(cur, want)
    if not b:
        return [(True, st)]
    if not a:
        return [(False, st)]
    s1, s2 = st.fork(), st
    s1.facts[("r", s[1])] = a
    s2 = st.fork()
    s2.facts[("r", s[1])] = b
    return [(True, s1), (False, s2)]


def char_eq(I, st, a, b):
    if a == b:
        return [(True, st)]
    if b[0] == "c":
        return split_set(st, a, ((b[1], b[1]),))
    if a[0] == "c":
        return split_set(st, b, ((a[1], a[1]),))
    if not iand(cls(st, a), cls(st, b)):
        return [(False, st)]
    return I.split_bool(st, compare(I, st, "Eq", a, b, None))


# ---- patterns ----------------------------------------------------------------------------------
def pat_kind(I, st, p):
    p = strip(I, st, p)
    if p[0] == "c":
        return ("set", ((p[1], p[1]),))
    if is_str(p):
        s = syms(p)
        return ("str", s) if s is not None else None
    if p[0] == "list":
        if all(x[0] == "c" for x in p[1]):
            return ("set", inorm([(x[1], x[1]) for x in p[1]]))
        return None
    if p[0] == "agg" and p[1] == "array":
        return pat_kind(I, st, ("list", p[3]))
    if p[0] in ("clo", "fn"):
        return ("fn", p)
    if p[0] == "t" and p[1][0] == "ch":
        return ("sym", p)
    return None


def match_at(I, st, sy, i, pk):
    """[(matched length or None, state)] of the pattern at position i."""
    if pk[0] == "str":
        n = len(pk[1])
        if i + n > len(sy):
            return [(None, st)]
        out, cur = [], [st]
        for k in range(n):
            nxt = []
            for s in cur:
                for b, s2 in char_eq(I, s, sy[i + k], pk[1][k]):
                    (nxt.append(s2) if b else out.append((None, s2)))
            cur = nxt
        return [(n, s) for s in cur] + out
    if i >= len(sy):
        return [(None, st)]
    if pk[0] == "set":
        return [(1 if b else None, s) for b, s in split_set(st, sy[i], pk[1])]
    if pk[0] == "sym":
        return [(1 if b else None, s) for b, s in char_eq(I, st, sy[i], pk[1])]
    out = []
    for r, s in I.apply(st, pk[1], [sy[i]]):
        for b, s2 in I.split_bool(s, r):
            out.append((1 if b else None, s2))
    return merge_pairs(out)


def merge_pairs(out):
    """Join states that carry the same answer and differ in one class only."""
    from absint import join_states
    return join_states(out)


def find_first(I, st, sy, start, pk, rev=False):
    """[(position or None, matched length, state)] of the first (last) match at or after start."""
    res = []
    order = range(start, len(sy) + 1) if not rev else range(len(sy), start - 1, -1)
    cur = [st]
    for i in order:
        nxt = []
        for s in cur:
            for n, s2 in match_at(I, s, sy, i, pk):
                if n is None:
                    nxt.append(s2)
                else:
                    res.append((i, n, s2))
        cur = [s for _, s in merge_pairs([(0, s) for s in nxt])]
    for s in cur:
        res.append((None, 0, s))
    return res


# ---- byte offsets ------------------------------------------------------------------------------
def offset(st, sy):
    """Byte length of a character sequence: a constant plus characters of unknown width."""
    k, rest = 0, []
    for s in sy:
        c = cls(st, s)
        lo, hi = ulen(c[0][0]), ulen(c[-1][1])
        if lo == hi:
            k += lo
        else:
            rest.append(s)
    return ("bl", k, tuple(rest)) if rest else ("c", k)


def norm_off(st, v):
    if v[0] == "bl":
        o = offset(st, v[2])
        if o[0] == "c":
            return ("c", o[1] + v[1])
        return ("bl", o[1] + v[1], o[2])
    return v


def locate(I, st, sy, idx):
    """[(character position or None when idx is not a boundary, state)]."""
    idx = norm_off(st, idx)
    if idx[0] == "t":
        k = I.fact(st, idx)
        if k is None:
            raise Inconclusive("string offset %r" % (idx,))
        idx = ("c", k)
    for p in range(len(sy) + 1):
        if offset(st, sy[:p]) == idx:
            return [(p, st)]
    # Widths matter: decide the first character of unknown width.
    for s in sy:
        c = cls(st, s)
        if ulen(c[0][0]) != ulen(c[-1][1]):
            out = []
            for w in (((0, 0x7F),), ((0x80, 0x7FF),), ((0x800, 0xFFFF),), ((0x10000, 0x10FFFF),)):
                n = iand(c, w)
                if n:
                    s2 = st.fork()
                    s2.facts[("r", s[1])] = n
                    out += locate(I, s2, sy, idx)
            return out
    return [(None, st)]


def slice_panic(I, st, what, args):
    fr, bb, caller, ref, inst, line = I.cur
    I.panic("call:" + what, caller, line, tuple(args), st)


# ---- comparisons and boolean terms -------------------------------------------------------------
FLIP = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
NEG = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}
RELS = {"Lt": "<", "Le": "<=", "Eq": "=", "Ge": "=>", "Gt": ">", "Ne": "<>"}


def opset(op, n):
    big = 2 ** 200
    return {"Eq": ((n, n),), "Ne": ((-big, n - 1), (n + 1, big)), "Lt": ((-big, n - 1),), "Le": ((-big, n),),
            "Gt": ((n + 1, big),), "Ge": ((n, big),)}[op]


def compare(I, st, op, a, b, ty):
    a, b = norm_off(st, strip(I, st, a)), norm_off(st, strip(I, st, b))
    if a[0] == "fl" and b[0] == "fl":
        x, y = unfl(a), unfl(b)
        return ("c", int({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]))
    if a[0] == "fl" or b[0] == "fl":
        return ("t", ("fcmp", op, a, b))
    if a[0] == "c" and b[0] == "c":
        x, y = a[1], b[1]
        return ("c", int({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]))
    if a[0] == "c":
        a, b, op = b, a, FLIP[op]
    if ty is not None and I.F.types[ty][0] == "bool" and b[0] == "c" and op in ("Eq", "Ne"):
        return a if (b[1] == 1) == (op == "Eq") else neg(a)
    if ty is not None and I.F.types[ty][0] == "float":
        return ("t", ("fcmp", op, a, b))
    if a == b:
        return ("c", int(op in ("Eq", "Le", "Ge")))
    if b[0] == "c":
        r = I.rng(st, a, ty)
        s = opset(op, b[1])
        if not iand(r, s):
            return FALSE
        if not iminus(r, s):
            return TRUE
        return ("t", ("cmp", op, a, b, ty))
    ra, rb = I.rng(st, a, ty), I.rng(st, b, ty)
    if ra and rb:
        if ra[-1][1] < rb[0][0]:
            return ("c", int(op in ("Lt", "Le", "Ne")))
        if ra[0][0] > rb[-1][1]:
            return ("c", int(op in ("Gt", "Ge", "Ne")))
    if repr(a) > repr(b):
        a, b, op = b, a, FLIP[op]
    return ("t", ("cmp", op, a, b, ty))


def cmp3(I, st, a, b, ty):
    a, b = norm_off(st, strip(I, st, a)), norm_off(st, strip(I, st, b))
    if a[0] == "c" and b[0] == "c":
        i = -1 if a[1] < b[1] else 0 if a[1] == b[1] else 1
        return ("agg", "core::cmp::Ordering", i + 1, ())
    if a == b and a[0] != "fl":
        return ("agg", "core::cmp::Ordering", 1, ())
    return ("t", ("cmp3", a, b, ty))


def assume_cmp(I, st, op, a, b, ty):
    """Restrict st to `a op b`; False if that is impossible."""
    a, b = norm_off(st, a), norm_off(st, b)
    if a[0] == "bl" or b[0] == "bl":
        r = compare(I, st, op, a, b, ty)
        return r != FALSE
    if b[0] == "c":
        r = I.rng(st, a, ty)
        n = iand(r, opset(op, b[1]))
        if not n:
            return False
        return assume_int(I, st, a, n)
    if a[0] == "c":
        return assume_cmp(I, st, FLIP[op], b, a, ty)
    key = ("rel", a, b)
    cur = st.facts.get(key, "<=>")
    rev = st.facts.get(("rel", b, a), "<=>").translate({60: ">", 62: "<"})
    new = "".join(c for c in cur if c in RELS[op] and c in rev)
    if not new:
        return False
    st.facts[key] = new
    ra, rb = I.rng(st, a, ty), I.rng(st, b, ty)
    if ra and rb:
        if ">" not in new:
            d = 0 if "=" in new else 1
            if not (I.refine(st, a, iand(ra, ((-2 ** 200, rb[-1][1] - d),)) or ((1, 0),)) and
                    I.refine(st, b, iand(rb, ((ra[0][0] + d, 2 ** 200),)) or ((1, 0),))):
                return False
        elif "<" not in new:
            d = 0 if "=" in new else 1
            if not (I.refine(st, b, iand(rb, ((-2 ** 200, ra[-1][1] - d),)) or ((1, 0),)) and
                    I.refine(st, a, iand(ra, ((rb[0][0] + d, 2 ** 200),)) or ((1, 0),))):
                return False
        if new == "=":
            both = iand(ra, rb)
            if not both or not I.refine(st, a, both) or not I.refine(st, b, both):
                return False
    return True


def assume_int(I, st, v, s):
    """Restrict an integer-like value to a set; False if that is impossible."""
    if v[0] == "c":
        return any(lo <= v[1] <= hi for lo, hi in s)
    if v[0] != "t":
        return I.refine(st, v, s)
    t = v[1]
    if t[0] == "discr" and isinstance(t[1], tuple) and t[1][0] == "cmp3":
        _, a, b, ty = t[1]
        rel = [c for c, n in (("<", -1), ("=", 0), (">", 1)) if any(lo <= n <= hi for lo, hi in s)]
        op = {"<": "Lt", "=": "Eq", ">": "Gt", "<=": "Le", "=>": "Ge", "<>": "Ne"}.get("".join(rel))
        if op and not assume_cmp(I, st, op, a, b, ty):
            return False
        return I.refine(st, v, s)
    if t[0] in ("not", "cmp", "streq", "fcmp"):
        vals = [x for x in (0, 1) if any(lo <= x <= hi for lo, hi in s)]
        if len(vals) == 1:
            r = [x for x in split_term(I, st, t) if int(x[0]) == vals[0]]
            if not r:
                return False
            st.facts.clear()
            st.facts.update(r[0][1].facts)
            return True
        return bool(vals)
    if t[0] == "op" and t[1] == "Add" and t[3][0] == "c":
        I.refine(st, t[2], tuple((lo - t[3][1], hi - t[3][1]) for lo, hi in s))
    if t[0] == "len":
        # an empty string has no characters
        key = ("str", t[1])
        if s == ((0, 0),):
            cur = st.facts.get(key)
            if cur and cur[0] == "not" and "" in cur[1]:
                return False
    return I.refine(st, v, s)


def split_term(I, st, t):
    """[(bool, state)] for the boolean term t."""
    k = t[0]
    if k == "not":
        return [(not b, s) for b, s in I.split_bool(st, t[1])]
    if k == "op" and t[1] in ("bBitAnd", "bBitOr", "bBitXor"):
        out = []
        for x, s in I.split_bool(st, t[2]):
            if t[1] == "bBitAnd" and not x:
                out.append((False, s))
                continue
            if t[1] == "bBitOr" and x:
                out.append((True, s))
                continue
            for y, s2 in I.split_bool(s, t[3]):
                out.append(((x != y) if t[1] == "bBitXor" else y, s2))
        return out
    if k == "cmp":
        out = []
        _, op, a, b, ty = t
        r = compare(I, st, op, a, b, ty)
        if r[0] == "c":
            return [(bool(r[1]), st)]
        for val, o in ((True, op), (False, NEG[op])):
            s = st.fork()
            if assume_cmp(I, s, o, a, b, ty):
                out.append((val, s))
        return out
    if k == "streq":
        _, x, lit = t
        key = ("str", x)
        cur = st.facts.get(key)
        if cur is not None:
            if cur[0] == "is":
                return [(cur[1] == lit, st)]
            if lit in cur[1]:
                return [(False, st)]
        out = []
        ln = st.facts.get(("r", ("len", ("t", x))))
        n = len(lit.encode())
        if ln is None or iand(ln, ((n, n),)):
            s = st.fork()
            s.facts[key] = ("is", lit)
            out.append((True, s))
        s = st.fork()
        s.facts[key] = ("not", (cur[1] if cur else frozenset()) | {lit})
        if lit == "":
            s.facts[("r", ("len", ("t", x)))] = iand(ln or ((0, ISIZE_MAX),), ((1, ISIZE_MAX),))
            if not s.facts[("r", ("len", ("t", x)))]:
                return out
        out.append((False, s))
        return out
    cur = st.facts.get(("r", t), ((0, 1),))
    out = []
    for b in (True, False):
        if iand(cur, ((int(b), int(b)),)):
            s = st.fork()
            s.facts[("r", t)] = ((int(b), int(b)),)
            out.append((b, s))
    return out


def bl_arith(I, st, op, a, b):
    was = a[0] == "bl" or b[0] == "bl"
    a, b = norm_off(st, a), norm_off(st, b)
    if a[0] == "c" and b[0] == "c":
        n = a[1] + b[1] if op == "Add" else a[1] - b[1] if op == "Sub" else None
        return ("c", n) if was and n is not None and n >= 0 else None
    if a[0] not in ("bl", "c") or b[0] not in ("bl", "c"):
        return None
    ka, sa = (a[1], a[2]) if a[0] == "bl" else (a[1], ())
    kb, sb = (b[1], b[2]) if b[0] == "bl" else (b[1], ())
    if op == "Add":
        return ("bl", ka + kb, tuple(sorted(sa + sb, key=repr)) if sa and sb and sa != sb else sa + sb)
    if op == "Sub":
        rest = list(sa)
        for x in sb:
            if x not in rest:
                return None
            rest.remove(x)
        k = ka - kb
        if not rest:
            return ("c", k) if k >= 0 else None
        return ("bl", k, tuple(rest)) if k + len(rest) >= 0 else None
    return None


def bl_range(st, v):
    lo = hi = v[1]
    for s in v[2]:
        c = cls(st, s)
        lo += ulen(c[0][0])
        hi += ulen(c[-1][1])
    return ((lo, hi),)


def term_range(t):
    """Range of a library result known from its contract."""
    if t[0] == "len":
        return ((0, ISIZE_MAX),)
    if t[0] == "f" and isinstance(t[1], tuple) and t[1][0] == "call" and t[2] == 1 and \
            re.search(r"::(r?find|r?position)$", str(t[1][1])):
        return ((0, ISIZE_MAX),)
    return None


def no_overflow(I, st, op, a, b, ty):
    if op == "Sub":
        for (x, y, good) in ((a, b, ("=", ">", "=>")), (b, a, ("<", "=", "<="))):
            r = st.facts.get(("rel", x, y))
            if r in good:
                return True
    return False


def forget(I, st, t):
    """Drop what is known about the result of an earlier identical call."""
    def mentions(x):
        if x == t:
            return True
        return isinstance(x, tuple) and any(mentions(y) for y in x)
    for k in [k for k in st.facts if mentions(k)]:
        del st.facts[k]


def length(I, st, v):
    v = strip(I, st, v)
    if v[0] == "list":
        return ("c", len(v[1]))
    if v[0] == "agg" and v[1] == "array":
        return ("c", len(v[3]))
    if v[0] == "by":
        return length(I, st, v[1])
    if is_str(v):
        sy = syms(v)
        if sy is not None:
            return offset(st, sy)
        if any(p[0] == "s" and p[1] for p in v[1]):
            return ("t", ("len1", v))
        return ("t", ("len", v))
    return ("t", ("len", v))


# ---- string functions --------------------------------------------------------------------------
def bools(rs):
    return [(TRUE if b else FALSE, s) for b, s in rs]


def S(I, st, v):
    v = strip(I, st, v)
    if v[0] == "by":
        v = v[1]
    return v


def str_is_empty(I, st, a):
    return [(compare(I, st, "Eq", length(I, st, a[0]), ("c", 0), None), st)]


def str_len(I, st, a):
    return [(length(I, st, a[0]), st)]


def with_str(f):
    """Model that needs the characters of its first argument and a known pattern."""
    def g(I, st, a):
        s = S(I, st, a[0])
        sy = syms(s) if is_str(s) else None
        if sy is None:
            return NotImplemented
        pk = pat_kind(I, st, a[1]) if len(a) > 1 else None
        if len(a) > 1 and pk is None:
            return NotImplemented
        return f(I, st, sy, pk)
    return g


@with_str
def str_contains(I, st, sy, pk):
    return merge_pairs([(FALSE if p is None else TRUE, s) for p, _, s in find_first(I, st, sy, 0, pk)])


@with_str
def str_find(I, st, sy, pk):
    return [(none() if p is None else some(offset(s, sy[:p])), s) for p, _, s in find_first(I, st, sy, 0, pk)]


@with_str
def str_rfind(I, st, sy, pk):
    return [(none() if p is None else some(offset(s, sy[:p])), s) for p, _, s in
            find_first(I, st, sy, 0, pk, rev=True)]


@with_str
def str_starts_with(I, st, sy, pk):
    return bools((n is not None, s) for n, s in match_at(I, st, sy, 0, pk))


def end_pos(sy, pk):
    n = len(pk[1]) if pk[0] == "str" else 1
    return len(sy) - n


@with_str
def str_ends_with(I, st, sy, pk):
    p = end_pos(sy, pk)
    if p < 0:
        return [(FALSE, st)]
    return bools((n is not None, s) for n, s in match_at(I, st, sy, p, pk))


@with_str
def str_strip_prefix(I, st, sy, pk):
    return [(none() if n is None else some(mk(sy[n:])), s) for n, s in match_at(I, st, sy, 0, pk)]


@with_str
def str_strip_suffix(I, st, sy, pk):
    p = end_pos(sy, pk)
    if p < 0:
        return [(none(), st)]
    return [(none() if n is None else some(mk(sy[:p])), s) for n, s in match_at(I, st, sy, p, pk)]


@with_str
def str_split_once(I, st, sy, pk):
    return [(none() if p is None else some(tup(mk(sy[:p]), mk(sy[p + n:]))), s)
            for p, n, s in find_first(I, st, sy, 0, pk)]


@with_str
def str_rsplit_once(I, st, sy, pk):
    return [(none() if p is None else some(tup(mk(sy[:p]), mk(sy[p + n:]))), s)
            for p, n, s in find_first(I, st, sy, 0, pk, rev=True)]


def trim(start, end, use_pat):
    def g(I, st, a):
        s = S(I, st, a[0])
        sy = syms(s) if is_str(s) else None
        if sy is None:
            return NotImplemented
        pk = pat_kind(I, st, a[1]) if use_pat else ("set", WHITE)
        if pk is None or (pk[0] == "str" and len(pk[1]) != 1):
            return NotImplemented
        res, cur = [], [(0, len(sy), st)]
        if start:
            nxt = []
            while cur:
                lo, hi, s = cur.pop()
                if lo == hi:
                    nxt.append((lo, hi, s))
                    continue
                for n, s2 in match_at(I, s, sy, lo, pk):
                    (cur if n else nxt).append((lo + (n or 0), hi, s2))
            cur = nxt
        if end:
            nxt = []
            while cur:
                lo, hi, s = cur.pop()
                if lo == hi:
                    nxt.append((lo, hi, s))
                    continue
                for n, s2 in match_at(I, s, sy, hi - 1, pk):
                    (cur if n else nxt).append((lo, hi - (n or 0), s2))
            cur = nxt
        return [(mk(sy[lo:hi]), s) for lo, hi, s in cur]
    return g


WHITE = inorm([(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029),
               (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)])


def range_bounds(I, st, r, sy):
    r = strip(I, st, r)
    zero, end = ("c", 0), offset(st, sy)
    if r[0] != "agg":
        return None
    n = r[1].rsplit("::", 1)[-1]
    f = r[3]
    if n == "Range":
        return f[0], f[1]
    if n == "RangeFrom":
        return f[0], end
    if n == "RangeTo":
        return zero, f[0]
    if n == "RangeFull":
        return zero, end
    if n == "RangeInclusive":
        return f[0], plus(I, st, f[1], 1)
    if n == "RangeToInclusive":
        return zero, plus(I, st, f[0], 1)
    return None


def plus(I, st, v, k):
    v = norm_off(st, v)
    if v[0] == "c":
        return ("c", v[1] + k)
    if v[0] == "bl":
        return ("bl", v[1] + k, v[2])
    return ("t", ("op", "Add", v, ("c", k)))


def slice_paths(I, st, sy, lo, hi):
    out = []
    for p, s in locate(I, st, sy, lo):
        for q, s2 in locate(I, s, sy, hi):
            out.append(((p, q) if p is not None and q is not None and p <= q else None, s2))
    return out


def opaque_slice_ok(I, st, v, r):
    """Offsets of an opaque string that are boundaries by construction."""
    r = strip(I, st, r)
    if r[0] != "agg":
        return False
    n = r[1].rsplit("::", 1)[-1]
    if n == "RangeFull":
        return True

    def kind(x):
        x = strip(I, st, x)
        if x == ("c", 0):
            return ("zero",)
        if x[0] == "t" and x[1] == ("len", v):
            return ("end",)
        extra = 0
        if x[0] == "t" and x[1][0] == "op" and x[1][1] == "Add" and x[1][3][0] == "c":
            extra, x = x[1][3][1], x[1][2]
        if x[0] == "t" and x[1][0] == "f" and x[1][1][0] == "call" and re.search(r"::r?find$", str(x[1][1][1])) \
                and len(x[1][1]) > 3 and x[1][1][2] == v:
            p = x[1][1][3]
            if extra == 0:
                return ("pos", x)
            w = None
            if p[0] == "c":
                w = ulen(p[1])
            elif p[0] == "s":
                w = len(p[1].encode())
            elif p[0] == "list" and all(y[0] == "c" and ulen(y[1]) == 1 for y in p[1]):
                w = 1
            if w == extra:
                return ("after", x)
        return None
    ks = [kind(x) for x in r[3][:2]] if n in ("Range",) else [kind(r[3][0])]
    if any(k is None for k in ks):
        return False
    if len(ks) == 1:
        return True
    a, b = ks
    return a == ("zero",) or b == ("end",) or a == b or (a[0] == "pos" and b == ("after", a[1]))


def str_index(I, st, a):
    v = S(I, st, a[0])
    if v[0] == "list" or v[0] == "agg":
        return seq_index(I, st, a)
    sy = syms(v) if is_str(v) else None
    if sy is None:
        if not opaque_slice_ok(I, st, v, a[1]):
            slice_panic(I, st, "str slice", a)
        return NotImplemented
    b = range_bounds(I, st, a[1], sy)
    if b is None:
        return NotImplemented
    out = []
    for pq, s in slice_paths(I, st, sy, *b):
        if pq is None:
            slice_panic(I, s, "str slice", a)
        else:
            out.append((mk(sy[pq[0]:pq[1]]), s))
    return out


def str_get(I, st, a):
    v = S(I, st, a[0])
    sy = syms(v) if is_str(v) else None
    if sy is None:
        return NotImplemented
    b = range_bounds(I, st, a[1], sy)
    if b is None:
        return NotImplemented
    return [(none() if pq is None else some(mk(sy[pq[0]:pq[1]])), s) for pq, s in slice_paths(I, st, sy, *b)]


def str_split_at(I, st, a):
    v = S(I, st, a[0])
    sy = syms(v) if is_str(v) else None
    if sy is None:
        fake = ("agg", "core::ops::range::RangeFrom", 0, (a[1],))
        if not opaque_slice_ok(I, st, v, fake):
            slice_panic(I, st, "str split_at", a)
        return NotImplemented
    out = []
    for p, s in locate(I, st, sy, a[1]):
        if p is None:
            slice_panic(I, s, "str split_at", a)
        else:
            out.append((tup(mk(sy[:p]), mk(sy[p:])), s))
    return out


def seq_index(I, st, a):
    v, ix = strip(I, st, a[0]), strip(I, st, a[1])
    el = v[1] if v[0] == "list" else v[3] if v[0] == "agg" and v[1] == "array" else None
    if el is None:
        slice_panic(I, st, "index", a)
        return NotImplemented
    k = I.fact(st, ix)
    if k is not None:
        if 0 <= k < len(el):
            return [(("rv", el[k]), st)]
        slice_panic(I, st, "index", a)
        return []
    slice_panic(I, st, "index", a)
    return NotImplemented


def str_eq(I, st, a):
    x, y = S(I, st, a[0]), S(I, st, a[1])
    return streq(I, st, x, y)


def streq(I, st, x, y):
    if x == y:
        return [(TRUE, st)]
    sx = syms(x) if is_str(x) else None
    sy = syms(y) if is_str(y) else None
    if sx is not None and sy is not None:
        if len(sx) != len(sy):
            return [(FALSE, st)]
        out, cur = [], [st]
        for c, d in zip(sx, sy):
            nxt = []
            for s in cur:
                for b, s2 in char_eq(I, s, c, d):
                    (nxt.append(s2) if b else out.append((FALSE, s2)))
            cur = nxt
        return merge_pairs(out + [(TRUE, s) for s in cur])
    if sx is not None and all(c[0] == "c" for c in sx):
        x, y, sx, sy = y, x, sy, sx
    if sy is not None and all(c[0] == "c" for c in sy) and x[0] == "t":
        return [(("t", ("streq", x[1], "".join(chr(c[1]) for c in sy))), st)]
    if repr(x) > repr(y):
        x, y = y, x
    return [(("t", ("eq", x, y)), st)]


def str_ne(I, st, a):
    return [(neg(v), s) for v, s in str_eq(I, st, a)]


def eq_ignore_case(I, st, a):
    x, y = S(I, st, a[0]), S(I, st, a[1])
    sx = syms(x) if is_str(x) else None
    sy = syms(y) if is_str(y) else None
    if sx is not None and sy is not None and all(c[0] == "c" for c in sy):
        if len(sx) != len(sy):
            return [(FALSE, st)]
        out, cur = [], [st]
        for c, d in zip(sx, sy):
            o = {d[1]}
            if chr(d[1]).isascii():
                o |= {ord(chr(d[1]).lower()), ord(chr(d[1]).upper())}
            nxt = []
            for s in cur:
                for b, s2 in split_set(s, c, inorm([(z, z) for z in o])):
                    (nxt.append(s2) if b else out.append((FALSE, s2)))
            cur = nxt
        return merge_pairs(out + [(TRUE, s) for s in cur])
    return NotImplemented


def ident(I, st, a):
    return [(S(I, st, a[0]), st)]


def ident_conv(I, st, a):
    v = S(I, st, a[0])
    while v[0] == "agg" and v[1] == "alloc::borrow::Cow":
        v = S(I, st, v[3][0])
    return [(v, st)]


def ident_ref(I, st, a):
    return [(a[0], st)]


def char_to_str(I, st, a):
    v = strip(I, st, a[0])
    return [(mk((v,)) if v[0] in ("c", "t") else v, st)]


def encode_utf8(I, st, a):
    return char_to_str(I, st, a)


def case_char(up):
    def g(I, st, a):
        c = strip(I, st, a[0])
        if c[0] == "c":
            n = chr(c[1])
            n = n.upper() if up else n.lower()
            return [(("c", ord(n)) if c[1] < 128 else c, st)]
        out = []
        src = ((97, 122),) if up else ((65, 90),)
        for b, s in split_set(st, c, src):
            if not b:
                out.append((c, s))
            else:
                out.append((("t", ("op", "Add", c, ("c", -32 if up else 32))), s))
        return out
    return g


# ---- iterators ---------------------------------------------------------------------------------
def get_it(I, st, a):
    """(iterator value, setter) behind a `&mut` argument."""
    v = a[0]
    if v[0] == "rm":
        it = strip(I, st, v)

        def put(s, new):
            # v may itself point to a place that holds another `rm`
            w = v
            while True:
                inner = I.proj_get(s, I.load(s, w[1]), w[2], w[1][0])
                if inner[0] == "rm":
                    w = inner
                else:
                    break
            I.store(s, w[1], list(w[2]), new)
        return it, put
    return strip(I, st, v), None


def make_iter(kind):
    def g(I, st, a):
        s = S(I, st, a[0])
        sy = syms(s) if is_str(s) else None
        if sy is None:
            return NotImplemented
        if kind == "chars":
            return [(("it", "seq", sy), st)]
        if kind == "char_indices":
            return [(("it", "seq", tuple(tup(offset(st, sy[:i]), c) for i, c in enumerate(sy))), st)]
        if kind == "bytes":
            return [(("it", "seq", x), s2) for x, s2 in to_bytes(I, st, sy)]
        return NotImplemented
    return g


def to_bytes(I, st, sy):
    """Bytes of a string whose characters are ASCII on this path (others: one path per width)."""
    res = [((), st)]
    for c in sy:
        nxt = []
        for acc, s in res:
            for isasc, s2 in split_set(s, c, ((0, 127),)):
                if isasc:
                    nxt.append((acc + (c,), s2))
                elif c[0] == "c":
                    nxt.append((acc + tuple(("c", b) for b in chr(c[1]).encode()), s2))
                else:
                    for w, rg in ((2, ((0x80, 0x7FF),)), (3, ((0x800, 0xFFFF),)), (4, ((0x10000, 0x10FFFF),))):
                        n = iand(cls(s2, c), rg)
                        if n:
                            s3 = s2.fork()
                            s3.facts[("r", c[1])] = n
                            bs = tuple(("t", ("byte", c[1], k)) for k in range(w))
                            for b in bs:
                                s3.facts[("r", b[1])] = ((0x80, 0xFF),)
                            nxt.append((acc + bs, s3))
        res = nxt
    return res


def as_bytes(I, st, a):
    s = S(I, st, a[0])
    if is_str(s) and syms(s) is not None:
        return [(("list", x), s2) for x, s2 in to_bytes(I, st, syms(s))]
    return NotImplemented


def split_iter(mode):
    def g(I, st, a):
        s = S(I, st, a[0])
        sy = syms(s) if is_str(s) else None
        n = None
        if mode in ("splitn", "rsplitn"):
            n = I.fact(st, strip(I, st, a[1]))
            pat = a[2]
            if n is None:
                return NotImplemented
        else:
            pat = a[1] if len(a) > 1 else None
        pk = ("set", WHITE) if pat is None else pat_kind(I, st, pat)
        if sy is None or pk is None:
            return NotImplemented
        if pk[0] == "str" and not pk[1]:
            return NotImplemented
        return [(("it", mode, sy, pk, n, False), st)]
    return g


def slice_iter(I, st, a):
    v = strip(I, st, a[0])
    if v[0] == "list":
        return [(("it", "seq", tuple(("rv", x) for x in v[1])), st)]
    if v[0] == "agg" and v[1] == "array":
        return [(("it", "seq", tuple(("rv", x) for x in v[3])), st)]
    return NotImplemented


def place_of(I, st, v):
    """The innermost place a `&mut` argument stands for."""
    while v[0] == "rm":
        inner = I.proj_get(st, I.load(st, v[1]), v[2], v[1][0])
        if inner[0] != "rm":
            return v
        v = inner
    return None


def slice_iter_mut(I, st, a):
    w = place_of(I, st, a[0])
    v = strip(I, st, a[0])
    if w is None or v[0] not in ("list", "map") and not (v[0] == "agg" and v[1] == "array"):
        return NotImplemented
    n = len(v[1] if v[0] == "list" else v[2] if v[0] == "map" else v[3])
    els = tuple(("rm", w[1], tuple(w[2]) + (("mi", i),)) for i in range(n))
    if v[0] == "map" and not v[1].endswith("s"):
        els = tuple(tup(("rv", v[2][i][0]), e) for i, e in enumerate(els))
    return [(("it", "seq", els), st)]


def map_values_mut(I, st, a):
    w = place_of(I, st, a[0])
    v = strip(I, st, a[0])
    if w is None or v[0] != "map":
        return NotImplemented
    return [(("it", "seq", tuple(("rm", w[1], tuple(w[2]) + (("mi", i),)) for i in range(len(v[2])))), st)]


def into_iter(I, st, a):
    v = strip(I, st, a[0])
    if v[0] == "list":
        byref = a[0][0] in ("rv", "rm")
        return [(("it", "seq", tuple(("rv", x) if byref else x for x in v[1])), st)]
    if v[0] == "it":
        return [(a[0], st)]
    if v[0] == "agg" and v[1] == OPT:
        return [(("it", "seq", v[3] if v[2] == 1 else ()), st)]
    return NotImplemented


def it_next(I, st, a):
    it, put = get_it(I, st, a)
    if it[0] != "it" or put is None:
        return NotImplemented
    k = it[1]
    if k == "seq":
        s = st.fork()
        if not it[2]:
            return [(none(), s)]
        put(s, ("it", "seq", it[2][1:]))
        return [(some(it[2][0]), s)]
    if k in ("split", "splitn", "split_terminator", "split_whitespace", "rsplit", "rsplitn", "split_inclusive"):
        _, _, sy, pk, n, done = it
        if done:
            return [(none(), st)]
        out = []
        if k == "split_terminator" and not sy:
            s = st.fork()
            put(s, ("it", k, sy, pk, n, True))
            return [(none(), s)]
        if k == "split_whitespace":
            return NotImplemented
        if n is not None and n == 1:
            s = st.fork()
            put(s, ("it", k, (), pk, 0, True))
            return [(some(mk(sy)), s)]
        if n == 0:
            return [(none(), st)]
        rev = k.startswith("r")
        for p, m, s in find_first(I, st, sy, 0, pk, rev=rev):
            s = s.fork()
            if p is None:
                put(s, ("it", k, (), pk, n, True))
                if k == "split_inclusive" and not sy:
                    out.append((none(), s))
                else:
                    out.append((some(mk(sy)), s))
                continue
            n2 = None if n is None else n - 1
            if rev:
                put(s, ("it", k, sy[:p], pk, n2, False))
                out.append((some(mk(sy[p + m:])), s))
            else:
                rest = sy[p + m:]
                put(s, ("it", k, rest, pk, n2, k == "split_inclusive" and not rest))
                out.append((some(mk(sy[:p + m] if k == "split_inclusive" else sy[:p])), s))
        return out
    if k == "range":
        return NotImplemented
    return NotImplemented


def it_next_back(I, st, a):
    it, put = get_it(I, st, a)
    if it[0] != "it" or put is None or it[1] != "seq":
        return NotImplemented
    s = st.fork()
    if not it[2]:
        return [(none(), s)]
    put(s, ("it", "seq", it[2][:-1]))
    return [(some(it[2][-1]), s)]


def it_as_str(I, st, a):
    it = strip(I, st, a[0])
    if it[0] == "it" and it[1] == "seq":
        if all(x[0] in ("c", "t") for x in it[2]):
            return [(mk(it[2]), st)]
    return NotImplemented


def it_len(I, st, a):
    it = strip(I, st, a[0])
    if it[0] == "it" and it[1] == "seq":
        return [(("c", len(it[2])), st)]
    return NotImplemented


def it_rev(I, st, a):
    it = strip(I, st, a[0])
    if it[0] == "it" and it[1] == "seq":
        return [(("it", "seq", tuple(reversed(it[2]))), st)]
    return NotImplemented


def it_all_any(want):
    """`all`/`any`/`position`/`find` over a known sequence."""
    def g(I, st, a):
        it, put = get_it(I, st, a)
        if it[0] != "it" or it[1] != "seq" or put is None:
            return NotImplemented
        cur, out = [st], []
        seq = it[2]
        idx = list(range(len(seq)))
        if want in ("rposition", "rfind"):
            idx.reverse()
        for i in idx:
            x = seq[i]
            nxt = []
            for s in cur:
                arg = ("rv", x) if want in ("find", "rfind") else x
                res = []
                for r, s2 in I.apply(s, a[1], [arg]):
                    for b, s3 in I.split_bool(s2, r):
                        res.append((b, s3))
                for b, s3 in merge_pairs(res):
                    hit = (not b) if want == "all" else b
                    if hit:
                        s4 = s3.fork()
                        put(s4, ("it", "seq", seq[i + 1:]))
                        out.append(({"all": FALSE, "any": TRUE, "position": some(("c", i)),
                                     "rposition": some(("c", i)), "find": some(x), "rfind": some(x)}[want], s4))
                    else:
                        nxt.append(s3)
            cur = [s for _, s in merge_pairs([(0, s) for s in nxt])]
        for s in cur:
            s = s.fork()
            put(s, ("it", "seq", ()))
            out.append(({"all": TRUE, "any": FALSE}.get(want, none()), s))
        return merge_pairs(out)
    return g


def drain(I, st, it, next_inst):
    """[(elements, state)] of an iterator value, through its own `next`."""
    if it[0] == "it" and it[1] == "seq":
        return [(it[2], st)]
    fr, bb, caller, ref, inst, line = I.cur
    tmp = I.frame(fr, (bb, "drain"), -1)
    work = [((), st.fork(), it)]
    out = []
    n = 0
    while work:
        acc, s, cur = work.pop()
        n += 1
        if n > 600 or len(acc) > 200:
            raise Inconclusive("drain")
        s.mem[tmp] = {0: cur}
        for r, s2 in I.call_inst(s, next_inst, [("rm", (tmp, 0), ())]):
            nv = s2.mem.get(tmp, {}).get(0, cur)
            if r[0] != "agg":
                return None
            if r[2] == 0:
                s3 = s2.fork()
                s3.mem.pop(tmp, None)
                out.append((acc, s3))
            else:
                work.append((acc + (r[3][0],), s2.fork(), nv))
    return out


def it_fold(I, st, a):
    it, _ = get_it(I, st, a)
    if it[0] != "it" or it[1] != "seq":
        return NotImplemented
    cur = [(a[1], st)]
    for x in it[2]:
        cur = merge_pairs([p for acc, s in cur for p in I.apply(s, a[2], [acc, x])])
    return cur


def slice_contains(I, st, a):
    v, x = strip(I, st, a[0]), strip(I, st, a[1])
    els = v[1] if v[0] == "list" else v[3] if v[0] == "agg" else None
    if els is None:
        return NotImplemented
    out, cur = [], [st]
    for e in els:
        e = strip(I, st, e)
        if is_str(e) != is_str(x) or not (is_str(e) or e[0] == x[0] == "c"):
            return NotImplemented
        nxt = []
        for s in cur:
            for r, s2 in (eq_term(I, s, [e, x]) if is_str(e) else [(TRUE if e == x else FALSE, s)]):
                for b, s3 in I.split_bool(s2, r):
                    if b:
                        out.append((TRUE, s3))
                    else:
                        nxt.append(s3)
        cur = nxt
    return merge_pairs(out + [(FALSE, s) for s in cur])


def ipnet_de(I, st, a):
    """ipnet: an address, a slash and a prefix length."""
    import ipaddress
    v = strip(I, st, a[0])
    if v[0] != "agg" or v[1] != "serde_yaml::value::Value":
        return NotImplemented
    x = strip(I, st, v[3][0]) if v[2] == 3 else None
    if x is None or x[0] != "s":
        return NotImplemented if x is not None else [(err(("t", ("serde_error",))), st)]
    try:
        ipaddress.ip_network(x[1], strict=False)
        good = "/" in x[1] and x[1].split("/")[1].isdigit()
    except ValueError:
        good = False
    return [(ok(("t", ("ipnet", x))) if good else err(("t", ("serde_error",))), st)]


def ipnet_ser(I, st, a):
    v, z = strip(I, st, a[0]), strip(I, st, a[1])
    if v[0] == "t" and v[1][0] == "ipnet" and z[0] == "agg" and z[1] == "serde_yaml::value::ser::Serializer":
        return [(ok(("agg", "serde_yaml::value::Value", 3, (v[1][1],))), st)]
    return NotImplemented


def path_to_str(I, st, a):
    """Paths that came from text are valid UTF-8."""
    v = S(I, st, a[0])
    return [(some(v), st)] if is_str(v) else NotImplemented


def ip_ser(I, st, a):
    v, z = strip(I, st, a[0]), strip(I, st, a[1])
    if v[0] == "t" and v[1][0] == "ip" and z[0] == "agg" and z[1] == "serde_yaml::value::ser::Serializer":
        x = v[1][1]
        return [(ok(("agg", "serde_yaml::value::Value", 3, (("s", x) if isinstance(x, str) else x,))), st)]
    return NotImplemented


def size_hint(I, st, a):
    it, _ = get_it(I, st, a)
    if it[0] == "it" and it[1] == "seq":
        n = ("c", len(it[2]))
        return [(tup(n, some(n)), st)]
    return NotImplemented


def int_min(pick):
    def g(I, st, a):
        x, y = I.fact(st, strip(I, st, a[0])), I.fact(st, strip(I, st, a[1]))
        if x is not None and y is not None:
            return [(("c", pick(x, y)), st)]
        return NotImplemented
    return g


def from_iter(I, st, a):
    """collect() into a vector, set, map or string."""
    fr, bb, caller, ref, inst, line = I.cur
    it = strip(I, st, a[0])
    via = ref.get("via") or []
    its = [(it, st)]
    nexti = None
    for v in via:
        x = I.F.insts[v]
        if x["name"] == "into_iter":
            its = [r for i, s in its for r in I.call_inst(s, v, [i])]
        elif x["name"] == "next":
            nexti = v
    out = []
    path = inst["path"] if inst is not None else ref["path"]
    for i, s in its:
        i = strip(I, s, i)
        if not known_iter(i):
            return NotImplemented
        if nexti is None and not (i[0] == "it" and i[1] == "seq"):
            return NotImplemented
        r = drain(I, s, i, nexti)
        if r is None:
            return NotImplemented
        for el, s2 in r:
            if "String" in path.split(" as ")[0]:
                parts = []
                for e in el:
                    e = strip(I, s2, e)
                    parts.append(e if is_str(e) or (e[0] == "t" and e[1][0] != "ch") else mk((e,)))
                out.append((cat(*parts), s2))
            else:
                out.append((("list", tuple(el)), s2))
    return out


def known_iter(v):
    """Is an iterator value built on a known sequence?"""
    if v[0] == "it":
        return True
    if v[0] == "agg":
        return any(known_iter(x) for x in v[3])
    if v[0] in ("rv",):
        return known_iter(v[1])
    return False


# ---- numbers -----------------------------------------------------------------------------------
def parse_int(tyname):
    lo, hi = INT_RANGE[tyname]

    def g(I, st, a):
        s = S(I, st, a[0])
        sy = syms(s) if is_str(s) else None
        radix = 10
        if len(a) > 1:
            radix = I.fact(st, strip(I, st, a[1]))
            if radix is None:
                return NotImplemented
        e = err(("t", ("parse_int_error",)))
        if sy is None:
            t = ("t", ("int", tyname, radix, s))
            s1, s2 = st.fork(), st.fork()
            ok_fact = ("r", ("isint", tyname, radix, s))
            cur = st.facts.get(ok_fact)
            res = []
            if cur != ((0, 0),):
                s1.facts[ok_fact] = ((1, 1),)
                s1.facts.setdefault(("r", t[1]), ((lo, hi),))
                res.append((ok(t), s1))
            if cur != ((1, 1),):
                s2.facts[ok_fact] = ((0, 0),)
                res.append((e, s2))
            return res
        digits = iset((48, 57)) if radix == 10 else inorm([(48, 57), (65, 64 + radix - 10), (97, 96 + radix - 10)]) \
            if radix > 10 else iset((48, 47 + radix))
        if not sy:
            return [(e, st)]
        out = []
        work = []
        # optional sign
        signs = [("+", 43)] + ([("-", 45)] if lo < 0 else [])
        cur = [st]
        for name, code in signs:
            nxt = []
            for s0 in cur:
                for b, s1 in split_set(s0, sy[0], ((code, code),)):
                    if b:
                        work.append((sy[1:], name == "-", s1))
                    else:
                        nxt.append(s1)
            cur = nxt
        for s0 in cur:
            work.append((sy, False, s0))
        for ds, minus, s0 in work:
            if not ds:
                out.append((e, s0))
                continue
            cur = [s0]
            for d in ds:
                nxt = []
                for s1 in cur:
                    for b, s2 in split_set(s1, d, digits):
                        (nxt.append(s2) if b else out.append((e, s2)))
                cur = nxt
            for s1 in cur:
                def dv(c, top):
                    c = cls(s1, c)
                    n = c[-1][1] if top else c[0][0]
                    return int(chr(n), radix)
                mn = mx = 0
                for d in ds:
                    mn, mx = mn * radix + dv(d, False), mx * radix + dv(d, True)
                if minus:
                    mn, mx = -mx, -mn
                if mx < lo or mn > hi:
                    out.append((e, s1))
                    continue
                if mn == mx:
                    out.append((ok(("c", mn)), s1))
                    continue
                ds2 = ds
                while len(ds2) > 1 and dv(ds2[0], True) == 0:
                    ds2 = ds2[1:]
                if radix > 10:
                    ds2 = tuple(derived(d)[0] if d[0] == "t" and derived(d) else d for d in ds2)
                t = ("num", radix, minus, ds2)
                f = s1.facts.get(("r", t))
                if f is not None:
                    mn, mx = max(mn, f[0][0]), min(mx, f[-1][1])
                    if mn > mx:
                        continue
                    if mx < lo or mn > hi:
                        out.append((e, s1))
                        continue
                if mn < lo or mx > hi:
                    s2 = s1.fork()
                    s2.facts[("r", ("numovf", tyname) + t)] = ((1, 1),)
                    out.append((e, s2))
                s2 = s1.fork()
                g = iand(((mn, mx),), ((lo, hi),))
                s2.facts[("r", t)] = iand(f, g) if f is not None else g
                if s2.facts[("r", t)]:
                    out.append((ok(("t", t)), s2))
        return merge_pairs(out)
    return g


def int_op(kind, op):
    """checked_/saturating_/wrapping_ arithmetic."""
    def g(I, st, a):
        fr, bb, caller, ref, inst, line = I.cur
        path = inst["path"] if inst is not None else ref["path"]
        m = re.search(r"<impl ([iu]\w+)>", path)
        if not m:
            return NotImplemented
        lo, hi = INT_RANGE[m.group(1)]
        x, y = strip(I, st, a[0]), strip(I, st, a[1])
        rx, ry = I.rng(st, x), I.rng(st, y)
        rx, ry = iand(rx, ((lo, hi),)), iand(ry, ((lo, hi),))
        if op in ("Div", "Rem"):
            return NotImplemented
        r = arith(op, rx, ry)
        from absint import concrete
        cx, cy = I.fact(st, x), I.fact(st, y)
        if cx is not None and cy is not None:
            n = concrete(op, cx, cy)
            val, inside, outside = ("c", n), lo <= n <= hi, not lo <= n <= hi
        else:
            val = ("t", ("op", op, x, y))
            inside = r is None or r[0][0] <= hi and r[-1][1] >= lo
            outside = r is None or r[0][0] < lo or r[-1][1] > hi
            if no_overflow(I, st, op, x, y, None):
                outside = False
        out = []
        if inside:
            s = st.fork()
            if val[0] == "t" and r is not None:
                s.facts[("r", val[1])] = iand(r, ((lo, hi),))
            if op == "Mul" and cy is not None and cy > 0 and lo == 0 and not I.refine(s, x, ((0, hi // cy),)):
                s = None
            if s is not None:
                out.append((some(val) if kind == "checked" else val, s))
        if outside:
            s = st.fork()
            if op == "Mul" and cx is None and cy is not None and cy > 0 and lo == 0:
                if not I.refine(s, x, ((hi // cy + 1, hi),)):
                    return out
            if kind == "checked":
                out.append((none(), s))
            elif kind == "saturating":
                out.append((("c", hi if op != "Sub" or lo < 0 else lo), s))
            else:
                out.append((("t", ("op", "wrap" + op, x, y)), s))
        return out
    return g


def in_regex(I, st, sy, rx):
    """[(bool, state)]: is the text in the regular language?"""
    work = [(rx.init(), 0, st)]
    out = []
    while work:
        q, i, s = work.pop()
        if i == len(sy):
            out.append((rx.accepts(q), s))
            continue
        if not q:
            out.append((False, s))
            continue
        cuts = [cls(s, sy[i])]
        for at in set(rx.atoms(q)):
            cuts = [x for c in cuts for x in (iand(c, at), iminus(c, at)) if x]
        by = {}
        for c in cuts:
            q2 = rx.step(q, c[0][0])
            by[q2] = ior(by.get(q2, ()), c)
        for q2, c in by.items():
            if len(by) == 1:
                work.append((q2, i + 1, s))
                continue
            s2 = s
            for b, s3 in split_set(s2, sy[i], c):
                if b:
                    work.append((q2, i + 1, s3))
    return out


_FLOAT = []


def parse_float(I, st, a):
    """f64::from_str: the texts it takes form a regular language."""
    from lang import Regex
    s = S(I, st, a[0])
    e = err(("t", ("parse_float_error",)))
    if s[0] == "t" and s[1][0] == "disp" and s[1][1][0] == "t" and s[1][1][1][0] == "float":
        return [(ok(s[1][1]), st)]          # std: parsing what Display printed gives the number back
    if s[0] == "s":
        import re as _re
        if _re.fullmatch(r"(?i)[+-]?(nan|inf|infinity|([0-9]+(\.[0-9]*)?|\.[0-9]+)(e[+-]?[0-9]+)?)", s[1]):
            return [(ok(fl(float(s[1]))), st)]
        return [(e, st)]
    t = ("t", ("float", s))
    sy = syms(s) if is_str(s) else None
    if sy is None:
        s1, s2 = st.fork(), st.fork()
        s1.facts[("r", ("isfloat", s))] = ((1, 1),)
        s2.facts[("r", ("isfloat", s))] = ((0, 0),)
        return [(ok(t), s1), (e, s2)]
    if not _FLOAT:
        ci = lambda w: "".join("[%s%s]" % (c, c.upper()) for c in w)
        _FLOAT.append(Regex(r"[+-]?((%s)|(%s)(%s)?|([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?)" % (
            ci("nan"), ci("inf"), ci("inity"))))
    return merge_pairs([(ok(t) if b else e, s1) for b, s1 in in_regex(I, st, sy, _FLOAT[0])])


def rust_float(text):
    """What Display prints for the f64 a text parses to."""
    from decimal import Decimal
    x = float(text.replace("_", "x"))
    if x != x:
        return "NaN"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    r = format(Decimal(repr(x)), "f")
    if "." in r:
        r = r.rstrip("0").rstrip(".")
    return r


def float_fmt(I, st, a):
    v = strip(I, st, a[0])
    if v[0] == "t" and v[1][0] == "float":
        sy = syms(v[1][1])
        cs = [cls(st, c) for c in sy] if sy is not None else None
        if cs is not None and all(c[0][0] == c[-1][1] for c in cs):
            return emit(I, st, a[1], ("s", rust_float("".join(chr(c[0][0]) for c in cs))))
    if v[0] == "fl" and v[2] == "f64":
        import struct
        return emit(I, st, a[1], ("s", rust_float(repr(struct.unpack("<d", struct.pack("<Q", int(v[1])))[0]))))
    return emit(I, st, a[1], ("t", ("disp", v)))


IP_CHARS = inorm([(48, 57), (65, 70), (97, 102), (58, 58), (46, 46)])


def parse_ip(I, st, a):
    s = S(I, st, a[0])
    e = err(("t", ("addr_parse_error",)))
    sy = syms(s) if is_str(s) else None
    out, cur = [], [st]
    for c in sy or ():
        nxt = []
        for s0 in cur:
            for b, s1 in split_set(s0, c, IP_CHARS):
                (nxt.append(s1) if b else out.append((e, s1)))
        cur = nxt
    out = merge_pairs(out)
    path = I.cur[4]["path"] if I.cur[4] is not None else I.cur[3]["path"]
    for s0 in cur:
        cs = [cls(s0, c) for c in sy] if sy is not None else None
        if cs is not None and all(c[0][0] == c[-1][1] for c in cs):
            import ipaddress
            t = "".join(chr(c[0][0]) for c in cs)
            try:
                ip = {"v4": ipaddress.IPv4Address, "v6": ipaddress.IPv6Address}.get(
                    "v4" if "Ipv4" in path else "v6" if "Ipv6" in path else "", ipaddress.ip_address)(t)
                out.append((ok(("t", ("ip", ip.compressed, ip.version))), s0))
            except ValueError:
                out.append((e, s0))
            continue
        if cs is not None and (len(cs) < 2 or not any(iand(c, iset((46, 46), (58, 58))) for c in cs)):
            out.append((e, s0))
            continue
        # Text without a colon is an IPv4 address or none; with one it is an IPv6 address or none.
        v4 = [s0]
        if cs is not None:
            v4, v6 = [s0], []
            for c in sy:
                nxt = []
                for s1 in v4:
                    for b, s2 in split_set(s1, c, ((58, 58),)):
                        (v6 if b else nxt).append(s2)
                v4 = nxt
        else:
            v6 = v4
            v4 = []
        for tag, group in (("ip4of", v4), ("ipof", v6)):
            for s0 in group:
                was = s0.facts.get(("r", ("isip", s)))
                s1, s2 = s0.fork(), s0.fork()
                s1.facts[("r", ("isip", s))] = ((1, 1),)
                s2.facts[("r", ("isip", s))] = ((0, 0),)
                if was != ((0, 0),):
                    out.append((ok(("t", (tag, s))), s1))
                if was != ((1, 1),):
                    out.append((e, s2))
    return out


def ip_text(v):
    """What an IP address displays as: the digits of an IPv4 address are the ones that were parsed."""
    if v[0] == "t" and v[1][0] == "ip" and not ("." in v[1][1] and ":" in v[1][1]) and "::ffff:" not in v[1][1]:
        return ("s", v[1][1])
    if v[0] == "t" and v[1][0] == "ip4of":
        return v[1][1]
    return None


def ip_fmt(I, st, a):
    v = strip(I, st, a[0])
    t = ip_text(v)
    if t is not None:
        return emit(I, st, a[1], t)
    return emit(I, st, a[1], ("t", ("disp", v)))


def parse_url(I, st, a):
    """A URL needs a scheme: without a colon, parsing fails; otherwise the result is not determined here."""
    s = S(I, st, a[0])
    e = err(("t", ("url_parse_error",)))
    sy = syms(s) if is_str(s) else None
    if sy is None:
        return NotImplemented
    out = []
    if all(cls(st, c) != ((58, 58),) for c in sy):
        rest = []
        cur = [st]
        for c in sy:
            nxt = []
            for s0 in cur:
                for b, s1 in split_set(s0, c, ((58, 58),)):
                    (rest.append(s1) if b else nxt.append(s1))
            cur = nxt
        out = [(e, s0) for s0 in cur]
    else:
        rest = [st]
    for s0 in rest:
        s1, s2 = s0.fork(), s0.fork()
        s1.facts[("r", ("isurl", s))] = ((1, 1),)
        s2.facts[("r", ("isurl", s))] = ((0, 0),)
        out += [(ok(("t", ("call", "url", s))), s1), (e, s2)]
    return merge_pairs(out)


def parse_bool(I, st, a):
    s = S(I, st, a[0])
    out = []
    for lit, v in (("true", TRUE), ("false", FALSE)):
        nxt = []
        for r, s1 in streq(I, st, s, ("s", lit)):
            for b, s2 in I.split_bool(s1, r):
                if b:
                    out.append((ok(v), s2))
                else:
                    nxt.append(s2)
        if not nxt:
            return out
        # the false branches of the last comparison continue
        if lit == "true":
            st_list = nxt
            fin = []
            for s1 in st_list:
                for r, s2 in streq(I, s1, s, ("s", "false")):
                    for b, s3 in I.split_bool(s2, r):
                        fin.append((ok(FALSE) if b else err(("t", ("parse_bool_error",))), s3))
            return out + fin
    return out


# ---- formatting --------------------------------------------------------------------------------
def emit(I, st, f, val):
    """Append `val` to a formatter or string writer."""
    s = st.fork()
    tgt = strip(I, st, f)
    if f[0] == "rm" and (is_str(tgt) or (tgt[0] == "t" and tgt[1][0] != "fmt")):
        _, put = get_it(I, s, [f])
        put(s, cat(tgt, val))
    else:
        s.add_log(("w", val))
    return [(ok(UNIT), s)]


def write_str(I, st, a):
    return emit(I, st, a[0], S(I, st, a[1]))


def write_char(I, st, a):
    return emit(I, st, a[0], mk((strip(I, st, a[1]),)))


def new_arg(kind):
    def g(I, st, a):
        ref = I.cur[3]
        via = ref.get("via") or []
        return [(("fa", kind, via[0] if via else None, strip(I, st, a[0])), st)]
    return g


def new_args(I, st, a):
    t = strip(I, st, a[0])
    args = strip(I, st, a[1])
    if t[0] == "list" and all(x[0] == "c" for x in t[1]):
        data = bytes(x[1] for x in t[1])
    elif t[0] == "s":
        data = t[1].encode("latin-1", "replace")
    else:
        return NotImplemented
    el = args[1] if args[0] == "list" else args[3] if args[0] == "agg" else None
    if el is None:
        return NotImplemented
    pieces = template(data)
    out = []
    for p in pieces:
        if p[0] == "lit":
            out.append(("lit", p[1]))
        else:
            out.append(("arg", strip(I, st, el[p[1]]), p[2]))
    return [(("fargs", tuple(out)), st)]


def template(d):
    """Decode the formatting template of core::fmt::Arguments."""
    i, out, nxt = 0, [], 0
    while i < len(d):
        n = d[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(("lit", d[i:i + n].decode()))
            i += n
        elif n == 0x80:
            ln = d[i] | d[i + 1] << 8
            out.append(("lit", d[i + 2:i + 2 + ln].decode()))
            i += 2 + ln
        else:
            spec = {}
            if n & 1:
                spec["flags"] = int.from_bytes(d[i:i + 4], "little")
                i += 4
            if n & 2:
                spec["width"] = int.from_bytes(d[i:i + 2], "little")
                i += 2
            if n & 4:
                spec["prec"] = int.from_bytes(d[i:i + 2], "little")
                i += 2
            if n & 8:
                nxt = int.from_bytes(d[i:i + 2], "little")
                i += 2
            out.append(("arg", nxt, tuple(sorted(spec.items()))))
            nxt += 1
    return out


def args_from_str(I, st, a):
    return [(("fargs", (("lit", S(I, st, a[0])),)), st)]


def render(I, st, fargs):
    """[(string value, state)] of formatting arguments."""
    old = st.log
    s = st.fork()
    s.log = ()
    cur = [s]
    for p in fargs[1]:
        nxt = []
        for s in cur:
            if p[0] == "lit":
                v = p[1] if isinstance(p[1], tuple) else ("s", p[1])
                s.log = s.log + (("w", v),)
                nxt.append(s)
                continue
            a, spec = p[1], p[2]
            if a[0] != "fa":
                s.log = s.log + (("w", ("t", ("disp", a, spec))),)
                nxt.append(s)
                continue
            nxt += fmt_value(I, s, a[1], a[2], a[3], spec)
        cur = nxt
    out = []
    for s in cur:
        parts = [x[1] for x in s.log if x[0] == "w"]
        rest = tuple(x for x in s.log if x[0] != "w")
        s.log = old + rest
        out.append((cat(*parts), s))
    return out


def fmt_value(I, s, kind, inst, v, spec):
    """States after formatting v through its trait implementation (output appended to the log)."""
    F = I.F
    x = F.insts[inst] if inst is not None else None
    if kind == "display" and x is not None and x["body"] is not None and not spec:
        rs = I.call_inst(s, inst, [("rv", v), ("t", ("fmt",))])
        return [s2 for _, s2 in rs]
    out = []
    if kind == "display" and not spec:
        rs = [(disp_prim(I, s2, w, x["path"] if x is not None else ""), s2) for w, s2 in disp_num(I, s, v)]
    else:
        rs = radix_num(I, s, kind, v, dict(spec)) or [(("t", (kind, v, spec)), s)]
    for t, s2 in rs:
        s2 = s2.fork()
        s2.log = s2.log + (("w", t),)
        out.append(s2)
    return out


def same_num(st, old, new):
    """Facts about a number also hold for the same number written without leading zeros."""
    if old == new:
        return
    const = isinstance(new, int)

    def sub(x):
        if const and x == ("t", old):
            return ("c", new)
        if x == old:
            return new
        if not isinstance(x, tuple):
            return x
        y = tuple(sub(z) for z in x)
        if const and new == 0 and len(y) == 2 and y[0] == "t" and isinstance(y[1], tuple) and len(y[1]) == 4 \
                and y[1][0] == "op" and y[1][1] in ("Sub", "Add") and y[1][3] == ("c", 0):
            return y[1][2]
        return y
    for k, f in list(st.facts.items()):
        k2 = sub(k)
        if k2 != k and k2[0] == "r" and len(k2) == 2 and isinstance(k2[1], tuple) and k2[1][0] == "t":
            k2 = ("r", k2[1][1])
        if k2 != k and k2[0] == "r" and const and new == 0 and isinstance(k2[1], tuple) and len(k2[1]) == 4 and \
                k2[1][0] == "op" and k2[1][1] in ("Sub", "Add") and k2[1][3] == ("c", 0) and k2[1][2][0] == "t":
            k2 = ("r", k2[1][2][1])
        if k2 != k and not (const and k2[1] in (("c", new), new)):
            g = st.facts.get(k2)
            if g is not None and k2[0] == "r":
                if not iand(f, g):
                    st.facts[("dead",)] = ((1, 1),)
                f = iand(f, g) or f
            st.facts[k2] = f


def disp_num(I, st, v):
    """[(digits or the value itself, state)]: decimal display of a number that was parsed from text."""
    v = strip(I, st, v)
    if I.fact(st, v) is not None or v[0] != "t" or v[1][0] != "num" or v[1][1] != 10:
        return [(v, st)]
    _, _, minus, ds = v[1]
    out, cur = [], st
    for i, d in enumerate(ds):
        nxt = None
        for z, s in split_set(cur, d, ((48, 48),)):
            if not z:
                same_num(s, v[1], v[1][:3] + (ds[i:],))
                out.append((cat(("s", "-" if minus else ""), mk(ds[i:])), s))
            else:
                nxt = s
        if nxt is None:
            return out
        cur = nxt
    same_num(cur, v[1], 0)
    out.append((("s", "0"), cur))
    return out


def radix_num(I, st, kind, v, spec):
    """{:x} / {:X} of a number parsed from hexadecimal digits, padded as the specification says."""
    base = {"lower_hex": 16, "upper_hex": 16}.get(kind)
    v = strip(I, st, v)
    if base is None:
        return None
    width = spec.get("width", 0)
    flags = spec.get("flags", 0)
    zero = bool(flags & (1 << 24))
    known = {"flags", "width"}
    if set(spec) - known:
        return None
    c = I.fact(st, v)
    if c is not None:
        t = ("%x" if kind == "lower_hex" else "%X") % c
        return [(("s", t.rjust(width, "0" if zero else " ")), st)]
    if v[0] != "t" or v[1][0] != "num" or v[1][1] != base or v[1][2]:
        return None
    ds = v[1][3]
    res = []
    cur = [((), st, True)]
    for i, d in enumerate(ds):
        nxt = []
        for acc, s, lead in cur:
            opts = split_set(s, d, ((48, 48),)) if lead and i < len(ds) - 1 else [(False, s)]
            for z, s2 in opts:
                if z:
                    nxt.append((acc, s2, True))
                else:
                    for w, s3 in case_char(kind == "upper_hex")(I, s2, [d]):
                        nxt.append((acc + (w,), s3, False))
        cur = nxt
    for acc, s, _ in cur:
        fill = (("c", 48 if zero else 32),) * max(0, width - len(acc))
        same_num(s, v[1], v[1][:3] + (ds[len(ds) - len(acc):],))
        res.append((mk(fill + acc), s))
    return res


def disp_prim(I, st, v, path):
    v = strip(I, st, v)
    if is_str(v):
        return v
    if re.search(r"<(alloc::string::String|str|alloc::borrow::Cow|alloc::boxed::Box)", path) and v[0] == "t":
        return v
    if ip_text(v) is not None:
        return ip_text(v)
    c = I.fact(st, v)
    if c is not None:
        if "char" in path:
            return mk((("c", c),))
        if "bool" in path:
            return ("s", "true" if c else "false")
        if re.search(r"for [iu](\d+|size)>", path):
            return ("s", str(c))
    if "char" in path and v[0] == "t":
        return mk((v,))
    return ("t", ("disp", v))


def write_fmt(I, st, a):
    f = strip(I, st, a[1])
    if f[0] != "fargs":
        return NotImplemented
    out = []
    for v, s in render(I, st, f):
        out += emit(I, s, a[0], v)
    return out


def format_(I, st, a):
    f = strip(I, st, a[0])
    if f[0] != "fargs":
        return NotImplemented
    return render(I, st, f)


def to_string(I, st, a):
    ref = I.cur[3]
    v = strip(I, st, a[0])
    if is_str(v):
        return [(v, st)]
    if v[0] == "fargs":
        return render(I, st, v)
    via = ref.get("via") or []
    if not via:
        return NotImplemented
    return render(I, st, ("fargs", (("arg", ("fa", "display", via[0], v), ()),)))


def prim_display(I, st, a):
    path = I.cur[4]["path"] if I.cur[4] is not None else I.cur[3]["path"]
    return [r for w, s in disp_num(I, st, a[0]) for r in emit(I, s, a[1], disp_prim(I, s, w, path))]


def prim_fmt(kind):
    def g(I, st, a):
        return emit(I, st, a[1], ("t", (kind, strip(I, st, a[0]), ())))
    return g


def itoa_format(I, st, a):
    out = []
    for v, s in disp_num(I, st, a[1]):
        c = I.fact(s, v) if v[0] == "t" else v[1] if v[0] == "c" else None
        out.append((("s", str(c)) if c is not None else v if is_str(v) else ("t", ("disp", v)), s))
    return out


def pad(I, st, a):
    return emit(I, st, a[0], S(I, st, a[1]))


# ---- mutation ----------------------------------------------------------------------------------
def setter(f):
    def g(I, st, a):
        it, put = get_it(I, st, a)
        if put is None:
            return NotImplemented
        r = f(I, st, it, a)
        if r is NotImplemented or r is None:
            return NotImplemented
        out = []
        for new, ret, s in r:
            s = s.fork()
            put(s, new)
            out.append((ret, s))
        return out
    return g


@setter
def push_str(I, st, v, a):
    x = S(I, st, a[1])
    if not (is_str(v) or v[0] == "t"):
        return None
    return [(cat(v, x), UNIT, st)]


@setter
def push_char(I, st, v, a):
    return [(cat(v, mk((strip(I, st, a[1]),))), UNIT, st)]


@setter
def vec_push(I, st, v, a):
    if v[0] != "list":
        return None
    return [(("list", v[1] + (a[1],)), UNIT, st)]


@setter
def clear(I, st, v, a):
    if v[0] == "list":
        return [(("list", ()), UNIT, st)]
    return [(("s", ""), UNIT, st)]


@setter
def truncate(I, st, v, a):
    if v[0] == "list":
        return None
    sy = syms(v) if is_str(v) else None
    if sy is None:
        if not opaque_slice_ok(I, st, v, ("agg", "core::ops::range::RangeTo", 0, (a[1],))):
            slice_panic(I, st, "String::truncate", a)
        return None
    out = []
    n = offset(st, sy)
    if compare(I, st, "Ge", a[1], n, None) == TRUE:
        return [(v, UNIT, st)]
    for p, s in locate(I, st, sy, a[1]):
        if p is None:
            # longer than the string: no effect; not a boundary: panic
            if compare(I, s, "Ge", a[1], offset(s, sy), None) == TRUE:
                out.append((v, UNIT, s))
            else:
                slice_panic(I, s, "String::truncate", a)
        else:
            out.append((mk(sy[:p]), UNIT, s))
    return out


@setter
def replace_range(I, st, v, a):
    sy = syms(v) if is_str(v) else None
    new = S(I, st, a[2])
    if sy is None or not is_str(new) and new[0] != "t":
        if not opaque_slice_ok(I, st, v, a[1]):
            slice_panic(I, st, "String::replace_range", a)
        return None
    b = range_bounds(I, st, a[1], sy)
    if b is None:
        return None
    out = []
    for pq, s in slice_paths(I, st, sy, *b):
        if pq is None:
            slice_panic(I, s, "String::replace_range", a)
        else:
            out.append((cat(mk(sy[:pq[0]]), new, mk(sy[pq[1]:])), UNIT, s))
    return out


def insert_str(I, st, a):
    it, put = get_it(I, st, a)
    sy = syms(it) if is_str(it) else None
    x = S(I, st, a[2])
    if x[0] == "c" or (x[0] == "t" and x[1][0] == "ch"):
        x = mk((x,))
    if sy is None or put is None:
        slice_panic(I, st, "String::insert", a)
        return NotImplemented
    out = []
    for p, s in locate(I, st, sy, a[1]):
        if p is None:
            slice_panic(I, s, "String::insert", a)
        else:
            s = s.fork()
            put(s, cat(mk(sy[:p]), x, mk(sy[p:])))
            out.append((UNIT, s))
    return out


def empty_str(I, st, a):
    return [(("s", ""), st)]


def empty_list(I, st, a):
    return [(("list", ()), st)]


def to_vec(I, st, a):
    v = strip(I, st, a[0])
    return [(v, st)] if v[0] == "list" else NotImplemented


def boxed(I, st, a):
    return [(a[0], st)]


def first(I, st, a):
    v = strip(I, st, a[0])
    if v[0] == "list":
        return [(some(("rv", v[1][0])) if v[1] else none(), st)]
    return NotImplemented


def fl(x, ty="f64"):
    """Constant float: its bits and type."""
    import struct
    if ty == "f64":
        return ("fl", str(struct.unpack("<Q", struct.pack("<d", x))[0]), ty)
    if ty == "f32":
        try:
            return ("fl", str(struct.unpack("<I", struct.pack("<f", x))[0]), ty)
        except OverflowError:
            return fl(math.copysign(math.inf, x), ty)
    return ("t", ("flc", x, ty))


def unfl(v):
    import struct
    if v[2] == "f64":
        return struct.unpack("<d", struct.pack("<Q", int(v[1])))[0]
    return struct.unpack("<f", struct.pack("<I", int(v[1])))[0]


FTESTS = {"is_finite": math.isfinite, "is_nan": math.isnan, "is_infinite": math.isinf,
          "is_sign_positive": lambda x: math.copysign(1, x) > 0, "is_sign_negative": lambda x: math.copysign(1, x) < 0,
          "is_normal": lambda x: math.isfinite(x) and abs(x) >= 2.0 ** -1022}


def f64_test(name):
    def g(I, st, a):
        v = strip(I, st, a[0])
        if v[0] == "fl":
            return [(("c", int(FTESTS[name](unfl(v)))), st)]
        return [(("t", ("ftest", name, strip(I, st, a[0]))), st)]
    return g


def nonzero_new(I, st, a):
    """Option<NonZero>: a non-zero number is kept as the number itself."""
    out = []
    v = strip(I, st, a[0])
    r = I.rng(st, v)
    for want in (True, False):
        s = st.fork()
        if v[0] not in ("c", "t"):
            return NotImplemented
        if I.refine(s, v, ((-2 ** 200, -1), (1, 2 ** 200)) if want else ((0, 0),)):
            out.append((some(v) if want else none(), s))
    return out


def nonzero_try(I, st, a):
    rs = nonzero_new(I, st, a)
    if rs is NotImplemented:
        return rs
    return [(ok(r[3][0]) if r[2] == 1 else err(("t", ("try_from_int_error",))), s) for r, s in rs]


def discriminant_value(I, st, a):
    return [(I.discr(st, strip(I, st, a[0])), st)]


def unit(I, st, a):
    return [(UNIT, st)]


def white_space(I, st, a):
    return bools(split_set(st, strip(I, st, a[0]), WHITE))


def char_class(name):
    sets = {
        "is_ascii_alphabetic": [(65, 90), (97, 122)], "is_ascii_alphanumeric": [(48, 57), (65, 90), (97, 122)],
        "is_ascii_digit": [(48, 57)], "is_ascii_lowercase": [(97, 122)], "is_ascii_uppercase": [(65, 90)],
        "is_ascii_hexdigit": [(48, 57), (65, 70), (97, 102)], "is_ascii": [(0, 127)],
        "is_ascii_graphic": [(33, 126)], "is_ascii_control": [(0, 31), (127, 127)],
        "is_ascii_punctuation": [(33, 47), (58, 64), (91, 96), (123, 126)],
        "is_ascii_whitespace": [(9, 10), (12, 13), (32, 32)], "is_whitespace": list(WHITE),
        "is_control": [(0, 31), (127, 159)],
    }
    if name in sets:
        want = inorm(sets[name])

        def g(I, st, a):
            c = strip(I, st, a[0])
            if is_str(c):
                return NotImplemented
            return bools(split_set(st, c, want))
        return g
    return None


def text_cmp(kind, part=False):
    """Three-way comparison of texts (or paths)."""
    def g(I, st, a):
        x, y = strip(I, st, a[0]), strip(I, st, a[1])
        sx, sy = (syms(x) if is_str(x) else None), (syms(y) if is_str(y) else None)
        if sx is None or sy is None:
            return NotImplemented
        if sx == sy:
            r = ("agg", "core::cmp::Ordering", 1, ())
        elif kind == "str" and all(c[0] == "c" for c in sx + sy):
            r = ("agg", "core::cmp::Ordering", 0 if [c[1] for c in sx] < [c[1] for c in sy] else 2, ())
        else:
            import forms
            r = ("t", (kind + "cmp", forms.canon(I, st, x), forms.canon(I, st, y)))
        return [(some(r) if part else r, st)]
    return g


def hashed(I, st, a):
    import forms
    s = st.fork()
    s.log = s.log + (("h", forms.canon(I, s, a[0])),)
    return [(UNIT, s)]


def hashed_raw(I, st, a):
    import forms
    s = st.fork()
    s.log = s.log + (("h", forms.canon(I, s, a[1])),)
    return [(UNIT, s)]


_uni = {}


def unicode_class(name):
    """Unicode property classes, from Python's tables (exact on ASCII, approximate elsewhere)."""
    def g(I, st, a):
        if name not in _uni:
            f = {"is_alphanumeric": str.isalnum, "is_alphabetic": str.isalpha, "is_numeric": str.isnumeric,
                 "is_lowercase": str.islower, "is_uppercase": str.isupper}[name]
            _uni[name] = inorm([(c, c) for c in range(0x110000) if not 0xD800 <= c <= 0xDFFF and f(chr(c))])
        return bools(split_set(st, strip(I, st, a[0]), _uni[name]))
    return g


def eq_term(I, st, a):
    """Equality of opaque values; strings compare by content."""
    x, y = strip(I, st, a[0]), strip(I, st, a[1])
    if is_str(x) or is_str(y):
        return streq(I, st, x, y)
    if x == y:
        return [(TRUE, st)]
    if x[0] == "c" or y[0] == "c":
        return [(compare(I, st, "Eq", x, y, None), st)]
    if x[0] == "t" == y[0] and x[1][0] in ("ip", "ipnet") and y[1][0] == x[1][0]:
        return [(FALSE, st)]        # (addresses are kept in their shortest spelling)
    if x[0] == "list" and y[0] == "list":
        import maps
        return [(TRUE if b else FALSE, s) for b, s in maps.val_eq(I, st, x, y)]
    if repr(x) > repr(y):
        x, y = y, x
    return [(("t", ("eq", x, y)), st)]


def once(I, st, a):
    return [(("it", "seq", (a[0],)), st)]


# ---- paths -------------------------------------------------------------------------------------
COMP = "std::path::Component"


def path_absolute(I, st, a):
    s = S(I, st, a[0])
    sy = syms(s) if is_str(s) else None
    if sy is None:
        return NotImplemented
    if not sy:
        return [(FALSE, st)]
    return bools(split_set(st, sy[0], ((47, 47),)))


def path_components(I, st, a):
    """Unix path components: RootDir, CurDir (leading only), ParentDir, Normal."""
    s = S(I, st, a[0])
    sy = syms(s) if is_str(s) else None
    if sy is None:
        return NotImplemented
    variants = I.F.adts.get(COMP)
    idx = {v["name"]: i for i, v in enumerate(variants["variants"])} if variants else \
        {"Prefix": 0, "RootDir": 1, "CurDir": 2, "ParentDir": 3, "Normal": 4}
    # split at '/'
    cur = [((), (), st)]
    done = []
    for c in sy:
        nxt = []
        for segs, seg, s in cur:
            for b, s2 in split_set(s, c, ((47, 47),)):
                nxt.append((segs + (seg,), (), s2) if b else (segs, seg + (c,), s2))
        cur = nxt
    for segs, seg, s in cur:
        segs = segs + (seg,)
        res = [((), s)]
        if sy and not segs[0] and len(segs) > 1:
            res = [((("agg", COMP, idx["RootDir"], ()),), s)]
        for k, g in enumerate(segs):
            if not g:
                continue
            nx = []
            for acc, s in res:
                if len(g) <= 2:
                    forks = [(True, s)]
                    for c in g:
                        forks = [(x and b, s3) for x, s2 in forks
                                 for b, s3 in (split_set(s2, c, ((46, 46),)) if x else [(False, s2)])]
                else:
                    forks = [(False, s)]
                for dots, s2 in forks:
                    if dots and len(g) == 1:
                        e = (("agg", COMP, idx["CurDir"], ()),) if k == 0 else ()
                    elif dots:
                        e = (("agg", COMP, idx["ParentDir"], ()),)
                    else:
                        e = (("agg", COMP, idx["Normal"], (("rv", mk(g)),)),)
                    nx.append((acc + e, s2))
            res = nx
        done += res
    return [(("it", "seq", c), s) for c, s in merge_pairs(done)]


def parent_len(I, st, sy):
    """[(length of the parent's text or None, state)] of a Unix path's characters."""
    cur = [((), st)]
    for c in sy:
        cur = [(ks + (b,), s2) for ks, s in cur for b, s2 in split_set(s, c, ((47, 47),))]
    out = []
    for ks, s in cur:
        # spans of the segments between separators
        spans, at = [], 0
        for k in range(len(ks) + 1):
            if k == len(ks) or ks[k]:
                if k > at:
                    spans.append((at, k))
                at = k + 1
        root = bool(ks) and ks[0]
        forks = [((), s)]
        for a, b in spans:
            if b - a == 1 and not (a == 0 and not root):
                forks = [(f if dot else f + ((a, b),), s3) for f, s2 in forks for dot, s3 in split_set(s2, sy[a], ((46, 46),))]
            else:
                forks = [(f + ((a, b),), s2) for f, s2 in forks]
        for f, s2 in forks:
            out.append((None if not f else f[-2][1] if len(f) > 1 else int(root), s2))
    return out


def path_parent(I, st, a):
    s = S(I, st, a[0])
    sy = syms(s) if is_str(s) else None
    if sy is None:
        return NotImplemented
    return [(none() if n is None else some(("rv", mk(tuple(sy[:n])))), s2) for n, s2 in parent_len(I, st, sy)]


@setter
def path_pop(I, st, v, a):
    sy = syms(v) if is_str(v) else None
    if sy is None:
        return None
    return [(v, FALSE, s2) if n is None else (mk(tuple(sy[:n])), TRUE, s2) for n, s2 in parent_len(I, st, sy)]


@setter
def path_push(I, st, v, a):
    x = S(I, st, a[1])
    sy, sx = syms(v) if is_str(v) else None, syms(x) if is_str(x) else None
    if sy is None or sx is None:
        return None
    out = []
    for b, s in (split_set(st, sx[0], ((47, 47),)) if sx else [(False, st)]):
        if b:
            out.append((x, UNIT, s))
            continue
        for e, s2 in (split_set(s, sy[-1], ((47, 47),)) if sy else [(True, s)]):
            out.append((mk(tuple(sy) + (() if e else (("c", 47),)) + tuple(sx)), UNIT, s2))
    return out


EXACT_PATH = {"std::path::Path::parent": path_parent, "std::path::PathBuf::pop": path_pop, "std::path::PathBuf::push": path_push,
              "std::path::Path::is_absolute": path_absolute, "std::path::Path::has_root": path_absolute,
              "std::path::Path::components": path_components}


EXACT = {}


def _reg(names, f):
    for n in names.split():
        EXACT[n] = f


EXACT.update(EXACT_PATH)
P = "core::str::<impl str>::"
for _n, _f in {
    "contains": str_contains, "find": str_find, "rfind": str_rfind, "starts_with": str_starts_with,
    "ends_with": str_ends_with, "strip_prefix": str_strip_prefix, "strip_suffix": str_strip_suffix,
    "split_once": str_split_once, "rsplit_once": str_rsplit_once, "is_empty": str_is_empty, "len": str_len,
    "chars": make_iter("chars"), "char_indices": make_iter("char_indices"), "bytes": make_iter("bytes"),
    "as_bytes": as_bytes, "split_at": str_split_at, "get": str_get,
    "split": split_iter("split"), "splitn": split_iter("splitn"), "split_terminator": split_iter("split_terminator"),
    "rsplit": split_iter("rsplit"), "rsplitn": split_iter("rsplitn"), "split_inclusive": split_iter("split_inclusive"),
    "trim": trim(True, True, False), "trim_start": trim(True, False, False), "trim_end": trim(False, True, False),
    "trim_start_matches": trim(True, False, True), "trim_end_matches": trim(False, True, True),
    "trim_matches": trim(True, True, True), "eq_ignore_ascii_case": eq_ignore_case, "to_owned": ident,
    "is_ascii": NotImplemented,
}.items():
    if _f is not NotImplemented:
        EXACT[P + _n] = _f
EXACT["core::str::traits::<impl core::cmp::PartialEq for str>::eq"] = str_eq


def check_for_tag(I, st, a):
    """serde_yaml only treats text as a tag when it is displayed in two pieces, the first being "!": none here is."""
    rs = to_string(I, st, a)
    if rs is NotImplemented:
        return rs
    return [(("agg", "serde_yaml::value::tagged::MaybeTag", 1, (v,)) if ok_value(v) else v, s) for v, s in rs]


def ok_value(v):
    return not (v[0] == "agg" and v[1] == RES)


EXACT["serde_yaml::value::tagged::check_for_tag"] = check_for_tag
EXACT["alloc::boxed::Box::<T>::new"] = ident


def os_into_string(I, st, a):
    """Paths made from texts are texts."""
    return [(ok(a[0]), st)] if a[0][0] in ("s", "q", "cat") else NotImplemented


EXACT["std::ffi::os_str::OsString::into_string"] = os_into_string


def yaml_de(I, st, a):
    """serde_yaml's readers on a YAML text that stands for a known content (or for none: malformed)."""
    fr, bb, caller, ref, inst, line = I.cur
    v = strip(I, st, a[0])
    if v[0] == "rm":
        v = strip(I, st, v)
    if v[0] != "t" or v[1][0] != "yaml":
        return NotImplemented
    if v[1][1] is None:
        return [(err(("t", ("yaml_error",))), st)]
    ty = I.F.tystr((inst or ref)["args"][-1])
    if ty == "serde_yaml::value::Value":
        return [(ok(v[1][1]), st)]
    i = I.F.serde.get((ty, "de"))
    if i is None:
        return NotImplemented
    return I.call_inst(st, i, [v[1][1]])


for _n in ("from_str", "from_slice", "from_reader"):
    EXACT["serde_yaml::de::" + _n] = yaml_de


def box_uninit(I, st, a):
    """vec![..]: a place for the array, filled next."""
    n = sum(1 for k in st.mem if isinstance(k, tuple) and k and k[0] == "heap")
    st = st.fork()
    st.mem[("heap", n)] = {0: ("t", ("uninit", "heap", 0))}
    return [(("rm", (("heap", n), 0), ()), st)]


def box_into_vec(I, st, a):
    v = I.load(st, a[0][1]) if a[0][0] == "rm" else a[0]
    for _ in range(6):      # Box<MaybeUninit<ManuallyDrop<[T; N]>>>
        if v[0] == "ov" and len(v[2]) == 1:
            v = v[2][0][1]
        elif v[0] == "agg" and v[1] == "tuple" and v[3]:
            v = v[3][-1]
    if v[0] == "agg" and v[1] == "array":
        v = ("list", tuple(v[3]))
    if v[0] != "list":
        return NotImplemented
    st = st.fork()
    if a[0][0] == "rm" and a[0][1][0][0] == "heap":
        st.mem.pop(a[0][1][0], None)
    return [(v, st)]


EXACT["alloc::boxed::Box::<T>::new_uninit"] = box_uninit
EXACT["alloc::boxed::box_assume_init_into_vec_unsafe"] = box_into_vec
EXACT["<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::fold"] = it_fold
EXACT["core::slice::<impl [T]>::contains"] = slice_contains
EXACT["ipnet::ipnet_serde::<impl serde::de::Deserialize<'de> for ipnet::ipnet::IpNet>::deserialize"] = ipnet_de
for _n in ("IpAddr", "Ipv4Addr", "Ipv6Addr"):
    EXACT["serde::ser::impls::<impl serde::ser::Serialize for core::net::ip_addr::%s>::serialize" % _n] = ip_ser
EXACT["ipnet::ipnet_serde::<impl serde::ser::Serialize for ipnet::ipnet::IpNet>::serialize"] = ipnet_ser
EXACT["std::path::Path::to_str"] = path_to_str
EXACT["<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::fold"] = it_fold
EXACT["core::str::traits::<impl core::cmp::PartialEq for str>::ne"] = str_ne
EXACT["core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T; N]>::eq"] = eq_term
EXACT["core::str::traits::<impl core::ops::index::Index<I> for str>::index"] = str_index
EXACT["<alloc::string::String as core::ops::index::Index<I>>::index"] = str_index
EXACT["<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index"] = seq_index
EXACT["core::slice::index::<impl core::ops::index::Index<I> for [T]>::index"] = seq_index
EXACT["core::str::<impl core::default::Default for &str>::default"] = empty_str
EXACT["alloc::string::String::new"] = empty_str
EXACT["alloc::string::String::with_capacity"] = empty_str
EXACT["<alloc::string::String as core::default::Default>::default"] = empty_str
EXACT["alloc::string::String::push_str"] = push_str
EXACT["alloc::string::String::push"] = push_char
EXACT["alloc::string::String::clear"] = clear
EXACT["alloc::string::String::truncate"] = truncate
EXACT["alloc::string::String::replace_range"] = replace_range
EXACT["alloc::string::String::insert_str"] = insert_str
EXACT["alloc::string::String::insert"] = insert_str
EXACT["alloc::string::String::is_empty"] = str_is_empty
EXACT["alloc::string::String::len"] = str_len
EXACT["alloc::string::String::reserve"] = unit
EXACT["alloc::string::String::as_bytes"] = as_bytes
EXACT["alloc::string::String::into_bytes"] = as_bytes
_reg("alloc::string::String::as_str alloc::string::String::into_boxed_str alloc::str::<impl&str>::into_string", ident)
EXACT["alloc::str::<impl str>::into_string"] = ident
EXACT["alloc::str::<impl str>::into_boxed_bytes"] = as_bytes
EXACT["alloc::vec::Vec::<T>::new"] = empty_list
EXACT["alloc::vec::Vec::<T>::with_capacity"] = empty_list
EXACT["<alloc::vec::Vec<T> as core::default::Default>::default"] = empty_list
EXACT["alloc::vec::Vec::<T, A>::push"] = vec_push
EXACT["alloc::vec::Vec::<T, A>::len"] = str_len
EXACT["core::slice::<impl [T]>::len"] = str_len
EXACT["core::slice::<impl [T]>::iter"] = slice_iter
EXACT["core::slice::<impl [T]>::iter_mut"] = slice_iter_mut
EXACT["core::slice::<impl [T]>::first"] = first
EXACT["alloc::slice::<impl [T]>::to_vec"] = to_vec
EXACT["alloc::fmt::format"] = format_
EXACT["alloc::fmt::format::format_inner"] = format_
EXACT["<T as alloc::string::ToString>::to_string"] = to_string
EXACT["core::fmt::Arguments::<'a>::new"] = new_args
EXACT["core::fmt::Arguments::<'a>::from_str"] = args_from_str
EXACT["core::fmt::Arguments::<'a>::from_str_nonconst"] = args_from_str
for _k in ("display", "debug", "lower_hex", "upper_hex", "lower_exp", "upper_exp", "octal", "binary", "pointer"):
    EXACT["core::fmt::rt::Argument::<'_>::new_" + _k] = new_arg(_k)
for _p in ("core::fmt::Formatter::<'a>::", "<core::fmt::Formatter<'_> as core::fmt::Write>::", "core::fmt::Write::",
           "<alloc::string::String as core::fmt::Write>::"):
    EXACT[_p + "write_str"] = write_str
    EXACT[_p + "write_char"] = write_char
    EXACT[_p + "write_fmt"] = write_fmt
EXACT["core::fmt::Formatter::<'a>::pad"] = pad
EXACT["itoa::Buffer::format"] = itoa_format
for _t in INT_RANGE:
    EXACT["core::num::<impl core::str::traits::FromStr for %s>::from_str" % _t] = parse_int(_t)
    EXACT["core::num::<impl %s>::from_str_radix" % _t] = parse_int(_t)
    EXACT["core::num::<impl %s>::from_ascii_radix" % _t] = parse_int(_t)
    for _o, _m in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul")):
        for _k in ("checked", "saturating", "wrapping"):
            EXACT["core::num::<impl %s>::%s_%s" % (_t, _k, _o)] = int_op(_k, _m)
EXACT["core::num::float_parse::<impl core::str::traits::FromStr for f64>::from_str"] = parse_float
for _t in ("ip_addr::IpAddr", "ip_addr::Ipv4Addr", "ip_addr::Ipv6Addr"):
    EXACT["core::net::parser::<impl core::str::traits::FromStr for core::net::%s>::from_str" % _t] = parse_ip
    EXACT["<core::net::%s as core::fmt::Display>::fmt" % _t] = ip_fmt
EXACT["core::fmt::float::<impl core::fmt::Display for f64>::fmt"] = float_fmt
EXACT["<url::Url as core::str::traits::FromStr>::from_str"] = parse_url
EXACT["url::Url::parse"] = parse_url
EXACT["<bool as core::str::traits::FromStr>::from_str"] = parse_bool
EXACT["core::intrinsics::cold_path"] = unit
EXACT["core::intrinsics::discriminant_value"] = discriminant_value
EXACT["core::unicode::unicode_data::white_space::lookup"] = white_space
EXACT["core::iter::sources::once::once"] = once
EXACT["<core::str::iter::Chars<'a>>::as_str"] = it_as_str
EXACT["core::str::iter::Chars::<'a>::as_str"] = it_as_str
for _n in ("is_finite", "is_sign_positive", "is_sign_negative", "is_nan", "is_infinite", "is_normal"):
    EXACT["core::f64::<impl f64>::" + _n] = f64_test(_n)
for _b in ("char", "u8"):
    for _n in ("is_ascii_alphabetic", "is_ascii_alphanumeric", "is_ascii_digit", "is_ascii_lowercase",
               "is_ascii_uppercase", "is_ascii_hexdigit", "is_ascii", "is_ascii_graphic", "is_ascii_control",
               "is_ascii_punctuation", "is_ascii_whitespace", "is_whitespace", "is_control"):
        for _pre in ("core::char::methods::<impl char>::", "core::num::<impl u8>::"):
            EXACT[_pre + _n] = char_class(_n)
for _n in ("is_alphanumeric", "is_alphabetic", "is_numeric", "is_lowercase", "is_uppercase"):
    EXACT["core::char::methods::<impl char>::" + _n] = unicode_class(_n)
EXACT["core::char::methods::<impl char>::to_ascii_lowercase"] = case_char(False)
EXACT["core::char::methods::<impl char>::to_ascii_uppercase"] = case_char(True)
for _t in ("Iterator", "traits::iterator::Iterator"):
    pass

ITER_BASE = r"core::str::iter::\w+<|core::slice::iter::\w+<|alloc::vec::into_iter::IntoIter<|" \
            r"core::array::iter::IntoIter<|core::iter::sources::once::Once<|core::option::(IntoIter|Iter)<|" \
            r"indexmap::(map|set)::iter::\w+<|alloc::collections::btree::|std::path::Components<"
REGEX = [
    (re.compile(r"^<(%s).* as core::iter::traits::iterator::Iterator>::next$" % ITER_BASE), it_next),
    (re.compile(r"^<(%s).* as core::iter::traits::double_ended::DoubleEndedIterator>::next_back$" % ITER_BASE), it_next_back),
    (re.compile(r"core::iter::traits::(iterator::Iterator|double_ended::DoubleEndedIterator)>?::(all|any|position|rposition|find|rfind)$"), None),
    (re.compile(r"core::iter::traits::iterator::Iterator>?::count$"), it_len),
    (re.compile(r"core::iter::traits::exact_size::ExactSizeIterator>?::len$"), it_len),
    (re.compile(r"core::iter::traits::iterator::Iterator>?::rev$"), it_rev),
    (re.compile(r"IntoIterator>?( for .*)?>?::into_iter$"), into_iter),
    (re.compile(r"(FromIterator<.*>|FromIterator)( for .*)?>::from_iter$"), from_iter),
    (re.compile(r"::is_empty$"), str_is_empty),
    (re.compile(r"^(indexmap|alloc::collections|std::collections|alloc::vec|core::slice)\b.*::len$"), str_len),
    (re.compile(r" as core::clone::Clone>::clone$|core::clone::Clone>?( for .*)?::clone$|^core::clone::impls::.*::clone$"), ident),
    (re.compile(r"(^|::)to_owned$|::ToOwned>?( for [^>]*)?>::to_owned$"), ident),
    (re.compile(r" as core::ops::deref::Deref>::deref$|core::ops::deref::DerefMut>::deref_mut$"), None),
    (re.compile(r" as core::convert::AsRef<.*>>::as_ref$|^core::convert::AsRef::as_ref$|::<impl core::convert::AsRef<.*>::as_ref$"), ident_ref),
    (re.compile(r" as core::convert::AsMut<.*>>::as_mut$"), ident_ref),
    (re.compile(r"(^core::borrow::Borrow::borrow$)|( as core::borrow::Borrow<.*>>::borrow$)|(::<impl core::borrow::Borrow<.*>::borrow$)"), ident_ref),
    (re.compile(r"^core::convert::(Into::into|From::from)$"), boxed),
    (re.compile(r"^<alloc::string::String as core::convert::From<char>>::from$"), char_to_str),
    (re.compile(r"^<(alloc::string::String|std::path::PathBuf) as core::convert::From<.*>>::from$"), ident_conv),
    (re.compile(r"^(alloc::(boxed::convert|string|borrow|str)|std::path)::<impl core::convert::From<.*>::from$"), ident_conv),
    (re.compile(r"^std::path::Path::(new|display)$|^std::path::PathBuf::(as_path|new|into_os_string|into_boxed_path)$|^std::path::Path::(as_os_str|to_path_buf|into_path_buf)$"), ident),
    (re.compile(r"^<(alloc::string::String|alloc::boxed::Box<.*>|std::path::PathBuf|alloc::vec::Vec<.*>) as core::cmp::PartialEq(<.*>)?>::eq$"), eq_term),
    (re.compile(r"^(alloc::vec::partial_eq|alloc::string|alloc::str|std::path)::<impl core::cmp::PartialEq<.*>::eq$"), eq_term),
    (re.compile(r"^<(indexmap|core::net|ipnet|url|alloc::collections|std)\b.* as core::cmp::PartialEq(<.*>)?>::eq$|^core::cmp::PartialEq::eq$"), eq_term),
    (re.compile(r"^<(alloc::string::String|bool|char|str) as core::fmt::Display>::fmt$|^core::fmt::num::imp::<impl core::fmt::Display for \w+>::fmt$|^core::fmt::Display::fmt$|^core::fmt::float::<impl core::fmt::Display for \w+>::fmt$|<.* as core::fmt::Display>::fmt$"), None),
    (re.compile(r"^core::fmt::num::<impl core::fmt::(LowerHex|UpperHex|Octal|Binary) for \w+>::fmt$"), prim_fmt("radix")),
    (re.compile(r"^core::fmt::float::<impl core::fmt::(Lower|Upper)Exp for|^core::fmt::num::imp::<impl core::fmt::(Lower|Upper)Exp for"), prim_fmt("exp")),
]

for _t in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"):
    EXACT["core::convert::num::<impl core::convert::TryFrom<%s> for core::num::nonzero::NonZero<%s>>::try_from" % (_t, _t)] = nonzero_try
EXACT["core::num::nonzero::NonZero::<T>::new"] = nonzero_new


def range_incl(back):
    """The next element of a..=b."""
    def g(I, st, a):
        r, put = get_it(I, st, a)
        if r[0] != "agg" or put is None or len(r[3]) != 3:
            return NotImplemented
        lo, hi, done = (strip(I, st, x) for x in r[3])
        if done == ("c", 1):
            return [(none(), st)]
        if done != ("c", 0) or lo[0] not in ("c", "t") or hi[0] not in ("c", "t"):
            return NotImplemented
        out = []
        for op in ("Lt", "Eq", "Gt"):
            c = compare(I, st, op, lo, hi, None)
            if c == FALSE:
                continue
            s = st.fork()
            if c != TRUE and not assume_cmp(I, s, op, lo, hi, None):
                continue
            if op == "Gt":
                out.append((none(), s))
                continue
            if op == "Eq":
                put(s, ("agg", r[1], 0, (lo, hi, ("c", 1))))
            elif back:
                put(s, ("agg", r[1], 0, (lo, plus(I, s, hi, -1), done)))
            else:
                put(s, ("agg", r[1], 0, (plus(I, s, lo, 1), hi, done)))
            out.append((some(hi if back else lo), s))
        return out
    return g


EXACT["core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::RangeInclusive<A>>::next"] = range_incl(False)
EXACT["core::iter::range::<impl core::iter::traits::double_ended::DoubleEndedIterator for core::ops::range::RangeInclusive<A>>::next_back"] = range_incl(True)

_lk = {}


def lookup(path, ref, inst):
    k = (path, inst is not None and inst["body"] is not None, inst is not None and inst["local"])
    if k in _lk:
        return _lk[k]
    _lk[k] = r = _lookup(path, ref, inst)
    return r


def _lookup(path, ref, inst):
    if inst is not None and inst["local"]:
        return None
    f = EXACT.get(path)
    if f is not None:
        return f
    import maps
    import seqs
    f = maps.lookup(path) or seqs.lookup(path)
    if f is not None:
        return f
    if path.endswith("Iterator>::size_hint") and re.search(r"^<(indexmap|alloc|std|core::slice|%s)" % ITER_BASE, path):
        return size_hint
    if path.startswith("<core::iter::sources::once::Once<"):
        f = {"next": it_next, "next_back": it_next_back}.get(path.rsplit("::", 1)[-1])
        if f is not None:
            return f
    if path in ("core::intrinsics::integer_min", "core::intrinsics::integer_max"):
        return int_min(min if path.endswith("min") else max)
    has_body = inst is not None and inst["body"] is not None
    m = re.search(r"^<(alloc::string::String|alloc::boxed::Box<.*>|std::path::PathBuf|std::path::Path) as core::cmp::(Partial)?Ord(<.*>)?>::(partial_)?cmp$|"
                  r"^core::str::traits::<impl core::cmp::(?:Partial)?Ord for str>::(partial_)?cmp$|^(alloc::string|std::path|alloc::boxed)::<impl core::cmp::PartialOrd.*::partial_cmp$", path)
    if m:
        return text_cmp("path" if "path::" in path else "str", path.endswith("partial_cmp"))
    if path.endswith("::hash") and "core::hash::Hash" in path:
        # What goes into the hasher, in order.
        return None if has_body and re.search(r"(option::Option|result::Result|boxed::Box|Cow)<|for &|for \(", path) else hashed
    if re.search(r"core::hash::Hasher>?::write\w*$", path):
        return hashed_raw
    if re.search(r"IntoIterator for &'a mut (alloc::vec::Vec|indexmap::map::IndexMap|alloc::collections::btree::map::BTreeMap|std::collections::hash::map::HashMap)<.*into_iter$", path) or \
            re.search(r"^<&'a mut (alloc::vec::Vec|indexmap::map::IndexMap|alloc::collections::btree::map::BTreeMap|std::collections::hash::map::HashMap|\[T\]).* as core::iter::traits::collect::IntoIterator>::into_iter$", path):
        return slice_iter_mut
    m = re.search(r"core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator)>?::(all|any|position|rposition|find|rfind)$", path)
    if m:
        return it_all_any(m.group(1))
    if re.search(r"core::iter::traits::iterator::Iterator>?::(rev|count)$", path) or \
            not has_body or re.search(r"Clone|FromIterator", path):
        for rx, g in REGEX:
            if rx.search(path):
                if g is None:
                    break
                if has_body and g in (from_iter, ident) and path.startswith("<core::") :
                    break
                return g
    if has_body:
        return None
    if re.search(r"Deref>::deref$|DerefMut>::deref_mut$", path):
        return ident_ref
    if re.search(r"core::fmt::Display>?( for \w+>)?::fmt$", path):
        return prim_display
    return None


PANIC = re.compile(r"^(core::panicking::|std::rt::begin_panic|std::panicking::|core::option::(expect_failed|unwrap_failed)|"
                   r"core::result::unwrap_failed|core::slice::index::slice_|core::str::slice_error_fail|"
                   r"core::num::from_ascii_bytes_radix_panic|alloc::raw_vec::|core::cell::panic)")


def is_panic(path):
    return bool(PANIC.search(path))
