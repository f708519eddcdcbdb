"""Disjunctive abstract interpreter over MIR.

Values are terms (Herbrand domain) refined by per-path facts: enum discriminants, booleans, integer
ranges and character sets.  Calls into local code and into core's combinators are interpreted through
their MIR; the remaining library functions have transfer functions in models.py, and everything else is
an uninterpreted function.  Loops are iterated to a fixpoint: a state seen before at a loop head is not
expanded again, and integers that keep changing there are widened.
"""
import sys

sys.setrecursionlimit(20000)

UNIT = ("agg", "tuple", 0, ())
TRUE, FALSE = ("c", 1), ("c", 0)
OPT, RES, ORD = "core::option::Option", "core::result::Result", "core::cmp::Ordering"
CHARS = ((0, 0xD7FF), (0xE000, 0x10FFFF))


class Inconclusive(Exception):
    """The analysis gave up (budget or an unsupported construct)."""


class NoPath(Exception):
    pass


def none():
    return ("agg", OPT, 0, ())


def some(v):
    return ("agg", OPT, 1, (v,))


def ok(v):
    return ("agg", RES, 0, (v,))


def err(v):
    return ("agg", RES, 1, (v,))


def tup(*a):
    return ("agg", "tuple", 0, tuple(a))


# ---- interval sets -----------------------------------------------------------------------------
def iset(*rs):
    return inorm(rs)


def inorm(rs):
    out = []
    for lo, hi in sorted(r for r in rs if r[0] <= r[1]):
        if out and lo <= out[-1][1] + 1:
            out[-1][1] = max(out[-1][1], hi)
        else:
            out.append([lo, hi])
    return tuple((a, b) for a, b in out)


def iand(a, b):
    return inorm([(max(x[0], y[0]), min(x[1], y[1])) for x in a for y in b])


def iminus(a, b):
    out = list(a)
    for lo, hi in b:
        nxt = []
        for x, y in out:
            if hi < x or lo > y:
                nxt.append((x, y))
            else:
                if x < lo:
                    nxt.append((x, lo - 1))
                if y > hi:
                    nxt.append((hi + 1, y))
        out = nxt
    return inorm(out)


def ior(a, b):
    return inorm(tuple(a) + tuple(b))


def isub(a, b):
    return iminus(a, b) == ()


def ishow(s):
    def ch(c):
        return repr(chr(c)) if 0x20 < c < 0x7F else "U+%04X" % c
    return "[" + ", ".join(ch(a) if a == b else ch(a) + "-" + ch(b) for a, b in s) + "]"


INT_RANGE = {}
for _b in (8, 16, 32, 64, 128):
    INT_RANGE["u%d" % _b] = (0, 2 ** _b - 1)
    INT_RANGE["i%d" % _b] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)
INT_RANGE["usize"], INT_RANGE["isize"] = INT_RANGE["u64"], INT_RANGE["i64"]


class State:
    __slots__ = ("mem", "facts", "log")

    def __init__(self, mem=None, facts=None, log=()):
        self.mem, self.facts, self.log = mem or {}, facts or {}, log

    def fork(self):
        return State({k: dict(v) for k, v in self.mem.items()}, dict(self.facts), self.log)

    def freeze(self):
        return (frozenset((k, frozenset(v.items())) for k, v in self.mem.items() if v),
                frozenset(self.facts.items()), self.log)

    def add_log(self, item):
        log = self.log + (item,)
        # Collapse immediate repetitions so that loops reach a fixpoint: x x => x+ (kept as x x).
        n = len(log)
        for w in range(1, min(8, n // 3) + 1):
            if log[n - w:] == log[n - 2 * w:n - w] == log[n - 3 * w:n - 2 * w]:
                log = log[:n - w]
                break
        self.log = log


class Path:
    """One abstract outcome."""
    __slots__ = ("ret", "st")

    def __init__(self, ret, st):
        self.ret, self.st = ret, st


class Interp:
    def __init__(self, F, opaque=None, inline=None, budget=400000, max_depth=70, watch=None, watch_call=None):
        self.F = F
        self.opaque = opaque or (lambda inst: False)   # local instances to keep uninterpreted
        self.steps, self.budget = 0, budget
        self.max_depth = max_depth
        self.panics = []
        self.frames = {}
        self.heads = {}
        self.widen_after = 400      # visits of a loop head before numbers that change there are widened
        self.stack = []
        self.watch = watch            # optional predicate(path, fnref) -> log the call
        self.watch_call = watch_call  # optional callback(interp, fnref, inst, args, st)
        self.agg_hook = None          # optional callback(interp, inst, tag, variant, fields, st)
        self.unknown = {}
        self.visited_insts = set()
        import models
        self.models = models

    # -- helpers ---------------------------------------------------------------------------------
    def fact(self, st, v):
        """Concrete scalar of v if known on this path."""
        if v[0] == "c":
            return v[1]
        if v[0] == "t":
            f = st.facts.get(("r", v[1]))
            if f and len(f) == 1 and f[0][0] == f[0][1]:
                return f[0][0]
        return None

    def rng(self, st, v, ty=None):
        """Interval set of an integer-like value."""
        if v[0] == "c":
            return ((v[1], v[1]),)
        if v[0] == "t":
            f = st.facts.get(("r", v[1]))
            if f is not None:
                return f
            t = v[1]
            if t[0] == "op" and t[1] in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "Shr") and ty:
                a, b = self.rng(st, t[2], ty), self.rng(st, t[3], ty)
                r = arith(t[1], a, b)
                if r is not None:
                    return r
            r = self.models.term_range(t)
            if r is not None:
                return r
        if v[0] == "bl":
            return self.models.bl_range(st, v)
        if ty is not None:
            t = self.F.types[ty]
            if t[0] in ("int", "uint"):
                return (INT_RANGE[t[1]],)
            if t[0] == "char":
                return CHARS
            if t[0] == "bool":
                return ((0, 1),)
        return ((-2 ** 200, 2 ** 200),)

    def refine(self, st, v, s):
        """Restrict v to the interval set s; False if impossible."""
        if v[0] == "c":
            return any(a <= v[1] <= b for a, b in s)
        if v[0] == "t":
            cur = st.facts.get(("r", v[1]))
            new = iand(cur, s) if cur is not None else s
            if not new:
                return False
            st.facts[("r", v[1])] = new
            return True
        if v[0] == "bl":
            r = iand(self.rng(st, v), s)
            return bool(r)
        return True

    def split_bool(self, st, v):
        """[(bool, state)] for a boolean value."""
        k = self.fact(st, v)
        if k is not None:
            return [(bool(k), st)]
        if v[0] != "t":
            raise Inconclusive("branch on %r" % (v,))
        return self.models.split_term(self, st, v[1])

    def frame(self, parent, bb, inst):
        k = (parent, bb, inst)
        if k not in self.frames:
            self.frames[k] = len(self.frames) + 1
        return self.frames[k]

    def panic(self, kind, inst, line, detail, st):
        self.panics.append((kind, inst, line, detail, dict(st.facts)))

    # -- places ----------------------------------------------------------------------------------
    def load(self, st, addr):
        fr, loc = addr
        m = st.mem.get(fr)
        if m is None or loc not in m:
            return ("t", ("uninit", fr, loc))
        return m[loc]

    def proj_get(self, st, v, proj, frame):
        """Follow a projection from a value; returns value."""
        var = 0
        for e in proj:
            if e == "*":
                if v[0] == "rv":
                    v = v[1]
                elif v[0] == "rm":
                    v = self.proj_get(st, self.load(st, v[1]), v[2], frame)
                # strings, terms and boxes are transparent
            elif e[0] == "d":
                var = e[1]
            elif e[0] == "f":
                i = e[1]
                v = self.field(st, v, var, i)
                var = 0
            elif e[0] == "i":
                ix = self.load(st, (frame, e[1]))
                v = self.index(st, v, ix)
            elif e[0] == "mi":
                while v[0] == "rv":
                    v = v[1]
                if v[0] == "list" and e[1] < len(v[1]):
                    v = v[1][e[1]]
                elif v[0] == "map" and e[1] < len(v[2]):
                    v = v[2][e[1]][1]
                elif v[0] == "agg" and v[1] == "array":
                    v = v[3][e[1]]
                else:
                    raise Inconclusive("element of %r" % (v[0],))
            elif e[0] == "ci":
                v = self.const_index(st, v, e[1], e[3])
            elif e[0] == "ss":
                v = self.subslice(st, v, e[1], e[2], e[3])
            else:
                raise Inconclusive("projection %r" % (e,))
        return v

    def field(self, st, v, var, i):
        if v[0] == "agg":
            if i < len(v[3]) and (v[2] == var or v[1] == "tuple"):
                return v[3][i]
            return ("t", ("undef",))
        if v[0] == "clo":
            return v[2][i]
        if v[0] == "t":
            return ("t", ("f", v[1], var, i))
        if v[0] == "ov":
            for (a, b), x in v[2]:
                if (a, b) == (var, i):
                    return x
            return ("t", ("f", v[1], var, i))
        if v[0] in ("rv", "rm"):
            # field of a box/pointer wrapper: transparent
            return v
        if v[0] in ("s", "q", "cat", "list", "it", "bl", "c", "fl"):
            return v  # newtype wrapper around a library value (e.g. Box internals)
        raise Inconclusive("field of %r" % (v[0],))

    def index(self, st, v, ix):
        if v[0] == "list" or (v[0] == "agg" and v[1] == "array"):
            el = v[1] if v[0] == "list" else v[3]
            k = self.fact(st, ix)
            if k is not None and 0 <= k < len(el):
                return el[k]
        return ("t", ("index", v, ix))

    def const_index(self, st, v, off, from_end):
        el = v[1] if v[0] == "list" else v[3] if v[0] == "agg" else None
        if el is not None:
            k = len(el) - off if from_end else off
            if 0 <= k < len(el):
                return el[k]
        return ("t", ("cindex", v, off, from_end))

    def subslice(self, st, v, a, b, fe):
        el = v[1] if v[0] == "list" else v[3] if v[0] == "agg" else None
        if el is not None:
            return ("list", tuple(el[a:len(el) - b if fe else b]))
        return ("t", ("subslice", v, a, b, fe))

    def place_get(self, st, fr, place):
        return self.proj_get(st, self.load(st, (fr, place[0])), place[1], fr)

    def resolve_place(self, st, fr, place):
        """Normalise a place to (addr, proj) not going through a dereference of a `rm`."""
        addr, proj = (fr, place[0]), []
        for e in place[1]:
            if e == "*":
                v = self.proj_get(st, self.load(st, addr), proj, fr)
                if v[0] == "rm":
                    addr, proj = v[1], list(v[2])
                    continue
            if not isinstance(e, str) and e[0] == "i":
                ix = self.load(st, (fr, e[1]))
                k = self.fact(st, ix)
                e = ["ci", k, 0, False] if k is not None else ["i?", ix]
            proj.append(e)
        return addr, proj

    def set_in(self, st, v, proj, new):
        if not proj:
            return new
        e = proj[0]
        if e == "*":
            if v[0] == "rv":
                return ("rv", self.set_in(st, v[1], proj[1:], new))
            if v[0] == "rm":
                raise Inconclusive("nested rm")
            return self.set_in(st, v, proj[1:], new)
        var = 0
        if e[0] == "d":
            var = e[1]
            proj = proj[1:]
            e = proj[0]
            if e == "*":
                return self.set_in(st, v, proj, new)
        if e[0] == "f":
            i = e[1]
            old = self.field(st, v, var, i)
            nv = self.set_in(st, old, proj[1:], new)
            if v[0] == "agg":
                fs = list(v[3])
                while len(fs) <= i:
                    fs.append(("t", ("undef",)))
                fs[i] = nv
                return ("agg", v[1], v[2], tuple(fs))
            if v[0] == "clo":
                fs = list(v[2])
                fs[i] = nv
                return ("clo", v[1], tuple(fs))
            if v[0] == "t":
                return ("ov", v[1], (((var, i), nv),))
            if v[0] == "ov":
                d = dict(v[2])
                d[(var, i)] = nv
                return ("ov", v[1], tuple(sorted(d.items(), key=repr)))
            return nv
        if e[0] == "mi":
            if v[0] == "rv":
                return ("rv", self.set_in(st, v[1], proj, new))
            i = e[1]
            if v[0] == "list" and i < len(v[1]):
                return ("list", v[1][:i] + (self.set_in(st, v[1][i], proj[1:], new),) + v[1][i + 1:])
            if v[0] == "map" and i < len(v[2]):
                k, x = v[2][i]
                return ("map", v[1], v[2][:i] + ((k, self.set_in(st, x, proj[1:], new)),) + v[2][i + 1:])
            if v[0] == "agg" and v[1] == "array":
                return ("agg", v[1], v[2], v[3][:i] + (self.set_in(st, v[3][i], proj[1:], new),) + v[3][i + 1:])
            raise Inconclusive("element of %r" % (v[0],))
        if e[0] == "ci":
            el = v[1] if v[0] == "list" else v[3] if v[0] == "agg" else None
            if el is not None and e[1] is not None and e[1] < len(el):
                el = list(el)
                el[e[1]] = self.set_in(st, el[e[1]], proj[1:], new)
                return ("list", tuple(el)) if v[0] == "list" else ("agg", v[1], v[2], tuple(el))
        return ("t", ("upd", v, new))

    def store(self, st, addr, proj, new):
        fr, loc = addr
        if not proj:
            st.mem.setdefault(fr, {})[loc] = new
            return
        v = self.load(st, addr)
        if v[0] == "t" and v[1][0] == "uninit":
            v = ("agg", "tuple", 0, ())
        st.mem.setdefault(fr, {})[loc] = self.set_in(st, v, proj, new)

    def place_set(self, st, fr, place, new):
        addr, proj = self.resolve_place(st, fr, place)
        self.store(st, addr, proj, new)

    # -- constants -------------------------------------------------------------------------------
    def const(self, i):
        tree, ty, item = self.F.consts[i]
        return self.tree(tree, item)

    def tree(self, t, item=None):
        k = t[0]
        if k in ("int",):
            return ("c", int(t[1]))
        if k == "bool":
            return ("c", int(t[1]))
        if k == "char":
            return ("c", t[1])
        if k == "float":
            return ("fl", t[1], self.F.types[t[2]][1])
        if k == "str":
            return ("rv", ("s", t[1]))
        if k == "ref":
            return ("rv", self.tree(t[1]))
        if k == "array":
            return ("list", tuple(self.tree(x) for x in t[1]))
        if k == "tuple":
            return ("agg", "tuple", 0, tuple(self.tree(x) for x in t[1]))
        if k == "adt":
            ty = self.F.types[t[1]]
            if ty[1].startswith("core::num::n") and len(t[3]) == 1:      # NonZero is kept as the number itself
                return self.tree(t[3][0])
            return ("agg", ty[1], t[2], tuple(self.tree(x) for x in t[3]))
        if k == "fn":
            return ("fn", t[1])
        if k == "closure":
            return ("clo", t[1], tuple(self.tree(x) for x in t[2]))
        return ("t", ("const", item or (t[1] if len(t) > 1 else "?")))

    # -- types -----------------------------------------------------------------------------------
    def place_ty(self, body, place):
        t = body["locals"][place[0]]
        for e in place[1]:
            if t is None:
                return None
            if e == "*":
                tt = self.F.types[t]
                t = tt[1] if tt[0] in ("ref", "ptr") else None
            elif e[0] == "f":
                t = e[2]
            elif e[0] == "d":
                pass
            elif e[0] in ("i", "ci"):
                tt = self.F.types[t]
                t = tt[1] if tt[0] in ("array", "slice") else None
            else:
                t = None
        return t

    def op_ty(self, body, o):
        if o[0] in ("c", "m"):
            return self.place_ty(body, o[1])
        if o[0] == "k":
            return self.F.consts[o[1]][1]
        return None

    def operand(self, st, fr, o):
        if o[0] in ("c", "m"):
            return self.place_get(st, fr, o[1])
        if o[0] == "k":
            return self.const(o[1])
        return ("t", ("rt", o[1]))

    # -- rvalues ---------------------------------------------------------------------------------
    def rvalue(self, st, fr, inst, body, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            if r[2]:
                addr, proj = self.resolve_place(st, fr, r[1])
                if any(e == "*" for e in proj):
                    v = self.proj_get(st, self.load(st, addr), proj, fr)
                    if v[0] == "t":
                        return ("rv", v)
                return ("rm", addr, tuple(map(_tt, proj)))
            # Shared references to places behind &mut keep the snapshot.
            v = self.place_get(st, fr, r[1])
            return ("rv", v)
        if k == "rawptr":
            v = self.place_get(st, fr, r[1])
            return ("rv", v)
        if k == "discr":
            v = self.place_get(st, fr, r[1])
            return self.discr(st, v, self.place_ty(body, r[1]))
        if k == "agg":
            fs = tuple(self.operand(st, fr, o) for o in r[2])
            kind = r[1]
            if kind[0] == "adt":
                if self.agg_hook:
                    self.agg_hook(self, inst, kind[1], kind[2], fs, st)
                return ("agg", kind[1], kind[2], fs)
            if kind[0] == "tuple":
                return ("agg", "tuple", 0, fs)
            if kind[0] == "array":
                return ("list", fs)
            if kind[0] == "closure":
                return ("clo", kind[1], fs)
            if kind[0] == "rawptr":
                return fs[0]
            return ("t", ("agg", kind[0]) + fs)
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, self.op_ty(body, r[2]))
        if k == "un":
            a = self.operand(st, fr, r[2])
            ty = self.op_ty(body, r[2])
            if r[1] == "Not":
                c = self.fact(st, a)
                if ty is not None and self.F.types[ty][0] == "bool":
                    if c is not None:
                        return ("c", 1 - c)
                    return neg(a)
                return ("t", ("op", "BitNot", a))
            if r[1] == "Neg":
                c = self.fact(st, a)
                return ("c", -c) if c is not None else ("t", ("op", "Neg", a))
            if r[1] == "PtrMetadata":
                return self.models.length(self, st, a)
            return ("t", ("op", r[1], a))
        if k == "cast":
            a = self.operand(st, fr, r[2])
            return self.cast(st, r[1], a, self.op_ty(body, r[2]), r[3])
        if k == "repeat":
            a = self.operand(st, fr, r[1])
            try:
                n = int(str(r[2]).split("_")[0])
            except ValueError:
                n = None
            if n is not None and n <= 64:
                return ("list", (a,) * n)
            return ("t", ("repeat", a))
        return ("t", ("rv", repr(r)))

    def discr(self, st, v, ty=None):
        if v[0] == "agg":
            return ("c", self.discr_val(v[1], v[2]))
        if v[0] in ("rv", "rm"):
            raise Inconclusive("discriminant of reference")
        if v[0] == "ov":
            v = ("t", v[1])
        if v[0] == "t":
            t = ("discr", v[1])
            if ("r", t) not in st.facts and ty is not None:
                tt = self.F.types[ty]
                if tt[0] == "adt" and tt[1] in self.F.adts:
                    ds = [self.discr_val(tt[1], i) for i in range(len(self.F.adts[tt[1]]["variants"]))]
                    if ds:
                        st.facts[("r", t)] = inorm([(d, d) for d in ds])
            return ("t", t)
        if v[0] == "c":
            return v
        if v[0] in ("s", "q", "cat", "list", "map"):
            return ("t", ("uninit", "discr", v[0]))      # of a partly moved value, to decide what to drop
        raise Inconclusive("discriminant of %r" % (v[0],))

    def discr_val(self, path, vi):
        if path == ORD:
            return vi - 1
        a = self.F.adts.get(path)
        if a and vi < len(a["variants"]):
            return int(a["variants"][vi]["discr"])
        return vi

    def cast(self, st, kind, a, fty, tty):
        c = self.fact(st, a)
        tt = self.F.types[tty]
        if kind == "IntToInt" or kind.startswith("IntToInt"):
            if tt[0] in ("int", "uint"):
                lo, hi = INT_RANGE[tt[1]]
                if c is not None:
                    n = hi - lo + 1
                    return ("c", (c - lo) % n + lo)
                r = self.rng(st, a, fty)
                if r and r[0][0] >= lo and r[-1][1] <= hi:
                    return a
                return ("t", ("op", "cast", a, tt[1]))
            if tt[0] == "char":
                return a
            return ("t", ("op", "cast", a, str(tt[1:])))
        if kind.startswith("PointerCoercion") or kind.startswith("Transmute") or kind.startswith("PtrToPtr") \
                or kind.startswith("BoxDeref") or kind.startswith("Subtype"):
            return a
        if kind == "IntToFloat" and c is not None or kind == "FloatToFloat" and a[0] == "fl":
            return self.models.fl(float(c) if kind == "IntToFloat" else self.models.unfl(a), tt[1])
        if c is not None and kind == "FloatToInt":
            return a
        return ("t", ("op", "cast:" + kind, a, str(tt[1:])))

    def binop(self, st, op, a, b, ty):
        x, y = self.fact(st, a), self.fact(st, b)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if x is not None and y is not None:
                return ("c", int({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y,
                                  "Gt": x > y, "Ge": x >= y}[base]))
            a2, b2 = (("c", x) if x is not None else a), (("c", y) if y is not None else b)
            return self.models.compare(self, st, base, a2, b2, ty)
        if base == "Cmp":
            return self.models.cmp3(self, st, a, b, ty)
        if base in ("BitAnd", "BitOr", "BitXor") and ty is not None and self.F.types[ty][0] == "bool":
            if x is not None and y is not None:
                return ("c", {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[base])
            if base == "BitAnd":
                if x == 0 or y == 0:
                    return FALSE
                if x == 1:
                    return b
                if y == 1:
                    return a
            if base == "BitOr":
                if x == 1 or y == 1:
                    return TRUE
                if x == 0:
                    return b
                if y == 0:
                    return a
            return ("t", ("op", "b" + base, a, b))
        res = None
        ovf = FALSE
        rngt = None
        if ty is not None and self.F.types[ty][0] in ("int", "uint"):
            rngt = INT_RANGE[self.F.types[ty][1]]
        if x is not None and y is not None:
            n = concrete(base, x, y)
            if n is not None:
                if rngt and not (rngt[0] <= n <= rngt[1]):
                    ovf = TRUE
                    w = rngt[1] - rngt[0] + 1
                    n = (n - rngt[0]) % w + rngt[0]
                res = ("c", n)
        if res is None and base in ("Div", "Rem") and y is not None and y > 0:
            res = self.divide(st, base, a, y, ty, rngt)
        if res is None:
            bl = self.models.bl_arith(self, st, base, a, b)
            if bl is not None:
                res = bl
                ovf = FALSE
        if res is None:
            if base == "Add" and y == 0:
                res = a
            elif base == "Add" and x == 0:
                res = b
            elif base == "Sub" and y == 0:
                res = a
            else:
                res = whole(base, a, b) or ("t", ("op", base, a, b))
            if "WithOverflow" in op:
                r = arith(base, self.rng(st, a, ty), self.rng(st, b, ty))
                if r is not None and rngt and r and r[0][0] >= rngt[0] and r[-1][1] <= rngt[1]:
                    ovf = FALSE
                elif self.models.no_overflow(self, st, base, a, b, ty):
                    ovf = FALSE
                else:
                    ovf = ("t", ("ovf", base, a, b, self.F.types[ty][1] if ty is not None else "?"))
        if "WithOverflow" in op:
            return ("agg", "tuple", 0, (res, ovf))
        return res

    def sum_of(self, st, v, k=1):
        """v * k as [(term or None, factor)] with positive factors, or None."""
        n = self.fact(st, v)
        if n is not None:
            return None if n < 0 else [(None, n * k)] if n else []
        if v[0] == "t" and v[1][0] == "op" and v[1][1] in ("Add", "Mul"):
            a, b = v[1][2], v[1][3]
            if v[1][1] == "Add":
                x, y = self.sum_of(st, a, k), self.sum_of(st, b, k)
                return None if x is None or y is None else x + y
            for p, q in ((a, b), (b, a)):
                n = self.fact(st, q)
                if n is not None and n > 0:
                    return self.sum_of(st, p, k * n)
            return None
        return [(v, k)]

    def divide(self, st, base, a, y, ty, rngt):
        """a / y or a % y where a splits into a multiple of y and a rest below y; None if it does not."""
        if ty is None or rngt is None:
            return None
        parts = self.sum_of(st, a)
        if parts is None:
            return None
        total, c, rest, mult = 0, 0, [], []
        split = []
        for t, k in parts:
            # A number of more digits than y has zeros: its leading digits, and the others.
            if t is not None and t[0] == "t" and t[1][0] == "num" and t[1][1] == 10 and not t[1][2] and k % y:
                j = next((j for j in range(1, 20) if k * 10 ** j % y == 0), None)
                if j is not None and len(t[1][3]) > j:
                    for ds, f in ((t[1][3][:-j], k * 10 ** j), (t[1][3][-j:], k)):
                        if all(d[0] == "c" for d in ds):
                            split.append((None, f * int("".join(chr(d[1]) for d in ds))))
                        else:
                            n = ("t", ("num", 10, False, ds))
                            if st.facts.get(("r", n[1])) is None:
                                rs = [self.rng(st, d) for d in ds]
                                lo = hi = 0
                                for r in rs:
                                    if not r or r[0][0] < 48 or r[-1][1] > 57:
                                        return None
                                    lo, hi = lo * 10 + r[0][0] - 48, hi * 10 + r[-1][1] - 48
                                st.facts[("r", n[1])] = ((lo, hi),)
                            split.append((n, f))
                    continue
            split.append((t, k))
        for t, k in split:
            if t is None:
                c += k
                continue
            r = self.rng(st, t, ty)
            if not r or r[0][0] < 0:
                return None
            total += r[-1][1] * k
            (mult if k % y == 0 else rest).append((t, k))
        if total + c > rngt[1] or sum(self.rng(st, t, ty)[-1][1] * k for t, k in rest) + c % y >= y:
            return None
        if base == "Div":
            rest, c = [(t, k // y) for t, k in mult], c // y
        else:
            c = c % y
        out = None
        for t, k in rest:
            t = t if k == 1 else ("t", ("op", "Mul", t, ("c", k)))
            out = t if out is None else ("t", ("op", "Add", out, t))
        if out is None:
            return ("c", c)
        return out if c == 0 else ("t", ("op", "Add", out, ("c", c)))

    # -- execution -------------------------------------------------------------------------------
    def cfg(self, inst):
        """Join blocks of a body with their processing order, and the locals live at each of them."""
        h = self.heads.get(inst["id"])
        if h is None:
            h = self.heads[inst["id"]] = cfg_of(inst["body"])
        return h

    def run(self, inst, args, st=None, frame=0):
        """Interpret `inst` on abstract arguments: list of (ret, state)."""
        if isinstance(inst, int):
            inst = self.F.insts[inst]
        st = st or State()
        return self.exec(inst, list(args), st, self.frame(frame, "root", inst["id"]))

    def exec(self, inst, args, st, fr):
        body = inst["body"]
        blocks = body["blocks"]
        self.visited_insts.add(inst["id"])
        if len(self.stack) > self.max_depth:
            raise Inconclusive("depth at " + inst["path"])
        self.stack.append(inst["id"])
        try:
            st = st.fork()
            st.mem[fr] = {i + 1: a for i, a in enumerate(args)}
            heads, live = self.cfg(inst)
            seen, counts, hist = {}, {}, {}
            work = [(0, st, False)]
            pend = {}
            out = []
            while work or pend:
                if not work:
                    # every path has reached a join block: join there, innermost loop first
                    hb = min(pend, key=lambda b: heads[b])
                    sts = pend.pop(hb)
                    if len(sts) > 1:
                        sts = [s for _, s in join_states([(None, s) for s in sts])]
                    work = [(hb, s, True) for s in reversed(sts)]
                bb, st, resumed = work.pop()
                while True:
                    self.steps += 1
                    if self.steps > self.budget:
                        raise Inconclusive("budget in " + inst["path"])
                    if bb in heads:
                        if not resumed:
                            m = st.mem.get(fr)
                            if m is not None:
                                lv = live[bb]
                                dead = [k for k in m if k not in lv]
                                if dead:
                                    st = st.fork()
                                    m = st.mem[fr]
                                    for k in dead:
                                        del m[k]
                            pend.setdefault(bb, []).append(st)
                            break
                        resumed = False
                        if heads[bb][2]:
                            n = counts[bb] = counts.get(bb, 0) + 1
                            if n > self.widen_after:
                                self.widen(st, fr, hist.setdefault(bb, {}))
                            else:
                                hist.setdefault(bb, {}).update({k: v for k, v in st.mem.get(fr, {}).items()
                                                                if k not in hist[bb]})
                            fz = st.freeze()
                            if fz in seen.setdefault(bb, set()):
                                break
                            seen[bb].add(fz)
                            if n > 4000:
                                raise Inconclusive("loop in " + inst["path"])
                    stmts, term, _ = blocks[bb]
                    for s in stmts:
                        if s[0] == "=":
                            v = self.rvalue(st, fr, inst, body, s[2])
                            self.place_set(st, fr, s[1], v)
                        elif s[0] == "dead":
                            m = st.mem.get(fr)
                            if m is not None:
                                m.pop(s[1], None)
                        elif s[0] == "sd":
                            v = self.place_get(st, fr, s[1])
                            if v[0] == "agg":
                                self.place_set(st, fr, s[1], ("agg", v[1], s[2], v[3]))
                    k = term[0]
                    if k == "goto" or k == "drop":
                        bb = term[1]
                        continue
                    if k == "return":
                        ret = st.mem.get(fr, {}).get(0, UNIT)
                        st.mem.pop(fr, None)
                        out.append((ret, st))
                        break
                    if k == "switch":
                        nxt = self.switch(st, fr, body, term)
                        if not nxt:
                            break
                        for b2, s2 in nxt[1:]:
                            work.append((b2, s2, False))
                        bb, st = nxt[0]
                        continue
                    if k == "assert":
                        c = self.operand(st, fr, term[1])
                        res = self.split_bool(st, c)
                        good = None
                        for val, s2 in res:
                            if val == term[2]:
                                good = s2
                            else:
                                self.panic(term[3], inst, term[6],
                                           tuple(self.operand(st, fr, o) for o in term[4]), s2)
                        if good is None:
                            break
                        st, bb = good, term[5]
                        continue
                    if k == "call":
                        f = self.operand(st, fr, term[1])
                        args = [self.operand(st, fr, a) for a in term[2]]
                        rs = self.call(st, fr, bb, inst, f, args, term[5])
                        rs = [x for x in rs if x is not None]
                        if term[4] is None or not rs:
                            break
                        for ret, s2 in rs:
                            self.place_set(s2, fr, term[3], ret)
                        for ret, s2 in rs[1:]:
                            work.append((term[4], s2, False))
                        st, bb = rs[0][1], term[4]
                        continue
                    if k in ("unreachable", "resume"):
                        break
                    raise Inconclusive("terminator %r" % (term[0],))
            return join_states(out) if len(out) > 1 else out
        finally:
            self.stack.pop()

    def widen(self, st, fr, hist):
        m = st.mem.get(fr, {})
        for loc, v in list(m.items()):
            old = hist.get(loc)
            if old is not None and old != v and (v[0] in ("c", "bl") or (v[0] == "t" and v[1][0] == "op")):
                m[loc] = ("t", ("wid", fr, loc))
                st.facts.pop(("r", ("wid", fr, loc)), None)

    def switch(self, st, fr, body, term):
        v = self.operand(st, fr, term[1])
        arms, other, ty = term[2], term[3], term[4]
        tt = self.F.types[ty]
        if v[0] in ("rv", "rm"):
            v = self.models.strip(self, st, v)
        c = self.fact(st, v)
        bits = None
        if tt[0] == "int":
            lo, hi = INT_RANGE[tt[1]]
            bits = (lo, hi)

        def dec(s):
            n = int(s)
            if bits and n > bits[1]:
                n -= (bits[1] - bits[0] + 1)
            return n
        if c is not None:
            for val, b in arms:
                if dec(val) == c:
                    return [(b, st)]
            return [(other, st)]
        if tt[0] == "bool":
            out = []
            for val, s2 in self.split_bool(st, v):
                tgt = other
                for x, b in arms:
                    if int(x) == int(val):
                        tgt = b
                out.append((tgt, s2))
            return out
        if v[0] == "t" and v[1][0] == "cmp3":
            # Ordering produced by a three-way comparison
            pass
        cur = self.rng(st, v, ty)
        out = []
        rest = cur
        for x, b in arms:
            n = dec(x)
            if iand(rest, ((n, n),)):
                s2 = st.fork()
                if self.refine_sw(s2, v, ((n, n),)):
                    out.append((b, s2))
            rest = iminus(rest, ((n, n),))
        if rest:
            # an enum whose remaining variants are exhausted has an unreachable otherwise block
            if body["blocks"][other][1][0] != "unreachable":
                s2 = st.fork()
                if self.refine_sw(s2, v, rest):
                    out.append((other, s2))
        return out

    def refine_sw(self, st, v, s):
        if v[0] != "t":
            return self.refine(st, v, s)
        return self.models.assume_int(self, st, v, s)

    # -- calls -----------------------------------------------------------------------------------
    def apply(self, st, f, args):
        """Call a closure or function value from a model."""
        cur = self.cur
        fr, bb, caller, ref, inst, line = cur
        try:
            g = self.models.strip(self, st, f)
            return self.call(st, fr, (bb, "ap"), caller, g if g[0] != "clo" else f if f[0] == "rm" else g, args, line)
        finally:
            self.cur = cur

    def call_inst(self, st, iid, args):
        """Call an instance from a model."""
        cur = self.cur
        fr, bb, caller, ref, inst, line = cur
        try:
            x = self.F.insts[iid]
            r = {"path": x["path"], "key": x["key"], "krate": x["krate"], "name": x["name"], "args": x["args"],
                 "trait": None, "inst": iid, "ctor": None, "via": []}
            return self.call_ref(st, fr, (bb, "ci"), caller, r, args, line)
        finally:
            self.cur = cur

    def call(self, st, fr, bb, caller, f, args, line):
        F = self.F
        while f[0] in ("rv",):
            f = f[1]
        if f[0] == "rm":
            g = self.models.strip(self, st, f)
            if g[0] == "clo":
                return self.call_closure(st, fr, bb, g, args, f)
            f = g
        if f[0] == "clo":
            return self.call_closure(st, fr, bb, f, args, f)
        if f[0] != "fn":
            return self.opaque_call(st, ("dyncall", f), args, None)
        ref = F.fnrefs[f[1]]
        return self.call_ref(st, fr, bb, caller, ref, args, line)

    def call_closure(self, st, fr, bb, clo, args, selfval):
        ref = self.F.fnrefs[clo[1]]
        inst = self.F.insts[ref["inst"]] if ref["inst"] is not None else None
        if inst is None or inst["body"] is None:
            return self.opaque_call(st, ("closure", ref["key"]), args, ref)
        b = inst["body"]
        t1 = self.F.types[b["locals"][1]]
        while selfval[0] == "rm":         # a reference to a reference to the closure
            inner = self.proj_get(st, self.load(st, selfval[1]), selfval[2], selfval[1][0])
            if inner[0] != "rm":
                break
            selfval = inner
        sv = selfval
        if t1[0] == "ref":
            if selfval[0] == "clo":
                if t1[2]:
                    tmp = self.frame(fr, (bb, "clo"), inst["id"])
                    st = st.fork()
                    st.mem[tmp] = {0: selfval}
                    sv = ("rm", (tmp, 0), ())
                else:
                    sv = ("rv", selfval)
        else:
            sv = clo
        return self.enter(st, fr, bb, inst, [sv] + args)

    def enter(self, st, fr, bb, inst, args):
        if self.stack.count(inst["id"]) >= 3:
            return self.opaque_call(st, ("rec", inst["key"]), args, None)
        nf = self.frame(fr, bb, inst["id"])
        return self.exec(inst, args, st, nf)

    def call_ref(self, st, fr, bb, caller, ref, args, line):
        F = self.F
        if ref["ctor"]:
            if self.agg_hook:
                self.agg_hook(self, caller, ref["ctor"][0], ref["ctor"][1], tuple(args), st)
            return [(("agg", ref["ctor"][0], ref["ctor"][1], tuple(args)), st)]
        inst = F.insts[ref["inst"]] if ref["inst"] is not None else None
        path = inst["path"] if inst is not None else ref["path"]
        # Calls through the Fn* traits.
        if ref["trait"] in ("core::ops::function::Fn", "core::ops::function::FnMut",
                            "core::ops::function::FnOnce"):
            callee = self.models.strip(self, st, args[0])
            targs = args[1][3] if len(args) > 1 and args[1][0] == "agg" else ()
            if callee[0] == "clo":
                return self.call_closure(st, fr, bb, callee, list(targs), args[0])
            if callee[0] == "fn":
                return self.call_ref(st, fr, bb, caller, F.fnrefs[callee[1]], list(targs), line)
            if inst is not None and inst["kind"] == "fnptr" and inst["target"] is not None:
                return self.call_ref(st, fr, bb, caller, F.fnrefs[inst["target"]], list(targs), line)
            return self.opaque_call(st, ("dyncall", callee), list(targs), ref)
        if self.watch_call:
            r = self.watch_call(self, ref, inst, args, st)
            if r is not None:
                return r
        m = self.models.lookup(path, ref, inst)
        if m is not None:
            self.cur = (fr, bb, caller, ref, inst, line)
            r = m(self, st, args)
            if r is not NotImplemented:
                return r
        if inst is not None and inst["body"] is not None and self.is_error(inst):
            return [(("t", ("serde_error",)), st)]
        if inst is not None and inst["body"] is not None and not self.opaque(inst):
            return self.enter(st, fr, bb, inst, args)
        if self.models.is_panic(path):
            self.panic("call:" + path, caller, line, tuple(args), st)
            return []
        return self.opaque_call(st, ("call", path), args, ref)

    def is_error(self, inst):
        """Does the function only make a serde_yaml error?  (Its text is not followed.)"""
        t = self.F.types[inst["body"]["locals"][0]]
        return t[0] == "adt" and t[1] == "serde_yaml::error::Error"

    def opaque_call(self, st, head, args, ref):
        """Uninterpreted function of its arguments; `&mut` arguments are havocked."""
        vals = tuple(self.models.strip(self, st, a) for a in args)
        name = head[1] if isinstance(head[1], str) else head[0]
        self.unknown[name] = self.unknown.get(name, 0) + 1
        t = head + vals
        if depth_of(t) > 14:
            t = head + tuple(("t", ("deep", hash_term(x))) for x in vals)
        muts = [a for a in args if a[0] == "rm"]
        st = st.fork()
        if muts:
            self.models.forget(self, st, t)
            for a in muts:
                v = self.proj_get(st, self.load(st, a[1]), a[2], a[1][0])
                if v[0] != "t":
                    self.store(st, a[1], list(a[2]), ("t", ("mut", name) + tuple(
                        x for x in vals if x[0] in ("c", "s"))[:2] + (base_term(v),)))
        if self.watch and self.watch(name, ref):
            st.add_log(("call", name, vals))
        return [(("t", t), st)]


def succ_of(t):
    k = t[0]
    if k == "goto" or k == "drop":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[5]]
    return []


def cfg_of(body):
    blocks = body["blocks"]
    succ = [succ_of(b[1]) for b in blocks]
    # depth-first search: reverse postorder and back edges
    color, post, back = {0: 1}, [], []
    preds = {}
    stack = [(0, iter(succ[0]))]
    while stack:
        b, it = stack[-1]
        for s in it:
            preds.setdefault(s, set()).add(b)
            if color.get(s) == 1:
                back.append((b, s))
            elif s not in color:
                color[s] = 1
                stack.append((s, iter(succ[s])))
                break
        else:
            color[b] = 2
            post.append(b)
            stack.pop()
    rpo = {b: i for i, b in enumerate(reversed(post))}
    loops = {}
    for src, head in back:
        body_set = loops.setdefault(head, {head})
        todo = [src]
        while todo:
            x = todo.pop()
            if x not in body_set:
                body_set.add(x)
                todo += list(preds.get(x, ()))
    heads = {}
    for b in rpo:
        if b in loops:
            heads[b] = (max(rpo[x] for x in loops[b]) + 0.5, -rpo[b], True)
        elif len(preds.get(b, ())) > 1:
            heads[b] = (rpo[b], 0, False)
    # liveness
    taken = set()
    use, dfn = [], []
    for stmts, term, _ in blocks:
        u, d = set(), set()

        def rd(p):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if not isinstance(e, str) and e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def wr(p):
            if p[1]:
                rd(p)
            else:
                d.add(p[0])

        def op(o):
            if o[0] in ("c", "m"):
                rd(o[1])
        for s in stmts:
            if s[0] == "=":
                r = s[2]
                k = r[0]
                if k == "use":
                    op(r[1])
                elif k in ("ref", "rawptr", "discr"):
                    rd(r[1])
                    if k != "discr":
                        taken.add(r[1][0])
                elif k == "agg":
                    for o in r[2]:
                        op(o)
                elif k == "bin":
                    op(r[2])
                    op(r[3])
                elif k in ("un", "cast"):
                    op(r[2])
                elif k == "repeat":
                    op(r[1])
                else:
                    for x in range(len(body["locals"])):
                        taken.add(x)
                wr(s[1])
            elif s[0] == "dead":
                d.add(s[1])
            elif s[0] == "sd":
                rd(s[1])
        k = term[0]
        if k == "switch":
            op(term[1])
        elif k == "assert":
            op(term[1])
            for o in term[4]:
                op(o)
        elif k == "call":
            op(term[1])
            for o in term[2]:
                op(o)
            wr(term[3])
        elif k == "return":
            rd([0, []])
        use.append(u)
        dfn.append(d)
    live_in = [set(u) for u in use]
    changed = True
    while changed:
        changed = False
        for b in post:
            out = set()
            for s in succ[b]:
                out |= live_in[s]
            n = use[b] | (out - dfn[b])
            if n != live_in[b]:
                live_in[b] = n
                changed = True
    # only mutable borrows keep an address: shared ones are snapshots, but keep both to be safe
    return heads, {b: live_in[b] | taken for b in heads}


def join_states(out):
    """Join outcomes that agree on everything but the class or range of one term (exact union)."""
    n = len(out)
    if n < 2 or n > 3000:
        return out
    groups = {}
    for val, st in out:
        k = (val, st.log, frozenset((k, frozenset(v.items())) for k, v in st.mem.items() if v))
        groups.setdefault(k, []).append(st)
    res = []
    for (val, _, _), sts in groups.items():
        if len(sts) > 1:
            sts = list({frozenset(s.facts.items()): s for s in sts}.values())
            sts = _join(sts) if len(sts) > 1 else sts
        res += [(val, s) for s in sts]
    return res


def _join(sts):
    changed = True
    while changed and len(sts) > 1:
        changed = False
        keys = set()
        base = sts[0].facts
        for s in sts:
            for k, v in s.facts.items():
                if base.get(k) != v:
                    keys.add(k)
            for k in base:
                if k not in s.facts:
                    keys.add(k)
        for k in sorted((k for k in keys if k[0] == "r"), key=repr):
            g = {}
            for s in sts:
                f = tuple(sorted(((a, b) for a, b in ((q, s.facts.get(q)) for q in keys) if a != k), key=repr))
                g.setdefault(f, []).append(s)
            if len(g) == len(sts):
                continue
            new = []
            for ss in g.values():
                s = ss[0]
                if len(ss) > 1:
                    changed = True
                    s = s.fork()
                    if any(k not in x.facts for x in ss):
                        s.facts.pop(k, None)
                    else:
                        u = ()
                        for x in ss:
                            u = ior(u, x.facts[k])
                        s.facts[k] = u
                new.append(s)
            sts = new
            if len(sts) == 1:
                break
    return sts


def base_term(v):
    if v[0] == "t" and v[1][0] == "mut":
        return v[1][-1]
    return v if depth_of(v) < 6 else ("c", 0)


def hash_term(x):
    import hashlib
    return hashlib.md5(repr(x).encode()).hexdigest()[:12]


_depth = {}


def depth_of(x):
    if not isinstance(x, tuple):
        return 0
    d = _depth.get(x)
    if d is None:
        d = 1 + max([depth_of(y) for y in x] or [0])
        if len(_depth) > 500000:
            _depth.clear()
        _depth[x] = d
    return d


def _tt(e):
    return tuple(e) if isinstance(e, list) else e


def neg(v):
    if v[0] == "c":
        return ("c", 1 - v[1])
    if v[0] == "t" and v[1][0] == "not":
        return v[1][1]
    return ("t", ("not", v))


def ulen(c):
    return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4


def concrete(op, x, y):
    if op == "Add":
        return x + y
    if op == "Sub":
        return x - y
    if op == "Mul":
        return x * y
    if op == "Div":
        return int(x / y) if y and abs(x) < 2 ** 50 else (x // y if y else None)
    if op == "Rem":
        return x % y if y and x >= 0 else None
    if op == "BitAnd":
        return x & y
    if op == "BitOr":
        return x | y
    if op == "BitXor":
        return x ^ y
    if op == "Shl":
        return x << y if y < 256 else None
    if op == "Shr":
        return x >> y
    return None


def whole(op, a, b):
    """(x / k) * k + x % k is x."""
    if op == "Add" and a[0] == b[0] == "t" and a[1][0] == b[1][0] == "op":
        for p, q in ((a, b), (b, a)):
            if p[1][1] == "Mul" and q[1][1] == "Rem" and q[1][3][0] == "c":
                d, k = p[1][2], p[1][3]
                if d[0] == "c":
                    d, k = k, d
                if k == q[1][3] and d[0] == "t" and d[1][0] == "op" and d[1][1] == "Div" and d[1][3] == k and d[1][2] == q[1][2]:
                    return d[1][2]
    return None


def arith(op, a, b):
    if not a or not b:
        return None
    al, ah, bl, bh = a[0][0], a[-1][1], b[0][0], b[-1][1]
    if op == "Add":
        return ((al + bl, ah + bh),)
    if op == "Sub":
        return ((al - bh, ah - bl),)
    if op == "Mul":
        c = [al * bl, al * bh, ah * bl, ah * bh]
        return ((min(c), max(c)),)
    if op == "Div" and bl > 0 and al >= 0:
        return ((al // bh, ah // bl),)
    if op == "Rem" and bl > 0 and al >= 0:
        return ((0, min(ah, bh - 1)),)
    if op == "BitAnd" and al >= 0 and bl >= 0:
        return ((0, min(ah, bh)),)
    if op == "Shr" and al >= 0:
        return ((0, ah),)
    return None
