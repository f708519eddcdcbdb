"""Running text entry points, and the displays of what they return, on boxes of texts."""
import itertools, os, time
import models, texts
from absint import CHARS, Inconclusive, Interp, iand
from lang import pick

CRASH = (KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError)
BUDGET = int(os.environ.get("VERIF_BUDGET", "400000"))


def all_entries(F, adt):
    """Every local function from one string to `adt`: fallible ones and infallible ones."""
    out = texts.entries(F, adt)
    ids = {x["id"] for x in out}
    for i in F.roots:
        x = F.insts[i]
        if i in ids or x["key"] != x["root"] or not x["sig"] or x["body"] is None:
            continue
        ins, ret = x["sig"][0], x["sig"][1]
        if len(ins) != 1 or F.types[ret][0] != "adt" or F.types[ret][1] != adt:
            continue
        if x["impl"] and x["impl"]["trait"] and x["impl"]["trait"][0].startswith("serde"):
            continue
        if texts.is_stringy(F, ins[0]) or (F.types[ins[0]][0] == "param" and x["name"] == "parse"):
            out.append(x)
    return out


def outcome(F, inst, ret):
    """('ok', value) / ('err', None) / ('?', None) of an entry's result."""
    w, _ = texts.result_of(F, inst["sig"][1])
    if w is None:
        return "ok", ret
    v = texts.verdict(ret)
    return v, ret[3][0] if v == "ok" else None


def explore(F, inst, boxes, budget=None):
    """(interp, [(verdict, value, state)], reason or None)."""
    n = len(boxes)
    sval = ("q", "in", 0, n) if n else ("s", "")
    try:
        I, rs = texts.run_on(F, inst, sval, texts.state_for(boxes), budget=budget or BUDGET)
    except Inconclusive as e:
        return None, [], str(e)
    except CRASH as e:
        return None, [], "%s %s" % (type(e).__name__, str(e)[:120])
    return I, [outcome(F, inst, r) + (st,) for r, st in rs], None


def const(F, inst, text):
    """One text: ('ok'|'err'|'panic'|'?', value, state)."""
    try:
        I, rs = texts.run_on(F, inst, ("s", text), budget=BUDGET)
    except (Inconclusive,) + CRASH:
        return "?", None, None
    if I.panics:
        if not rs and not any(texts.mentions_opaque(k) for p in I.panics for k in p[4]):
            return "panic", None, None
        return "?", None, None
    rs = [outcome(F, inst, r) + (st,) for r, st in rs]
    if len(rs) != 1 or texts.tainted(rs[0][2]):
        vs = {v for v, _, _ in rs}
        if len(vs) == 1 and not any(texts.tainted(s) for _, _, s in rs):
            return rs[0]
        return "?", None, None
    return rs[0]


def box_of(facts, boxes, base="in"):
    out = []
    for i, b in enumerate(boxes):
        c = iand(facts.get(("r", ("ch", base, i)), CHARS), b)
        if not c:
            return None
        out.append(c)
    return tuple(out)


def picks(box, k=6):
    """A few texts of a box: a readable one, the smallest, the largest, and mixtures over digit classes."""
    lo = "".join(chr(c[0][0]) for c in box)
    hi = "".join(chr(c[-1][1]) for c in box)
    mid = "".join(chr(pick(c)) for c in box)
    out = [mid]
    free = [i for i, c in enumerate(box) if c[0][0] != c[-1][1]]
    groups, cur = [], []
    for i in free:
        if cur and i != cur[-1] + 1:
            groups.append(cur)
            cur = []
        cur.append(i)
    if cur:
        groups.append(cur)
    for combo in itertools.product((0, 1), repeat=min(len(groups), 4)):
        t = list(mid)
        for g, c in zip(groups, combo):
            for i in g:
                t[i] = (hi if c else lo)[i]
        s = "".join(t)
        if s not in out:
            out.append(s)
    # the middle of a numeric range
    t = list(mid)
    for i in free:
        if box[i][0][0] == 48 and box[i][-1][1] == 57:
            t[i] = "5"
    if "".join(t) not in out:
        out.append("".join(t))
    return out[:k + 12]


def plain(facts, base="in"):
    return all(k[0] == "r" and k[1][0] == "ch" and k[1][1] == base for k in facts)


# ---- display and reparse -----------------------------------------------------------------------
def display(F, adt, value, st, budget=None):
    """[(text value or None, state)] of Display::fmt, panics: (list, interp)."""
    fs = F.trait_fn("core::fmt::Display", adt, "fmt")
    if len(fs) != 1:
        return None
    J = Interp(F, budget=budget or BUDGET)
    s = st.fork()
    s.log = ()
    out = []
    for r, s2 in J.run(fs[0], [("rv", value), ("t", ("fmt",))], s):
        if texts.verdict(r) == "err":
            # the formatter itself failed: not a text
            continue
        out.append((models.cat(*[x[1] for x in s2.log if x[0] == "w"]), s2))
    return out, J


def norm_sym(st, c):
    if c[0] == "t":
        f = st.facts.get(("r", c[1]))
        if f and len(f) == 1 and f[0][0] == f[0][1]:
            return ("c", f[0][0])
        d = models.derived(c)
        if d is not None:
            b = norm_sym(st, d[0])
            if b[0] == "c":
                return ("c", b[1] + d[1])
    return c


def canon(I, st, v):
    """Value up to references, constants known on the path and superfluous leading zeros of numbers."""
    v = models.strip(I, st, v)
    k = v[0]
    if models.is_str(v) or (k == "t" and v[1][0] == "chs"):
        sy = models.syms(v)
        if sy is not None:
            return ("str", tuple(norm_sym(st, c) for c in sy))
        return v
    if k == "t":
        c = I.fact(st, v)
        if c is not None:
            return ("c", c)
        t = v[1]
        if t[0] == "num":
            ds = tuple(norm_sym(st, c) for c in t[3])
            while len(ds) > 1 and ds[0] == ("c", 48):
                ds = ds[1:]
            if all(c[0] == "c" for c in ds):
                n = int("".join(chr(c[1]) for c in ds), t[1])
                return ("c", -n if t[2] else n)
            if t[1] == 16:
                # case does not matter to the number
                ds = tuple(low(st, c) for c in ds)
            return ("num", t[1], t[2], ds)
        if t[0] == "op":
            return ("t", ("op", t[1], canon(I, st, t[2]), canon(I, st, t[3])))
        if t[0] in ("float",):
            return ("t", (t[0], canon(I, st, t[1])))
        return v
    if k == "agg":
        if v[1] == "alloc::borrow::Cow":
            return canon(I, st, v[3][0])
        if v[1] == "common::Number" and v[2] in (0, 1):
            return ("agg", v[1], "int", (canon(I, st, v[3][0]),))
        if len(v[3]) == 1 and v[1] in ("alloc::boxed::Box", "core::ptr::unique::Unique"):
            return canon(I, st, v[3][0])
        return ("agg", v[1], v[2], tuple(canon(I, st, x) for x in v[3]))
    if k == "list":
        return ("list", tuple(canon(I, st, x) for x in v[1]))
    if k == "map":
        es = tuple(tuple(None if x is None else canon(I, st, x) for x in e) for e in v[2])
        return ("map", v[1], es if v[1] in ("i", "is") else tuple(sorted(es, key=repr)))
    return v


def low(st, c):
    if c[0] == "c":
        return ("c", ord(chr(c[1]).lower()))
    d = models.derived(c)
    if d is not None:
        return d[0]
    return c


def opaque(v):
    return texts.mentions_opaque(v, texts_heads)


texts_heads = ("call", "dyncall", "closure", "rec", "deep", "uninit", "undef", "mut", "upd", "wid", "disp", "fmt", "join")


def concrete_value(c):
    """Does a canonical value contain no unknown at all?"""
    if isinstance(c, tuple):
        if c and c[0] == "t":
            return len(c) == 2 and c[1][0] in ("ip", "ipnet") and concrete_value(c[1][1])
        if c and c[0] == "num":
            return False
        return all(concrete_value(x) for x in c)
    return True


# ---- numbers as part of the box ----------------------------------------------------------------
_rx = {}
MAXES = {"u8": 2 ** 8 - 1, "u16": 2 ** 16 - 1, "u32": 2 ** 32 - 1, "u64": 2 ** 64 - 1, "usize": 2 ** 64 - 1,
         "i64": 2 ** 63 - 1, "i32": 2 ** 31 - 1, "i16": 2 ** 15 - 1, "i8": 2 ** 7 - 1, "u128": 2 ** 128 - 1}


def hexcls(lo, hi):
    """Class of the hexadecimal digits lo..=hi."""
    out = ""
    for d in range(lo, hi + 1):
        c = "%x" % d
        out += c + (c.upper() if d > 9 else "")
    return "[" + out + "]"


def at_most(start, n, hi, radix=10):
    """Texts whose n digits from position `start` on are a number of at most hi."""
    from lang import Regex
    k = (start, n, hi, radix)
    if k not in _rx:
        d = str(hi) if radix == 10 else "%x" % hi
        anyd = "[0-9]" if radix == 10 else "[0-9a-fA-F]"
        if len(d) > n:
            body = anyd + "{%d}" % n
        else:
            d = d.rjust(n, "0")
            one = lambda c: c if radix == 10 else hexcls(int(c, 16), int(c, 16))
            alts = ["".join(one(c) for c in d)]
            for i, c in enumerate(d):
                if c != "0":
                    rest = n - i - 1
                    alts.append("".join(one(x) for x in d[:i]) + hexcls(0, int(c, radix) - 1) +
                                (anyd + "{%d}" % rest if rest else ""))
            body = "(" + "|".join(alts) + ")"
        _rx[k] = Regex(("." + "{%d}" % start if start else "") + body + ".*")
    return _rx[k]


def digits_at(t):
    """(start, length, radix) of a number term over consecutive input characters."""
    if t[0] != "num" or t[1] not in (10, 16) or not t[3]:
        return None
    ix = []
    for c in t[3]:
        if c[0] != "t" or c[1][0] != "ch" or c[1][1] != "in":
            return None
        ix.append(c[1][2])
    if ix != list(range(ix[0], ix[0] + len(ix))):
        return None
    return ix[0], len(ix), t[1]


def side(facts):
    """([(regex, must match)], leftover): constraints on numbers in the text, and whether others remain."""
    out, left = [], False
    for k, v in facts.items():
        t = k[1]
        if k[0] == "r" and t[0] == "ch" and t[1] == "in":
            continue
        if k[0] == "r" and t[0] == "numovf" and v == ((1, 1),):
            d = digits_at(t[2:])
            if d and t[1] in MAXES:
                m = MAXES[t[1]]
                if t[4]:
                    m += 1
                out.append((at_most(d[0], d[1], m, d[2]), False))
                continue
        if k[0] == "r" and t[0] == "num":
            d = digits_at(t)
            if d:
                lo, hi = v[0][0], v[-1][1]
                if len(v) > 1:
                    left = True
                if t[2]:
                    lo, hi = -hi, -lo
                out.append((at_most(d[0], d[1], hi, d[2]), True))
                if lo > 0:
                    out.append((at_most(d[0], d[1], lo - 1, d[2]), False))
                continue
        left = True
    return out, left


def witness(lang, want, bx, cons):
    """A text of the box that meets the number constraints and is (not) in the language."""
    from lang import Lang
    if not cons:
        return lang.find(bx, want)
    l2 = Lang()
    k = len(lang.rx)
    l2.rx = lang.rx + [r for r, _ in cons]
    pos = [p for _, p in cons]
    l2.test = lambda *m: lang.test(*m[:k]) == want and all(a == b for a, b in zip(m[k:], pos))
    return l2.find(bx, True)


def judge(F, e, lang, want, bx, facts, v, constf=None):
    """None, ('bad', text) or ('und', text): does this path contain a text with the wrong verdict?"""
    cons, left = side(facts)
    w = witness(lang, want, bx, cons)
    if w is None:
        return None
    if not left:
        return "bad", w
    constf = constf or (lambda t: const(F, e, t)[0])
    for t in [w] + [p for p in picks(bx) if bool(lang.match(p)) == want]:
        if constf(t) == v:
            return "bad", t
    return "und", w


def nums_in(x, out):
    if isinstance(x, tuple):
        if len(x) == 4 and x[0] == "num":
            out.add(x)
            return
        for y in x:
            nums_in(y, out)


def bounds(st, t):
    """Smallest and largest value of a number term, from the classes of its digits."""
    mn = mx = 0
    for d in t[3]:
        c = models.cls(st, d)
        if not c:
            return None
        try:
            lo, hi = int(chr(c[0][0]), t[1]), int(chr(c[-1][1]), t[1])
        except ValueError:
            return None
        mn, mx = mn * t[1] + lo, mx * t[1] + hi
    return (-mx, -mn) if t[2] else (mn, mx)


def feasible(st):
    """False when the digits known on this path contradict what is known about the numbers."""
    if ("dead",) in st.facts:
        return False
    ns = set()
    for k in st.facts:
        nums_in(k, ns)
    rng = {}
    for t in ns:
        b = bounds(st, t)
        if b is None:
            continue
        f = st.facts.get(("r", t))
        r = iand(f, (b,)) if f is not None else (b,)
        if not r:
            return False
        rng[t] = (r[0][0], r[-1][1])
    for t in ns:
        for ty, m in MAXES.items():
            if st.facts.get(("r", ("numovf", ty) + t)) == ((1, 1),) and t in rng and rng[t][1] <= m and rng[t][0] >= -m - 1:
                return False

    def r_of(v):
        if v[0] == "c":
            return v[1], v[1]
        return rng.get(v[1]) if v[0] == "t" else None
    for _ in range(3):
        for k, f in st.facts.items():
            if k[0] != "rel":
                continue
            a, b = r_of(k[1]), r_of(k[2])
            if a is None or b is None:
                continue
            if a[0] == a[1] and b[0] == b[1]:
                if ("<" if a[0] < b[0] else "=" if a[0] == b[0] else ">") not in f:
                    return False
            if ">" not in f:
                d = 0 if "=" in f else 1
                na, nb = (a[0], min(a[1], b[1] - d)), (max(b[0], a[0] + d), b[1])
            elif "<" not in f:
                d = 0 if "=" in f else 1
                na, nb = (max(a[0], b[0] + d), a[1]), (b[0], min(b[1], a[1] - d))
            else:
                continue
            if na[0] > na[1] or nb[0] > nb[1]:
                return False
            if k[1][0] == "t":
                rng[k[1][1]] = na
            if k[2][0] == "t":
                rng[k[2][1]] = nb
    return True
