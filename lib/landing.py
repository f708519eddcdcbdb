"""Templates of text forms with named holes, and paths through the public interface of the parsed value."""
import itertools, re
import forms, models, texts
from absint import CHARS, Interp, State, inorm, iminus
from forms import BUDGET, canon, outcome
from lang import pick

DIG, LOW, UP = inorm([(48, 57)]), inorm([(97, 122)]), inorm([(65, 90)])
CLS = {
    "d": (DIG, DIG), "n": (inorm([(49, 57)]), DIG), "l": (LOW, LOW), "5": (inorm([(49, 53)]), DIG), "x": (inorm([(48, 57), (97, 102), (65, 70)]),) * 2,
    "i": (LOW, inorm([(97, 122), (65, 90), (48, 57), (45, 46), (95, 95)])),       # identifiers
    "w": (inorm([(97, 122), (48, 57)]),) * 2,
    "t": (inorm([(97, 122), (65, 90), (48, 57)]), inorm([(97, 122), (65, 90), (48, 57), (45, 46), (95, 95)])),
    "u": (LOW, inorm([(97, 122), (65, 90), (48, 57), (45, 45), (95, 95)])),      # user names
    "p": (iminus(CHARS, inorm([(58, 58), (47, 47)])), iminus(CHARS, inorm([(58, 58)]))),                 # paths after /
    "v": (iminus(CHARS, inorm([(44, 44), (61, 61), (9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680),
                               (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f),
                               (0x3000, 0x3000)])),) * 2,
    "*": (CHARS, CHARS), "=": (iminus(CHARS, inorm([(61, 61)])),) * 2,
}
HOLE = re.compile(r"\{(\w+):(.):([\d,-]+)\}")


def lens(s):
    out = []
    for p in s.split(","):
        a, _, b = p.partition("-")
        out += range(int(a), int(b or a) + 1)
    return out


def split(tmpl):
    """[(None, literal) | (name, (class, lengths))]"""
    out, at = [], 0
    for m in HOLE.finditer(tmpl):
        if m.start() > at:
            out.append((None, tmpl[at:m.start()]))
        out.append((m[1], (m[2], lens(m[3]))))
        at = m.end()
    if at < len(tmpl):
        out.append((None, tmpl[at:]))
    return out


def instances(tmpl, full=False):
    """[(boxes, {hole: (start, end)})]: every length of each hole (all combinations when full)."""
    parts = split(tmpl)
    ls = [p[1][1] for p in parts if p[0]]
    combos = set()
    if full:
        combos = set(itertools.product(*ls))
    else:
        for k, l in enumerate(ls):
            for n in l:
                combos.add(tuple(n if i == k else x[0] for i, x in enumerate(ls)))
        combos.add(tuple(x[-1] for x in ls))
        if not ls:
            combos.add(())
    for c in sorted(combos):
        bx, pos, k = [], {}, 0
        for name, x in parts:
            if name is None:
                bx += [((ord(ch), ord(ch)),) for ch in x]
            else:
                first, rest = CLS[x[0]]
                pos[name] = (len(bx), len(bx) + c[k])
                bx += [first if i == 0 else rest for i in range(c[k])]
                k += 1
        yield tuple(bx), pos


# ---- expectations ------------------------------------------------------------------------------
class S:
    """Text made of holes and literals."""
    def __init__(self, text):
        self.text = text

    def build(self, at):
        out = []
        for i, p in enumerate(re.split(r"\{(\w+)\}", self.text)):
            out += at(p) if i % 2 else [("c", ord(c)) for c in p]
        return ("str", tuple(out))

    def __str__(self):
        return repr(self.text)


class N:
    """The number written by holes and literals (a bare name is one hole)."""
    def __init__(self, hole, radix=10, neg=False):
        self.hole, self.radix, self.neg = hole if "{" in hole else "{%s}" % hole, radix, neg

    def build(self, at):
        ds = S(self.hole).build(at)[1]
        while len(ds) > 1 and ds[0] == ("c", 48):
            ds = ds[1:]
        if all(c[0] == "c" for c in ds):
            n = int("".join(chr(c[1]) for c in ds), self.radix)
            return ("c", -n if self.neg else n)
        return ("num", self.radix, self.neg, ds)

    def __str__(self):
        return "the number %s" % self.hole


class C:
    """A constant."""
    def __init__(self, v):
        self.v = v

    def build(self, at):
        return ("c", int(self.v))

    def __str__(self):
        return repr(self.v)


class V:
    """A variant, by name (its payload is not looked at)."""
    def __init__(self, name):
        self.name = name

    def __str__(self):
        return self.name


NONE = V("None")


def variant(F, v):
    """Name of the variant of an enum value, or None."""
    if v[0] != "agg" or v[2] is None:
        return None
    if v[1] == "core::option::Option":
        return ("None", "Some")[v[2]]
    if v[1] == "core::result::Result":
        return ("Ok", "Err")[v[2]]
    a = F.adts.get(v[1])
    return a["variants"][v[2]]["name"] if a and isinstance(v[2], int) else None


TOK = re.compile(r"@(\w+)\.(\d+)|!|\.?(\w+)(\(\))?|\[(\d+)\]")


class Missing(Exception):
    pass


def step(F, v, st, tok):
    """[(value, state)] after one step of a path; None in place of a value that the step does not exist for."""
    m = TOK.match(tok)
    I = Interp(F, budget=BUDGET)
    v = models.strip(I, st, v)
    if tok == "!":
        if v[0] != "agg" or v[1] not in ("core::option::Option", "core::result::Result"):
            return [(None, st)]
        good = 1 if v[1] == "core::option::Option" else 0
        return [(v[3][0] if v[2] == good else ("wrong", variant(F, v)), st)]
    if tok.startswith("@"):
        n = variant(F, v)
        if n is None:
            return [(None, st)]
        return [(v[3][int(m[2])] if n == m[1] else ("wrong", n), st)]
    if tok.startswith("["):
        return [(v[3][int(m[5])] if v[0] in ("agg",) and len(v[3]) > int(m[5]) else
                 v[1][int(m[5])] if v[0] == "list" and len(v[1]) > int(m[5]) else None, st)]
    if m[4]:
        if v[0] != "agg":
            return [(None, st)]
        adt = v[1]
        fs = F.inherent_fn(adt, m[3]) or [
            x for x in (F.insts[i] for i in F.roots)
            if x["name"] == m[3] and x["key"] == x["root"] and x["impl"] and x["impl"]["trait"] and x["sig"]
            and len(x["sig"][0]) == 1 and F.types[x["impl"]["self"]][:2] == ["adt", adt]
            and texts.is_stringy(F, x["sig"][1])]
        if not fs:
            raise Missing("%s::%s" % (adt, m[3]))
        import c02
        J, rs = c02.call(F, fs[0], v, st)
        return [(r, s) for r, s in rs]
    if v[0] != "agg":
        return [(None, st)]
    a = F.adts.get(v[1])
    if a is None:
        return [(None, st)]
    fs = [f["name"] for f in a["variants"][v[2] or 0]["fields"]]
    if m[3] not in fs:
        raise Missing("%s.%s" % (v[1], m[3]))
    return [(v[3][fs.index(m[3])], st)]


def toks(path):
    return [m[0] for m in TOK.finditer(path)]


def follow(F, v, st, path):
    cur = [(v, st)]
    for t in toks(path):
        nxt = []
        for x, s in cur:
            if x is None or x[0] == "wrong":
                nxt.append((x, s))
            else:
                nxt += step(F, x, s, t)
        cur = nxt
    return cur


def same(F, v, st, exp, at):
    """True, False, or None when it cannot be told; and the value found."""
    if v is None:
        return None, None
    if v[0] == "wrong":
        return False, v[1]
    I = Interp(F, budget=BUDGET)
    v = models.strip(I, st, v)
    if isinstance(exp, V):
        n = variant(F, v)
        return (None if n is None else n == exp.name), n
    c = canon(I, st, v)
    want = exp.build(at)
    if want[0] == "num" and want[1] == 16:
        want = ("num", 16, want[2], tuple(forms.low(st, x) for x in want[3]))
    if c == want:
        return True, c
    if forms.concrete_value(c) and forms.concrete_value(want):
        return False, c
    return None, c


def at_path(st, pos):
    def at(h):
        a, b = pos[h]
        return [forms.norm_sym(st, ("t", ("ch", "in", i))) for i in range(a, b)]
    return at


def at_text(text, pos):
    def at(h):
        a, b = pos[h]
        return [("c", ord(c)) for c in text[a:b]]
    return at


def const_land(F, e, text, pos, path, exp):
    """The same on one text."""
    try:
        v, val, st = forms.const(F, e, text)
        if v != "ok":
            return None, None
        rs = follow(F, val, st, path)
        if len(rs) != 1 or texts.tainted(rs[0][1]):
            return None, None
        return same(F, rs[0][0], rs[0][1], exp, at_text(text, pos))
    except forms.CRASH + (forms.Inconclusive,):
        return None, None


def job(j):
    """One box of one template: every accepting path, every expectation."""
    F, e, boxes, pos, exps = j
    out = {"paths": 0, "ok": 0, "bad": [], "und": []}
    I, rs, why = forms.explore(F, e, boxes)
    if why:
        out["und"].append(why)
        return out
    seen = set()
    for v, val, st in rs:
        if v != "ok" or not forms.feasible(st):
            continue
        out["paths"] += 1
        for path, exp in exps:
            try:
                ends = follow(F, val, st, path)
            except Missing as x:
                out["bad"].append((path, "missing", str(x), None))
                continue
            except (forms.Inconclusive,) + forms.CRASH as x:
                out["und"].append("%s: %s" % (path, str(x)[:80]))
                continue
            if not ends:
                out["und"].append("%s: no result" % path)
            for r, s in ends:
                if not forms.feasible(s):
                    continue
                bx = forms.box_of(s.facts, boxes)
                if bx is None:
                    continue
                try:
                    k, got = same(F, r, s, exp, at_path(s, pos))
                except forms.CRASH as x:
                    k, got = None, str(x)
                if k:
                    out["ok"] += 1
                    continue
                if len(seen) > 40 or (path, "bad") in seen:
                    continue
                for t in forms.picks(bx):
                    kk, g = const_land(F, e, t, pos, path, exp)
                    if kk is False:
                        out["bad"].append((path, t, show(g), str(exp)))
                        seen.add((path, "bad"))
                        break
                else:
                    seen.add((path, bx))
                    out["und"].append("%s: not determined for e.g. %r" % (path, forms.picks(bx)[0]))
    return out


def show(g):
    if isinstance(g, tuple) and g and g[0] == "str":
        return repr("".join(chr(c[1]) if c[0] == "c" else "?" for c in g[1]))
    if isinstance(g, tuple) and g and g[0] == "c":
        return str(g[1])
    return str(g)[:80]
