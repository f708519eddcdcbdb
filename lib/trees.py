"""Deserializing trees of abstract leaves: building contents from lib/schema, following expectations, confirming on
concrete trees."""
import itertools
import absint, forms, landing, models, serdes, texts
from absint import CHARS, Inconclusive, Interp, State, RES, OPT, iand, inorm
from landing import CLS, HOLE, S, N, C, V, Missing, lens
from schema import I, B, L, F64, Mul
from serdes import U, Map
from forms import CRASH, canon, concrete_value

TUP = "tuple"


def holes_in(c):
    if isinstance(c, str):
        return [(m[1], m[2], lens(m[3])) for m in HOLE.finditer(c)]
    if isinstance(c, list):
        return [h for x in c for h in holes_in(x)]
    if isinstance(c, dict):
        return [h for k, v in c.items() for h in holes_in(k) + holes_in(v)]
    return []


def combos(c, full=False):
    """Length of each hole: [{name: length}]."""
    hs = holes_in(c)
    if not hs:
        return [{}]
    out = []
    first = {n: ls[0] for n, _, ls in hs}
    last = {n: ls[-1] for n, _, ls in hs}
    out.append(first)
    if last != first:
        out.append(last)
    if full:
        for n, _, ls in hs:
            for x in ls[1:]:
                d = dict(first, **{n: x})
                if d not in out:
                    out.append(d)
    return out


class Tree:
    """An abstract content: its value, the boxes of its characters, its numbers and booleans."""
    def __init__(self, content, sizes, widen=None, digits=0):
        self.content, self.sizes, self.widen = content, sizes, widen
        self.digits, self.digs = digits, {}     # write integers as this many digits
        self.boxes, self.pos, self.ints, self.bools, self.spans = [], {}, {}, set(), []
        self.value = serdes.value(self.conv(content))

    def conv(self, c):
        if isinstance(c, I):
            n = self.digits
            if n and n <= len(str(abs(c.lo if c.hi < 0 else c.hi))):
                lo, hi = (-c.hi, -c.lo) if c.hi < 0 else (c.lo, c.hi)
                a, b = max(lo, 10 ** (n - 1) if n > 1 else 0), min(hi, 10 ** n - 1)
                size = 1
                for x, y in zip(str(a), str(b)):
                    size *= ord(y) - ord(x) + 1
                if size == b - a + 1:
                    at = len(self.boxes)
                    for i, (x, y) in enumerate(zip(str(a), str(b))):
                        self.boxes.append(((ord(x), ord(y)),))
                    self.digs[c.name] = (at, at + n, a, b)
                    ds = tuple(("t", ("ch", "in", i)) for i in range(at, at + n))
                    return U(1 if c.hi < 0 else 0, ("t", ("num", 10, c.hi < 0, ds)))
            self.ints[c.name] = (c.lo, c.hi)
            return U(1 if c.hi < 0 else 0, ("t", ("in", c.name)))
        if isinstance(c, B):
            self.bools.add(c.name)
            return ("bool", ("t", ("in", c.name)))
        if isinstance(c, str) and HOLE.search(c):
            a = len(self.boxes)
            for name, x in landing.split(c):
                if name is None:
                    self.boxes += [((ord(ch), ord(ch)),) for ch in x]
                else:
                    first, rest = CLS[x[0]]
                    at = len(self.boxes)
                    n = self.sizes[name]
                    self.boxes += [first if i == 0 else rest for i in range(n)]
                    self.pos[name] = (at, at + n)
            return ("q", "in", a, len(self.boxes))
        if isinstance(c, list):
            return [self.conv(x) for x in c]
        if isinstance(c, dict):
            return Map((self.conv(k), self.conv(v)) for k, v in c.items())
        return c

    def state(self):
        st = texts.state_for(self.boxes)
        for n, (a, b) in self.ints.items():
            st.facts[("r", ("in", n))] = ((a, b),)
        for n in self.bools:
            st.facts[("r", ("in", n))] = ((0, 1),)
        for at, end, a, b in self.digs.values():
            st.facts[("r", ("num", 10, False, tuple(("t", ("ch", "in", i)) for i in range(at, end))))] = ((a, b),)
        return st

    # -- one concrete tree on a path
    def picks(self, st):
        """Concrete choices ({int/bool name: value}, text) that satisfy the simple facts of a path."""
        bx = forms.box_of(st.facts, tuple(self.boxes)) if self.boxes else ()
        if bx is None:
            return []
        ts = forms.picks(bx)[:6] if self.boxes else [""]
        nums = []
        for pick in (0, 1, 2):
            d = {}
            for n, (a, b) in self.ints.items():
                r = iand(st.facts.get(("r", ("in", n)), ((a, b),)), ((a, b),))
                if not r:
                    return []
                lo, hi = r[0][0], r[-1][1]
                d[n] = (lo, hi, min(hi, max(lo, 4711 + len(d))))[pick]
            for n in self.bools:
                r = st.facts.get(("r", ("in", n)), ((0, 1),))
                d[n] = r[0][0] if pick == 0 else r[-1][1]
            if d not in nums:
                nums.append(d)
        return [(nums[min(i, len(nums) - 1)], t) for i, t in enumerate(ts)] + [(d, ts[0]) for d in nums]

    def concrete(self, nums, text):
        at = [0]

        def go(c):
            if isinstance(c, I):
                if c.name in self.digs:
                    a, b = self.digs[c.name][:2]
                    at[0] += b - a
                    return int(text[a:b]) * (-1 if c.hi < 0 else 1)
                return nums[c.name]
            if isinstance(c, B):
                return bool(nums[c.name])
            if isinstance(c, str) and HOLE.search(c):
                out = ""
                for name, x in landing.split(c):
                    n = len(x) if name is None else self.sizes[name]
                    out += text[at[0]:at[0] + n]
                    at[0] += n
                return out
            if isinstance(c, list):
                return [go(x) for x in c]
            if isinstance(c, dict):
                return {go(k): go(v) for k, v in c.items()}
            return c
        return go(self.content)


# ---- expectations ------------------------------------------------------------------------------
def want_of(exp, st, tree, nums=None, text=None):
    at = landing.at_path(st, tree.pos) if nums is None else landing.at_text(text, tree.pos)
    if isinstance(exp, (I, B)):
        return ("t", ("in", exp.name)) if nums is None else ("c", int(nums[exp.name]))
    if isinstance(exp, F64):
        return models.fl(exp.x)
    if isinstance(exp, Mul):
        w = N(exp.hole).build(at)
        if w[0] == "c":
            return ("c", w[1] * exp.k + exp.plus)
        return ("mul", w, exp.k, exp.plus)
    if isinstance(exp, L):
        import ipaddress
        if "/" in exp.text:
            return ("t", ("ipnet", ("s", exp.text)))
        ip = ipaddress.ip_address(exp.text)
        return ("t", ("ip", ip.compressed, ip.version))
    return exp.build(at)


def linear(I_, st, c, scale=1):
    """A sum of numbers times constants: {term: factor} (None for the constant), or None."""
    if c[0] == "c":
        return {None: c[1] * scale}
    if c[0] == "num":
        return {c: scale}
    if c[0] == "t" and c[1][0] == "op":
        op, a, b = c[1][1], c[1][2], c[1][3]
        if op in ("Add", "Sub"):
            x, y = linear(I_, st, a, scale), linear(I_, st, b, scale if op == "Add" else -scale)
            if x is None or y is None:
                return None
            for k, v in y.items():
                x[k] = x.get(k, 0) + v
            return {k: v for k, v in x.items() if v or k is None}
        if op == "Mul":
            if b[0] == "c":
                return linear(I_, st, a, scale * b[1])
            if a[0] == "c":
                return linear(I_, st, b, scale * a[1])
    if c[0] == "t":
        return {c: scale}
    return None


def same(F, v, st, exp, tree, nums=None, text=None):
    if v is None:
        return None, None
    if v[0] == "wrong":
        return False, v[1]
    J = Interp(F, budget=forms.BUDGET)
    v = models.strip(J, st, v)
    if isinstance(exp, V):
        n = landing.variant(F, v)
        return (None if n is None else n == exp.name), n
    c = canon(J, st, v)
    want = want_of(exp, st, tree, nums, text)
    if want[0] == "t" and want[1][0] == "in":
        want = canon(J, st, want)
    if want[0] == "mul":
        got = linear(J, st, c)
        if got is not None:
            return (True if got == {want[1]: want[2], None: want[3]} or (
                want[3] == 0 and got == {want[1]: want[2]}) else None), c
        return None, c
    if c == want:
        return True, c
    if concrete_value(c) and concrete_value(want):
        return False, c
    return None, c


def step(F, v, st, tok):
    I_ = Interp(F, budget=forms.BUDGET)
    w = models.strip(I_, st, v)
    if tok == "#":
        if w[0] == "map":
            return [(("c", len(w[2])), st)]
        if w[0] == "list":
            return [(("c", len(w[1])), st)]
        return [(None, st)]
    if tok.startswith("[") and w[0] == "map":
        i = int(tok[1:-1])
        if i >= len(w[2]):
            return [(("wrong", "%d entries" % len(w[2])), st)]
        k, x = w[2][i][0], w[2][i][1]
        if w[1] in ("i", "m", "h", "b") and not (x is None or (x[0] == "agg" and x[1] == "tuple" and not x[3])):
            return [(("agg", "tuple", 0, (k, x)), st)]
        return [(k, st)]
    if tok.startswith("[") and w[0] == "list" and int(tok[1:-1]) >= len(w[1]):
        return [(("wrong", "%d elements" % len(w[1])), st)]
    if w[0] == "agg" and w[1] == "tuple" and tok.lstrip(".").isdigit():
        return [(w[3][int(tok.lstrip("."))], st)]
    if tok == ".as_path()" and models.is_str(w):
        return [(w, st)]
    if w[0] == "agg" and w[1] == "core::time::Duration" and tok in (".as_secs()", ".subsec_nanos()"):
        return [(w[3][0 if tok == ".as_secs()" else 1], st)]
    if w[0] == "agg" and w[1] == "core::time::Duration" and tok == ".as_micros()":
        op = lambda o, a, k: ("c", {"Mul": a[1] * k, "Div": a[1] // k}[o]) if a[0] == "c" else \
            a[1][2] if o == "Div" and a[0] == "t" and a[1][:2] == ("op", "Mul") and a[1][3] == ("c", k) else ("t", ("op", o, a, ("c", k)))
        a, b = op("Mul", w[3][0], 10 ** 6), op("Div", w[3][1], 1000)
        return [(("c", a[1] + b[1]) if a[0] == b[0] == "c" else absint.whole("Add", a, b) or ("t", ("op", "Add", a, b)), st)]
    if w[0] == "agg" and w[1] == serdes.VAL and tok == "@String.0":
        return [(w[3][0] if w[2] == 3 else ("wrong", "Value.%d" % w[2]), st)]
    return landing.step(F, v, st, tok)


import re
TOK = re.compile(r"#|" + landing.TOK.pattern)


def follow(F, v, st, path):
    cur = [(v, st)]
    for m in TOK.finditer(path):
        t = m[0]
        nxt = []
        for x, s in cur:
            if x is None or x[0] == "wrong":
                nxt.append((x, s))
            else:
                nxt += step(F, x, s, t)
        cur = nxt
    return cur


def roots(path):
    m = re.match(r"[.]?(\w+)", path)
    return m[1] if m else None


def de(F, adt, v, st=None):
    """(interp, [(verdict, value, state)])"""
    return serdes.run(F, adt, "de", v, st)


def const_de(F, adt, content):
    """The single outcome on a concrete content: (verdict, value, state) or None."""
    try:
        J, rs = serdes.run(F, adt, "de", serdes.value(content))
    except (Inconclusive,) + CRASH:
        return None
    if J.panics and not rs:
        return ("panic", None, None)
    if J.panics or len(rs) != 1 or texts.tainted(rs[0][2]) or rs[0][0] == "?":
        return None
    return rs[0]


def show(c):
    return repr(c) if len(repr(c)) < 300 else repr(c)[:300] + "…"
