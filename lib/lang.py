"""Languages of character classes: a small regular-expression compiler and inclusion tests on boxes.

A box is a tuple of interval sets, one per character position: what the analysis knows about the strings
that take one path.  `decide(box)` compares it with a language without enumerating strings.
"""
from absint import CHARS, inorm, iand, iminus, ior

ESC = {"n": ((10, 10),), "s": None, "d": ((48, 57),)}
WS = inorm([(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029),
            (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)])
ESC["s"] = WS


class Nfa:
    def __init__(self):
        self.eps, self.tr = [], []

    def state(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1


class Regex:
    """Anchored regular expression with classes, groups, |, *, +, ?, {m,n}."""

    def __init__(self, src):
        self.src, self.i = src, 0
        self.n = Nfa()
        a, b = self.alt()
        if self.i != len(src):
            raise ValueError("regex %r at %d" % (src, self.i))
        self.start, self.final = a, b
        self._cl = {}

    def peek(self):
        return self.src[self.i] if self.i < len(self.src) else None

    def alt(self):
        parts = [self.seq()]
        while self.peek() == "|":
            self.i += 1
            parts.append(self.seq())
        if len(parts) == 1:
            return parts[0]
        a, b = self.n.state(), self.n.state()
        for x, y in parts:
            self.n.eps[a].append(x)
            self.n.eps[y].append(b)
        return a, b

    def seq(self):
        a = self.n.state()
        cur = a
        while self.peek() is not None and self.peek() not in "|)":
            x, y = self.rep()
            self.n.eps[cur].append(x)
            cur = y
        return a, cur

    def rep(self):
        at = self.i
        x, y = self.atom()
        end = self.i
        while self.peek() is not None and self.peek() in "*+?{":
            c = self.peek()
            self.i += 1
            if c == "{":
                j = self.src.index("}", self.i)
                lo, _, hi = self.src[self.i:j].partition(",")
                self.i = j + 1
                lo = int(lo)
                hi = lo if "," not in self.src[at:j] or _ == "" else (int(hi) if hi else None)
            else:
                lo, hi = {"*": (0, None), "+": (1, None), "?": (0, 1)}[c]
            save = self.i
            a = self.n.state()
            cur = a
            exits = []

            def copy():
                self.i = at
                r = self.atom()
                assert self.i == end
                return r
            for _k in range(lo):
                p, q = copy()
                self.n.eps[cur].append(p)
                cur = q
            if hi is None:
                p, q = copy()
                self.n.eps[cur].append(p)
                self.n.eps[q].append(cur)
            else:
                for _k in range(hi - lo):
                    exits.append(cur)
                    p, q = copy()
                    self.n.eps[cur].append(p)
                    cur = q
            b = self.n.state()
            for e in exits + [cur]:
                self.n.eps[e].append(b)
            x, y = a, b
            self.i = save
            end = save
        return x, y

    def atom(self):
        c = self.peek()
        if c == "(":
            self.i += 1
            r = self.alt()
            assert self.peek() == ")", self.src
            self.i += 1
            return r
        s = self.cls() if c == "[" else self.single()
        a, b = self.n.state(), self.n.state()
        self.n.tr[a].append((s, b))
        return a, b

    def single(self):
        c = self.src[self.i]
        self.i += 1
        if c == ".":
            return CHARS
        if c == "\\":
            e = self.src[self.i]
            self.i += 1
            if e in ESC:
                return ESC[e]
            return ((ord(e), ord(e)),)
        return ((ord(c), ord(c)),)

    def cls(self):
        self.i += 1
        negated = self.src[self.i] == "^"
        if negated:
            self.i += 1
        out = ()
        while self.src[self.i] != "]":
            esc = self.src[self.i] == "\\"
            if esc:
                s = self.single()
            else:
                s = ((ord(self.src[self.i]),) * 2,)
                self.i += 1
            if not esc and self.src[self.i] == "-" and self.src[self.i + 1] != "]":
                s = ((s[0][0], ord(self.src[self.i + 1])),)
                self.i += 2
            out = ior(out, s)
        self.i += 1
        return iminus(CHARS, out) if negated else out

    # -- runs ------------------------------------------------------------------------------------
    def closure(self, states):
        todo, seen = list(states), set(states)
        while todo:
            s = todo.pop()
            for t in self.n.eps[s]:
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        return frozenset(seen)

    def init(self):
        return self.closure([self.start])

    def atoms(self, states):
        return [s for q in states for s, _ in self.n.tr[q]]

    def step(self, states, c):
        k = (states, c)
        r = self._cl.get(k)
        if r is None:
            r = self._cl[k] = self.closure([t for q in states for s, t in self.n.tr[q]
                                            if any(a <= c <= b for a, b in s)])
        return r

    def accepts(self, states):
        return self.final in states

    def match(self, text):
        s = self.init()
        for ch in text:
            s = self.step(s, ord(ch))
        return self.accepts(s)


class Lang:
    """Boolean combination of regular expressions."""

    def __init__(self, *rx, test=None):
        self.rx = [Regex(r) for r in rx]
        self.test = test or (lambda *m: m[0])

    def match(self, text):
        return bool(self.test(*[r.match(text) for r in self.rx]))

    def init(self):
        return tuple(r.init() for r in self.rx)

    def accepts(self, st):
        return bool(self.test(*[r.accepts(s) for r, s in zip(self.rx, st)]))

    def find(self, box, want):
        """A string of the box that is (want=True) or is not (want=False) in the language, or None."""
        cur = {self.init(): ""}
        for cls in box:
            nxt = {}
            for st, w in cur.items():
                cuts = [cls]
                for r, s in zip(self.rx, st):
                    for a in set(r.atoms(s)):
                        new = []
                        for c in cuts:
                            i, d = iand(c, a), iminus(c, a)
                            new += [x for x in (i, d) if x]
                        cuts = new
                for c in cuts:
                    ch = pick(c)
                    st2 = tuple(r.step(s, ch) for r, s in zip(self.rx, st))
                    nxt.setdefault(st2, w + chr(ch))
            cur = nxt
        for st, w in cur.items():
            if self.accepts(st) == want:
                return w
        return None


def pick(c):
    """A readable representative of a class."""
    for pref in ((97, 122), (48, 57), (65, 90), (33, 126), (32, 32)):
        i = iand(c, (pref,))
        if i:
            return i[0][0]
    return c[0][0]
