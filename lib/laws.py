"""Equational laws: two expressions over abstract contents and texts, evaluated by abstract interpretation one after the
other in the same path state, must give the same abstract value on every path."""
import c11, forms, landing, models, serdes, texts, trees
from absint import Inconclusive, Interp, State, OPT, RES
from forms import CRASH, canon, concrete_value
from landing import CLS, HOLE
from schema import B, I
from texts import pmap
from trees import Tree, combos, show


class E:
    pass


class De(E):
    """A value of a type, read from a content (how: "deref" for a borrowed one, "destr" for a text that is not kept)."""
    def __init__(self, adt, content, how="de"):
        self.adt, self.content, self.how = adt, content, how

    def __repr__(self):
        return "%s from %s%s" % (self.adt.rsplit("::", 1)[-1], {"de": "", "deref": "borrowed ", "destr": "passing "}[self.how],
                                 c11.show_form(self.content))


class Reads(De):
    """Whether a content is accepted."""
    def __repr__(self):
        return "%s accepted" % super().__repr__()


class Outcome(De):
    """What reading a content gives: Ok with the value, or Err."""
    def __repr__(self):
        return "outcome of %s" % super().__repr__()


class Txt(E):
    """A text: literals and holes (also numbers and booleans, by their schema classes)."""
    def __init__(self, content):
        self.content = content

    def __repr__(self):
        return c11.show_form(self.content)


class Lin(E):
    """A sum of numbers, each written by holes and literals, times constants, plus a constant."""
    def __init__(self, parts, plus=0):
        self.parts, self.plus, self.args = parts, plus, tuple(Txt(c) for c, _ in parts)

    def __repr__(self):
        return " + ".join(["%s * %d" % (c11.show_form(c), k) for c, k in self.parts] + ([str(self.plus)] if self.plus or not self.parts else []))


class At(E):
    """A place of a value, as in the other tables: fields, @Variant.0, !, [0], method()."""
    def __init__(self, e, path):
        self.e, self.path = e, path

    def __repr__(self):
        return "(%r).%s" % (self.e, self.path)


class Call(E):
    """A function on values.  sel: 'path' of a free function, or (type prefix, method[, type prefix of the first argument])."""
    def __init__(self, sel, *args):
        self.sel, self.args = sel, args

    def __repr__(self):
        if isinstance(self.sel, int):
            return "a conversion of %s" % ", ".join(map(repr, self.args))
        n = self.sel if isinstance(self.sel, str) else "::".join(x.split("<")[0].rsplit("::", 1)[-1] for x in self.sel[:2])
        return "%s(%s)" % (n.rsplit("::", 2)[-1] if isinstance(self.sel, str) else n, ", ".join(map(repr, self.args)))


class Mut(Call):
    """The first argument after a call that changes it."""


class Items(E):
    """Everything an iterator yields."""
    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "all of %r" % self.e


class Make(E):
    """Ok(..), Err(..), Some(..), None, a list or a tuple."""
    def __init__(self, kind, *args):
        self.kind, self.args = kind, args

    def __repr__(self):
        return "%s(%s)" % (self.kind, ", ".join(map(repr, self.args))) if self.args else self.kind


class Succeeds(E):
    """Whether a Result is Ok."""
    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "%r.is_ok()" % self.e


class As(E):
    """The variant's or structure's fields, built directly: As('path::Enum', variant index, parts...)."""
    def __init__(self, adt, var, *args):
        self.adt, self.var, self.args = adt, var, args

    def __repr__(self):
        return "%s.%s(%s)" % (self.adt.rsplit("::", 1)[-1], self.var, ", ".join(map(repr, self.args)))


class Word(E):
    """What reading a text gives when it is one of some words (Err for any other text)."""
    def __init__(self, content, words):
        self.content, self.words = content, words

    def __repr__(self):
        return "the value of one of %s" % ", ".join(sorted(self.words))


class Disp(E):
    """The displayed text."""
    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "Display of %r" % self.e


class Ser(E):
    """The content a value of a type is written as."""
    def __init__(self, adt, e):
        self.adt, self.e = adt, e

    def __repr__(self):
        return "serialized %r" % self.e


class Yaml(E):
    """A YAML text of a content (None: a malformed one)."""
    def __init__(self, content):
        self.content = content

    def __repr__(self):
        return "YAML of %s" % c11.show_form(self.content) if self.content is not None else "malformed YAML"


class Nth(E):
    """The i-th entry of a serialized list or mapping (None: how many)."""
    def __init__(self, e, i):
        self.e, self.i = e, i

    def __repr__(self):
        return "entry %s of %r" % (self.i, self.e)


class Sub(E):
    """The i-th entry of what a key of a serialized mapping holds ("x-": of its extensions)."""
    def __init__(self, e, key, i):
        self.e, self.key, self.i = e, key, i

    def __repr__(self):
        return "entry %s of `%s` of %r" % (self.i, self.key, self.e)


class Con(E):
    """A content."""
    def __init__(self, content):
        self.content = content

    def __repr__(self):
        return c11.show_form(self.content)


def contents(e):
    out = [e.content] if hasattr(e, "content") else []
    for a in ([e.e] if hasattr(e, "e") else []) + list(getattr(e, "args", ())):
        out += contents(a)
    return out


class Shared(Tree):
    """Contents whose leaves of the same name are the same."""
    def __init__(self, cs, sizes):
        self.memo = {}
        super().__init__(list(cs), sizes)

    def conv(self, c):
        if not (isinstance(c, str) and HOLE.search(c)):
            return super().conv(c)
        parts = []
        for name, x in landing.split(c):
            if name is None:
                parts.append(("s", x))
                continue
            if name not in self.pos:
                first, rest = CLS[x[0]]
                at = len(self.boxes)
                n = self.sizes[name]
                self.boxes += [first if i == 0 else rest for i in range(n)]
                self.pos[name] = (at, at + n)
            parts.append(("q", "in") + self.pos[name])
        return models.cat(*parts) if len(parts) > 1 else parts[0]

    def fixed(self, c, nums, text):
        if isinstance(c, I):
            return nums[c.name]
        if isinstance(c, B):
            return bool(nums[c.name])
        if isinstance(c, str):
            return HOLE.sub(lambda m: text[slice(*self.pos[m[1]])], c)
        if isinstance(c, list):
            return [self.fixed(x, nums, text) for x in c]
        if isinstance(c, dict):
            return {self.fixed(k, nums, text): self.fixed(v, nums, text) for k, v in c.items()}
        return c


class Missing(Exception):
    pass


def find(F, sel):
    """(instance index or dict, [input and output types])"""
    if isinstance(sel, int):
        x = F.insts[sel]
        return sel, list(x["sig"][0]) + [x["sig"][1]]
    if isinstance(sel, str):
        for i in F.roots:
            x = F.insts[i]
            if x["path"] == sel and x["key"] == x["root"] and x["sig"]:
                return i, list(x["sig"][0]) + [x["sig"][1]]
        raise Missing(sel)
    ty, name = sel[0], sel[1]
    src = sel[2] if len(sel) > 2 else None
    arg2 = sel[3] if len(sel) > 3 else None
    for i in F.roots:
        x = F.insts[i]
        if x["name"] == name and x["impl"] and x["key"] == x["root"] and x["sig"] and (x["mono"] or name in ("parse", "new", "from_yaml_reader", "push")):
            ins, ret = x["sig"]
            if arg2 and (len(ins) < 2 or not F.tystr(ins[1]).startswith(arg2)):
                continue
            if F.tystr(x["impl"]["self"]).startswith(ty) and (src is None or ins and F.tystr(ins[0]).startswith(src)):
                if F.tystr(x["impl"]["self"]) == ty or ty.endswith("<") or "<" in ty:
                    return i, list(ins) + [ret]
    for adt, t, tr, n, i, io in F.monos:
        if n == name and F.tystr(t).startswith(ty) and (src is None or F.tystr(io[0]).startswith(src)):
            return i, io
    for i in F.roots:           # a function of a generic type, run on values as they are
        x = F.insts[i]
        if x["name"] == name and x["impl"] and x["key"] == x["root"] and x["sig"]:
            ins, ret = x["sig"]
            if F.tystr(x["impl"]["self"]).startswith(ty) and (src is None or ins and F.tystr(ins[0]).startswith(src)):
                return i, list(ins) + [ret]
    raise Missing("%s::%s%s" % (ty, name, "(%s)" % src if src else ""))


class Ev:
    def __init__(self, F, tree, at=None):
        self.F, self.tree, self.at = F, tree, at
        self.panics = []

    def interp(self):
        return Interp(self.F, budget=forms.BUDGET)

    def done(self, J):
        self.panics += J.panics

    def content(self, c):
        return self.tree.conv(c) if self.at is None else self.tree.fixed(c, *self.at)

    def raw(self, c):
        c = self.content(c)
        if isinstance(c, serdes.U):
            return c.term
        if isinstance(c, bool):
            return ("c", int(c))
        if isinstance(c, int):
            return ("c", c)
        if isinstance(c, float):
            return models.fl(c)
        if isinstance(c, str):
            return ("s", c)
        if isinstance(c, tuple) and c and c[0] == "bool":
            return c[1]
        return c

    def many(self, es, st):
        """[([values], state)]"""
        cur = [([], st)]
        for e in es:
            cur = [(vs + [v], s2) for vs, s in cur for v, s2 in self.ev(e, s)]
        return cur

    def ev(self, e, st):
        F = self.F
        if isinstance(e, De):
            s = st.fork()
            s.log = ()
            J, rs = serdes.run(F, e.adt, e.how, self.raw(e.content) if e.how == "destr" else serdes.value(self.content(e.content)), s)
            self.done(J)
            if any(v == "?" for v, _, _ in rs):
                raise Inconclusive("verdict")
            if isinstance(e, Outcome):
                return [(("agg", RES, int(k != "ok"), (v if k == "ok" else ("c", 0),)), s)
                        for k, v, s in rs if k in ("ok", "err") and forms.feasible(s)]
            if isinstance(e, Reads):
                return [(("c", int(k == "ok")), s) for k, v, s in rs if k in ("ok", "err") and forms.feasible(s)]
            return [(v, s) for k, v, s in rs if k == "ok" and forms.feasible(s)]
        if isinstance(e, Lin):
            st = st.fork()
            out = ("c", e.plus) if e.plus or not e.parts else None
            for c, k in e.parts:
                ds = models.syms(self.raw(c))
                if ds is None:
                    raise Inconclusive("digits")
                if all(d[0] == "c" for d in ds):
                    n = ("c", int("".join(chr(d[1]) for d in ds)))
                else:
                    n = ("t", ("num", 10, False, tuple(ds)))
                    if ("r", n[1]) not in st.facts:
                        lo = hi = 0
                        for d in ds:
                            r = self.interp().rng(st, d)
                            lo, hi = lo * 10 + r[0][0] - 48, hi * 10 + r[-1][1] - 48
                        st.facts["r", n[1]] = ((lo, hi),)
                n = ("c", n[1] * k) if n[0] == "c" else n if k == 1 else ("t", ("op", "Mul", n, ("c", k)))
                out = n if out is None else ("c", out[1] + n[1]) if out[0] == n[0] == "c" else ("t", ("op", "Add", n, out))
            return [(out, st)]
        if isinstance(e, Con):
            return [(serdes.value(self.content(e.content)), st)]
        if isinstance(e, Yaml):
            return [(("t", ("yaml", None if e.content is None else serdes.value(self.content(e.content)))), st)]
        if isinstance(e, Txt):
            return [(self.raw(e.content), st)]
        if isinstance(e, At):
            out = []
            for v, s in self.ev(e.e, st):
                out += trees.follow(F, v, s, e.path)
            if any(v is None or v[0] == "wrong" for v, _ in out):
                bad = next(v for v, _ in out if v is None or v[0] == "wrong")
                if bad is None:
                    raise Inconclusive("place " + e.path)
            return [(("agg", "no such place", 0, (("s", str(v[1])),)) if v[0] == "wrong" else v, s) for v, s in out]
        if isinstance(e, Make):
            out = []
            for vs, s in self.many(e.args, st):
                out.append(({"Ok": lambda: ("agg", RES, 0, tuple(vs)), "Err": lambda: ("agg", RES, 1, tuple(vs)),
                             "Some": lambda: ("agg", OPT, 1, tuple(vs)), "None": lambda: ("agg", OPT, 0, ()),
                             "true": lambda: ("c", 1), "false": lambda: ("c", 0),
                             "list": lambda: ("list", tuple(vs)), "tuple": lambda: ("agg", "tuple", 0, tuple(vs)),
                             "set": lambda: ("map", "is", tuple((v, ("agg", "tuple", 0, ())) for v in vs)),
                             }[e.kind](), s))
            return out
        if isinstance(e, Succeeds):
            out = []
            for v, s in self.ev(e.e, st):
                v = models.strip(self.interp(), s, v)
                if v[0] != "agg" or v[1] not in (RES, OPT):
                    raise Inconclusive("verdict")
                out.append((("c", int(v[2] == (0 if v[1] == RES else 1))), s))
            return out
        if isinstance(e, As):
            return [(("agg", e.adt, e.var, tuple(vs)), s) for vs, s in self.many(e.args, st)]
        if isinstance(e, Word):
            I_, raw = self.interp(), self.raw(e.content)
            cs = [("c", ord(c)) for c in raw[1]] if raw[0] == "s" and isinstance(raw[1], str) else models.syms(raw)
            if cs is None:
                raise Inconclusive("characters")
            rs = [I_.rng(st, c) if c[0] != "c" else ((c[1], c[1]),) for c in cs]
            if all(len(r) == 1 and r[0][0] == r[0][1] for r in rs):
                w = e.words.get("".join(chr(r[0][0]) for r in rs))
                if w is not None:
                    return [(("agg", RES, 0, (v,)), s) for v, s in self.ev(w, st)]
            return [(("agg", RES, 1, (("c", 0),)), st)]
        if isinstance(e, Disp):
            out = []
            for v, s in self.ev(e.e, st):
                v = models.strip(self.interp(), s, v)
                d = forms.display(F, v[1], v, s) if v[0] == "agg" else None
                if d is None or any(t is None for t, _ in d[0]):
                    raise Inconclusive("display")
                self.done(d[1])
                out += d[0]
            return out
        if isinstance(e, Ser):
            out = []
            for v, s in self.ev(e.e, st):
                s = s.fork()
                s.log = ()
                J, rs = serdes.run(F, e.adt, "ser", v, s)
                self.done(J)
                for k, w, s2 in rs:
                    if k == "?":
                        raise Inconclusive("serializing")
                    out.append((w if k == "ok" else ("agg", "error", 0, ()), s2))
            return out
        if isinstance(e, (Nth, Sub)):
            return [(self.entry(e, v, s), s) for v, s in self.ev(e.e, st)]
        if isinstance(e, Items):
            out = []
            if not isinstance(e.e, Call):
                raise Inconclusive("iterator")
            i, io = find(F, e.e.sel)
            nexti = F.iters.get(F.insts[i]["key"])
            for v, s in self.ev(e.e, st):
                J = self.interp()
                n = nexti
                v = models.strip(J, s, v)
                if v[0] == "map" or v[0] == "list":
                    out.append((("list", tuple(x if v[0] == "list" else x[0] if models.strip(J, s, x[1])[0] == "agg" and not
                                               models.strip(J, s, x[1])[3] else ("agg", "tuple", 0, x) for x in v[2 if v[0] == "map" else 1])), s))
                    continue
                if n is None and v[0] == "agg":
                    fs = F.trait_fn("core::iter::traits::iterator::Iterator", v[1], "next")
                    n = fs[0]["id"] if len(fs) == 1 else None
                if v[0] == "it" and v[1] == "seq":
                    out.append((("list", tuple(v[2])), s))
                    continue
                if n is None:
                    raise Inconclusive("iterator of %s" % (e.e,))
                out += self.drain(F.insts[n], v, s)
            return out
        if isinstance(e, Call):
            i, io = find(F, e.sel)
            inst = F.insts[i]
            if inst["body"] is None:
                raise Inconclusive("no body: %s" % (e.sel,))
            out = []
            for vs, s in self.many(e.args, st):
                J = self.interp()
                s = s.fork()
                s.log = ()
                args = []
                for k, (v, t) in enumerate(zip(vs, io)):
                    ty = F.types[t]
                    if ty[0] == "ref" and ty[2]:
                        s.mem[k] = {0: v}
                        args.append(("rm", (k, 0), ()))
                    elif ty[0] == "ref":
                        args.append(("rv", v))
                    else:
                        args.append(v)
                for r, s2 in J.run(inst, args, s):
                    if not forms.feasible(s2):
                        continue
                    if isinstance(e, Mut):
                        if 0 not in s2.mem or 0 not in s2.mem[0]:
                            raise Inconclusive("changed value")
                        r = s2.mem[0][0]
                    out.append((r, s2))
                self.done(J)
            return out
        raise TypeError(e)

    def entries(self, v, s):
        """The entries of a serialized list or mapping."""
        K = self.interp()
        v = models.strip(K, s, v)
        if v[0] == "agg" and v[1] == serdes.VAL and v[2] == 6:      # tagged
            raise Inconclusive("tagged value")
        if v[0] != "agg" or v[1] != serdes.VAL or v[2] not in (4, 5):
            return None
        x = models.strip(K, s, v[3][0])
        if v[2] == 4:
            if x[0] != "list":
                raise Inconclusive("written list")
            return list(x[1])
        m = models.strip(K, s, x[3][0])
        if m[0] != "map":
            raise Inconclusive("written mapping")
        return [("agg", "tuple", 0, (a, b)) for a, b in m[2]]

    def key_text(self, s, kv):
        k = canon(self.interp(), s, kv[3][0])
        t = k[3][0] if k[0] == "agg" and k[3] else k
        if t[0] != "str":
            raise Inconclusive("written key")
        return t[1]

    def entry(self, e, v, s):
        es = self.entries(v, s)
        if es is not None and isinstance(e, Sub):
            lit = lambda t: tuple(("c", ord(ch)) for ch in t)
            if e.key == "x-":
                es = [kv for kv in es if self.key_text(s, kv)[:2] == lit("x-")]
            else:
                at = [kv for kv in es if self.key_text(s, kv) == lit(e.key)]
                es = self.entries(at[0][3][1], s) if at else None
                if at and es is None and e.i == 0:
                    return at[0][3][1]          # a single item written without its list
        if es is None:
            return ("agg", "nothing there", 0, ())
        if e.i is None:
            return ("c", len(es))
        return es[e.i] if e.i < len(es) else ("agg", "nothing there", 0, ())

    def drain(self, nexti, v, st):
        work, out = [((), v, st)], []
        n = 0
        while work:
            acc, cur, s = work.pop()
            n += 1
            if n > 400 or len(acc) > 60:
                raise Inconclusive("drain")
            J = self.interp()
            s = s.fork()
            s.mem[0] = {0: cur}
            for r, s2 in J.run(nexti, [("rm", (0, 0), ())], s):
                if not forms.feasible(s2):
                    continue
                if r[0] != "agg" or r[1] != OPT:
                    raise Inconclusive("next")
                if r[2] == 0:
                    out.append((("list", acc), s2))
                else:
                    work.append((acc + (r[3][0],), s2.mem[0][0], s2))
            self.done(J)
        return out


def value(F, st, v):
    I_ = Interp(F, budget=forms.BUDGET)
    return sums(I_, st, canon(I_, st, v))


def sums(I_, st, c):
    """Sums of numbers times constants, in one order."""
    if not isinstance(c, tuple) or not c:
        return c
    if c[0] == "t" and isinstance(c[1], tuple) and c[1][0] == "op":
        d = trees.linear(I_, st, c)
        if d is not None:
            return ("sum", tuple(sorted(((k, v) for k, v in d.items() if v), key=repr)))
        return c
    return tuple(sums(I_, st, x) if isinstance(x, tuple) else x for x in c)


def const(F, tree, nums, text, a, b, rejected=False):
    """(True, False or None, value of a, value of b) for one choice of the leaves."""
    try:
        ev = Ev(F, tree, (nums, text))
        rs = ev.ev(a, State())
        if not rs and ev.panics:
            return False, "a panic", None
        if not rs and rejected:
            ws = ev.ev(b, State())
            return (False, "rejected", value(F, ws[0][1], ws[0][0])) if len(ws) == 1 else (None, None, None)
        if len(rs) != 1 or ev.panics or texts.tainted(rs[0][1]):
            return None, None, None
        ws = ev.ev(b, rs[0][1])
        if len(ws) != 1 or ev.panics or texts.tainted(ws[0][1]):
            return None, None, None
        x, y = value(F, ws[0][1], rs[0][0]), value(F, ws[0][1], ws[0][0])
        if x == y:
            return True, x, y
        if concrete_value(x) and concrete_value(y):
            return False, x, y
    except (Inconclusive,) + CRASH:
        pass
    return None, None, None


def brief(v):
    """Readable rendering of a canonical value."""
    if isinstance(v, str) or v is None:
        return str(v)
    if v[0] == "c":
        return str(v[1])
    if v[0] == "str":
        return repr("".join(chr(c[1]) if c[0] == "c" else "?" for c in v[1]))
    if v[0] == "agg":
        n = {(OPT, 0): "None", (OPT, 1): "Some", (RES, 0): "Ok", (RES, 1): "Err"}.get(
            (v[1], v[2]), v[1].rsplit("::", 1)[-1] + ("" if not v[2] else ".%s" % v[2]))
        return n + ("(%s)" % ", ".join(brief(x) for x in v[3]) if v[3] else "")
    if v[0] == "list":
        return "[%s]" % ", ".join(brief(x) for x in v[1])
    if v[0] == "map":
        return "{%s}" % ", ".join(brief(e[0]) + (": " + brief(e[1]) if len(e) > 1 and e[1] else "") for e in v[2])
    return str(v)[:60]


JOBS = []


def job(j):
    F, law, full = j
    name, a, b = law
    out = {"paths": 0, "bad": None, "und": [], "missing": None}
    cs = contents(a) + contents(b)
    for sizes in combos(cs, full):
        tree = Shared(cs, sizes)
        ev = Ev(F, tree)
        st0 = tree.state()
        bad = []
        try:
            ends = ev.ev(a, st0)
            both = [(x, w, s) for x, s in ends for w, s in ev.ev(b, s)]
            for p in ev.panics:
                s = State(facts=p[4])
                if forms.feasible(s):
                    bad.append((s, "panic"))
        except Missing as e:
            out["missing"] = str(e)
            return out
        except landing.Missing as e:
            out["missing"] = str(e)
            return out
        except (Inconclusive,) + CRASH as e:
            out["und"].append("%s %s" % (type(e).__name__, str(e)[:100]))
            # A mismatch may still show for single texts.
            both, bad = [], [(st0, "not determined")]
        for x, w, s in both:
            if not forms.feasible(s):
                continue
            if value(F, s, x) == value(F, s, w):
                out["paths"] += 1
            else:
                bad.append((s, "values"))
        if not both and not bad:
            bad.append((st0, "no accepting path"))
        for s, what in bad:
            for nums, text in tree.picks(s) or [({}, "")]:
                k, x, y = const(F, tree, nums, text, a, b, what == "no accepting path")
                if k is False:
                    out["bad"] = ([show(tree.fixed(c, nums, text)) for c in contents(a)], brief(x), brief(y))
                    return out
            if what != "not determined":
                out["und"].append(what)
    return out


def _nth(i):
    return job(JOBS[i])


def run(ctx, laws):
    """laws: [(key, E, E)]"""
    F = ctx.F
    JOBS.clear()
    for law in laws:
        JOBS.append((F, law, ctx.thorough))
    for (name, a, b), r in zip(laws, pmap(_nth, range(len(JOBS)))):
        if r["missing"]:
            ctx.need(False, r["missing"], r["missing"])
            continue
        ctx.ob("laws", 1, "%r == %r" % (a, b))
        ctx.ob("paths", r["paths"])
        if r["bad"]:
            cs, x, y = r["bad"]
            ctx.viol(name, "%r with %s is %s, expected %s" % (a, ", ".join(cs), x[:300], y[:300]), None)
        for u in r["und"]:
            ctx.unk(name, "%r == %r: %s" % (a, b, u))
    ctx.assumptions.append("lib/models.py describes the standard library and IndexMap faithfully")
