"""Abstract interpretation of the equality, ordering, hashing and borrowing functions on pairs of values read from
trees and texts with abstract leaves that differ in a single key, or in a single leaf: equality tells the values apart
both ways, a value equals itself, equal values put the same into the hasher, and the types that borrow as text or
path hash, compare and order as that text or path."""
import re
import c01, c11, c25, forms, landing, models, schema, texts, trees
from absint import CHARS, Inconclusive, Interp, State
from forms import CRASH, canon, concrete_value
from landing import CLS, HOLE, S
from lang import pick
from schema import B, I
from texts import pmap
from trees import Tree, combos, const_de, follow, show

JOBS = []
EQ, ORD, PORD, HASH, BORROW = ("core::cmp::PartialEq", "core::cmp::Ord", "core::cmp::PartialOrd", "core::hash::Hash",
                               "core::borrow::Borrow")
A = "service::"


def own(F, trait, adt, name):
    """The impl of the trait for the type itself."""
    fs = [f for f in F.trait_fn(trait, adt, name) if f["body"] is not None and
          (len(f["sig"][0]) < 2 or name == "hash" or F.adt_of(f["sig"][0][1]) == adt)]
    return fs[0] if len(fs) == 1 else None


def call(F, f, args, st):
    J = Interp(F, budget=forms.BUDGET)
    s = st.fork()
    s.log = ()
    rs = J.run(f, args, s)
    return J, [(canon(J, s2, r), s2) for r, s2 in rs if forms.feasible(s2)]


def eq(F, f, a, b, st):
    """[(True, False or None, state)]"""
    return [(bool(c[1]) if c[0] == "c" else None, s) for c, s in call(F, f, [("rv", a), ("rv", b)], st)[1]]


def hashed(F, f, v, st):
    """[(what goes into the hasher, state)]"""
    return [(tuple(x[1] for x in s.log if x[0] == "h"), s) for _, s in call(F, f, [("rv", v), ("t", ("hasher",))], st)[1]]


# ---- structures ---------------------------------------------------------------------------------


def pair(j):
    """Two contents of a structure, sharing their leaves: are their values (un)equal?"""
    _, F, adt, ca, cb, want = j
    out = {"paths": 0, "hash": 0, "bad": [], "und": []}
    f, h = own(F, EQ, adt, "eq"), own(F, HASH, adt, "hash")
    one = ca is cb
    for sizes in combos([ca] if one else [ca, cb])[:1]:
        tree = Tree([ca] if one else [ca, cb], sizes)
        va, vb = tree.value[3][0][1] * (2 if one else 1)
        try:
            for v, a, st in trees.de(F, adt, va, tree.state())[1]:
                if v != "ok" or not forms.feasible(st):
                    continue
                for w, b, st2 in trees.de(F, adt, vb, st)[1]:
                    if w != "ok" or not forms.feasible(st2):
                        continue
                    for x, y in ((a, b), (b, a)):
                        for r, s in eq(F, f, x, y, st2):
                            if r == want:
                                out["paths"] += 1
                                continue
                            for nums, text in tree.picks(s):
                                both = tree.concrete(nums, text) * (2 if one else 1)
                                k = settle2(F, adt, both, want, f)
                                if k not in (None, "fine"):
                                    out["bad"].append(k)
                                    return out
                                if k is None:
                                    out["und"].append("equality not determined")
                                    break
                            else:
                                out["und"].append("equality not determined")
                    if h is not None and want:
                        la, lb = hashed(F, h, a, st2), hashed(F, h, b, st2)
                        if len(la) == 1 == len(lb) and la[0][0] == lb[0][0] and la[0][0]:
                            out["hash"] += 1
                        else:
                            out["und"].append("hash not determined")
        except (Inconclusive,) + CRASH as e:
            out["und"].append("%s %s" % (type(e).__name__, str(e)[:80]))
    return out


def settle2(F, adt, both, want, f):
    ra, rb = const_de(F, adt, both[0]), const_de(F, adt, both[1])
    if ra is None or rb is None or ra[0] != "ok" or rb[0] != "ok":
        return None
    for (x, y), (c, d) in (((ra[1], rb[1]), both), ((rb[1], ra[1]), both[::-1])):
        try:
            rs = eq(F, f, x, y, State())
        except (Inconclusive,) + CRASH:
            return None
        if len(rs) != 1 or rs[0][0] is None:
            return None
        if rs[0][0] != want:
            return "%s and %s are %s" % (show(c), show(d), "equal" if rs[0][0] else "not equal")
    return "fine"


def leaves(c, path=()):
    """Places of the leaves in a content."""
    if isinstance(c, (I, B)):
        yield path
    elif isinstance(c, str) and HOLE.search(c):
        for m in HOLE.finditer(c):
            yield path + (m[1],)
    elif isinstance(c, list):
        for i, x in enumerate(c):
            yield from leaves(x, path + (i,))
    elif isinstance(c, dict):
        for k, v in c.items():
            yield from (("key",) + p for p in leaves(k, path) if p)
            yield from leaves(v, path + (k,))


def fill(c, at, n):
    """The content with one leaf replaced by its n-th sample."""
    if isinstance(c, (I, B)):
        if isinstance(c, B):
            return bool(n)
        return (c.lo, c.hi)[n]
    if isinstance(c, str):
        def put(m):
            if m[1] != at[0]:
                return m[0]
            first, rest = CLS[m[2]]
            k = landing.lens(m[3])[0]
            a = (chr(first[0][0]), chr(first[-1][1]))[n] if m[2] not in "pv*=" else "bc"[n]
            return a + "b" * (k - 1) if m[2] not in "dn" else a + "1" * (k - 1)
        return HOLE.sub(put, c)
    if isinstance(c, list):
        return [fill(x, at[1:], n) if i == at[0] else x for i, x in enumerate(c)]
    if isinstance(c, dict):
        if at[0] == "key":
            return {fill(k, at[-1:], n) if isinstance(k, str) and ("{%s:" % at[-1]) in k else k: v for k, v in c.items()}
        return {k: fill(v, at[1:], n) if k == at[0] else v for k, v in c.items()}
    return c


# ---- texts --------------------------------------------------------------------------------------
# What borrows as text: a template, and whether the type is ordered.
TEXTS = {
    "common::keys::Identifier": "{s:i:1-3}", "common::keys::MapKey": "x{s:l:1-2}", "common::keys::ExtensionKey": "x-{s:l:1-2}",
    A + "build::cache::CacheOption": "x{s:l:1-2}", A + "hostname::Hostname": "x{s:l:1-2}",
    A + "image::digest::Digest": "sha256:{s:x:64}", A + "image::name::Name": "x{s:l:1-2}", A + "image::tag::Tag": "x{s:l:1-2}",
    A + "image::Image": "x{s:l:1}:{t:l:1-2}", A + "ulimit::Resource": "x{s:l:1-2}", A + "user::Name": "x{s:l:1-2}",
    A + "volumes::AbsolutePath": "/x{s:l:1-2}", A + "volumes::HostPath": "./x{s:l:1-2}",
}
MORE = {A + "image::Image": ["x{s:l:1}", "x{s:l:1}@sha256:" + "ab" * 32, "x{s:l:1}.y/z{t:l:1}:1"],
        A + "image::name::Name": ["x{s:l:1}.y/z"]}
ORDERED = {"name::Name": "x{s:l:1-2}"}
SAMPLES = {A + "image::Image": ["a", "a:b", "a:c", "b", "b:a", "a.b/c", "a.b/c:d", "a@sha256:" + "ab" * 32]}


def text_pair(j):
    """Two values of a type that borrows as text, over two texts side by side in the input."""
    _, F, adt, e, t1, t2 = j
    out = {"ok": 0, "bad": [], "und": []}
    b1, p1 = next(landing.instances(t1))
    b2, p2 = list(landing.instances(t2))[-1]
    n, m = len(b1), len(b2)
    st = texts.state_for(b1 + b2)
    x, y = ("q", "in", 0, n), ("q", "in", n, n + m)
    path = any(F.tystr(f["sig"][0][1]).endswith("Path") for f in F.trait_fn(EQ, adt, "eq"))
    fe, fc, fp, fh = own(F, EQ, adt, "eq"), own(F, ORD, adt, "cmp"), own(F, PORD, adt, "partial_cmp"), own(F, HASH, adt, "hash")
    fb = F.trait_fn(BORROW, adt, "borrow")

    def parse(v, s):
        return [(forms.outcome(F, e, r)[1], s2) for r, s2 in texts.run_on(F, e, v, s, budget=forms.BUDGET)[1]
                if forms.outcome(F, e, r)[0] == "ok" and forms.feasible(s2)]

    def fail(what, s, check):
        """Settle on texts of the path."""
        bx = forms.box_of(s.facts, b1 + b2)
        for t in forms.picks(bx)[:4] if bx else ():
            k = check(t[:n], t[n:])
            if k:
                out["bad"].append((what, k))
                return
        out["und"].append("%s not determined" % what)

    def values(t, u):
        out = []
        for w in (t, u):
            v, val, s = forms.const(F, e, w)
            if v != "ok":
                return None
            out.append(val)
        return out

    def eq_const(t, u):
        vs = values(t, u)
        if vs is None:
            return None
        rs = eq(F, fe, vs[0], vs[1], State())
        if len(rs) == 1 and rs[0][0] is not None and rs[0][0] != (t == u):
            return "%r == %r is %s" % (t, u, str(rs[0][0]).lower())

    def cmp_const(t, u):
        vs = values(t, u)
        if vs is None:
            return None
        rs = call(F, fc, [("rv", vs[0]), ("rv", vs[1])], State())[1]
        want = 1 if t == u else 0 if t < u else 2
        if len(rs) == 1 and rs[0][0][0] == "agg" and rs[0][0][2] != want:
            return "%r.cmp(%r) is %s" % (t, u, ("Less", "Equal", "Greater")[rs[0][0][2]])

    try:
        pairs = [(a, b, s2) for a, s in parse(x, st) for b, s2 in parse(y, s)]
    except (Inconclusive,) + CRASH as ex:
        out["und"].append(str(ex)[:80])
        return out
    if not pairs:
        out["und"].append("template not accepted")
    for a, b, s in pairs:
        J = Interp(F)
        sx, sy = canon(J, s, x), canon(J, s, y)
        try:
            # borrowing and hashing
            for f in fb:
                for r, s2 in call(F, f, [("rv", a)], s)[1]:
                    if r == canon(J, s2, x):
                        out["ok"] += 1
                    else:
                        fail("borrow", s2, lambda t, u, f=f: borrow_const(F, e, f, t))
            if fh is not None and fb:
                for r, s2 in hashed(F, fh, a, s):
                    if r == (canon(J, s2, x),):
                        out["ok"] += 1
                    else:
                        fail("hash", s2, lambda t, u: hash_const(F, e, fh, t))
            # equality, with itself and with another text
            for r, s2 in eq(F, fe, a, a, s):
                if r is True:
                    out["ok"] += 1
                else:
                    fail("eq", s2, lambda t, u: eq_const(t, t))
            J.st = s
            told = [(models.streq(J, s.fork(), x, y)[i][0] == models.TRUE, q) for i, (_, q) in enumerate(models.streq(J, s.fork(), x, y))]
            rs = eq(F, fe, a, b, s)
            if not path and {(r, frozenset(q.facts.items())) for r, q in rs} == {(r, frozenset(q.facts.items())) for r, q in told}:
                out["ok"] += len(rs)        # just as the texts themselves compare
                rs = []
            for r, s2 in rs:
                same = canon(J, s2, x) == canon(J, s2, y)
                if r is True and same or r is False and apart(J, s2, x, y):
                    out["ok"] += 1
                else:
                    fail("eq", s2, eq_const)
            # comparisons with the text itself
            for f in F.trait_fn(EQ, adt, "eq"):
                o = F.tystr(f["sig"][0][1])
                if f["id"] == fe["id"] or o not in ("&str", "&&str", "&std::path::Path"):
                    continue
                deep = ("rv", ("rv", x)) if o == "&&str" else ("rv", x)
                for r, s2 in call(F, f, [("rv", a), deep], s)[1]:
                    if r == ("c", 1):
                        out["ok"] += 1
                    else:
                        fail("eq " + o, s2, lambda t, u, f=f, o=o: str_const(F, e, f, o, t, t))
                if n != m and not path:
                    deep = ("rv", ("rv", y)) if o == "&&str" else ("rv", y)
                    for r, s2 in call(F, f, [("rv", a), deep], s)[1]:
                        if r == ("c", 0):
                            out["ok"] += 1
                        else:
                            fail("eq " + o, s2, lambda t, u, f=f, o=o: str_const(F, e, f, o, t, u))
            # order
            if fc is not None:
                for r, s2 in call(F, fc, [("rv", a), ("rv", b)], s)[1]:
                    if r == ("t", ("pathcmp" if path else "strcmp", canon(J, s2, x), canon(J, s2, y))):
                        out["ok"] += 1
                    elif path:
                        out["und"].append("order of paths")
                    else:
                        fail("cmp", s2, cmp_const)
            if fp is not None and fc is not None:
                for r, s2 in call(F, fp, [("rv", a), ("rv", b)], s)[1]:
                    if r[0] == "agg" and r[2] == 1 and r[3][0] == ("t", ("pathcmp" if path else "strcmp", canon(J, s2, x), canon(J, s2, y))):
                        out["ok"] += 1
                    else:
                        fail("partial_cmp", s2, lambda t, u: pcmp_const(F, values(t, u), fp, t, u))
        except (Inconclusive,) + CRASH as ex:
            out["und"].append("%s %s" % (type(ex).__name__, str(ex)[:80]))
    # Texts that share a part.
    if t1 == t2:
        for t in SAMPLES.get(adt, ()):
            for u in SAMPLES[adt]:
                for what, g in (("eq", eq_const), ("cmp", cmp_const)):
                    if (what == "cmp" and fc is None) or values(t, u) is None:
                        continue
                    k = g(t, u)
                    if k:
                        out["bad"].append((what, k))
                    else:
                        out["ok"] += 1
    return out


def apart(J, st, x, y):
    """Can two texts not be the same on this path?"""
    a, b = canon(J, st, x)[1], canon(J, st, y)[1]
    if len(a) != len(b):
        return True
    for c, d in zip(a, b):
        cx, cy = models.cls(st, c), models.cls(st, d)
        if cx is not None and cy is not None and not models.iand(cx, cy):
            return True
    return False


def borrow_const(F, e, f, t):
    v, val, s = forms.const(F, e, t)
    rs = call(F, f, [("rv", val)], State())[1]
    want = ("str", tuple(("c", ord(c)) for c in t))
    if len(rs) == 1 and concrete_value(rs[0][0]) and rs[0][0] != want:
        return "%r borrows as %s" % (t, landing.show(rs[0][0]))


def hash_const(F, e, f, t):
    v, val, s = forms.const(F, e, t)
    rs = hashed(F, f, val, State())
    want = (("str", tuple(("c", ord(c)) for c in t)),)
    if len(rs) == 1 and concrete_value(rs[0][0]) and rs[0][0] != want:
        return "%r does not hash as the text it borrows as (%s)" % (t, ", ".join(map(landing.show, rs[0][0])))


def str_const(F, e, f, o, t, u):
    v, val, s = forms.const(F, e, t)
    deep = ("rv", ("s", u)) if o != "&&str" else ("rv", ("rv", ("s", u)))
    rs = call(F, f, [("rv", val), deep], State())[1]
    if len(rs) == 1 and rs[0][0][0] == "c" and bool(rs[0][0][1]) != (t == u):
        return "%r == the text %r is %s" % (t, u, bool(rs[0][0][1]))


def pcmp_const(F, vs, f, t, u):
    if vs is None:
        return None
    rs = call(F, f, [("rv", vs[0]), ("rv", vs[1])], State())[1]
    if len(rs) == 1 and concrete_value(rs[0][0]):
        r = rs[0][0]
        got = r[3][0][2] if r[2] == 1 else None
        if got != (1 if t == u else 0 if t < u else 2):
            return "%r.partial_cmp(%r) is %s" % (t, u, ("Less", "Equal", "Greater")[got] if got is not None else None)


# ---- templates with several parts ----------------------------------------------------------------
def parts(j):
    """Texts of a template that differ in one hole only."""
    _, F, adt, e, tmpl = j
    out = {"ok": 0, "bad": [], "und": []}
    f, h = own(F, EQ, adt, "eq"), own(F, HASH, adt, "hash")
    bx, pos = next(landing.instances(tmpl))
    base = "".join(chr(pick(c)) for c in bx)
    for name, (a, b) in pos.items():
        c = bx[a]
        other = next((chr(o) for o in (c[-1][1], c[0][0]) if chr(o) != base[a]), None)
        if other is None:
            continue
        if any(k == "*" for k in HOLE.findall(tmpl)):
            other = "q" if base[a] != "q" else "r"
        t, u = base, base[:a] + other + base[a + 1:]
        if ord(other) > 0x7f:
            u = t[:a] + ("q" if base[a] != "q" else "r") + t[a + 1:]
        vs = []
        for w in (t, u):
            v, val, s = forms.const(F, e, w)
            vs.append(val if v == "ok" else None)
        if None in vs:
            continue
        try:
            for x, y, want, tx, ty in ((vs[0], vs[1], False, t, u), (vs[1], vs[0], False, u, t), (vs[0], vs[0], True, t, t)):
                rs = eq(F, f, x, y, State())
                if len(rs) != 1 or rs[0][0] is None:
                    out["und"].append("%s: equality not determined" % name)
                elif rs[0][0] == want:
                    out["ok"] += 1
                else:
                    out["bad"].append((name, "%r and %r are %s" % (tx, ty, "equal" if rs[0][0] else "not equal")))
        except (Inconclusive,) + CRASH as ex:
            out["und"].append("%s %s" % (type(ex).__name__, str(ex)[:80]))
    return out


# ---- numbers -------------------------------------------------------------------------------------
Sv = A + "Service"
# structure, content, where the value is, type compared with, samples
NUMBERS = [(Sv, {"cpu_percent": I("n", 0, 100)}, "cpu_percent!", "&u8", (255,)),
           (Sv, {"oom_score_adj": I("n", 0, 1000)}, "oom_score_adj!", "&i16", (-5, 2000)),
           (Sv, {"oom_score_adj": I("n", -1000, -1)}, "oom_score_adj!", "&i16", (0, 500)),
           (Sv, {"blkio_config": {"weight": I("n", 10, 1000)}}, "blkio_config!.weight!", "&u16", (0, 65535)),
           (A + "deploy::resources::Device", {"capabilities": [], "count": I("n", 1)}, "count!@Integer.0", None, ()),
           (A + "deploy::resources::Device", {"capabilities": [], "count": I("n", 1)}, "count!", "&u64", (0,)),
           (Sv, {"expose": [I("n", 1, 65535)]}, "expose[0].range", "&u16", (0,))]


def number(j):
    _, F, adt, content, path, ty, others = j
    out = {"ok": 0, "bad": [], "und": []}
    tree = Tree(content, {})
    try:
        for v, val, st in trees.de(F, adt, tree.value, tree.state())[1]:
            if v != "ok":
                continue
            for r, s in follow(F, val, st, path):
                if r is None or r[0] != "agg":
                    continue
                for f in F.trait_fn(EQ, r[1], "eq"):
                    if F.tystr(f["sig"][0][1]) != ty:
                        continue
                    for o, want in [(("t", ("in", "n")), True)] + [(("c", n), False) for n in others]:
                        rs = call(F, f, [("rv", r), ("rv", o)], s)[1]
                        for c, s2 in rs:
                            if c == ("c", int(want)):
                                out["ok"] += 1
                            elif c[0] == "c":
                                out["bad"].append("a %s read from %s is %s to %s" % (
                                    r[1], c11.show_form(content), "equal" if c[1] else "not equal", "that number" if want else o[1]))
                            else:
                                out["und"].append("%s" % (c,))
    except (Inconclusive,) + CRASH as ex:
        out["und"].append("%s %s" % (type(ex).__name__, str(ex)[:80]))
    return out


def _nth(i):
    return {"pair": pair, "text": text_pair, "parts": parts, "number": number}[JOBS[i][0]](JOBS[i])


def run(ctx):
    F = ctx.F
    ctx.rule("a == a; a != b, both ways, for values that differ in one key or leaf; equal values hash equally")
    ctx.rule("hash, ==, cmp of a type that borrows as text (or path) are those of the text (or path)")
    JOBS.clear()
    meta = []
    for x in schema.T:
        if own(F, EQ, x.adt, "eq") is None:
            ctx.need(not ((x.adt, "de") in F.serde), x.adt, "PartialEq for %s" % x.adt)
            continue
        for k, c, _ in x.keys:
            if k is None:
                continue
            with_ = c11.whole(x, k, c)
            without = {y: v for y, v in x.base.items() if y != k}
            n = 0
            for at in list(leaves({k: c}))[:4]:
                u, v = (c11.whole(x, *next(iter(fill({k: c}, at, n).items()))) for n in (0, 1))
                if u == v:
                    continue
                JOBS.append(("pair", F, x.adt, u, v, False))
                meta.append((x.adt, k, "%s and %s" % (c11.show_form(u), c11.show_form(v))))
                n += 1
            JOBS.append(("pair", F, x.adt, with_, with_, True))
            meta.append((x.adt, k, "%s twice" % c11.show_form(with_)))
            if k in x.base or any(g in x.base for g in schema.KINDS.get(x.adt, ())) or x.adt.endswith("CredentialSpec"):
                continue
            if isinstance(c, B):
                d = next((d for y, d in x.defaults if y == k), None)
                with_ = c11.whole(x, k, not d)
            JOBS.append(("pair", F, x.adt, with_, dict(x.base), False))
            meta.append((x.adt, k, "%s and without" % c11.show_form(with_)))
    for adt, tmpl in list(TEXTS.items()) + list(ORDERED.items()):
        es = c01.primary(forms.all_entries(F, adt))
        es = [e for e in es if e["name"] in ("from_str", "new", "parse")] or es
        if not ctx.need(es, adt, "parsing %s" % adt) or not ctx.need(own(F, EQ, adt, "eq"), adt, "PartialEq for %s" % adt):
            continue
        if adt in TEXTS:
            ctx.need(F.trait_fn(BORROW, adt, "borrow"), adt + " Borrow", "Borrow for %s" % adt)
        ts = [tmpl] + MORE.get(adt, [])
        for t1 in ts:
            for t2 in ts:
                JOBS.append(("text", F, adt, es[0], t1, t2))
                meta.append((adt, "text", "%s and %s" % (t1, t2)))
    for adt, tmpl, _ in c25.T:
        es = c01.primary(forms.all_entries(F, adt))
        es = [e for e in es if e["name"] in ("from_str", "new")] or es
        if es and own(F, EQ, adt, "eq") is not None and HOLE.search(tmpl):
            JOBS.append(("parts", F, adt, es[0], tmpl))
            meta.append((adt, "part", tmpl))
    for nb in NUMBERS:
        if nb[3]:
            JOBS.append(("number", F) + nb)
            meta.append((nb[2], "number", nb[3]))
    for (adt, k, what), j, r in zip(meta, JOBS, pmap(_nth, range(len(JOBS)))):
        ctx.ob({"pair": "pairs of contents", "text": "pairs of text templates", "parts": "templates varied",
                "number": "numbers"}[j[0]], 1, "%s: %s" % (adt, what))
        for n in ("paths", "hash", "ok"):
            if r.get(n):
                ctx.ob({"paths": "equality paths", "hash": "hashes compared", "ok": "text and number paths"}[n], r[n])
        f = own(F, EQ, adt, "eq")
        for b in r["bad"][:2]:
            if isinstance(b, tuple):
                ctx.viol("%s:%s:%s" % (adt, k, b[0]), "%s: %s" % (adt, b[1]), f["loc"] if f else None)
            else:
                ctx.viol("%s:%s" % (adt, k), "%s: %s" % (adt, b), f["loc"] if f else None)
        for u in r["und"]:
            ctx.unk(adt, "%s: %s: %s" % (k, what, u))
    ctx.assumptions.append("lib/models.py describes the standard library and IndexMap faithfully")
