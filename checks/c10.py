"""Abstract interpretation of the serializers (as compiled, with serde and serde_yaml's `Value` followed) on every value
the deserializers produce from trees with abstract leaves: serializing succeeds, writes only keys that were read, and
the written tree deserializes, in the same path state, to an equal value.  A key written with its default content
deserializes to the same value as leaving the key out, and is left out when serialized."""
import re
import forms, models, schema, serdes, trees, texts, c11
from absint import Inconclusive, Interp, State
from forms import CRASH, canon, concrete_value
from texts import pmap
from trees import Tree, combos, const_de, show

JOBS = []


def top_keys(F, st, v):
    """Canonical top-level keys of a serialized mapping, or None."""
    K = Interp(F, budget=forms.BUDGET)
    v = models.strip(K, st, v)
    if v[0] != "agg" or v[1] != serdes.VAL or v[2] != 5:
        return None
    m = models.strip(K, st, v[3][0])
    m = models.strip(K, st, m[3][0])
    if m[0] != "map":
        return None
    return [canon(K, st, k)[3][0] if canon(K, st, k)[0] == "agg" else None for k, _ in m[2]]


def ser(F, adt, v, st):
    s = st.fork()
    s.log = ()
    return serdes.run(F, adt, "ser", v, s)


def one_path(F, adt, v, st):
    """Is there a single way to write the value and read it back?"""
    try:
        J, rs = ser(F, adt, v, st)
        if len(rs) != 1 or J.panics:
            return False
        s = rs[0][2]
        s.log = ()
        K, back = serdes.run(F, adt, "de", rs[0][1], s)
        return len(back) == 1 and not K.panics
    except (Inconclusive,) + CRASH:
        return False


def plain(v):
    """Python content of a concrete serialized value."""
    if v[0] == "rv":
        return plain(v[1])
    if v[0] == "agg" and v[1] == serdes.VAL:
        k = v[2]
        if k == 0:
            return None
        x = v[3][0]
        while x[0] == "rv":
            x = x[1]
        if k == 1:
            return bool(x[1]) if x[0] == "c" else NotImplemented
        if k == 2:
            n = x[3][0][3][0]
            return n[1] if n[0] == "c" else NotImplemented
        if k == 3:
            return x[1] if x[0] == "s" else NotImplemented
        if k == 4:
            return [plain(e) for e in x[1]]
        if k == 5:
            return {plain(a): plain(b) for a, b in x[3][0][2]}
    return NotImplemented


def const_trip(F, adt, content, keys=True, more=()):
    """What goes wrong with one concrete content: text, '' (nothing), or None (not decided)."""
    r = const_de(F, adt, content)
    if r is None or r[0] != "ok":
        return None
    try:
        J, rs = ser(F, adt, r[1], r[2])
        if J.panics and not rs:
            return "cannot be serialized again: that panics"
        if J.panics or len(rs) != 1 or texts.tainted(rs[0][2]) or rs[0][0] == "?":
            return None
        v, out, st = rs[0]
        if v == "err":
            return "cannot be serialized again"
        if keys and isinstance(content, dict):
            ks = top_keys(F, st, out)
            if ks is not None:
                want = [("str", tuple(("c", ord(c)) for c in k)) for k in [*content, *more]]
                extra = [k for k in ks if k not in want and k is not None and concrete_value(k)]
                if extra:
                    return "is written with key %s" % "".join(chr(c[1]) for c in extra[0][1])
        K, rs2 = serdes.run(F, adt, "de", out, st)
        if K.panics or len(rs2) != 1 or texts.tainted(rs2[0][2]) or rs2[0][0] == "?":
            return None
        if rs2[0][0] == "err":
            return "is written as %s, which is rejected" % show(plain(out))
        a, b = canon(J, st, r[1]), canon(K, rs2[0][2], rs2[0][1])
        if a == b:
            return ""
        if concrete_value(a) and concrete_value(b):
            return "is written as %s, which reads as a different value" % show(plain(out))
    except (Inconclusive,) + CRASH:
        return None
    return None


def job(j):
    """Symbolic numbers first; where the text of a number is read back, numbers as digits."""
    out = job1(j, 0)
    if out["und"] and has_int(schema.T[j[1]].keys[j[2]][1] if isinstance(j[2], int) else j[2][0]):
        a = job1(j, 1)
        for n in (2, 3):
            b = job1(j, n)
            a = {k: a[k] + b[k] for k in a}
        if not a["und"]:
            return a
        out = {k: a[k] + out[k] for k in a}
    return out


def has_int(c):
    if isinstance(c, dict):
        return any(has_int(x) for kv in c.items() for x in kv)
    if isinstance(c, list):
        return any(has_int(x) for x in c)
    return isinstance(c, schema.I)


DURATION = re.compile(r"\{n:n:[\d,]+\}(s|m|h|ms|us)$")


def job1(j, digits):
    F, xi, ki, full = j
    x = schema.T[xi]
    key, content, exps = x.keys[ki] if isinstance(ki, int) else (None,) + ki
    out = {"paths": 0, "same": 0, "keys": 0, "bad": [], "und": []}
    all_ = c11.whole(x, key, content)
    keyed = isinstance(all_, dict)
    more = x.other_key.get(key, [])
    sizes_ = combos(all_, full)
    if isinstance(ki, tuple) or isinstance(content, str) and DURATION.search(content):
        sizes_ = sizes_[:1]         # more digits carry into the next unit
    for sizes in sizes_:
        tree = Tree(all_, sizes, digits=digits)
        want = None
        try:
            I, rs = trees.de(F, x.adt, tree.value, tree.state())
        except (Inconclusive,) + CRASH as e:
            out["und"].append("%s %s" % (type(e).__name__, str(e)[:80]))
            continue
        for v, val, st in rs:
            if v != "ok" or not forms.feasible(st):
                continue
            out["paths"] += 1

            def fail(s, what):
                for nums, text in tree.picks(s):
                    c = tree.concrete(nums, text)
                    r = const_trip(F, x.adt, c, keyed, more)
                    if r:
                        out["bad"].append((what, show(c), r))
                        return
                out["und"].append(what)
            try:
                J, outs = ser(F, x.adt, val, st)
                for p in J.panics:
                    if forms.feasible(State(facts=p[4])):
                        fail(State(facts=p[4]), "panic while serializing not excluded")
                for w, y, s in outs:
                    if not forms.feasible(s):
                        continue
                    if w != "ok":
                        fail(s, "serializing fails or is undetermined")
                        continue
                    if keyed:
                        K = Interp(F, budget=forms.BUDGET)
                        want = [canon(K, s, serdes.value(tree2))[3][0] for tree2 in keys_of(tree) + more]
                        ks = top_keys(F, s, y)
                        if ks is None or any(k not in want for k in ks):
                            fail(s, "written keys")
                        else:
                            out["keys"] += len(ks)
                    s.log = ()
                    K, back = serdes.run(F, x.adt, "de", y, s)
                    for p in K.panics:
                        if forms.feasible(State(facts=p[4])):
                            fail(State(facts=p[4]), "panic while reading back not excluded")
                    for v2, val2, s2 in back:
                        if not forms.feasible(s2):
                            continue
                        if v2 == "ok" and canon(J, s2, val) == canon(K, s2, val2):
                            out["same"] += 1
                        else:
                            fail(s2, "read back")
            except (Inconclusive,) + CRASH as e:
                out["und"].append("%s %s" % (type(e).__name__, str(e)[:80]))
    return out


def keys_of(tree):
    """Top-level keys of a tree as contents (in leaf positions of the same tree)."""
    t = Tree(tree.content, tree.sizes, digits=tree.digits)
    t.boxes = []
    ks = []
    for k, v in tree.content.items():
        ks.append(t.conv(k))
        t.conv(v)
    return ks


def _nth(i):
    return job(JOBS[i])


def run(ctx):
    F = ctx.F
    ctx.rule("de(ser(de(t))) == de(t), with no key in ser(de(t)) that t does not have")
    ctx.rule("de({..base, key: default}) == de(base), and serializing it leaves the key out")
    JOBS.clear()
    meta = []
    for xi, x in enumerate(schema.T):
        if not ctx.need((x.adt, "de") in F.serde and (x.adt, "ser") in F.serde, x.adt, "(de)serializing %s" % x.adt):
            continue
        ctx.ob("structures", 1, x.adt)
        loc = c11.loc(F, x.adt)
        base = const_de(F, x.adt, x.base)
        for key, c in x.defaults:
            ctx.ob("default contents", 1, "%s %s: %s" % (x.adt, key, c))
            full = c11.whole(x, key, c)
            without = {k: v for k, v in full.items() if k != key}
            a, b = const_de(F, x.adt, full), const_de(F, x.adt, without)
            if a is None or b is None or b[0] != "ok":
                ctx.unk(x.adt, "default of %s" % key)
                continue
            K = Interp(F, budget=forms.BUDGET)
            if a[0] != "ok":
                ctx.viol("%s:%s:default" % (x.adt, key), "%s as a %s is rejected" % (show(full), x.adt), loc)
                continue
            p, q = canon(K, a[2], a[1]), canon(K, b[2], b[1])
            forms_ = {type(f) for k, f, _ in x.keys if k == key}
            either = c == {} and {list, dict} <= forms_        # a list or map remembers which of them it was
            if p != q and not either:
                if concrete_value(p) and concrete_value(q):
                    ctx.viol("%s:%s:default" % (x.adt, key), "%s and %s do not read as the same %s" % (
                        show(full), show(without), x.adt), loc)
                else:
                    ctx.unk(x.adt, "default of %s" % key)
            try:
                J, rs = ser(F, x.adt, a[1], a[2])
                if len(rs) != 1 or rs[0][0] != "ok":
                    ctx.unk(x.adt, "serializing default of %s" % key)
                    continue
                ks = top_keys(F, rs[0][2], rs[0][1])
            except (Inconclusive,) + CRASH as e:
                ctx.unk(x.adt, "serializing default of %s: %s" % (key, e))
                continue
            if ks is None:
                if x.ext or not isinstance(x.base, dict):
                    ctx.unk(x.adt, "serialized keys")
            elif ("str", tuple(("c", ord(ch)) for ch in key)) in ks:
                ctx.viol("%s:%s:kept" % (x.adt, key), "%s as a %s is written with the default `%s`" % (
                    show(full), x.adt, key), loc)
        for ki in range(len(x.keys)):
            JOBS.append((F, xi, ki, ctx.thorough))
            meta.append((x, x.keys[ki][0], x.keys[ki][1]))
    c11.together(ctx, JOBS, meta, one_path)
    for (x, key, content), r in zip(meta, pmap(_nth, range(len(JOBS)))):
        ctx.ob("key forms", 1, "%s %s: %s" % (x.adt, key, c11.show_form(content)[:200]))
        ctx.ob("paths", r["paths"])
        ctx.ob("round trips shown", r["same"])
        ctx.ob("written keys checked", r["keys"])
        for what, text, why in r["bad"]:
            ctx.viol("%s:%s:%s" % (x.adt, key, what), "%s as a %s %s" % (text, x.adt, why), c11.loc(F, x.adt))
        for u in r["und"]:
            ctx.unk(x.adt, "%s: %s: %s" % (key, c11.show_form(content), u))
    ctx.assumptions.append("lib/models.py describes the standard library and IndexMap faithfully")
