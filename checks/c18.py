"""Abstract interpretation of the deserializers (as compiled, with serde and serde_yaml's `Value` followed) on contents
that the documentation rules out, with abstract leaves: every path ends in an error, none in a value."""
import forms, models, schema, serdes, trees, texts, c11
from absint import Inconclusive
from forms import CRASH
from texts import pmap
from trees import Tree, combos, const_de, show

JOBS = []
KINDS = {"a boolean": schema.B("b"), "a number": schema.I("n"), "a negative number": schema.I("n", -2 ** 63, -1), "a text": "q{s:l:1,2}",
         "a list": ["q{s:l:1}"], "a map": {"q{s:l:1}": "r"}}


def kind(c):
    if isinstance(c, (bool, schema.B)):
        return "a boolean"
    if isinstance(c, schema.I):
        return "a negative number" if c.hi < 0 else "a number"
    if isinstance(c, int):
        return "a negative number" if c < 0 else "a number"
    if isinstance(c, str):
        return "a text"
    if isinstance(c, list):
        return "a list"
    return "a map" if isinstance(c, dict) else None


def wrong_kinds(x):
    """(key, kind) pairs that no documented form of the key has."""
    ks = {}
    for k, c, e in x.keys:
        if k is None or k.startswith("x-"):
            continue
        ks.setdefault(k, set()).add(kind(c))
        if any(".as_secs()" in p for p, _ in e) or k == "cpus":
            ks[k] |= {"a number", "a negative number"} if k == "cpus" else {"a number"}
    for k, c in x.defaults:
        ks.setdefault(k, set()).add(kind(c))
    return [(k, n) for k in ks for n in KINDS if n not in ks[k]]


def job(j):
    F, adt, content, full = j
    out = {"paths": 0, "bad": [], "und": []}
    for sizes in combos(content, full):
        tree = Tree(content, sizes)
        try:
            I, rs = trees.de(F, adt, tree.value, tree.state())
        except (Inconclusive,) + CRASH as e:
            out["und"].append("%s %s" % (type(e).__name__, str(e)[:80]))
            continue
        for v, val, st in rs:
            if not forms.feasible(st):
                continue
            if v == "err":
                out["paths"] += 1
                continue
            for nums, text in tree.picks(st):
                c = tree.concrete(nums, text)
                r = const_de(F, adt, c)
                if r is not None and r[0] == "ok":
                    out["bad"].append(show(c))
                    break
            else:
                out["und"].append("not shown to be rejected")
    return out


def _nth(i):
    return job(JOBS[i])


def run(ctx):
    F = ctx.F
    ctx.rule("de(content) == Err for every content the documentation rules out")
    JOBS.clear()
    meta = []
    for x in schema.T:
        if not ctx.need((x.adt, "de") in F.serde, x.adt, "deserializing %s" % x.adt):
            continue
        ctx.ob("structures", 1, x.adt)
        for content, why in x.reject:
            JOBS.append((F, x.adt, content, ctx.thorough))
            meta.append((x, "contents", why))
        for k, n in wrong_kinds(x):
            JOBS.append((F, x.adt, c11.whole(x, k, KINDS[n]), ctx.thorough))
            meta.append((x, "kinds", "%s for `%s`" % (n, k)))
    for (x, what, why), j, r in zip(meta, JOBS, pmap(_nth, range(len(JOBS)))):
        ctx.ob("rejected " + what, 1, "%s: %s" % (x.adt, why))
        ctx.ob("rejecting paths", r["paths"])
        for text in r["bad"][:1]:
            ctx.viol("%s:%s" % (x.adt, why), "%s as a %s is accepted (%s)" % (text, x.adt, why), c11.loc(F, x.adt))
        for u in r["und"]:
            ctx.unk(x.adt, "%s: %s" % (why, u))
    ctx.assumptions.append("lib/models.py describes the standard library and IndexMap faithfully; serde_yaml's text "
                           "parser produces the Value a text denotes")
