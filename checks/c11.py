"""Abstract interpretation of the derived and hand-written deserializers (as compiled, with serde and serde_yaml's
`Value` followed) on trees with abstract leaves: each documented form of each key is accepted, every leaf is found at
its documented public place, and every other field is what it is without the key.  Unknown keys are rejected and
extension keys kept."""
import combine, forms, landing, models, schema, serdes, trees, texts
from absint import Inconclusive, Interp
from forms import CRASH, canon, concrete_value
from texts import pmap
from trees import Tree, combos, const_de, follow, same, show

JOBS = []


def fields(F, v):
    if v[0] != "agg":
        return {}
    a = F.adts.get(v[1])
    if a is None or len(a["variants"]) != 1:
        return {}
    return dict(zip([f["name"] for f in a["variants"][0]["fields"]], v[3]))


def whole(x, key, content):
    if key is None:
        return content
    return dict({k: v for k, v in x.base.items() if k != key and not clash(x, key, k)}, **{key: content})


def clash(x, key, k):
    """Keys that exclude each other: the base's one makes room."""
    g = schema.KINDS.get(x.adt) or (("config", "file", "registry") if x.adt.endswith("CredentialSpec") else ())
    return key in g and k in g


def const_bad(F, x, tree, nums, text, path, exp):
    r = const_de(F, x.adt, tree.concrete(nums, text))
    if r is None:
        return None
    if r[0] != "ok":
        return "is rejected"
    try:
        rs = follow(F, r[1], r[2], path)
        if len(rs) != 1:
            return None
        k, got = same(F, rs[0][0], rs[0][1], exp, tree, nums, text)
    except (Inconclusive,) + CRASH:
        return None
    return "has %s at `%s` (expected %s)" % (landing.show(got), path, exp) if k is False else None


def job(j):
    F, xi, ki, full = j
    x = schema.T[xi]
    key, content, exps = x.keys[ki] if isinstance(ki, int) else (None,) + ki
    out = {"paths": 0, "ok": 0, "rest": 0, "bad": [], "und": []}
    all_ = whole(x, key, content)
    base = const_de(F, x.adt, x.base)
    for sizes in combos(all_, full):
        tree = Tree(all_, sizes)
        try:
            J, rs = trees.de(F, x.adt, tree.value, tree.state())
        except (Inconclusive,) + CRASH as e:
            out["und"].append("%s %s" % (type(e).__name__, str(e)[:80]))
            continue
        if J.panics:
            out["und"].append("panics not excluded (see C01)")
        for v, val, st in rs:
            if not forms.feasible(st):
                continue
            ps = tree.picks(st)
            if not ps:
                continue
            out["paths"] += 1
            if v != "ok":
                for nums, text in ps:
                    r = const_de(F, x.adt, tree.concrete(nums, text))
                    if r is not None and r[0] != "ok":
                        out["bad"].append(("rejected", show(tree.concrete(nums, text)), "is %s" % (
                            "rejected" if r[0] == "err" else "answered by a panic")))
                        break
                else:
                    out["und"].append("rejecting path not confirmed")
                continue
            touched = set()
            for path, exp in exps:
                touched.add(trees.roots(path))
                try:
                    ends = follow(F, val, st, path)
                except landing.Missing as e:
                    out["bad"].append(("missing", str(e), None))
                    continue
                except (Inconclusive,) + CRASH as e:
                    out["und"].append("%s: %s %s" % (path, type(e).__name__, str(e)[:80]))
                    continue
                if not ends:
                    out["und"].append("%s: no result" % path)
                for r, s in ends:
                    if not forms.feasible(s):
                        continue
                    try:
                        k, got = same(F, r, s, exp, tree)
                    except CRASH as e:
                        k, got = None, str(e)
                    if k:
                        out["ok"] += 1
                        continue
                    for nums, text in tree.picks(s):
                        why = const_bad(F, x, tree, nums, text, path, exp)
                        if why:
                            out["bad"].append((path, show(tree.concrete(nums, text)), why))
                            break
                    else:
                        out["und"].append("%s: not determined (%s)" % (path, str(got)[:100]))
            # Everything else is as in the base.
            if base is None or base[0] != "ok" or key is None or clash(x, key, next(iter(x.base), None)):
                continue
            have, had = fields(F, val), fields(F, base[1])
            K = Interp(F, budget=forms.BUDGET)
            for f in had:
                if f in touched:
                    continue
                a, b = canon(K, st, have[f]), canon(K, base[2], had[f])
                if a == b:
                    out["rest"] += 1
                elif concrete_value(a) and concrete_value(b):
                    out["bad"].append(("%s disturbs %s" % (key, f), show(tree.concrete(*ps[0])),
                                       "also changes field `%s`" % f))
                else:
                    done = False
                    for nums, text in ps[:2]:
                        r = const_de(F, x.adt, tree.concrete(nums, text))
                        if r is not None and r[0] == "ok":
                            a = canon(K, r[2], fields(F, r[1])[f])
                            if a != b and concrete_value(a) and concrete_value(b):
                                out["bad"].append(("%s disturbs %s" % (key, f), show(tree.concrete(nums, text)),
                                                   "also changes field `%s`" % f))
                                done = True
                                break
                    if not done:
                        out["und"].append("field %s not compared" % f)
    return out


def _nth(i):
    return job(JOBS[i])


def loc(F, adt):
    try:
        return F.insts[F.serde[adt, "de"]]["loc"]
    except KeyError:
        return None


def _alone(i):
    F, then, jobs = FACTS
    x, k = schema.T[jobs[i][0]], jobs[i][1]
    return combine.alone(F, x, *x.keys[k], whole, then)


FACTS = []


def together(ctx, jobs, meta, then=None):
    """Add the contents that use every key of a structure at once."""
    js = [(xi, k) for xi, x in enumerate(schema.T) if (x.adt, "de") in ctx.F.serde for k in combine.singles(x)]
    FACTS[:] = [ctx.F, then, js]
    got = {}
    for (xi, k), r in zip(js, pmap(_alone, range(len(js)))):
        got.setdefault(xi, {})[k] = r
    for xi, g in got.items():
        for r in combine.rounds(schema.T[xi], g):
            ctx.ob("contents with every key")
            jobs.append((ctx.F, xi, r, False))
            meta.append((schema.T[xi], "all keys", r[0]))


def run(ctx):
    F = ctx.F
    ctx.rule("de({..base, key: content}) == Ok(base with the parts of content at the key's documented places)")
    ctx.rule("unknown keys are rejected, x- keys kept, in structures with extensions")
    JOBS.clear()
    meta = []
    for xi, x in enumerate(schema.T):
        if not ctx.need((x.adt, "de") in F.serde, x.adt, "deserializing %s" % x.adt):
            continue
        ctx.ob("structures", 1, x.adt)
        base = const_de(F, x.adt, x.base)
        ctx.ob("base contents")
        if base is None:
            ctx.unk(x.adt, "base content")
        elif base[0] != "ok":
            ctx.viol("%s:base" % x.adt, "%s is rejected as a %s" % (show(x.base), x.adt), loc(F, x.adt))
        if x.ext:
            for k in ("zz", "x", "X-a", "image2", "-x"):
                r = const_de(F, x.adt, dict(x.base, **{k: "q"}))
                ctx.ob("unknown keys")
                if r is None:
                    ctx.unk(x.adt, "unknown key %s" % k)
                elif r[0] != "err":
                    ctx.viol("%s:unknown" % x.adt, "unknown key `%s` is accepted in %s" % (k, x.adt), loc(F, x.adt))
        for ki in range(len(x.keys)):
            JOBS.append((F, xi, ki, ctx.thorough))
            meta.append((x, x.keys[ki][0], x.keys[ki][1]))
    together(ctx, JOBS, meta)
    for (x, key, content), r in zip(meta, pmap(_nth, range(len(JOBS)))):
        ctx.ob("key forms", 1, "%s %s: %s" % (x.adt, key, show_form(content)[:200]))
        ctx.ob("paths", r["paths"])
        ctx.ob("places decided", r["ok"])
        ctx.ob("other fields compared", r["rest"])
        if not r["paths"] and not r["und"]:
            ctx.unk(x.adt, "no path for %s" % key)
        for path, text, why in r["bad"]:
            if path == "missing":
                ctx.need(False, text, text)
            else:
                ctx.viol("%s:%s:%s" % (x.adt, key, path), "%s as a %s %s" % (text, x.adt, why), loc(F, x.adt))
        for u in r["und"]:
            ctx.unk(x.adt, "%s: %s: %s" % (key, show_form(content), u))
    ctx.assumptions.append("lib/models.py describes the standard library and IndexMap faithfully; serde_yaml's text "
                           "parser produces the Value a text denotes")


def show_form(c):
    if isinstance(c, list):
        return "[%s]" % ", ".join(map(show_form, c))
    if isinstance(c, dict):
        return "{%s}" % ", ".join("%s: %s" % (show_form(k), show_form(v)) for k, v in c.items())
    return str(c)
