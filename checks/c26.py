"""Every content of the tables, owned and borrowed, and every text kept and passing: abstract interpretation of the
deserializers on all of them in the same path state, which must give the same value or reject alike."""
import c11, c20, c25, laws, schema
from laws import De, Make, Outcome, Reads


# Contents for every type, whether it takes them or not.
ODD = ("", "-1", "{s:l:1,2}", "{n:n:1,2}", "{n:n:1}.5", "true", True, 7, -1, 1.5, None, [], ["{s:l:1}"], {}, {"{k:l:1}": "{s:l:1}"})


def table(F):
    out = []
    for adt, tmpl, _ in c25.T:
        if (adt, "de") in F.serde and adt not in c20.APART:
            for how in ("deref", "destr"):
                out.append(("%s:text:%s" % (adt, how), De(adt, tmpl, how), De(adt, tmpl)))
    for adt, kind in sorted(F.serde):
        if kind == "de" and (adt, "deref") in F.serde and "<impl" not in adt:
            for c in ODD:
                out.append(("%s:odd:deref" % adt, Outcome(adt, c, "deref"), Outcome(adt, c)))
    for x in schema.T:
        for k, c, exps in x.keys:
            if k is not None and not isinstance(x.base, dict):
                continue
            whole = c11.whole(x, k, c)
            for how in ("deref", "destr")[:2 if isinstance(whole, str) else 1]:
                out.append(("%s:%s:%s" % (x.adt, k or "value", how), De(x.adt, whole, how), De(x.adt, whole)))
        for k in dict.fromkeys(k for k, _, _ in x.keys if k is not None and isinstance(x.base, dict)):
            for c in ("-1", "{n:n:1}"):
                whole = c11.whole(x, k, c)
                out.append(("%s:%s:odd" % (x.adt, k), Outcome(x.adt, whole, "deref"), Outcome(x.adt, whole)))
        for r in x.reject:
            for how in ("deref", "destr")[:2 if isinstance(r[0], str) else 1]:
                out.append(("%s:rejected:%s" % (x.adt, how), Reads(x.adt, r[0], how), Make("false")))
    return out


def run(ctx):
    ctx.rule("a borrowed content reads as the same content does when owned")
    laws.run(ctx, table(ctx.F))
