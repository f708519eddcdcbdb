"""Abstract interpretation of parse followed by Display on boxes of abstract strings: on every path that accepts, the
text Display writes is computed as a term over the input characters.  If it is the input text, parsing it again
gives the same value (parsing is a function of the text); otherwise the written text is parsed again in the same
path state and the two values are compared, numbers up to leading zeros.  A difference is confirmed by constant
propagation of a text of the box."""
import grammar, forms, c01, models, texts
from absint import Inconclusive, State
from texts import pmap
from forms import (explore, outcome, display, canon, box_of, picks, concrete_value, feasible, CRASH, BUDGET)

JOBS = []


def again(F, e, text, st):
    """Parse `text` (a string term) in state st: (interp, [(verdict, value, state)])."""
    s = st.fork()
    s.log = ()
    I, rs = texts.run_on(F, e, text, s, budget=BUDGET)
    return I, [outcome(F, e, r) + (x,) for r, x in rs]


def trip(F, adt, e, I, val, st, n):
    """Yield (verdict, detail, state): 'same', 'diff', 'reject', 'panic' or '?'."""
    d = display(F, adt, val, st)
    if d is None:
        yield "?", "no Display", st
        return
    outs, J = d
    for p in J.panics:
        if not feasible(State(facts=p[4])):
            continue
        yield "panic", "Display panics in " + p[1]["path"], State(facts=p[4])
    for text, s in outs:
        if not feasible(s):
            continue
        c = canon(I, s, text)
        if c[0] == "str" and len(c[1]) == n and all(x == forms.norm_sym(s, ("t", ("ch", "in", i)))
                                                     for i, x in enumerate(c[1])):
            yield "same", None, s
            continue
        if not models.is_str(text) or models.syms(text) is None:
            yield "?", "displayed text not determined", s
            continue
        K, rs = again(F, e, text, s)
        for p in K.panics:
            if not feasible(State(facts=p[4])):
                continue
            yield "panic", "reparsing panics in " + p[1]["path"], State(facts=p[4])
        if not rs and not K.panics:
            yield "?", "reparse undetermined", s
        for v, val2, s2 in rs:
            if not feasible(s2):
                continue
            if v == "?":
                yield "?", "reparse undetermined", s2
            elif v == "err":
                yield "reject", None, s2
            elif canon(I, s2, val) == canon(K, s2, val2):
                yield "same", None, s2
            else:
                yield "diff", None, s2


def const_trip(F, adt, e, text):
    """The same for one text: set of verdicts and the displayed text."""
    try:
        I, rs = texts.run_on(F, e, ("s", text), budget=BUDGET)
        rs = [outcome(F, e, r) + (x,) for r, x in rs]
        if I.panics or len(rs) != 1 or rs[0][0] != "ok" or texts.tainted(rs[0][2]):
            return None, None
        _, val, st = rs[0]
        outs, J = display(F, adt, val, st)
        if J.panics:
            return ("panic", None) if not outs else (None, None)
        if len(outs) != 1 or outs[0][0][0] != "s":
            return None, None
        t2 = outs[0][0][1]
        if t2 == text:
            return "same", t2
        K, rs2 = again(F, e, ("s", t2), outs[0][1])
        if K.panics:
            return ("panic" if not rs2 else None), t2
        if len(rs2) != 1 or texts.tainted(rs2[0][2]):
            return None, t2
        if rs2[0][0] == "err":
            return "reject", t2
        a, b = canon(I, st, val), canon(K, rs2[0][2], rs2[0][1])
        if a == b:
            return "same", t2
        return ("diff" if concrete_value(a) and concrete_value(b) else None), t2
    except (Inconclusive,) + CRASH:
        return None, None


def job(j):
    F, adt, e, boxes = j
    out = {"paths": 0, "bad": [], "und": [], "same": 0}
    tries = 0
    I, rs, why = explore(F, e, boxes)
    if why:
        out["und"].append(why)
        return out
    for v, val, st in rs:
        if v != "ok" or (adt == "common::Number" and val[0] == "agg" and val[2] == 2):
            continue        # (a float written by Display without a fraction reads back as an integer)
        out["paths"] += 1
        if box_of(st.facts, boxes) is None:
            continue
        try:
            for k, detail, s in trip(F, adt, e, I, val, st, len(boxes)):
                if k == "same":
                    out["same"] += 1
                    continue
                bx = box_of(s.facts, boxes)
                if bx is None:
                    continue
                tries += 1
                if tries < 30:
                    for t in picks(bx)[:2 if k == "?" else None]:
                        r, t2 = const_trip(F, adt, e, t)
                        if r in ("diff", "reject", "panic"):
                            out["bad"].append((r, t, t2))
                            break
                    else:
                        out["und"].append("%s not confirmed, e.g. %r" % (k, picks(bx)[0]))
                else:
                    out["und"].append("%s, e.g. %r" % (detail, picks(bx)[0]))
        except Inconclusive as x:
            out["und"].append(str(x))
        except CRASH as x:
            out["und"].append("%s %s" % (type(x).__name__, str(x)[:100]))
    return out


def _nth(i):
    return job(JOBS[i])


def run(ctx):
    F = ctx.F
    JOBS.clear()
    meta = []
    ctx.rule("parse(display(parse(t))) == parse(t) for every accepted text t")
    from c03 import SPECS
    todo = [(t.adt, grammar.shorter(t, ctx.thorough)) for t in grammar.TYPES]
    for adt, must, may, lens, doc in SPECS:
        n = min(lens[1], 24) if ctx.thorough else min(lens[0], 10)
        todo.append((adt, [texts.shape_boxes(k) for k in range(n + 1)]))
    for adt, bx in todo:
        es = [e for e in c01.primary(forms.all_entries(F, adt))]
        lead = [e for e in es if e["name"] == "from_str"] or [e for e in es if e["name"] in ("new", "parse")]
        if not lead or not F.trait_fn("core::fmt::Display", adt, "fmt"):
            continue
        ctx.ob("types", 1, adt)
        for b in bx:
            JOBS.append((F, adt, lead[0], b))
            meta.append((adt, lead[0]))
        t = grammar.BY_ADT.get(adt)
        for text in (list(t.seeds) + [x for x, w in t.fixed if w] if t and adt != "common::Number" else []):
            r, t2 = const_trip(F, adt, lead[0], text)
            ctx.ob("fixed texts")
            if r in ("diff", "reject", "panic"):
                ctx.viol("%s:%s" % (adt, r), "%r parses, is displayed as %r, and that %s" % (text, t2, {
                    "diff": "parses to a different value", "reject": "does not parse", "panic": "panics"}[r]),
                    lead[0]["loc"])
            elif r is None:
                ctx.unk(adt, "fixed text %r" % text)
    ctx.need(len(meta) > 100, "types", "types with FromStr and Display")
    res = pmap(_nth, range(len(JOBS)))
    for (adt, e), r in zip(meta, res):
        ctx.ob("accepting paths", r["paths"])
        ctx.ob("round trips shown", r["same"])
        for k, t, t2 in r["bad"]:
            ctx.viol("%s:%s" % (adt, k), "%r parses, is displayed as %r, and that %s" % (t, t2, {
                "diff": "parses to a different value", "reject": "does not parse", "panic": "panics"}[k]), e["loc"])
        for u in r["und"]:
            ctx.unk(adt, u)
    ctx.assumptions.append("the transfer functions in lib/models.py describe the standard library faithfully")
