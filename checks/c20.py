"""Abstract interpretation of all the ways between a type and its text, in the same path state: every conversion from a
string (FromStr, TryFrom, From, new, parse, and deserializing a string) accepts the same texts and gives the same value, and
every conversion to a string (From, AsRef, as_str, serializing) gives what Display writes."""
import grammar, forms, models, serdes, texts
from absint import Inconclusive, Interp, State
from c03 import SPECS
from texts import pmap
from forms import (explore, outcome, display, canon, box_of, picks, concrete_value, feasible, CRASH, BUDGET)

JOBS = []
TEXTY = ("alloc::string::String", "alloc::boxed::Box", "alloc::borrow::Cow")
# Types with a variant for plain text beside what their parser reads: only the parsers are compared (see C24).
APART = ("common::Number", "common::Value", "common::StringOrNumber")


def froms(F, adt):
    es = [e for e in forms.all_entries(F, adt) if e["mono"] and e["reachable"] or e["name"] in ("new", "parse")]
    return [e for e in es if adt not in APART or e["name"] != "from"]


def tos(F, adt):
    """Functions from the type to a text."""
    out = []
    for i in F.roots:
        x = F.insts[i]
        if x["key"] != x["root"] or not x["sig"] or x["body"] is None or not x["mono"]:
            continue
        ins, ret = x["sig"]
        if len(ins) != 1 or not texts.is_stringy(F, ret):
            continue
        t = F.types[ins[0]]
        while t[0] == "ref":
            t = F.types[t[1]]
        if t[0] != "adt" or t[1] != adt:
            continue
        tr = x["impl"]["trait"][0] if x["impl"] and x["impl"]["trait"] else None
        if tr in ("core::convert::From", "core::convert::AsRef", "core::borrow::Borrow", "core::ops::deref::Deref") or \
                tr is None and x["name"] in ("as_str", "into_string"):
            out.append(x)
    return out


def arg(F, e, v):
    return ("rv", v) if F.types[e["sig"][0][0]][0] == "ref" else v


def read(F, how, text, st):
    """(interp, [(verdict, value, state)]) of one way of reading."""
    s = st.fork()
    s.log = ()
    if isinstance(how, str):
        adt, _, kind = how.partition("#")
        text = ("s", text) if isinstance(text, str) else text
        return serdes.run(F, adt, kind or "de", text if kind == "destr" else ("agg", serdes.VAL, 3, (text,)), s)
    I, rs = texts.run_on(F, how, ("s", text) if isinstance(text, str) else text, s, budget=BUDGET)
    return I, [outcome(F, how, r) + (x,) for r, x in rs]


def write(F, adt, how, v, st):
    """(interp, [(text value, state)]) of one way of writing."""
    s = st.fork()
    s.log = ()
    if isinstance(how, str):
        J, rs = serdes.run(F, how, "ser", v, s)
        out = []
        for k, w, s2 in rs:
            if k == "?":
                raise Inconclusive("serializing")
            if k == "ok" and w[0] == "agg" and w[1] == serdes.VAL and w[2] == 3:
                out.append((w[3][0], s2))
            elif k == "ok" and w[0] == "agg" and w[1] == serdes.VAL and w[2] < 3:
                out.append((None, s2))      # a number or boolean: how it is written is not this rule's concern
            else:
                out.append((("agg", "no text", 0, ()), s2))
        return J, out
    J = Interp(F, budget=BUDGET)
    return J, list(J.run(how, [arg(F, how, v)], s))


def show(how):
    if isinstance(how, str):
        return "Deserialize" + {"": "", "deref": " from a borrowed text", "destr": " from a passing text"}[how.partition("#")[2]]
    return how["path"]


def result(F, k, v, st):
    return k, canon(Interp(F, budget=BUDGET), st, v) if k == "ok" else None


def const_read(F, lead, how, text):
    try:
        out = []
        for h in (lead, how):
            I, rs = read(F, h, text, State())
            rs = [r for r in rs]
            if I.panics and not rs:
                out.append(("panic", None))
                continue
            if I.panics or len(rs) != 1 or texts.tainted(rs[0][2]) or rs[0][0] == "?":
                return None
            out.append(result(F, *rs[0]))
        if out[0] == out[1]:
            return "same"
        if out[0][0] != out[1][0]:
            return "%s, but %s with %s" % (out[0][0], out[1][0], show(how))
        if concrete_value(out[0][1]) and concrete_value(out[1][1]):
            return "a different value with %s" % show(how)
    except (Inconclusive,) + CRASH:
        pass
    return None


def const_write(F, adt, lead, how, text):
    try:
        I, rs = read(F, lead, text, State())
        if I.panics or len(rs) != 1 or rs[0][0] != "ok" or texts.tainted(rs[0][2]):
            return None
        v, st = rs[0][1:]
        outs, J = display(F, adt, v, st)
        if J.panics or len(outs) != 1 or outs[0][0][0] != "s":
            return None
        K, ws = write(F, adt, how, v, st)
        if K.panics and not ws:
            return "a panic with %s" % show(how)
        if K.panics or len(ws) != 1 or texts.tainted(ws[0][1]):
            return None
        if ws[0][0] is None:
            return "same"
        a, b = canon(J, outs[0][1], outs[0][0]), canon(K, ws[0][1], ws[0][0])
        if a == b:
            return "same"
        if concrete_value(a) and concrete_value(b):
            return "displayed as %r, but not by %s" % (outs[0][0][1], show(how))
    except (Inconclusive,) + CRASH:
        pass
    return None


def job(j):
    F, adt, lead, hows, ways, boxes = j
    out = {"reads": 0, "writes": 0, "bad": [], "und": []}
    I, rs, why = explore(F, lead, boxes)
    if why:
        out["und"].append((show(lead), why))
        return out
    n = len(boxes)
    sval = ("q", "in", 0, n) if n else ("s", "")
    tries = {}

    def confirm(how, st, f, why):
        bx = box_of(st.facts, boxes)
        if bx is None or not feasible(st):
            return
        k = show(how)
        tries[k] = tries.get(k, 0) + 1
        if tries[k] > 8:
            return
        for t in picks(bx)[:3 if why else None]:
            r = f(t)
            if r not in (None, "same"):
                out["bad"].append((k, t, r))
                return
        if why:
            out["und"].append((k, "%s, e.g. %r" % (why, picks(bx)[0])))
        else:
            out["und"].append((k, "difference not confirmed, e.g. %r" % picks(bx)[0]))

    for v, val, st in rs:
        if box_of(st.facts, boxes) is None or not feasible(st):
            continue
        if v == "?":
            out["und"].append((show(lead), "verdict"))
            continue
        for how in hows:
            try:
                K, ws = read(F, how, sval, st)
            except (Inconclusive,) + CRASH as x:
                confirm(how, st, lambda t: const_read(F, lead, how, t), str(x)[:80] or "?")
                continue
            for p in K.panics:
                confirm(how, State(facts=p[4]), lambda t: const_read(F, lead, how, t), None)
            for k, w, s in ws:
                out["reads"] += 1
                if k == "?":
                    confirm(how, s, lambda t: const_read(F, lead, how, t), "verdict")
                elif k != v or k == "ok" and canon(I, s, val) != canon(K, s, w):
                    confirm(how, s, lambda t: const_read(F, lead, how, t), None)
        if v != "ok" or not ways:
            continue
        try:
            outs, J = display(F, adt, val, st)
        except (Inconclusive,) + CRASH as x:
            out["und"].append(("Display", str(x)[:80]))
            continue
        for text, s0 in outs:
            if text is None:
                out["und"].append(("Display", "text"))
                continue
            for how in ways:
                try:
                    K, ws = write(F, adt, how, val, s0)
                except (Inconclusive,) + CRASH as x:
                    confirm(how, s0, lambda t: const_write(F, adt, lead, how, t), str(x)[:80] or "?")
                    continue
                for p in K.panics:
                    confirm(how, State(facts=p[4]), lambda t: const_write(F, adt, lead, how, t), None)
                for w, s in ws:
                    out["writes"] += 1
                    if w is not None and canon(J, s, text) != canon(K, s, w):
                        confirm(how, s, lambda t: const_write(F, adt, lead, how, t), None)
    return out


def _nth(i):
    return job(JOBS[i])


def run(ctx):
    F = ctx.F
    ctx.rule("every way of reading t gives what FromStr gives; every way of writing v gives what Display writes")
    JOBS.clear()
    meta = []
    todo = [(t.adt, grammar.shorter(t, ctx.thorough)) for t in grammar.TYPES]
    for adt, must, may, lens, doc in SPECS:
        n = min(lens[1], 16) if ctx.thorough else min(lens[0], 6)
        todo.append((adt, [texts.shape_boxes(k) for k in range(n + 1)]))
    for adt, bx in todo:
        es = froms(F, adt)
        lead = [e for e in es if e["name"] == "from_str"] or [e for e in es if e["name"] in ("new", "parse")] or es
        if not ctx.need(lead, adt, "no function builds %s from a string" % adt):
            continue
        lead = lead[0]
        hows = [e for e in es if e is not lead]
        if (adt, "de") in F.serde and adt not in APART:
            hows.append(adt)
            hows += [adt + "#" + k for k in ("deref", "destr") if (adt, k) in F.serde]
        ways = tos(F, adt) if F.trait_fn("core::fmt::Display", adt, "fmt") else []
        if (adt, "ser") in F.serde and F.trait_fn("core::fmt::Display", adt, "fmt"):
            ways.append(adt)
        for h in hows:
            ctx.ob("ways to read", 1, "%s / %s" % (adt, show(h)))
        for h in ways:
            ctx.ob("ways to write", 1, "%s / %s" % (adt, show(h)))
        if not hows and not ways:
            continue
        for b in bx:
            JOBS.append((F, adt, lead, hows, ways, b))
            meta.append((adt, lead))
    ctx.need(len(meta) > 100, "types", "text types")
    res = pmap(_nth, range(len(JOBS)))
    for (adt, e), r in zip(meta, res):
        if not isinstance(r, dict):
            ctx.unk(adt, "time")
            continue
        ctx.ob("readings compared", r["reads"])
        ctx.ob("writings compared", r["writes"])
        for k, t, why in r["bad"]:
            ctx.viol("%s:%s" % (adt, k), "%s: the text %r gives %s" % (e["path"], t, why), e["loc"])
        for k, u in r["und"]:
            ctx.unk("%s:%s" % (adt, k), u)
    ctx.assumptions.append("the transfer functions in lib/models.py describe the standard library faithfully")
