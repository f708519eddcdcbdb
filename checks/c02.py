"""Abstract interpretation of parse followed by every public function that takes only the parsed value (accessors,
conversions, iterators, Display and the other formatting traits), on boxes of abstract strings: every panic site
reachable from an accepted text (slicing with recorded positions, unwrap, expect, unreachable!, arithmetic overflow)
must be excluded by the facts of the path, or a text of the box is shown to lead there."""
import grammar, forms, c01, models, texts
from absint import Inconclusive, Interp, State
from texts import pmap
from forms import explore, outcome, box_of, picks, feasible, CRASH, BUDGET, plain

JOBS = []
FMT = ("core::fmt::Display", "core::fmt::LowerHex", "core::fmt::UpperHex", "core::fmt::LowerExp", "core::fmt::UpperExp")
SKIP_TRAITS = ("core::fmt::Debug", "core::hash::Hash", "serde", "core::ops::drop", "core::clone::Clone")


def users(F, adt):
    """Public functions whose only input is a value of `adt` (or a reference to one)."""
    out = []
    for i in F.roots:
        x = F.insts[i]
        if x["key"] != x["root"] or not x["sig"] or x["body"] is None or not x["mono"]:
            continue
        ins = x["sig"][0]
        tr = x["impl"]["trait"][0] if x["impl"] and x["impl"]["trait"] else None
        if tr and tr.startswith(SKIP_TRAITS):
            continue
        if not ins or F.adt_of(ins[0]) != adt or not x["reachable"]:
            continue
        if len(ins) == 1 or (len(ins) == 2 and tr in FMT):
            out.append(x)
    return out


def call(F, f, val, st):
    J = Interp(F, budget=BUDGET)
    s = st.fork()
    s.log = ()
    t = F.types[f["sig"][0][0]]
    arg = val
    if t[0] == "ref" and t[2]:
        s.mem[0] = {0: val}
        arg = ("rm", (0, 0), ())
    elif t[0] == "ref":
        arg = ("rv", val)
    args = [arg] + ([("t", ("fmt",))] if len(f["sig"][0]) == 2 else [])
    rs = J.run(f, args, s)
    return J, rs


def const_call(F, e, f, text):
    try:
        I, rs = texts.run_on(F, e, ("s", text), budget=BUDGET)
        rs = [outcome(F, e, r) + (x,) for r, x in rs]
        if I.panics or len(rs) != 1 or rs[0][0] != "ok" or texts.tainted(rs[0][2]):
            return "?"
        J, out = call(F, f, rs[0][1], rs[0][2])
        if J.panics and not out and not any(texts.mentions_opaque(k) for p in J.panics for k in p[4]):
            return "panic"
        return "?" if J.panics else "fine"
    except (Inconclusive,) + CRASH:
        return "?"


def job(j):
    F, adt, e, fs, boxes = j
    out = {"paths": 0, "calls": 0, "bad": [], "und": []}
    I, rs, why = explore(F, e, boxes)
    if why:
        out["und"].append(why)
        return out
    tries = 0
    for v, val, st in rs:
        if v != "ok":
            continue
        out["paths"] += 1
        for f in fs:
            try:
                J, _ = call(F, f, val, st)
            except (Inconclusive,) + CRASH as x:
                out["und"].append("%s: %s" % (f["path"], str(x)[:80]))
                continue
            out["calls"] += 1
            for kind, inst, line, detail, facts in J.panics:
                if not feasible(State(facts=facts)):
                    continue
                bx = box_of(facts, boxes)
                if bx is None:
                    continue
                tries += 1
                if plain(facts):
                    out["bad"].append((f["path"], inst["path"], kind, picks(bx)[0], f["loc"]))
                    continue
                for t in picks(bx) if tries < 40 else ():
                    if const_call(F, e, f, t) == "panic":
                        out["bad"].append((f["path"], inst["path"], kind, t, f["loc"]))
                        break
                else:
                    out["und"].append("%s: panic %s in %s not confirmed" % (f["path"], kind, inst["path"]))
    return out


def _nth(i):
    return job(JOBS[i])


def run(ctx):
    F = ctx.F
    JOBS.clear()
    meta = []
    ctx.rule("no public function of a value that was parsed from text reaches a panic")
    from c03 import SPECS
    todo = [(t.adt, grammar.shorter(t, ctx.thorough), t) for t in grammar.TYPES]
    for adt, must, may, lens, doc in SPECS:
        n = min(lens[1], 24) if ctx.thorough else min(lens[0], 10)
        todo.append((adt, [texts.shape_boxes(k) for k in range(n + 1)] +
                     [b for s in c01.c03_seeds(adt) for b in grammar.near(s)], None))
    for adt, bx, t in todo:
        es = c01.primary(forms.all_entries(F, adt))
        lead = [e for e in es if e["name"] == "from_str"] or [e for e in es if e["name"] in ("new", "parse")]
        fs = users(F, adt)
        if not lead or not fs:
            continue
        for f in fs:
            ctx.ob("functions", 1, "%s (%s)" % (f["path"], f["loc"]))
        for b in bx:
            JOBS.append((F, adt, lead[0], fs, b))
            meta.append((adt, lead[0]))
        for text in (list(t.seeds) + [x for x, w in t.fixed if w] if t else []):
            for f in fs:
                ctx.ob("fixed texts")
                if const_call(F, lead[0], f, text) == "panic":
                    ctx.viol("%s" % f["path"], "%s of the value parsed from %r panics" % (f["path"], text), f["loc"])
    ctx.need(len(meta) > 100, "types", "types parsed from text with public functions")
    res = pmap(_nth, range(len(JOBS)))
    for (adt, e), r in zip(meta, res):
        ctx.ob("accepting paths", r["paths"])
        ctx.ob("calls", r["calls"])
        for fp, where, kind, t, loc in r["bad"]:
            ctx.viol("%s" % fp, "%s of the value parsed from %r panics: %s in %s" % (fp, t, kind, where), loc)
        for u in r["und"]:
            ctx.unk(adt, u)
    ctx.assumptions.append("the transfer functions in lib/models.py describe the standard library faithfully")
