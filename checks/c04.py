"""Abstract interpretation of the MIR of every parser of a composite text form (ports, devices, volumes, images,
users, cgroup rules, platforms, byte values, …) on boxes of abstract strings; what each path accepts or rejects is
compared, for all texts of the box at once, with automata for the documented form: one for the texts that must be
accepted and one for the texts that may be.  Listed boundary texts are decided by constant propagation."""
import grammar, forms, c01
from texts import pmap
from forms import explore, const, box_of, judge

JOBS = []


def job(j):
    F, e, boxes, must, may = j
    out = {"paths": 0, "bad": [], "und": []}
    I, rs, why = explore(F, e, boxes)
    if why:
        out["und"].append(why)
        return out
    for v, val, st in rs:
        out["paths"] += 1
        bx = box_of(st.facts, boxes)
        if bx is None:
            continue
        if v == "?":
            out["und"].append("result not determined")
            continue
        lang, want = (may, False) if v == "ok" else (must, True)
        r = judge(F, e, lang, want, bx, st.facts, v)
        if r is None:
            continue
        if r[0] == "bad":
            out["bad"].append((r[1], v))
        else:
            out["und"].append("%s path not confirmed on %r" % (v, r[1]))
    return out


def _nth(i):
    return job(JOBS[i])


def run(ctx):
    F = ctx.F
    JOBS.clear()
    meta = []
    for t in grammar.TYPES:
        es = forms.all_entries(F, t.adt)
        if not ctx.need(es, t.adt, "no function builds %s from a string" % t.adt):
            continue
        es = c01.primary(es) or es
        lead = [e for e in es if e["name"] == "from_str"] or es
        if t.doc:
            ctx.rule("%s: %s" % (t.adt, t.doc))
        for e in es:
            ctx.ob("entry points", 1, "%s (%s)" % (e["path"], e["loc"]))
            bx = grammar.boxes(t, ctx.thorough)
            for b in bx if e is lead[0] or ctx.thorough else bx[:6]:
                JOBS.append((F, e, b, t.must, t.may))
                meta.append((t, e))
            for text, want in t.fixed:
                if want is None:
                    continue
                got = const(F, e, text)[0]
                ctx.ob("boundary texts", 1)
                if got == "?":
                    ctx.unk(e["path"], "boundary text %r" % text)
                elif got != ("ok" if want else "err"):
                    ctx.viol("%s:%r" % (e["path"], text), "%s %s %r" % (
                        e["path"], {"ok": "accepts", "err": "rejects"}.get(got, "panics on"), text), e["loc"])
    for es, bx, must, may in [durations(F, ctx)]:
        for e in es:
            for b in bx:
                JOBS.append((F, e, b, must, may))
                meta.append((None, e))
    res = pmap(_nth, range(len(JOBS)))
    for (t, e), r in zip(meta, res):
        ctx.ob("paths", r["paths"])
        ctx.ob("boxes", 1)
        for w, got in r["bad"]:
            ctx.viol("%s:%s" % (e["path"], "accepts" if got == "ok" else "rejects"),
                     "%s %s %r, which the documented form %s" % (
                         e["path"], "accepts" if got == "ok" else "rejects", w,
                         "does not allow" if got == "ok" else "allows"), e["loc"])
        for u in r["und"]:
            ctx.unk(e["path"], u)
    ctx.assumptions.append("the transfer functions in lib/models.py describe the standard library faithfully")


def durations(F, ctx):
    from lang import Lang
    _, es, bx, _ = c01.durations(F, ctx.thorough)
    ctx.need(es, "duration::parse", "duration::parse")
    ctx.rule("duration::parse: one or more {amount}{us|ms|s|m|h}")
    return es, bx, Lang(grammar.DURATION_MUST), Lang(grammar.DURATION_MAY)
