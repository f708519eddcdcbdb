"""Abstract interpretation of the MIR of every text entry point on boxes of abstract strings (each character an
interval set, split where the code distinguishes characters).  Every panic site the interpreter can reach on a box
(bounds and char-boundary checks of slicing, overflow checks, unwrap/expect, unreachable!, assert!) is an obligation:
either the facts of the path exclude it, or a text of the box is shown to lead there."""
from absint import CHARS
import grammar, forms, texts, c03
from texts import pmap
from forms import explore, const, box_of, picks, plain


def scopes(F, thorough):
    """(adt, entry, boxes): what is explored."""
    out = []
    for t in grammar.TYPES:
        out.append((t.adt, forms.all_entries(F, t.adt), grammar.boxes(t, thorough), t))
    for adt, must, may, lens, doc in c03.SPECS:
        n = min(lens[1] if thorough else lens[0], 34 if thorough else 16)
        seeds = c03_seeds(adt)
        bx = [texts.shape_boxes(k) for k in range(n + 1)]
        for s in seeds:
            bx += [b for b in grammar.near(s) if len(b) > n]
        out.append((adt, [e for e in forms.all_entries(F, adt)], bx, None))
    return out


def c03_seeds(adt):
    return {"service::image::name::Name": ["quay.io/a/b", "a.b:50/c", "a__b/c-d"],
            "service::image::digest::Digest": ["sha256:abcdef", "a+b.c:d=e"],
            "service::hostname::Hostname": ["a-b.c-d.ef", "abc.def"]}.get(adt, [])


def primary(es):
    """One entry of each different code path is explored in full; thin wrappers get the short boxes."""
    es = [e for e in es if e["reachable"]]
    return [e for e in es if e["mono"] or e["name"] == "new"]


def durations(F, thorough):
    es = [F.insts[i] for i in F.roots if F.insts[i]["path"] == "duration::parse"]
    n = 7 if thorough else 5
    bx = [texts.shape_boxes(k) for k in range(n + 1)]
    for s in ("1h2m3s", "4ms5us", "1h1h1h", "9us8ms7s"):
        bx += [b for b in grammar.near(s, thorough) if len(b) > n]
    # amounts around every overflow limit: the last digits and the unit free
    for s, free in (("18446744073709551615h", 2), ("5124095576030431h", 2), ("5124095576030432h", 3),
                    ("307445734561825860m", 2), ("18446744073709551615s", 2), ("18446744073709551616s", 2),
                    ("18446744073709551615s18446744073709551615s", 2), ("5124095576030431h60m", 2),
                    ("18446744073709551615s999ms1000us", 3), ("18446744073709551615ms", 2),
                    ("18446744073709551615us", 2), ("18446744073709551614s18446744073709551615us", 2)):
        b = [grammar.lit(c) for c in s]
        bx.append(tuple(b))
        d = [i for i, c in enumerate(s) if c.isdigit()]
        for i in d[-free:]:
            bx.append(tuple(b[:i]) + (grammar.DIG,) + tuple(b[i + 1:]))
        c = list(b)
        for i in d[-free:]:
            c[i] = grammar.DIG
        bx.append(tuple(c))
        bx.append(tuple(b[:-1]) + (CHARS,))
        bx.append(tuple(b) + (CHARS,))
    return ("duration", es, bx, None)


def job(j):
    F, e, boxes, lead = j
    out = {"paths": 0, "panics": [], "und": [], "oks": 0, "sites": set()}
    I, rs, why = explore(F, e, boxes)
    if why:
        out["und"].append(why)
        return out
    out["paths"] = len(rs)
    for kind, inst, line, detail, facts in I.panics:
        bx = box_of(facts, boxes)
        if bx is None:
            continue
        where = "%s (%s:%s)" % (inst["path"], inst["loc"][0] if inst.get("loc") else "?", line)
        if plain(facts):
            out["panics"].append((kind, inst["path"], where, picks(bx)[0]))
            continue
        for t in picks(bx):
            if const(F, e, t)[0] == "panic":
                out["panics"].append((kind, inst["path"], where, t))
                break
        else:
            out["und"].append("panic %s in %s not confirmed on a text" % (kind, inst["path"]))
    return out


def _nth(i):
    return job(JOBS[i])


JOBS = []


def run(ctx):
    F = ctx.F
    ctx.rule("a text entry point never reaches a panicking call, failed assertion or arithmetic overflow")
    JOBS.clear()
    meta = []
    sc = scopes(F, ctx.thorough) + [durations(F, ctx.thorough)]
    for adt, es, bx, t in sc:
        if not ctx.need(es, adt, "no function builds %s from a string" % adt):
            continue
        es = primary(es) or es
        lead = [e for e in es if e["name"] == "from_str"] or es
        for e in es:
            ctx.ob("entry points", 1, "%s (%s)" % (e["path"], e["loc"]))
            for b in bx if e is lead[0] or ctx.thorough else bx[:6]:
                JOBS.append((F, e, b, None))
                meta.append((adt, e))
    res = pmap(_nth, range(len(JOBS)))
    for (adt, e), r, j in zip(meta, res, JOBS):
        ctx.ob("paths", r["paths"])
        ctx.ob("boxes", 1)
        for kind, fn, where, text in r["panics"]:
            ctx.viol("%s:%s:%s" % (e["path"], fn, kind), "%s(%r) panics: %s in %s" % (e["path"], text, kind, where),
                     e["loc"])
        for u in r["und"]:
            ctx.unk(e["path"], u)
    ctx.assumptions.append("the transfer functions in lib/models.py describe the standard library faithfully")
