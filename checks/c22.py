"""No effects: the resolved callees of every local body (calls and function values alike), and every static."""
import effects


def run(ctx):
    F = ctx.F
    ctx.rule("no function of the crate mentions a function that reads or changes anything but its arguments")
    ctx.rule("no static of the crate is mutable or interior-mutable")
    n = bodies = 0
    for x in F.local_fns():
        if not x["body"]:
            continue
        bodies += 1
        for i, line in effects.fn_consts(F, x["body"]).items():
            r = F.fnrefs[i]
            if r["krate"] == "compose_spec" and not r["trait"]:
                continue
            n += 1
            p = effects.paths_of(F, r)
            hit = effects.classify(p, effects.EFFECTS)
            loc = "%s:%s" % (x["loc"][0], line or x["loc"][1])
            if hit:
                ctx.viol("effect:%s:%s" % (x["path"], hit[1]), "%s depends on or changes %s: it uses %s" % (x["path"], hit[0], hit[1]), loc)
                continue
            hit = effects.classify(p, effects.MAYBE)
            if hit:
                ctx.unk("effect:" + x["path"], "uses %s (%s)" % (hit[1], hit[0]))
    ctx.ob("functions", bodies)
    ctx.ob("callees", n)
    for path, t, mut in F.statics:
        ctx.ob("statics", 1, {"static": path})
        if mut:
            ctx.viol("static:" + path, "%s is a mutable static" % path)
            continue
        c = effects.interior(F, t)
        if c and any(k in c[-1] for k in ("OnceLock", "LazyLock", "once_lock", "lazy_lock")):
            ctx.unk("static:" + path, "computed once: " + c[-1])
        elif c:
            ctx.viol("static:" + path, "%s holds state that calls can change: %s" % (path, " > ".join(c)))
    ctx.need(bodies > 300, "bodies", "functions of the crate")
    ctx.assumptions.append("dependencies (serde, serde_yaml, indexmap, itoa, url, ipnet, thiserror) have no effects of their own")
