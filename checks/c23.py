"""Send, Sync and the absence of interior mutability, for every public type (decided by the type checker and by the
fields of each type, at any depth)."""
import effects


def run(ctx):
    F = ctx.F
    ctx.rule("every public type is Send and Sync, and neither a field of it at any depth nor one of their type arguments is a cell, "
             "a lock, an atomic or a reference-counted pointer")
    autos = {p: (s, y, f) for p, s, y, f in F.autos}
    pub = [a for a in F.adts.values() if a["local"] and a["reachable"]]
    ctx.need(len(pub) > 60, "types", "public types")
    for a in sorted(pub, key=lambda a: a["path"]):
        p = a["path"]
        loc = "%s:%s" % tuple(a["loc"]) if a["loc"] else None
        s, y, fr = autos.get(p, (None, None, None))
        ctx.ob("types", 1, {"type": p})
        if s is None:
            ctx.unk("auto:" + p, "not resolved")
        for ok, name in ((s, "Send"), (y, "Sync")):
            if ok is False:
                ctx.viol("auto:%s:%s" % (p, name), "%s is not %s" % (p, name), loc)
        if fr is False:
            ctx.viol("cell:" + p, "%s has interior-mutable state" % p, loc)
            continue
        seen = set()
        for v in a["variants"]:
            for f in v["fields"]:
                ctx.ob("fields")
                c = effects.interior(F, f["ty"], seen)
                if c:
                    ctx.viol("cell:" + p, "%s holds interior-mutable or reference-counted state: %s" % (p, " > ".join((f["name"],) + c)), loc)
