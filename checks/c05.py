"""Abstract interpretation of every function and deserialization visitor that builds a value from numbers, with the
numbers left symbolic (integers as interval sets over their whole type): on each path the accepted interval must be
exactly the documented one and the number must be stored unchanged.  Floats are split into the sign and class cases
(NaN, infinite, zero, subnormal, normal) by constant propagation; relations between two numbers (range order, equal
sizes) by the order facts of the path and boundary pairs."""
import itertools, math
import forms, landing, models, texts
from absint import INT_RANGE, Inconclusive, Interp, State, iand, iminus, none, some
from landing import S, N, C, V, NONE

ARG = ("t", ("arg", 0))


class A:
    """The argument itself."""
    def __str__(self):
        return "the given number"


A = A()
s_ = "service::"
# type -> (accepted interval, or None for all; places)
SPEC = {
    s_ + "Percent": ((0, 100), [("0", A), ("into_inner()", A)]),
    s_ + "OomScoreAdj": ((-1000, 1000), [("0", A)]),
    s_ + "blkio_config::Weight": ((10, 1000), [("0", A), ("into_inner()", A)]),
    s_ + "deploy::resources::Count": (None, [("@Integer.0", A)]),
    s_ + "device::MajorMinorNumber": (None, [("@Integer.0", A)]),
    s_ + "expose::Expose": (None, [("range.start()", A), ("range.end()", NONE), ("protocol", NONE)]),
    s_ + "limit::Limit": (None, [("@Value.0", A)]),
    s_ + "ports::Port": (None, [("target", A), ("published", NONE), ("host_ip", NONE), ("protocol", NONE)]),
    s_ + "ports::ShortPort": (None, [("ranges.container().start()", A), ("ranges.container().end()", NONE),
                                     ("ranges.host()", NONE), ("host_ip", NONE), ("protocol", NONE)]),
    s_ + "ports::ShortRanges": (None, [("container().start()", A), ("container().end()", NONE), ("host()", NONE)]),
    s_ + "ports::Range": (None, [("start()", A), ("end()", NONE)]),
    s_ + "user::IdOrName": (None, [("@Id.0", A), ("as_id()!", A)]),
    s_ + "user::User": (None, [("user@Id.0", A), ("group", NONE)]),
}
for _t, _v in (("common::Number", ""), ("common::Value", "@Number.0"), ("common::StringOrNumber", "@Number.0")):
    SPEC[_t] = (None, _v)
MUST = [s_ + "Percent", s_ + "OomScoreAdj", s_ + "blkio_config::Weight", s_ + "deploy::resources::Cpus",
        s_ + "ports::Range", s_ + "deploy::resources::Count"]


def int_of(F, t):
    """Integer type name of a parameter type (NonZero too), whether it is nonzero; or None."""
    x = F.types[t]
    if x[0] in ("int", "uint"):
        return x[1], False
    if x[0] == "adt" and x[1] == "core::num::nonzero::NonZero":
        y = F.types[x[2][0]]
        if y[0] in ("int", "uint"):
            return y[1], True
    return None


def float_of(F, t):
    x = F.types[t]
    return x[1] if x[0] == "float" else None


def scope(F):
    """[(function, adt, index of the number among the arguments)]"""
    out = []
    for i in F.roots:
        x = F.insts[i]
        if x["key"] != x["root"] or not x["sig"] or x["body"] is None:
            continue
        tr = x["impl"]["trait"][0] if x["impl"] and x["impl"]["trait"] else None
        ins, ret = x["sig"]
        w, p = texts.result_of(F, ret)
        adt = F.adt_of(p)
        if adt is None or (adt not in SPEC and adt != s_ + "deploy::resources::Cpus"):
            continue
        k = len(ins) - 1
        if tr == "serde::de::Visitor" or (tr or "").endswith("de::Visitor"):
            if len(ins) != 2:
                continue
        elif len(ins) != 1 or (not x["reachable"]):
            continue
        if int_of(F, ins[k]) or float_of(F, ins[k]):
            out.append((x, adt, k))
    return out


def run_fn(F, f, args, st):
    I = Interp(F, budget=200000)
    return I, [forms.outcome(F, f, r) + (s,) for r, s in I.run(f, args, st)]


def number_place(prefix, ty, rng):
    """Where a number of this integer type and sign belongs."""
    return prefix + ("@UnsignedInt.0" if ty.startswith("u") else "@SignedInt.0")


def same(F, v, s, exp, num):
    if exp is A:
        if v is None:
            return None, None
        if v[0] == "wrong":
            return False, v[1]
        I = Interp(F)
        v = models.strip(I, s, v)
        c = forms.canon(I, s, v)
        if c == forms.canon(I, s, num):
            return True, c
        if num[0] == "c" and c[0] == "c" or num[0] == "fl" and c[0] == "fl":
            return False, c
        return None, c
    return landing.same(F, v, s, exp, None)


FLOATS = [0.0, -0.0, 1.5, -1.5, 5e-324, -5e-324, 2.0, 1e308, -1e308, 0.1, 1e-320, math.inf, -math.inf, math.nan,
          -math.nan, 1e19, 9007199254740993.0]


def const_args(F, f, k, num):
    return [("t", ("self",))] * k + [num]


def const_run(F, f, k, num):
    """(verdict, value, state) for one number."""
    try:
        I, rs = run_fn(F, f, const_args(F, f, k, num), State())
    except (Inconclusive,) + forms.CRASH:
        return "?", None, None
    if I.panics:
        return ("panic" if not rs else "?"), None, None
    if len(rs) != 1 or texts.tainted(rs[0][2]):
        return "?", None, None
    return rs[0]


def bounds(lo, hi, iv):
    c = {lo, hi, lo + 1, hi - 1, 0, 1, -1, 255, 256, 65535, 65536, 127, 128, -128, -129, 2 ** 31, 2 ** 32 - 1, 2 ** 32,
         2 ** 53 + 1, 2 ** 63, 500}
    if iv:
        c |= {iv[0], iv[1], iv[0] - 1, iv[1] + 1}
    return sorted(x for x in c if lo <= x <= hi)


def ints(ctx, F, f, adt, k, places, iv, name, nz):
    lo, hi = INT_RANGE[name]
    full = iminus(((lo, hi),), ((0, 0),)) if nz else ((lo, hi),)
    want = iand(full, ((iv[0], iv[1]),)) if iv else full
    bad = lambda n, got, exp: ctx.viol("%s:%s" % (f["path"], exp[0]), "%s(%d): %s, expected %s" % (
        f["path"], n, got, exp[1]), f["loc"])
    parts = [iand(full, ((0, hi),)), iand(full, ((lo, -1),))] if isinstance(places, str) else [full]
    for part in parts:
        if not part:
            continue
        st = State()
        st.facts[("r", ARG[1])] = part
        try:
            I, rs = run_fn(F, f, const_args(F, f, k, ARG), st)
        except (Inconclusive,) + forms.CRASH as x:
            ctx.unk(f["path"], str(x)[:100])
            rs, I = [], None
        if I is not None and I.panics:
            ctx.unk(f["path"], "panic site reachable")
        for v, val, s in rs:
            r = s.facts.get(("r", ARG[1]), part)
            ctx.ob("integer paths")
            if v == "?":
                ctx.unk(f["path"], "result not determined")
                continue
            wrong = iminus(r, want) if v == "ok" else iand(r, want)
            for a, b in wrong:
                for n in (a, b):
                    if const_run(F, f, k, ("c", n))[0] == v:
                        bad(n, "accepted" if v == "ok" else "rejected",
                            ("limits", "integers accepted exactly in %s" % (iv or (lo, hi),)))
                        break
                else:
                    ctx.unk(f["path"], "limit not confirmed at %d" % a)
            if v != "ok":
                continue
            for path, exp in ([(number_place(places, name, r), A)] if isinstance(places, str) else places):
                try:
                    ends = landing.follow(F, val, s, path)
                except landing.Missing:
                    continue
                except (Inconclusive,) + forms.CRASH as x:
                    ctx.unk(f["path"], "%s: %s" % (path, str(x)[:80]))
                    continue
                for w, s2 in ends:
                    ok, got = same(F, w, s2, exp, ARG)
                    if ok:
                        ctx.ob("places decided")
                        continue
                    for n in bounds(lo, hi, iv):
                        if not any(a <= n <= b for a, b in r):
                            continue
                        vv, val2, s3 = const_run(F, f, k, ("c", n))
                        if vv != "ok":
                            continue
                        e2 = landing.follow(F, val2, s3, path)
                        if len(e2) == 1:
                            o2, g2 = same(F, e2[0][0], e2[0][1], exp, ("c", n))
                            if o2 is False:
                                bad(n, "value at `%s` is %s" % (path, landing.show(g2)), (path, str(exp)))
                                break
                    else:
                        ctx.unk(f["path"], "`%s` not determined" % path)
    # the limits themselves, one by one
    for n in bounds(lo, hi, iv):
        if nz and n == 0:
            continue
        v, val, s = const_run(F, f, k, ("c", n))
        ctx.ob("boundary numbers")
        good = any(a <= n <= b for a, b in want)
        if v in ("ok", "err", "panic") and (v == "ok") != good:
            bad(n, {"ok": "accepted", "err": "rejected", "panic": "panics"}[v],
                ("limits", "accepted exactly in %s" % (iv or (lo, hi),)))


def cpus_ok(x):
    return math.isfinite(x) and math.copysign(1, x) > 0


def floats(ctx, F, f, adt, k, ty):
    """Sign and class cases of a floating point argument."""
    for x in FLOATS:
        num = models.fl(x, ty)
        y = models.unfl(num)
        v, val, s = const_run(F, f, k, num)
        ctx.ob("float classes")
        good = cpus_ok(y) if adt.endswith("Cpus") else True
        if v not in ("ok", "err", "panic"):
            ctx.unk(f["path"], "float %r not determined" % y)
            continue
        if (v == "ok") != good and not (y == 0 and adt.endswith("Cpus")):
            ctx.viol("%s:limits" % f["path"], "%s(%r): %s, expected %s" % (
                f["path"], y, v, "a value" if good else "an error"), f["loc"])
        if v == "ok":
            for path in ["0"] if adt.endswith("Cpus") else [SPEC[adt][1] + "@Float.0"]:
                w = landing.follow(F, val, s, path)
                if len(w) == 1 and w[0][0] is not None:
                    g = w[0][0]
                    if g[0] == "fl" and models.unfl(g) != y and not math.isnan(y) or g[0] == "wrong":
                        ctx.viol("%s:%s" % (f["path"], path), "%s(%r) holds %s" % (f["path"], y, g), f["loc"])
                    elif g[0] == "fl":
                        ctx.ob("places decided")


def cpus_ints(ctx, F, f, k, name):
    lo, hi = INT_RANGE[name]
    for n in bounds(lo, hi, (0, hi)):
        v, val, s = const_run(F, f, k, ("c", n))
        ctx.ob("boundary numbers")
        if v in ("ok", "err", "panic") and (v == "ok") != (n >= 0):
            ctx.viol("%s:limits" % f["path"], "%s(%d): %s" % (f["path"], n, v), f["loc"])
        elif v == "ok":
            w = landing.follow(F, val, s, "0")
            if len(w) == 1 and w[0][0] is not None and w[0][0][0] == "fl" and models.unfl(w[0][0]) != float(n):
                ctx.viol("%s:value" % f["path"], "%s(%d) holds %r" % (f["path"], n, models.unfl(w[0][0])), f["loc"])
        elif v == "?":
            ctx.unk(f["path"], "%d not determined" % n)


PORTS = [0, 1, 2, 79, 80, 81, 255, 256, 257, 32767, 32768, 65534, 65535]


def mkrange(F, a, b):
    f = F.inherent_fn(s_ + "ports::Range", "new")
    v, val, s = "?", None, None
    I, rs = run_fn(F, f[0], [("c", a), some(("c", b)) if b is not None else none()], State())
    return rs[0][1] if len(rs) == 1 and rs[0][0] == "ok" else None


def ordered(ctx, F):
    """Range from a start and an end."""
    R = s_ + "ports::Range"
    todo = [(f, lambda a, b: [a, some(b)]) for f in F.inherent_fn(R, "new")]
    for f in F.trait_fn("core::convert::TryFrom", R, "try_from"):
        t = F.types[f["sig"][0][0]]
        if t[0] == "tuple" and len(t[1]) == 2:
            if F.types[t[1][1]][0] == "adt":
                todo.append((f, lambda a, b: [("agg", "tuple", 0, (a, some(b)))]))
            else:
                todo.append((f, lambda a, b: [("agg", "tuple", 0, (a, b))]))
        elif t[0] == "adt" and t[1] == "core::ops::range::RangeInclusive":
            todo.append((f, lambda a, b: [("agg", t[1], 0, (a, b, ("c", 0)))]))
    ctx.need(todo, R, "no Range::new(start, end)")
    a, b = ("t", ("arg", 0)), ("t", ("arg", 1))
    for f, mk in todo:
        st = State()
        for x in (a, b):
            st.facts[("r", x[1])] = ((0, 65535),)
        ctx.ob("functions of two numbers", 1, f["path"])
        try:
            I, rs = run_fn(F, f, mk(a, b), st)
        except (Inconclusive,) + forms.CRASH as x:
            ctx.unk(f["path"], str(x)[:80])
            rs = []
        for v, val, s in rs:
            rel = s.facts.get(("rel", a, b)) or {"<": ">", ">": "<", "=": "=", None: None}.get(s.facts.get(("rel", b, a)))
            if rel is None or v == "?":
                ctx.unk(f["path"], "order of start and end not decided on a path")
            elif (v == "ok") == (rel in ("<", "=", "<=")):
                ctx.ob("order decided")
        for p, q in itertools.product(PORTS, PORTS):
            try:
                I, rs = run_fn(F, f, mk(("c", p), ("c", q)), State())
            except (Inconclusive,) + forms.CRASH as x:
                continue
            ctx.ob("boundary pairs")
            if len(rs) != 1 or I.panics or rs[0][0] == "?":
                ctx.unk(f["path"], "(%d, %d) not determined" % (p, q))
                continue
            v, val, s = rs[0]
            if (v == "ok") != (p <= q):
                ctx.viol("%s:order" % f["path"], "%s of %d and %d: %s" % (
                    f["path"], p, q, "accepted" if v == "ok" else "rejected"), f["loc"])
            elif v == "ok":
                for path, exp in (("start()", C(p)), ("end()", NONE) if p == q else ("end()!", C(q)),
                                  ("size()", C(min(q - p + 1, 65535)))):
                    try:
                        w = landing.follow(F, val, s, path)
                    except landing.Missing:
                        continue
                    if len(w) == 1:
                        k, got = landing.same(F, w[0][0], w[0][1], exp, None)
                        if k is False:
                            ctx.viol("%s:%s" % (R, path), "Range of %d and %d: %s is %s, expected %s" % (
                                p, q, path, landing.show(got), exp), f["loc"])
                        elif k:
                            ctx.ob("places decided")


def sizes(ctx, F):
    """Host and container ranges of a short port must be of equal size."""
    SR = s_ + "ports::ShortRanges"
    new = F.inherent_fn(SR, "new")
    if not ctx.need(new, SR, "no ShortRanges::new"):
        return
    pairs = [(1, None), (1, 2), (7, None), (7, 8), (1, 3), (0, 65535), (0, 65534), (1, 65535), (65535, None),
             (80, 90), (8080, 8090), (8080, 8091), (255, 511), (256, 512), (0, None), (0, 1)]
    rs_ = [(p, mkrange(F, *p)) for p in pairs]
    size = lambda p: 0 if p[1] is None else p[1] - p[0]
    setters = [f for n in ("replace_host", "replace_container") for f in F.inherent_fn(SR, n)]
    for (p, a), (q, b) in itertools.product(rs_, rs_):
        if a is None or b is None:
            continue
        good = size(p) == size(q)
        try:
            I, rs = run_fn(F, new[0], [some(a), b], State())
        except (Inconclusive,) + forms.CRASH as x:
            ctx.unk(SR, str(x)[:80])
            continue
        ctx.ob("size pairs")
        if len(rs) != 1 or I.panics or rs[0][0] == "?":
            ctx.unk(SR, "%s:%s not determined" % (p, q))
            continue
        if (rs[0][0] == "ok") != good:
            ctx.viol("%s::new:sizes" % SR, "host %s and container %s: %s" % (
                p, q, "accepted" if rs[0][0] == "ok" else "rejected"), new[0]["loc"])
            continue
        if not good:
            continue
        val, st0 = rs[0][1], rs[0][2]
        for path, exp in (("host()!.start()", C(p[0])), ("container().start()", C(q[0]))):
            w = landing.follow(F, val, st0, path)
            if len(w) == 1 and landing.same(F, w[0][0], w[0][1], exp, None)[0] is False:
                ctx.viol("%s::new:%s" % (SR, path), "host %s and container %s: wrong %s" % (p, q, path), new[0]["loc"])
        for f in setters:
            for o, c in rs_[:8]:
                st = st0.fork()
                st.mem[0] = {0: val}
                try:
                    J = Interp(F, budget=100000)
                    out = J.run(f, [("rm", (0, 0), ()), c], st)
                except (Inconclusive,) + forms.CRASH:
                    continue
                if len(out) != 1 or J.panics:
                    continue
                r, s2 = out[0]
                v = forms.outcome(F, f, r)[0]
                ctx.ob("replacements")
                other = q if f["name"] == "replace_host" else p
                if v in ("ok", "err") and (v == "ok") != (size(o) == size(other)):
                    ctx.viol("%s:sizes" % f["path"], "%s(%s) on %s:%s: %s" % (
                        f["path"], o, p, q, "accepted" if v == "ok" else "rejected"), f["loc"])
                elif v in ("ok", "err"):
                    now = s2.mem[0][0]
                    path = "host()!.start()" if f["name"] == "replace_host" else "container().start()"
                    w = landing.follow(F, now, s2, path)
                    exp = C(o[0] if v == "ok" else (p if f["name"] == "replace_host" else q)[0])
                    if len(w) == 1 and landing.same(F, w[0][0], w[0][1], exp, None)[0] is False:
                        ctx.viol("%s:result" % f["path"], "%s(%s) on %s:%s leaves a wrong range" % (
                            f["path"], o, p, q), f["loc"])


def run(ctx):
    F = ctx.F
    ctx.rule("a number is accepted exactly within the documented limits and stored unchanged")
    seen = {}
    for f, adt, k in scope(F):
        seen.setdefault(adt, []).append(f)
        ctx.ob("functions", 1, "%s (%s)" % (f["path"], f["loc"]))
        t = f["sig"][0][k]
        i, fl = int_of(F, t), float_of(F, t)
        if adt.endswith("resources::Cpus"):
            if i:
                cpus_ints(ctx, F, f, k, i[0])
            else:
                floats(ctx, F, f, adt, k, fl)
        elif i:
            iv, places = SPEC[adt]
            ints(ctx, F, f, adt, k, places, iv, i[0], i[1])
        elif isinstance(SPEC[adt][1], str):
            floats(ctx, F, f, adt, k, fl)
    for adt in MUST:
        ctx.need(seen.get(adt), adt, "no function builds %s from a number" % adt)
    ordered(ctx, F)
    sizes(ctx, F)
    ctx.assumptions.append("the transfer functions in lib/models.py describe the standard library faithfully")
