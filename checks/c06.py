"""Equational laws on values that are built or changed in code (paths, ports, users, contexts, weights, limits, short or
long forms), decided by abstract interpretation on abstract texts and numbers against what the resulting text or content
reads as."""
import laws
from laws import As, At, Call, De, Disp, Lin, Make, Mut, Outcome, Ser, Succeeds, Txt
from schema import B, I

A = "service::"
V, M = A + "volumes::", A + "volumes::mount::"
PATHS = ("/", "/{a:l:1,2}", "/{a:l:1}/{b:l:1}", "/{a:l:1}/", "/./{a:l:1}", "/..", ".", "..", "./{a:l:1}", "../{a:l:1}/{b:l:1}", ".{a:l:1}",
         "{a:l:1,2}", "{a:l:1}/../{b:l:1}", "", "..{a:l:1}", "/{a:p:1}", "./{a:p:2}", "{a:t:1}")
# path, what is pushed, result
PUSH = (("/{a:l:1}", "{b:l:1,2}", "/{a:l:1}/{b:l:1,2}"), ("/", "{b:l:1}", "/{b:l:1}"), ("/{a:l:1}/", "{b:l:1}/{c:l:1}", "/{a:l:1}/{b:l:1}/{c:l:1}"),
        ("/{a:l:1}", "/{b:l:1}", "/{b:l:1}"), ("/{a:l:1}", "", "/{a:l:1}/"), ("/{a:l:1}", "../{b:l:1}", "/{a:l:1}/../{b:l:1}"))
HPUSH = PUSH + ((".", "{b:l:1}", "./{b:l:1}"), ("../{a:l:1}", "{b:l:1,2}", "../{a:l:1}/{b:l:1,2}"), ("./", "/{b:l:1}", "/{b:l:1}"))
# path, the path after pop (None: unchanged, false)
POP = (("/{a:l:1}/{b:l:1,2}", "/{a:l:1}"), ("/{a:l:1}/{b:l:1}/", "/{a:l:1}"), ("/{a:l:1,2}", "/"), ("/", None), ("/{a:l:1}//{b:l:1}", "/{a:l:1}"),
       ("/{a:l:1}/./{b:l:1}", "/{a:l:1}"), ("/..", "/"), ("/{a:l:1}/..", "/{a:l:1}"))
HPOP = POP + (("./{a:l:1}/{b:l:1}", "./{a:l:1}"), ("./{a:l:1,2}", "."), (".", None), ("..", None), ("../{a:l:1}", ".."), ("../..", ".."), ("./..", "."),
              ("./", None), ("../", None))
FROMS = ("std::path::PathBuf", "alloc::boxed::Box<std::path::Path", "&std::path::Path", "alloc::borrow::Cow<std::path::Path>")


def paths(F, out):
    src = [v["name"] for v in F.adts[V + "Source"]["variants"]].index("HostPath")
    for t in ("AbsolutePath", "HostPath"):
        for p in PATHS:
            for f in FROMS:
                out.append(("%s::try_from" % t, Call((V + t, "try_from", f), Txt(p)), Call((V + t, "from_str"), Txt(p))))
        for p, q, r in PUSH if t == "AbsolutePath" else HPUSH:
            out.append(("%s::push" % t, Mut((V + t, "push"), De(V + t, p), Txt(q)), De(V + t, r)))
        for p, q in POP if t == "AbsolutePath" else HPOP:
            out.append(("%s::pop" % t, Mut((V + t, "pop"), De(V + t, p)), De(V + t, p if q is None else q)))
            out.append(("%s::pop" % t, Call((V + t, "pop"), De(V + t, p)), Make("false" if q is None else "true")))
        for p in ("/{a:l:1,2}", "/{a:l:1}/../{b:l:1}", "/{a:l:1}/"):
            for m in ("as_path", "as_inner", "into_inner", "as_ref", "borrow"):
                out.append(("%s::%s" % (t, m), Call((V + t, m), De(V + t, p)), Txt(p)))
    out.append(("HostPath::from", Call((V + "HostPath", "from", V + "AbsolutePath"), De(V + "AbsolutePath", "/{a:l:1,2}")), De(V + "HostPath", "/{a:l:1,2}")))
    for p in PATHS:
        h = Call((V + "HostPath", "from_str"), Txt(p))
        for f in FROMS:
            x = Call((V + "Source", "try_from", f), Txt(p))
            out.append(("Source::try_from", Succeeds(x), Succeeds(h)))
            if p.startswith(("/", "./", "../")) or p in (".", ".."):
                out.append(("Source::try_from", At(x, "!"), As(V + "Source", src, At(h, "!"))))
    for p in ("/{a:l:1,2}", "./{a:l:1,2}", "../{a:l:1}/{b:l:1}"):
        t = "HostPath" if p[0] == "." else "AbsolutePath"
        out.append(("Source::from", Call((V + "Source", "from", V + t), De(V + t, p)), As(V + "Source", src, De(V + "HostPath", p))))


def contexts(F, out):
    c = A + "build::context::Context"
    vs = [v["name"] for v in F.adts[c]["variants"]]
    for p in ("{a:l:1,2}", "./{a:l:1}", "/{a:l:1}", "", "http://{a:l:1}"):
        for f in ("&std::path::Path", "alloc::borrow::Cow<std::path::Path>", "std::path::PathBuf"):
            out.append(("Context::from(path)", Call((c, "from", f), Txt(p)), As(c, vs.index("Path"), Txt(p))))
    out.append(("Context::default", Call((c, "default")), De(c, ".")))


TF = ("false", "true")


def numbers(F, out):
    w = A + "blkio_config::Weight"
    for t in ("{n:n:2,3}", "1000"):
        out.append(("Weight::into", Call(("u16", "from", w), At(Call((w, "try_from", "u16"), Lin([(t, 1)])), "!")), Lin([(t, 1)])))
        out.append(("Weight::display", Disp(At(Call((w, "try_from", "u16"), Lin([(t, 1)])), "!")), Txt(t)))
        out.append(("Weight::into", Call(("core::num::nonzero::NonZero<u16>", "from", w), At(Call((w, "try_from", "u16"), Lin([(t, 1)])), "!")), Lin([(t, 1)])))
    out.append(("Weight::default", Call((w, "default")), De(w, 500)))
    some = (10, 500, 999, 1000)
    for x in some:
        for y in some:
            for ty in ("&u16", "&core::num::nonzero::NonZero<u16>"):
                out.append(("Weight::eq", Call((w, "eq", "&" + w, ty), De(w, x), Lin([], y)), Make(TF[x == y])))
    m = A + "device::MajorMinorNumber"
    for x in ("1", "2", "0", "65535", "*"):
        for y in (0, 1, 2, 7, 65535):
            out.append(("MajorMinorNumber::eq(u16)", Call((m, "eq", "&" + m, "&u16"), At(Call((m, "from_str"), Txt(x)), "!"), Lin([], y)), Make(TF[x == str(y)])))
    r = A + "ports::Range"
    rng = lambda t: At(Call((r, "from_str"), Txt(t)), "!")
    for t, a, b in (("80", 80, 80), ("80-80", 80, 80), ("80-90", 80, 90), ("0-65535", 0, 65535), ("65535", 65535, 65535)):
        for y in (80, 90, 0, 65535):
            out.append(("Range::eq(u16)", Call((r, "eq", "&" + r, "&u16"), rng(t), Lin([], y)), Make(TF[a == b == y])))
    for t, k, up in (("80", 5, "85"), ("80-90", 10, "90-100"), ("0-1", 65534, "65534-65535"), ("65535", 0, "65535"), ("1-1", 3, "4-4")):
        out.append(("Range::add", Call((r, "add"), rng(t), Lin([], k)), rng(up)))
        out.append(("Range::sub", Call((r, "sub"), rng(up), Lin([], k)), rng(t)))
        out.append(("Range::add_assign", Mut((r, "add_assign"), rng(t), Lin([], k)), rng(up)))
        out.append(("Range::sub_assign", Mut((r, "sub_assign"), rng(up), Lin([], k)), rng(t)))
    d, e = "{n:n:1,4}", "{m:n:1,3}"
    out.append(("Range::add", At(Call((r, "add"), rng(d), Lin([(e, 1)])), "start()"), Lin([(d, 1), (e, 1)])))
    out.append(("Range::sub", At(Call((r, "sub"), rng("2{n:d:4}"), Lin([(e, 1)])), "start()"), Lin([("2{n:d:4}", 1), (e, -1)])))
    u = A + "user::"
    io = u + "IdOrName"
    un = At(Call((u + "Name", "new"), Txt("{s:l:1-2}")), "!")
    of = {"n": Call((io, "from", "u32"), Lin([("{n:n:1,3}", 1)])), "s": Call((io, "from", u + "Name"), un)}
    tx = {"n": "{n:n:1,3}", "s": "{s:l:1-2}"}
    for x in "ns":
        for y in "ns":
            if x != y:
                out.append(("User::from", Call((u + "User", "from", "(" + io), Make("tuple", of[x], of[y])),
                            At(Call((u + "User", "from_str"), Txt(tx[x] + ":" + tx[y])), "!")))
        out.append(("User::from", Call((u + "User", "from", io), of[x]), At(Call((u + "User", "from_str"), Txt(tx[x])), "!")))
    out.append(("User::from", Call((u + "User", "from", "(u32, u32)"), Make("tuple", Lin([("{n:n:1,3}", 1)]), Lin([("{m:n:1,3}", 1)]))),
                At(Call((u + "User", "from_str"), Txt("{n:n:1,3}:{m:n:1,3}")), "!")))
    p = A + "device::Permissions"
    out.append(("Permissions::all", Call((p, "all")), At(Call((p, "from_str"), Txt("rwm")), "!")))
    b = A + "byte_value::ByteValue"
    out.append(("ByteValue::default", Call((b, "default")), At(Call((b, "from_str"), Txt("0b")), "!")))


def others(F, out):
    h = A + "healthcheck::Healthcheck"
    out.append(("Healthcheck::default", Call((h, "default")), De(h, {})))
    for k, v in (("interval", "{n:n:1}s"), ("retries", I("n")), ("test", "{s:l:1,2}"), ("x-{k:l:1}", "{s:l:1}"), ("start_period", "1m{n:n:1}s")):
        out.append(("Healthcheck::from", Call((h, "from", A + "healthcheck::Command"), At(De(h, {k: v}), "@Command.0")), De(h, {k: v})))
    t = A + "healthcheck::Test"
    out.append(("Test::from", Call((t, "from", "alloc::vec::Vec"), Make("list", Txt("{s:l:1,2}"), Txt("{t:l:1}"))),
                At(De(h, {"test": ["CMD", "{s:l:1,2}", "{t:l:1}"]}), "@Command.0.test!")))
    out.append(("Test::from", Call((t, "from", "alloc::string::String"), Txt("{s:l:1,2}")),
                At(De(h, {"test": ["CMD-SHELL", "{s:l:1,2}"]}), "@Command.0.test!")))


def short_or_long(F, out):
    sol = "common::short_or_long::ShortOrLong<"
    P = "std::path::PathBuf"
    lim = A + "limit::Limit<"
    s, c = "{s:l:1,2}", {"target": "/{c:p:1}"}
    sv = lambda k, v, path: At(De(A + "Service", {"image": "q", k: v}), path)
    # (key, path, short content, long content)
    for k, path, sh, lo in (
            ("build", "build!", "./" + s, {"context": "./" + s, "target": "{t:l:1}"}),
            ("ports", "ports[0]", "1{n:d:1}", {"target": 80, "mode": "host"}),
            ("volumes", "volumes[0]", "/" + s, dict(c, type="tmpfs")),
            ("secrets", "secrets[0]", s, {"source": s, "uid": "{n:n:1}"}),
            ("configs", "configs[0]", s, {"source": s, "target": "{n:n:1}"}),
            ("ulimits", "ulimits[0].1", 7, {"soft": 7, "hard": 8}),
            ("depends_on", "depends_on", [s], {s: {"condition": "service_healthy"}})):
        w = (lambda x: {s: x}) if k == "ulimits" else (lambda x: x) if k in ("depends_on", "build") else (lambda x: [x])
        a, b = sv(k, w(sh), path), sv(k, w(lo), path)
        for v, short in ((a, True), (b, False)):
            out.append(("ShortOrLong::is_short", Call((sol + "S, L>", "is_short"), v), Make(TF[short])))
            out.append(("ShortOrLong::is_long", Call((sol + "S, L>", "is_long"), v), Make(TF[not short])))
        out.append(("ShortOrLong::as_long", Call((sol + "S, L>", "as_long"), a), Make("None")))
        out.append(("ShortOrLong::as_long", Call((sol + "S, L>", "as_long"), b), Make("Some", At(b, "@Long.0"))))
    ef = lambda x: At(De(A + "env_file::EnvFile", [x]), "@List.0[0]")
    lo = {"path": s, "required": False}
    out.append(("ShortOrLong::from(path)", Call((sol + P, "from", P), Txt(s)), ef(s)))
    out.append(("ShortOrLong::from(String)", Call((sol + P, "from", "alloc::string::String"), Txt(s)), ef(s)))
    out.append(("ShortOrLong::from(Config)", Call((sol + "S, " + A + "env_file::Config", "from", A + "env_file::Config"), De(A + "env_file::Config", lo)), ef(lo)))
    n = I("n")
    ul = sv("ulimits", {"q": n}, "ulimits[0].1")
    out.append(("ShortOrLong::from(Limit)", Call((sol + lim + "T>", "from", lim), At(ul, "@Short.0")), ul))
    out.append(("ShortOrLong::from(u64)", Call((sol + lim + "u64>", "from", "u64"), Txt(n)), ul))
    for ty, c in ((A + "ports::Port", {"target": 80, "published": "{n:n:1,3}"}), (M + "Mount", dict(c, type="tmpfs")),
                  (A + "build::Build", {"context": "./" + s}), (A + "config_or_secret::ConfigOrSecret", {"source": s, "mode": 7}),
                  (A + "ulimit::Ulimit", {"soft": 7, "hard": 9}), ("include::Include", {"path": [s]}), (A + "env_file::Config", lo)):
        out.append(("ShortOrLong::from(%s)" % ty.rsplit("::", 1)[-1], Call((sol + "S, " + ty, "from", ty), De(ty, c)),
                    As("common::short_or_long::ShortOrLong", 1, De(ty, c))))
    out.append(("Limit::display", Disp(At(sv("ulimits", {"q": -1}, "ulimits[0].1"), "@Short.0")), Txt("-1")))
    mem = sv("memswap_limit", "{n:n:1,3}kb", "memswap_limit!")
    out.append(("Limit::from", Call((lim + A + "byte_value::ByteValue", "from"), At(Call((A + "byte_value::ByteValue", "from_str"), Txt("{n:n:1,3}kb")), "!")), mem))


def table(F):
    out = []
    short_or_long(F, out)
    paths(F, out)
    contexts(F, out)
    numbers(F, out)
    others(F, out)
    return out


def run(ctx):
    ctx.rule("a value built or changed in code is what its text or content reads as")
    laws.run(ctx, table(ctx.F))
