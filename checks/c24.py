"""Equational laws between scalar values and Rust's numbers, booleans and texts, decided by abstract interpretation of the
conversions on symbolic numbers and texts: what a conversion gives, and exactly when it fails."""
import laws
from laws import At, Call, De, Disp, Make, Succeeds, Txt
from schema import B, I

V, N, SN = "common::Value", "common::Number", "common::StringOrNumber"
A = "service::"
BIG = 2 ** 64 - 1
FLOATS = (1.5, -0.25, 3.0, 1e300, -2.5e-7)
STR = "alloc::string::String"
TEXTS = ("q{s:l:1-3}", "{s:l:1-2}{t:d:1}", "", "{n:n:1-3}", "-{n:n:1-3}", "+{n:n:1-2}", "{n:n:1-2}.{m:d:1}", "true", "false", "{n:n:1}e{m:d:1}",
         "{s:p:1-2}", "True")


def fn(to, name, frm=None):
    return (to, name) if frm is None else (to, name, frm)


def values(out):
    U, U32, G = I("n", 0, BIG), I("n", 0, 2 ** 32 - 1), I("n", -2 ** 63, -1)
    nums = (("unsigned_int", U, "u64", 0), ("signed_int", G, "i64", 1)) + tuple(("float", f, "f64", 2) for f in FLOATS)
    for k, c, ty, var in nums:
        for t in (V, N, SN):
            # the number itself, wrapped once or twice
            num = De(N, c)
            out.append(("%s::from(%s)" % (t, ty), Call((t, "from", ty), Txt(c)), De(t, c)))
            if t != N:
                out.append(("%s::from(Number)" % t, Call((t, "from", N), num), De(t, c)))
                out.append(("Number::try_from(%s)" % t, Call((N, "try_from", t), De(t, c)), Make("Ok", num)))
                for p in ("string", "bool") if t == V else ("string",):
                    out.append(("%s::is_%s" % (t, p), Call((t, "is_" + p), De(t, c)), Make("false")))
                    out.append(("%s::as_%s" % (t, p), Call((t, "as_" + p), De(t, c)), Make("None")))
                out.append(("%s::is_number" % t, Call((t, "is_number"), De(t, c)), Make("true")))
                out.append(("%s::as_number" % t, Call((t, "as_number"), De(t, c)), Make("Some", num)))
            if not isinstance(c, I):
                continue
            out.append(("String::from(%s)" % t, Call((STR, "from", t), De(t, c)), Disp(De(t, c)))) if t != N else None
        for p in ("unsigned_int", "signed_int", "float"):
            out.append(("Number::is_" + p, Call((N, "is_" + p), De(N, c)), Make("true" if p == k else "false")))
            out.append(("Number::as_" + p, Call((N, "as_" + p), De(N, c)), Make("Some", Txt(c)) if p == k else Make("None")))
        out.append(("Number::%d" % var, At(De(N, c), "@%s.0" % ("UnsignedInt", "SignedInt", "Float")[var]), Txt(c)))
    ok = {"u64": (0, BIG), "i64": (-2 ** 63, 2 ** 63 - 1)}
    for lo, hi in ((0, 2 ** 63 - 1), (2 ** 63, BIG), (-2 ** 63, -1)):
        c = I("n", lo, hi)
        for t in (N, V):
            for ty, (a, b) in ok.items():
                e = Call((ty, "try_from", t), De(t, c))
                out.append(("%s::try_from(%s)" % (ty, t), e, Make("Ok", Txt(c))) if a <= lo and hi <= b else
                           ("%s::try_from(%s)" % (ty, t), Succeeds(e), Make("false")))
    for lo, hi, good in ((0, 2 ** 32 - 1, 1), (2 ** 32, BIG, 0), (-2 ** 31, -1, 1), (-2 ** 63, -2 ** 31 - 1, 0)):
        for t in (N, V):
            out.append(("f64::try_from(%s)" % t, Succeeds(Call(("f64", "try_from", t), De(t, I("n", lo, hi)))),
                        Make("true" if good else "false")))
    for x in (0, 1, 77, 2 ** 32 - 1, -1, -2 ** 31):
        for t in (N, V):
            out.append(("f64::try_from(%s)" % t, Call(("f64", "try_from", t), De(t, x)), Make("Ok", Txt(float(x)))))
    for f in FLOATS:
        for t in (N, V):
            out.append(("f64::try_from(%s)" % t, Call(("f64", "try_from", t), De(t, f)), Make("Ok", Txt(f))))
            for ty in ok:
                out.append(("%s::try_from(%s)" % (ty, t), Succeeds(Call((ty, "try_from", t), De(t, f))), Make("false")))
    for c in [U, G] + list(FLOATS) + list(TEXTS):
        out.append(("bool::try_from(Value)", Succeeds(Call(("bool", "try_from", V), De(V, c))), Make("false")))
    b = B("b")
    out.append(("bool::try_from(Value)", Call(("bool", "try_from", V), De(V, b)), Make("Ok", Txt(b))))
    out.append(("Value::from(bool)", Call((V, "from", "bool"), Txt(b)), De(V, b)))
    for p, w in (("string", 0), ("number", 0), ("bool", 1)):
        out.append(("Value::is_" + p, Call((V, "is_" + p), De(V, b)), Make("true" if w else "false")))
        out.append(("Value::as_" + p, Call((V, "as_" + p), De(V, b)), Make("Some", Txt(b)) if w else Make("None")))
    for x in (True, False):
        out.append(("Number::try_from(Value)", Call((N, "try_from", V), De(V, x)), Make("Ok", De(N, int(x)))))
        out.append(("u64::try_from(Value)", Call(("u64", "try_from", V), De(V, x)), Make("Ok", Txt(int(x)))))
        out.append(("i64::try_from(Value)", Call(("i64", "try_from", V), De(V, x)), Make("Ok", Txt(int(x)))))
        out.append(("String::from(Value)", Call((STR, "from", V), De(V, x)), Txt(str(x).lower())))
        out.append(("Value::fmt", Disp(De(V, x)), Txt(str(x).lower())))
        out.append(("Value::parse", Call((V, "parse"), Txt(str(x).lower())), De(V, x)))
    # texts
    for s in TEXTS:
        num = Call((N, "from_str"), Txt(s))
        for t in (V, SN):
            v = De(t, s)
            for frm in (STR, "alloc::boxed::Box<str", "&str", "alloc::borrow::Cow<str"):
                out.append(("%s::from(text)" % t, Call((t, "from", frm), Txt(s)), v))
            out.append(("%s::is_string" % t, Call((t, "is_string"), v), Make("true")))
            out.append(("%s::as_string" % t, Call((t, "as_string"), v), Make("Some", Txt(s))))
            out.append(("%s::is_number" % t, Call((t, "is_number"), v), Make("false")))
            out.append(("%s::as_number" % t, Call((t, "as_number"), v), Make("None")))
            out.append(("String::from(%s)" % t, Call((STR, "from", t), v), Txt(s)))
            out.append(("%s::fmt" % t, Disp(v), Txt(s)))
            out.append(("Number::try_from(%s)" % t, Succeeds(Call((N, "try_from", t), v)), Succeeds(num)))
            if s[:1] in "q{-+" and "{s" not in s and s:
                out.append(("Number::try_from(%s)" % t, Call((N, "try_from", t), v), num))
                out.append(("%s::parse" % t, Call((t, "parse"), Txt(s)), Call((t, "from", N), At(num, "!"))))
            elif s not in ("true", "false") and s != "{s:p:1-2}" or t == SN and s != "{s:p:1-2}":
                out.append(("%s::parse" % t, Call((t, "parse"), Txt(s)), v))
        out.append(("Value::is_bool", Call((V, "is_bool"), De(V, s)), Make("false")))
        out.append(("Value::as_bool", Call((V, "as_bool"), De(V, s)), Make("None")))
    for s, lo, hi in (("{n:n:1-4}", 0, 9999), ("-{n:n:1-4}", -9999, -1)):
        for t in (N, V, SN):
            e = At(Call((N, "from_str"), Txt(s)), "!") if t == N else Call((t, "parse"), Txt(s))
            out.append(("%s::fmt" % t, Disp(e), Txt(s)))
        for ty in ("u64", "i64"):
            e = Call((ty, "try_from", V), De(V, s))
            if s[0] == "-" and ty == "u64":
                out.append(("u64::try_from(Value)", Succeeds(e), Make("false")))
            else:
                out.append(("%s::try_from(Value)" % ty, e, Call((ty, "try_from", N), At(Call((N, "from_str"), Txt(s)), "!"))))


def wrappers(out):
    W, PC, OOM = A + "blkio_config::Weight", A + "Percent", A + "OomScoreAdj"
    R = A + "deploy::resources::"
    for t, ty, inner, lo, hi, tlo, thi in ((W, "u16", "into_inner", 10, 1000, 0, 65535), (PC, "u8", "into_inner", 0, 100, 0, 255),
                                           (OOM, "i16", "into_inner", -1000, 1000, -32768, 32767)):
        n = t.rsplit("::", 1)[-1]
        for a, b in ((max(lo, 0), hi),) + (((lo, -1),) if lo < 0 else ()):
            c = I("n", a, b)
            for to in ("try_from", "new"):
                if t == W and to == "new":
                    continue
                e = Call((t, to, ty), Txt(c))
                out.append(("%s::%s" % (n, to), e, Make("Ok", De(t, c))))
                out.append(("%s::from(%s)" % (ty, n), Call((ty, "from", t), At(e, "!")), Txt(c)))
                if t == PC:
                    out.append(("%s::%s" % (n, inner), Call((t, inner), At(e, "!")), Txt(c)))
        for a, b in ((tlo, lo - 1), (hi + 1, thi)):
            if a > b:
                continue
            for to in ("try_from", "new"):
                if t == W and to == "new":
                    continue
                out.append(("%s::%s" % (n, to), Succeeds(Call((t, to, ty), Txt(I("n", a, b)))), Make("false")))
    for ty, hi in (("u8", 255), ("u16", 65535), ("u32", 2 ** 32 - 1)):
        e = Call((R + "Cpus", "from", ty), Txt(7))
        out.append(("Cpus::from(%s)" % ty, e, De(R + "Cpus", 7)))
        out.append(("f64::from(Cpus)", Call(("f64", "from", R + "Cpus"), e), Txt(7.0)))
    for ty in ("i8", "i16", "i32"):
        out.append(("Cpus::try_from(%s)" % ty, Call((R + "Cpus", "try_from", ty), Txt(100)), Make("Ok", De(R + "Cpus", 100))))
    for f in (0.5, 2.0, 1e9):
        e = Call((R + "Cpus", "try_from", "f64"), Txt(f))
        out.append(("Cpus::try_from(f64)", e, Make("Ok", De(R + "Cpus", f))))
        out.append(("f64::from(Cpus)", Call(("f64", "from", R + "Cpus"), At(e, "!")), Txt(f)))
        out.append(("Cpus::into_inner", Call((R + "Cpus", "into_inner"), At(e, "!")), Txt(f)))
    c = I("n", 0, BIG)
    out.append(("Count::from(u64)", Call((R + "Count", "from", "u64"), Txt(c)), De(R + "Count", c)))
    out.append(("Ulimit::from(u64)", Call((A + "ulimit::Ulimit", "from", "u64"), Txt(c)), De(A + "ulimit::Ulimit", {"soft": c, "hard": c})))
    L = A + "limit::Limit<"
    out.append(("Limit::from(u64)", Call((L + "u64", "from", "u64"), Txt(c)), At(De(A + "Service", {"pids_limit": 7}), "pids_limit!")) if 0 else
               ("Limit::from(u64)", At(Call((L + "u64", "from", "u64"), Txt(c)), "@Value.0"), Txt(c)))
    c32 = I("n", 0, 2 ** 32 - 1)
    out.append(("Limit::from(u32)", At(Call((L + "u32", "from", "u32"), Txt(c32)), "@Value.0"), Txt(c32)))
    p = I("n", 0, 65535)
    Rg, Ex, SR, SP = A + "ports::Range", A + "expose::Expose", A + "ports::ShortRanges", A + "ports::ShortPort"
    out.append(("Range::from(u16)", Call((Rg, "from", "u16"), Txt(p)), De(Rg, p)))
    out.append(("Expose::from(u16)", Call((Ex, "from", "u16"), Txt(p)), De(Ex, p)))
    out.append(("ShortPort::from(u16)", Call((SP, "from", "u16"), Txt(p)), De(SP, p)))
    out.append(("ShortRanges::from(u16)", Call((SR, "from", "u16"), Txt(p)), At(De(SP, p), "ranges")))
    out.append(("Port::from(u16)", Call((A + "ports::Port", "from", "u16"), Txt(p)), De(A + "ports::Port", {"target": p})))
    for a, b in ((1, 2), (5, 5), (0, 65535), (9, 3)):
        for e in (Call((Rg, "try_from", "(u16, u16"), Make("tuple", Txt(a), Txt(b))),
                  Call((Rg, "try_from", "(u16, core::option"), Make("tuple", Txt(a), Make("Some", Txt(b)))),
                  Call((Rg, "new"), Txt(a), Make("Some", Txt(b)))):
            out.append(("Range::try_from", e, Make("Ok", De(Rg, "%d-%d" % (a, b)))) if a <= b else
                       ("Range::try_from", Succeeds(e), Make("false")))
    out.append(("Range::try_from", Call((Rg, "try_from", "(u16, core::option"), Make("tuple", Txt(p), Make("None"))), Make("Ok", De(Rg, p))))
    K = A + "device::Kind"
    for ch in "abcu*x":
        e = Call((K, "try_from", "char"), Txt(ord(ch)))
        s = Call((K, "from_str"), Txt(ch))
        out.append(("Kind::try_from(char)", Succeeds(e), Succeeds(s)))
        if ch in "abc":
            out.append(("Kind::try_from(char)", e, s))
            out.append(("char::from(Kind)", Call(("char", "from", K), At(e, "!")), Txt(ord(ch))))
    for ch in "zZ":
        o = At(De(A + "volumes::ShortVolume", "/a:/b:" + ch), "options!.selinux!")
        out.append(("char::from(SELinux)", Call(("char", "from", A + "volumes::SELinux"), o), Txt(ord(ch))))
    U = A + "user::"
    n, m = I("n", 0, 2 ** 32 - 1), I("m", 0, 2 ** 32 - 1)
    nm, nk = At(Call((U + "Name", "new"), Txt("{s:l:1-2}")), "!"), At(Call((U + "Name", "new"), Txt("{t:l:1-2}")), "!")
    ids = ((n, Txt(n), "u32"), ("{s:l:1-2}", nm, U + "Name"))
    gids = ((m, Txt(m), "u32"), ("{t:l:1-2}", nk, U + "Name"))
    for c, e, ty in ids:
        io = Call((U + "IdOrName", "from", ty), e)
        out.append(("User::from(%s)" % ty, Call((U + "User", "from", ty), e), Call((U + "User", "from", U + "IdOrName"), io)))
        out.append(("User::user", At(Call((U + "User", "from", ty), e), "user"), io))
        out.append(("User::group", At(Call((U + "User", "from", ty), e), "group"), Make("None")))
        for d, g, ty2 in gids:
            u = Call((U + "User", "from", "(%s, %s" % (ty, ty2)), Make("tuple", e, g))
            out.append(("User::from(pair).user", At(u, "user"), io))
            out.append(("User::from(pair).group", At(u, "group!"), Call((U + "IdOrName", "from", ty2), g)))
    MM = A + "device::MajorMinorNumber"
    out.append(("MajorMinorNumber::from(u16)", At(Call((MM, "from", "u16"), Txt(p)), "@Integer.0"), Txt(p)))
    MA = A + "network_config::MacAddress"
    bs = [I("b%d" % i, 0, 255) for i in range(6)]
    arr = Make("list", *[Txt(b) for b in bs])
    out.append(("MacAddress", Call(("[u8; 6]", "from", MA), Call((MA, "from", "[u8; 6]"), arr)), arr))


def table():
    out = []
    values(out)
    wrappers(out)
    return [x for x in out if x]


def run(ctx):
    ctx.rule("converting a number, boolean or text to a scalar value and back gives it unchanged; TryFrom fails exactly out of range")
    laws.run(ctx, table())
