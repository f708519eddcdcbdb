"""Byte values and durations as the quantity their documentation gives: into_bytes, duration::parse and to_string, and the
durations that structures read and write, by abstract interpretation over symbolic digits; the result is compared as a sum
of the numbers in the text times the documented factors."""
import laws
from laws import As, At, Call, De, Disp, Lin, Make, Succeeds, Txt

BV = "service::byte_value::ByteValue"
D = "core::time::Duration"
UNITS = [("b", 1), ("k", 10 ** 3), ("m", 10 ** 6), ("g", 10 ** 9)]
SECS = {"h": 3600, "m": 60, "s": 1}
NANOS = {"ms": 10 ** 6, "us": 10 ** 3}
MAX = 2 ** 64 - 1


def dur(secs, sub):
    return As(D, 0, secs, sub)


def table():
    out = []
    for u, k in UNITS:
        for suf in {u, u + "b", u.upper()} - {"bb"}:
            for t in ("{n:n:1-9}", "0", "{n:n:1}000"):
                out.append(("ByteValue::into_bytes:" + u, Call((BV, "into_bytes"), De(BV, t + suf)), Make("Some", Lin([(t, k)]))))
            top = str(MAX // k)
            out.append(("ByteValue::into_bytes:" + u, Call((BV, "into_bytes"), De(BV, top + suf)), Make("Some", Lin([(top, k)]))))
            if k > 1:
                for over in (str(MAX // k + 1), "9{n:d:1}" + "0" * (len(top) - 1), str(MAX)):
                    out.append(("ByteValue::into_bytes:overflow", Call((BV, "into_bytes"), De(BV, over + suf)), Make("None")))
    out.append(("ByteValue::into_bytes", Call((BV, "into_bytes"), De(BV, "{n:n:1-9}")), Make("Some", Lin([("{n:n:1-9}", 1)]))))
    parse = lambda t: Call("duration::parse", Txt(t))
    ok = lambda s, n: Make("Ok", dur(s, n))
    order = ["h", "m", "s", "ms", "us"]
    # every set of units in the documented order, and some others
    sets = [[u for i, u in enumerate(order) if m >> i & 1] for m in range(1, 32)] + [["s", "m"], ["ms", "h"], ["us", "ms", "s"], ["m", "m"], ["s", "h", "s"]]
    for us in sets:
        names = "abcde"
        part = lambda cls: [("{%s:%s}" % (names[i], cls if u not in NANOS else "n:1-3" if i == len(us) - 1 else "n:2"), u) for i, u in enumerate(us)]
        for cls in ("n:1-3", "n:4") if len(us) < 3 else ("n:2",):
            ps = part(cls)
            out.append(("duration::parse:" + "".join(us), parse("".join(t + u for t, u in ps)),
                        ok(Lin([(t, SECS[u]) for t, u in ps if u in SECS]), Lin([(t, NANOS[u]) for t, u in ps if u in NANOS]))))
    for u, k in SECS.items():
        out.append(("duration::parse:" + u, parse("0" + u), ok(Lin([]), Lin([]))))
        top = str(MAX // k)
        out.append(("duration::parse:" + u, parse(top + u), ok(Lin([(top, k)]), Lin([]))))
        for over in [str(MAX // k + 1), "9" * 20, "{n:n:1}" + "0" * 21]:
            out.append(("duration::parse:overflow", Succeeds(parse(over + u)), Make("false")))
    out.append(("duration::parse:overflow", Succeeds(parse("%ds1s" % MAX)), Make("false")))
    out.append(("duration::parse:overflow", Succeeds(parse("%ds1000ms" % MAX)), Make("false")))
    for u, k in NANOS.items():
        per = 10 ** 9 // k
        out.append(("duration::parse:" + u, parse("{n:n:1-4}" + str(per)[1:] + u), ok(Lin([("{n:n:1-4}", 1)]), Lin([]))))
        out.append(("duration::parse:" + u, parse("{n:n:1-4}{m:d:%d}" % (len(str(per)) - 1) + u),
                    ok(Lin([("{n:n:1-4}", 1)]), Lin([("{m:d:%d}" % (len(str(per)) - 1), k)]))))
        out.append(("duration::parse:" + u, parse("%d%s" % (per * 7 + 1, u)), ok(Lin([], 7), Lin([], k))))
        out.append(("duration::parse:" + u, parse("1s{n:n:1-3}" + u), ok(Lin([], 1), Lin([("{n:n:1-3}", k)]))))
    # to_string is the canonical text: largest units first, none that is zero
    lim = {"h": "n:1-5", "m": "5:1,2", "s": "5:1,2", "ms": "n:1-3", "us": "n:1-3"}
    for m in range(1, 32):
        us = [u for i, u in enumerate(order) if m >> i & 1]
        ps = [("{%s:%s}" % ("abcde"[i], lim[u]), u) for i, u in enumerate(us)]
        d = dur(Lin([(t, SECS[u]) for t, u in ps if u in SECS]), Lin([(t, NANOS[u]) for t, u in ps if u in NANOS]))
        out.append(("duration::to_string:" + "".join(us), Call("duration::to_string", d), Txt("".join(t + u for t, u in ps))))
    # what is below a microsecond is left out
    for pre, s, text in (([], 0, ""), ([("{b:n:1-3}", 10 ** 6)], 0, "{b:n:1-3}ms"), ([], 61, "1m1s")):
        out.append(("duration::to_string:below", Call("duration::to_string", dur(Lin([], s), Lin(pre + [("{u:n:1-3}", 1000), ("{r:d:3}", 1)]))),
                    Txt(text + "{u:n:1-3}us")))
        out.append(("duration::to_string:below", Call("duration::to_string", dur(Lin([], s), Lin(pre + [("{r:d:1,2}", 1)]))), Txt(text or "0s")))
    for s, n, t in [(0, 0, "0s"), (0, 999, "0s"), (59, 999999999, "59s999ms999us"), (60, 0, "1m"), (3599, 0, "59m59s"), (3600, 0, "1h"),
                    (MAX, 999999999, "5124095576030431h15s999ms999us"), (86400, 1000, "24h1us")]:
        out.append(("duration::to_string:limits", Call("duration::to_string", dur(Lin([], s), Lin([], n))), Txt(t)))
    return out


def run(ctx):
    ctx.rule("into_bytes, duration::parse and to_string agree with the documented factors; overflow is None or an error")
    laws.run(ctx, table())
