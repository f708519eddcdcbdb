"""Equational laws between the short and the long syntax, decided by abstract interpretation of the conversions on values
read from abstract contents: converting to the long syntax gives what the long content reads as, converting to the short
syntax gives what the short content reads as, and what has no short syntax is handed back unchanged."""
import laws, schema
from laws import At, Call, De, Items, Make, Txt
from schema import B, I

A = "service::"
P = A + "ports::"
V = A + "volumes::"
M = V + "mount::"
SOL = "common::short_or_long::ShortOrLong<"
S, O, W = "{s:l:1-2}", "{t:l:1-2}", "{u:l:1}"


def de(adt, c, path=None):
    d = De(adt, c)
    return At(d, path) if path else d


def service(c, path):
    return At(De(A + "Service", c), path)


def ports(out):
    sp, lp = P + "ShortPort", P + "Port"
    long = lambda e: Call((sp, "into_long_iter"), e)
    short = lambda e: Call((lp, "into_short"), e)
    one = []
    for pre in ("", "{h:n:1-3}:", "1.2.3.4:{h:n:1-3}:", "[::1]:{h:n:1-3}:", "1.2.3.4::"):
        for suf in ("", "/tcp", "/udp", "/x{o:l:1-2}"):
            one.append(pre + "{c:n:1-3}" + suf)
    for t in one:
        # Every part of a single port survives to the long syntax and back; nothing else is set.
        out.append(("ShortPort::into_long_iter", At(Items(long(de(sp, t))), "#"), Txt(1)))
        l0 = At(Items(long(de(sp, t))), "[0]")
        out.append(("ShortPort::into_long_iter", At(l0, "target"), de(sp, t, "ranges.container().start()")))
        out.append(("ShortPort::into_long_iter", short(l0), Make("Ok", de(sp, t))))
        if "{h:" in t:
            out.append(("ShortPort::into_long_iter", At(l0, "published!.start()"), de(sp, t, "ranges.host()!.start()")))
            out.append(("ShortPort::into_long_iter", At(l0, "published!.end()"), Make("None")))
        else:
            out.append(("ShortPort::into_long_iter", At(l0, "published"), Make("None")))
        for f in ("host_ip", "protocol"):
            out.append(("ShortPort::into_long_iter", At(l0, f), de(sp, t, f)))
        for f in ("name", "app_protocol", "mode"):
            out.append(("ShortPort::into_long_iter", At(l0, f), Make("None")))
    for pre in ("", "1.2.3.4:", "[::1]:"):
        for suf, pr in (("", {}), ("/tcp", {"protocol": "tcp"}), ("/x{o:l:1-2}", {"protocol": "x{o:l:1-2}"})):
            for h, c in (((None, None), (3, 3)), ((None, None), (8000, 8002)), ((7, 8), (9, 10)), ((1, 4), (65532, 65535)),
                         ((80, 80), (80, 80)), ((None, None), (0, 2))):
                if pre and h[0] is None:
                    continue
                t = pre + ("%d-%d:" % h if h[0] is not None else "") + "%d-%d" % c + suf
                want = []
                for k in range(c[0], c[1] + 1):
                    d = dict({"target": k}, **pr)
                    if h[0] is not None:
                        d["published"] = str(h[0] + k - c[0])
                    if pre:
                        d["host_ip"] = pre.strip(":[]") if "[" not in pre else "::1"
                    want.append(de(lp, d))
                out.append(("ShortPort::into_long_iter", Items(long(de(sp, t))), Make("list", *want)))
    T = I("p", 0, 65535)
    for c in ({}, {"published": "{h:n:1-3}"}, {"protocol": "tcp"}, {"protocol": "udp"}, {"protocol": "x{o:l:1-2}"},
              {"host_ip": "1.2.3.4"}, {"host_ip": "::1", "published": "{h:n:1-3}"},
              {"host_ip": "1.2.3.4", "published": "{h:n:1-3}", "protocol": "x{o:l:1-2}"}, {"published": "9-9"}):
        d = dict({"target": T}, **c)
        if c.get("published") == "9-9":
            continue
        s = short(de(lp, d))
        for f in ("host_ip", "protocol"):
            out.append(("Port::into_short", At(s, "!." + f), de(lp, d, f)))
        out.append(("Port::into_short", At(s, "!.ranges.host()"), de(lp, d, "published")))
        out.append(("Port::into_short", At(s, "!.ranges.container().start()"), de(lp, d, "target")))
        out.append(("Port::into_short", At(s, "!.ranges.container().end()"), Make("None")))
        out.append(("Port::into_short", Items(long(At(s, "!"))), Make("list", de(lp, d))))
        for k, v in (("name", S), ("app_protocol", S), ("mode", "host"), ("mode", "ingress"), ("x-" + S, O), ("published", "3-4")):
            if k == "published" and "host_ip" in c and len(c) > 2:
                continue
            e = de(lp, dict(d, **{k: v}))
            out.append(("Port::into_short", short(e), Make("Err", e)))
    for n in range(1, 4):
        mix = ["7:8/tcp", {"target": 5}, {"target": T, "name": S}, "3-4", {"target": 6, "published": "{h:n:1-2}", "mode": "host"}]
        for k in range(len(mix)):
            c = [mix[(k + i) % len(mix)] for i in range(n)]
            ps = service({"ports": c}, "ports")
            ws, ls = [], []
            for x in c:
                if isinstance(x, str):
                    ws.append(Make("Ok", de(sp, x)))
                    ls += [de(lp, {"target": 3}), de(lp, {"target": 4})] if x == "3-4" else [
                        de(lp, {"target": 8, "published": "7", "protocol": "tcp"})]
                else:
                    ws.append(short(de(lp, x)))
                    ls.append(de(lp, x))
            out.append(("ports::into_short_iter", Items(Call(P + "into_short_iter", ps)), Make("list", *ws)))
            out.append(("ports::into_long_iter", Items(Call(P + "into_long_iter", ps)), Make("list", *ls)))


def volumes(out):
    sv, mt = V + "ShortVolume", M + "Mount"
    C = "{c:p:1-2}"
    pairs = [("/" + C, {"type": "volume", "target": "/" + C})]
    for opt, ro, se in (("", 0, None), (":ro", 1, None), (":rw", 0, None), (":z", 0, "z"), (":Z", 0, "Z"), (":ro,z", 1, "z"),
                        (":Z,ro", 1, "Z"), (":rw,Z", 0, "Z")):
        for src in (S, "./{h:p:1-2}", "/{h:p:1-2}", "../{h:p:1}"):
            c = {"type": "volume" if src == S else "bind", "source": src, "target": "/" + C}
            if ro:
                c["read_only"] = True
            if src != S:
                c["bind"] = dict({"create_host_path": True}, **({"selinux": se} if se else {}))
            elif se:
                c = None        # (named volumes have no SELinux option)
            pairs.append((src + ":/" + C + opt, c))
    for s, l in pairs:
        if l is None:
            l0 = {"type": "volume", "source": S, "target": "/" + C}
            if "ro" in s:
                l0["read_only"] = True
            out.append(("ShortVolume::into_long", Call((sv, "into_long"), de(sv, s)), de(mt, l0)))
            continue
        out.append(("ShortVolume::into_long", Call((sv, "into_long"), de(sv, s)), de(mt, l)))
        out.append(("Mount::from(ShortVolume)", Call((mt, "from", sv), de(sv, s)), de(mt, l)))
        out.append(("Mount::into_short", Call((mt, "into_short"), de(mt, l)), Make("Ok", de(sv, s))))
        k = l["type"]
        out.append(("%s::into_short" % k.title(), Call((M + k.title(), "into_short"), de(mt, l, "@%s.0" % k.title())),
                    Make("Ok", de(sv, s))))
    for base in ({"type": "volume", "target": "/" + C}, {"type": "volume", "source": S, "target": "/" + C},
                 {"type": "volume", "source": S, "target": "/" + C, "read_only": True},
                 {"type": "bind", "source": "./{h:p:1}", "target": "/" + C, "bind": {"create_host_path": True}},
                 {"type": "bind", "source": "/{h:p:1}", "target": "/" + C, "bind": {"create_host_path": True, "selinux": "z"}}):
        k = base["type"]
        more = [{"consistency": "cached"}, {"x-" + O: W}]
        if k == "volume":
            more += [{"volume": {"nocopy": True}}, {"volume": {"subpath": O}}, {"volume": {"x-" + O: W}}]
            if "source" not in base:
                more += [{"read_only": True}]
            e = de(mt, dict(base, volume={}))
            out.append(("Mount::into_short", Call((mt, "into_short"), e), Call((mt, "into_short"), de(mt, base))))
        else:
            b = base["bind"]
            more += [{"bind": dict(b, propagation=p)} for p in ("private", "rshared", "slave")]
            more += [{"bind": dict(b, **{"x-" + O: W})}, {"bind": {"selinux": "z"}}, {"bind": {"propagation": "rslave"}}]
        for m in more:
            e = de(mt, dict(base, **m))
            out.append(("Mount::into_short", Call((mt, "into_short"), e), Make("Err", e)))
            v = At(e, "@%s.0" % k.title())
            out.append(("%s::into_short" % k.title(), Call((M + k.title(), "into_short"), v), Make("Err", v)))
    for c in ({"type": "tmpfs", "target": "/" + C}, {"type": "tmpfs", "target": "/" + C, "tmpfs": {"mode": I("m", 0, 511)}},
              {"type": "npipe", "source": "./" + S, "target": "/" + C}, {"type": "cluster", "source": S, "target": "/" + C}):
        out.append(("Mount::into_short", Call((mt, "into_short"), de(mt, c)), Make("Err", de(mt, c))))
    mix = [S + ":/a:ro", {"type": "volume", "source": O, "target": "/b"}, {"type": "tmpfs", "target": "/t"}, "./{h:p:1}:/c:Z", "/d",
           {"type": "bind", "source": "/{h:p:1}", "target": "/e", "read_only": True, "bind": {"create_host_path": True}}]
    for n in (1, 2, 3, 6):
        for k in range(len(mix)):
            c = [mix[(k + i) % len(mix)] for i in range(n)]
            vs = service({"volumes": c}, "volumes")
            out.append(("volumes::into_short_iter", Items(Call(V + "into_short_iter", vs)), Make("list", *[
                Make("Ok", de(sv, x)) if isinstance(x, str) else Call((mt, "into_short"), de(mt, x)) for x in c])))
            out.append(("volumes::into_long_iter", Items(Call(V + "into_long_iter", vs)), Make("list", *[
                Call((sv, "into_long"), de(sv, x)) if isinstance(x, str) else de(mt, x) for x in c])))
            if n > 3:
                break


def others(out):
    N = I("n", 0, 2 ** 63)
    B_, U = A + "build::Build", A + "ulimit::Ulimit"
    CS, EC, INC = A + "config_or_secret::ConfigOrSecret", A + "env_file::Config", "include::Include"
    IM = "indexmap::map::IndexMap"
    sol = {"build": SOL + A + "build::context::Context", "ulimit": SOL + A + "limit::Limit<u64>", "cs": SOL + "common::keys::Identifier",
           "env": SOL + "std::path::PathBuf, " + EC, "inc": SOL + "std::path::PathBuf, " + INC}
    at = {"build": lambda c: service({"build": c}, "build!"), "ulimit": lambda c: service({"ulimits": {"nofile": c}}, "ulimits[0].1"),
          "configs": lambda c: service({"configs": [c]}, "configs[0]"), "secrets": lambda c: service({"secrets": [c]}, "secrets[0]"),
          "env": lambda c: service({"env_file": [c]}, "env_file!@List.0[0]"),
          "inc": lambda c: At(De("Compose", {"services": {}, "include": [c]}), "include[0]")}
    fields = (("build", "build", B_, S, {"context": S}), ("ulimit", "ulimit", U, N, {"soft": N, "hard": N}),
              ("configs", "cs", CS, S, {"source": S}), ("secrets", "cs", CS, S, {"source": S}),
              ("env", "env", EC, S, {"path": S}), ("inc", "inc", INC, S, {"path": S}))
    longs = {"build": [{"context": S, "target": O}, {"dockerfile": S}, {}], "ulimit": [{"soft": I("a", 0, 1000), "hard": I("b", 1001, 2 ** 63)}],
             "configs": [{"source": S, "uid": "5"}, {"source": S, "target": O}], "secrets": [{"source": S, "mode": I("m", 1, 511)}],
             "env": [{"path": S, "required": False}], "inc": [{"path": S, "project_directory": O}, {"path": [S, "zzz"]}]}
    for f, s, adt, short, long in fields:
        mk = at[f]
        out.append(("ShortOrLong::into_long", Call((sol[s], "into_long"), mk(short)), de(adt, long)))
        out.append(("%s::from(ShortOrLong)" % adt.rsplit("::", 1)[-1], Call((adt, "from", sol[s]), mk(short)), de(adt, long)))
        out.append(("%s::as_short" % adt, Call((adt, "as_short"), de(adt, long)), Make("Some", At(mk(short), "@Short.0"))))
        out.append(("ShortOrLong::as_short", Call((sol[s], "as_short"), mk(short)), Make("Some", At(mk(short), "@Short.0"))))
        out.append(("ShortOrLong::as_short", Call((sol[s], "as_short"), mk(long)), Make("Some", At(mk(short), "@Short.0"))))
        for c in longs[f] + [long]:
            out.append(("ShortOrLong::into_long", Call((sol[s], "into_long"), mk(c)), de(adt, c)))
            if c is not long:
                out.append(("%s::as_short" % adt, Call((adt, "as_short"), de(adt, c)), Make("None")))
                out.append(("ShortOrLong::as_short", Call((sol[s], "as_short"), mk(c)), Make("None")))
    # A long syntax that sets any other key has no short syntax.
    own = {B_: "context", CS: "source", EC: "path", INC: "path", U: ""}
    for x in schema.T:
        if x.adt not in own:
            continue
        for key, content, exps in x.keys:
            if key is None or key == own[x.adt] or any(p == "" for p, _ in exps) or x.adt == U and not key.startswith("x-"):
                continue
            c = dict(x.base, **{key: content})
            if x.adt == B_:
                c.setdefault("context", ".")
            if isinstance(content, B) or content is False and x.adt != EC or content in ({}, []):
                c = dict(c, **{key: x.adt != EC})
            if x.adt == EC and content is True:
                continue
            if content in ({}, []):
                continue
            out.append(("%s::as_short" % x.adt, Call((x.adt, "as_short"), de(x.adt, c)), Make("None")))
    dep, net = A + "Dependency", A + "network_config::Network"
    for c in ([S], [S, "q9"], ["q9", S, "r9"]):
        d = service({"depends_on": c}, "depends_on")
        n = service({"networks": c}, "network_config!@Networks.0")
        dl = {k: {"condition": "service_started"} for k in c}
        out.append(("ShortOrLong::into_long", Call((SOL + "indexmap::set::IndexSet<common::keys::Identifier, std::hash::random::RandomState>, indexmap::map::IndexMap<common::keys::Identifier, service::Dependency", "into_long"), d),
                    service({"depends_on": dl}, "depends_on@Long.0")))
        out.append(("ShortOrLong::into_long", Call((SOL + "indexmap::set::IndexSet<common::keys::Identifier, std::hash::random::RandomState>, indexmap::map::IndexMap<common::keys::Identifier, core::option::Option", "into_long"), n),
                    service({"networks": {k: None for k in c}}, "network_config!@Networks.0@Long.0")))


def table():
    out = []
    ports(out)
    volumes(out)
    others(out)
    return out


def run(ctx):
    ctx.rule("into_long(de(short content)) == de(long content); into_short(de(long content)) == Ok(de(short content)) or Err of itself")
    laws.run(ctx, table())
