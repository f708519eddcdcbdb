"""Equational laws on the types that have several forms, decided by abstract interpretation on values read from abstract
contents: each is_ and as_ query names exactly the form that was read, the into_ conversions give what the other form reads
as, and constructors set exactly what they are given."""
import laws
from laws import At, Call, De, Disp, Make, Txt
from schema import B, I

A = "service::"
M = A + "volumes::mount::"
S, O, W = "{s:l:1-2}", "{t:l:1-2}", "{u:l:1}"
SV = A + "Service"


def sv(c, path):
    return At(De(SV, c), path)


def queries(out, adt, forms):
    """forms: [(suffix or None, value, payload or None)]; every is_x and as_x of the type is asked of every form."""
    isn = sorted({n for n, v, p, q in forms if n and "i" in q})
    asn = sorted({n for n, v, p, q in forms if n and "a" in q})
    t = adt.rsplit("::", 1)[-1].split("<")[0] if "<" not in adt else adt.split("<")[0].rsplit("::", 1)[-1]
    for n, v, p, q in forms:
        for m in isn:
            out.append(("%s::is_%s" % (t, m), Call((adt, "is_" + m), v), Make("true" if m == n else "false")))
        for m in asn:
            out.append(("%s::as_%s" % (t, m), Call((adt, "as_" + m), v), Make("Some", p) if m == n else Make("None")))


def variants(out):
    C = {"target": "/{c:p:1}"}
    ms = (("volume", "Volume", dict(C, type="volume", source=S)), ("bind", "Bind", dict(C, type="bind", source="./{h:p:1}")),
          ("tmpfs", "Tmpfs", dict(C, type="tmpfs", read_only=True)), ("npipe", "NamedPipe", dict(C, type="npipe", source="./{h:p:1}")),
          ("cluster", "Cluster", dict(C, type="cluster", source=S)), ("volume", "Volume", dict(C, type="volume")))
    mt = M + "Mount"
    snake = {"NamedPipe": "named_pipe"}
    queries(out, mt, [(snake.get(v, v.lower()), De(mt, c), At(De(mt, c), "@%s.0" % v), "ia") for k, v, c in ms])
    for k, v, c in ms:
        d = De(mt, c)
        out.append(("Mount::kind", Call((mt, "kind"), d), Txt(k)))
        out.append(("Mount::common", Call((mt, "common"), d), At(d, "@%s.0.common" % v)))
        for key, val in (("read_only", True), ("consistency", O), ("x-" + W, O)):
            e = De(mt, dict(c, **{key: val}))
            out.append(("Mount::common", Call((mt, "common"), e), At(e, "@%s.0.common" % v)))
        src = Make("None") if "source" not in c else Make("Some", Txt(c["source"]))
        out.append(("Mount::source_to_string", Call((mt, "source_to_string"), d), src))
        out.append(("Mount::from(%s)" % v, Call((mt, "from", M + v), At(d, "@%s.0" % v)), d))
    nm = A + "network_config::NetworkMode"
    de = lambda t: De(nm, t)
    ident = At(sv({"networks": [S]}, "network_config!@Networks.0@Short.0"), "[0]")
    queries(out, nm, [("none", de("none"), None, "i"), ("host", de("host"), None, "i"), ("service", de("service:" + S), ident, "ia"),
                      ("container", de("container:" + S), ident, "ia"), ("other", de("q" + S), Txt("q" + S), "ia")])
    ipc = A + "Ipc"
    queries(out, ipc, [("shareable", De(ipc, "shareable"), None, "i"), ("service", De(ipc, "service:" + S), ident, "ia"),
                       ("other", De(ipc, "q" + S), Txt("q" + S), "ia")])
    em = A + "deploy::endpoint_mode::EndpointMode"
    queries(out, em, [("vip", De(em, "vip"), None, "i"), ("dnsrr", De(em, "dnsrr"), None, "i"), (None, De(em, "q" + S), None, "")])
    cp = A + "deploy::resources::Capability"
    queries(out, cp, [("gpu", De(cp, "gpu"), None, "i"), ("tpu", De(cp, "tpu"), None, "i"), (None, De(cp, "q" + S), None, "")])
    pr = A + "ports::Protocol"
    queries(out, pr, [("tcp", De(pr, "tcp"), None, "i"), ("udp", De(pr, "udp"), None, "i"), (None, De(pr, "q" + S), None, "")])
    un = A + "user::IdOrName"
    n = I("n", 0, 2 ** 32 - 1)
    name = At(Call((A + "user::Name", "new"), Txt(S)), "!")
    queries(out, un, [("id", Call((un, "from", "u32"), Txt(n)), Txt(n), "ia"), ("name", Call((un, "from", A + "user::Name"), name), name, "ia")])
    bn = A + "build::network::Network"
    queries(out, bn, [("none", De(bn, "none"), None, "i"), (None, De(bn, "q" + S), None, "")])
    out.append(("build::Network::into_option", Call((bn, "into_option"), De(bn, "none")), Make("None")))
    out.append(("build::Network::into_option", Call((bn, "into_option"), De(bn, S)), Make("Some", ident)))
    cx = A + "build::context::Context"
    queries(out, cx, [("path", De(cx, S), Txt(S), "a"), ("path", De(cx, "./{h:p:1}"), Txt("./{h:p:1}"), "a"),
                      ])
    out.append(("Context::into_string", Call((cx, "into_string"), De(cx, S)), Make("Ok", Txt(S))))
    ct = A + "build::cache::CacheType"
    for c, nme, pay in (("type=registry,ref=" + S, "registry", De(A + "image::Image", S)), ("type=q" + S, "other", None)):
        v = At(De(A + "build::cache::Cache", c), "cache_type")
        for m in ("registry", "other"):
            out.append(("CacheType::is_" + m, Call((ct, "is_" + m), v), Make("true" if m == nme else "false")))
            if m != nme or pay:
                out.append(("CacheType::as_" + m, Call((ct, "as_" + m), v), Make("Some", pay) if m == nme else Make("None")))
    ssh = A + "build::ssh_auth::SshAuth"
    for adt, kind in (("network::Network", "networks"), ("volume::Volume", "volumes"), ("config::Config", "configs"), ("secret::Secret", "secrets")):
        r = "common::Resource<" + adt
        own = {"configs": {"file": S}, "secrets": {"file": S}}.get(kind, {"labels": {O: S}})
        top = lambda c: At(De("Compose", {"services": {}, kind: {"k": c}}), kind + "[0].1" + ("!" if kind in ("networks", "volumes") else ""))
        for ext, c in ((1, {"external": True}), (1, {"external": True, "name": S}), (0, own)) + (((0, dict(own, name=O)),) if kind in ("networks", "volumes") else ()):
            v = top(c)
            out.append(("Resource::is_external", Call((r, "is_external"), v), Make("true" if ext else "false")))
            out.append(("Resource::is_compose", Call((r, "is_compose"), v), Make("false" if ext else "true")))
            out.append(("Resource::as_compose", Call((r, "as_compose"), v), Make("None") if ext else Make("Some", De(adt, c))))
            if ext:
                nme = Make("Some", Txt(S)) if "name" in c else Make("None")
                out.append(("Resource::external", Call((r, "external"), nme), v))
            if kind in ("networks", "volumes"):
                out.append(("Resource::name", Call((r, "name"), v), Make("Some", Txt(c["name"])) if "name" in c else Make("None")))
        out.append(("Resource::from(%s)" % adt, Call((r, "from", adt), De(adt, own)), top(own)))


def lists(out):
    # an item or a list
    for f, path, item, adt in (("dns", "dns!", "1.2.3.4", "core::net::ip_addr::IpAddr"),
                               ("dns_search", "dns_search!", "q" + S, A + "hostname::Hostname"),
                               ("tmpfs", "tmpfs!", "/{c:p:1}", A + "volumes::AbsolutePath")):
        t = "common::ItemOrList<" + adt
        more = {"dns": "::1", "dns_search": "zzz", "tmpfs": "/z9z"}[f]
        one, lst, two = sv({f: item}, path), sv({f: [item]}, path), sv({f: [item, more]}, path)
        el = At(one, "@Item.0")
        el2 = At(sv({f: more}, path), "@Item.0")
        out += [("ItemOrList::as_item", Call((t, "as_item"), one), Make("Some", el)),
                ("ItemOrList::as_item", Call((t, "as_item"), lst), Make("Some", el)),
                ("ItemOrList::as_item", Call((t, "as_item"), two), Make("None")),
                ("ItemOrList::as_list", Call((t, "as_list"), one), Make("None")),
                ("ItemOrList::as_list", Call((t, "as_list"), two), Make("Some", At(two, "@List.0"))),
                ("ItemOrList::into_list", Call((t, "into_list"), one), Make("set", el)),
                ("ItemOrList::into_list", Call((t, "into_list"), one), At(lst, "@List.0")),
                ("ItemOrList::into_list", Call((t, "into_list"), two), Make("set", el, el2)),
                ("ItemOrList::from(item)", Call((t, "from", adt), el), one),
                ("ItemOrList::from(list)", Call((t, "from", "indexmap::set::IndexSet"), At(two, "@List.0")), two),
                ("IndexSet::from(ItemOrList)", Call(("indexmap::set::IndexSet<" + adt, "from", t), one), At(lst, "@List.0"))]
    E_, P = A + "env_file::EnvFile", "std::path::PathBuf"
    ef = lambda c: sv({"env_file": c}, "env_file!")
    L = lambda c: At(ef(c), "@List.0")
    for c, single, lst in ((S, S, [S]), ([S], S, [S]), ([{"path": S}], S, None), ([{"path": S, "required": False}], None, None),
                           ([S, "zz9"], None, None), ([{"path": S}, O], None, None)):
        out.append(("EnvFile::as_single", Call((E_, "as_single"), ef(c)), Make("None") if single is None else Make("Some", Txt(single))))
        out.append(("EnvFile::into_list", Call((E_, "into_list"), ef(c)), L(lst or c)))
    out.append(("EnvFile::from(PathBuf)", Call((E_, "from", P), Txt(S)), ef(S)))
    out.append(("EnvFile::from(String)", Call((E_, "from", "alloc::string::String"), Txt(S)), ef(S)))
    out.append(("EnvFile::from(List)", Call((E_, "from", "alloc::vec::Vec"), L([S, {"path": O}])), ef([S, {"path": O}])))
    # a list or a map
    T = "common::ListOrMap"
    lm = lambda c: De(T, c)
    n = I("n", 0, 2 ** 64 - 1)
    for lst, mp in (([S], {S: None}), ([S + "=" + O], {S: O}), ([S + "=true"], {S: True}), ([S + "=false"], {S: False}),
                    ([S + "=5"], {S: 5}), ([S + "=-5"], {S: -5}), ([S + "=2.5"], {S: 2.5}), ([S + "=1=2"], {S: "1=2"}),
                    ([S + "=" + O, "zz9"], {S: O, "zz9": None}), (["k9=" + O, S + "=7", "z9z"], {"k9": O, S: 7, "z9z": None})):
        texty = not any(isinstance(v, str) and v == O for v in mp.values())
        if texty or True:
            # (a text of two letters never reads as a number or boolean)
            out.append(("ListOrMap::into_map", Call((T, "into_map"), lm(lst)), Make("Ok", At(lm(mp), "@Map.0"))))
            out.append(("ListOrMap::into_map", Call((T, "into_map"), lm(mp)), Make("Ok", At(lm(mp), "@Map.0"))))
            out.append(("ListOrMap::into_list", Call((T, "into_list"), lm(mp)), At(lm(lst), "@List.0")))
            out.append(("ListOrMap::into_list", Call((T, "into_list"), lm(lst)), At(lm(lst), "@List.0")))
        out.append(("ListOrMap::as_list", Call((T, "as_list"), lm(lst)), Make("Some", At(lm(lst), "@List.0"))))
        out.append(("ListOrMap::as_list", Call((T, "as_list"), lm(mp)), Make("None")))
        out.append(("ListOrMap::as_map", Call((T, "as_map"), lm(mp)), Make("Some", At(lm(mp), "@Map.0"))))
        out.append(("ListOrMap::as_map", Call((T, "as_map"), lm(lst)), Make("None")))
        out.append(("ListOrMap::is_empty", Call((T, "is_empty"), lm(mp)), Make("false")))
        out.append(("ListOrMap::is_empty", Call((T, "is_empty"), lm(lst)), Make("false")))
    for c in ([], {}):
        out.append(("ListOrMap::is_empty", Call((T, "is_empty"), lm(c)), Make("true")))
    out.append(("ListOrMap::into_map", Call((T, "into_map"), lm([S + "="])), Make("Ok", At(lm({S: None}), "@Map.0"))))
    out.append(("ListOrMap::into_map", laws.Succeeds(Call((T, "into_map"), lm(["=" + S]))), Make("false")))
    out.append(("ListOrMap::into_map", laws.Succeeds(Call((T, "into_map"), lm([S, ""]))), Make("false")))
    sp = lambda e: Call((T, "into_map_split_on"), e, Make("list", Txt(ord("=")), Txt(ord(":"))))
    for lst, mp in (([S + ":" + O], {S: O}), ([S + "=" + O], {S: O}), ([S + ":a=b"], {S: "a=b"}), ([S + "=a:b"], {S: "a:b"}), ([S], {S: None}),
                    ([S + ":"], {S: None})):
        out.append(("ListOrMap::into_map_split_on", sp(lm(lst)), Make("Ok", At(lm(mp), "@Map.0"))))
        out.append(("ListOrMap::into_map_split_on", sp(lm(mp)), Make("Ok", At(lm(mp), "@Map.0"))))
    out.append(("ListOrMap::into_map_split_on", Call((T, "into_map_split_on"), lm([S + "=" + O]), Make("list", Txt(ord(":")))),
                Make("Ok", At(lm({S + "=" + O: None}), "@Map.0"))))
    # commands and tests
    CM, HT = A + "Command", A + "healthcheck::Test"
    out.append(("Command::from(String)", Call((CM, "from", "alloc::string::String"), Txt(S)), De(CM, S)))
    out.append(("Command::from(Vec)", Call((CM, "from", "alloc::vec::Vec"), Make("list", Txt(S), Txt(O))), De(CM, [S, O])))



def builders(out):
    mt = M + "Mount"
    ap = At(De(mt, {"type": "tmpfs", "target": "/{c:p:1}"}), "@Tmpfs.0.common.target")
    base = {"target": "/{c:p:1}"}
    cm = Call((M + "Common", "new"), ap)
    v = lambda kind, **k: De(mt, dict(base, type=kind, **k))
    for kind, V in (("volume", "Volume"), ("tmpfs", "Tmpfs")):
        out.append(("%s::new" % V, Call((mt, "from", M + V), Call((M + V, "new"), cm)), v(kind)))
        out.append(("%s::from(Common)" % V, Call((mt, "from", M + V), Call((M + V, "from", M + "Common"), cm)), v(kind)))
    AP = A + "volumes::AbsolutePath"
    out.append(("Tmpfs::from_target", Call((mt, "from", M + "Tmpfs"), Call((M + "Tmpfs", "from_target"), ap)), v("tmpfs")))
    out.append(("Tmpfs::from(AbsolutePath)", Call((mt, "from", M + "Tmpfs"), Call((M + "Tmpfs", "from", AP), ap)), v("tmpfs")))
    out.append(("Common::from(AbsolutePath)", Call((M + "Common", "from", AP), ap), cm))
    hp = At(De(mt, dict(base, type="bind", source="./{h:p:1}")), "@Bind.0.source")
    full = {"read_only": True, "consistency": O, "x-" + W: S}
    for k, extra in (("", {}), ("full", full)):
        c = At(De(mt, dict(base, type="tmpfs", **extra)), "@Tmpfs.0.common")
        out.append(("Bind::new", Call((mt, "from", M + "Bind"), Call((M + "Bind", "new"), hp, c)), v("bind", source="./{h:p:1}", **extra)))
        out.append(("Bind::from", Call((mt, "from", M + "Bind"), Call((M + "Bind", "from", "("), Make("tuple", hp, c))), v("bind", source="./{h:p:1}", **extra)))
        out.append(("NamedPipe::from", Call((mt, "from", M + "NamedPipe"), Call((M + "NamedPipe", "from", "("), Make("tuple", hp, c))),
                    v("npipe", source="./{h:p:1}", **extra)))
        out.append(("Cluster::from", Call((mt, "from", M + "Cluster"), Call((M + "Cluster", "from", "("), Make("tuple", Txt(S), c))),
                    v("cluster", source=S, **extra)))
        out.append(("Volume::new", Call((mt, "from", M + "Volume"), Call((M + "Volume", "new"), c)), v("volume", **extra)))
    BO = M + "BindOptions"
    for p in ("private", "rshared", "slave", "rprivate", "shared", "rslave"):
        o = At(De(mt, dict(base, type="bind", source="./a", bind={"propagation": p})), "@Bind.0.bind!")
        out.append(("BindOptions::from(BindPropagation)", Call((BO, "from", M + "BindPropagation"), At(o, "propagation!")), o))
        out.append(("BindOptions::from(Option)", Call((BO, "from", "core::option::Option<" + M), At(o, "propagation")), o))
    for p in "zZ":
        o = At(De(mt, dict(base, type="bind", source="./a", bind={"selinux": p})), "@Bind.0.bind!")
        out.append(("BindOptions::from(SELinux)", Call((BO, "from", A + "volumes::SELinux"), At(o, "selinux!")), o))
    Sv = A + "volumes::ShortVolume"
    out.append(("ShortVolume::new", Call((Sv, "new"), ap), De(Sv, "/{c:p:1}")))
    out.append(("ShortVolume::from", Call((Sv, "from", AP), ap), De(Sv, "/{c:p:1}")))
    SO, So = A + "volumes::ShortOptions", A + "volumes::Source"
    for s in (S, "./{h:p:1}", "/{h:p:1}"):
        o = At(De(Sv, s + ":/{c:p:1}"), "options!")
        out.append(("ShortOptions::new", Call((SO, "new"), At(o, "source")), o))
        out.append(("ShortOptions::from", Call((SO, "from", So), At(o, "source")), o))
    P_, SP, SR, Rg = A + "ports::Port", A + "ports::ShortPort", A + "ports::ShortRanges", A + "ports::Range"
    p, q = I("n", 0, 65535), I("m", 0, 65535)
    out.append(("Port::new", Call((P_, "new"), Txt(p)), De(P_, {"target": p})))
    out.append(("ShortPort::new", Call((SP, "new"), At(De(SP, "{h:n:1-3}:{c:n:1-3}"), "ranges")), De(SP, "{h:n:1-3}:{c:n:1-3}")))
    r = lambda a: At(Call((Rg, "new"), Txt(a[0]), Make("Some", Txt(a[1])) if a[1] is not None else Make("None")), "!")
    for h, c in (((p, None), (q, None)), ((3, 5), (8, 10)), ((0, 0), (q, None)), ((4, 4), (9, 9)), ((65000, 65535), (0, 535)), ((1, 65535), (1, 65535))):
        e = Call((SR, "new"), Make("Some", r(h)), r(c))
        out.append(("ShortRanges::new", laws.Succeeds(e), Make("true")))
        out.append(("ShortRanges::host", Call((SR, "host"), At(e, "!")), Make("Some", r(h))))
        out.append(("ShortRanges::container", Call((SR, "container"), At(e, "!")), r(c)))
    for h, c in (((3, 5), (8, 11)), ((3, 5), (q, None)), ((p, None), (8, 10)), ((0, 65535), (0, 65534)), ((0, 65535), (q, None)), ((4, 5), (9, 9))):
        out.append(("ShortRanges::new", laws.Succeeds(Call((SR, "new"), Make("Some", r(h)), r(c))), Make("false")))
        one = At(Call((SR, "new"), Make("None"), r(c)), "!")
        out.append(("ShortRanges::replace_host", laws.Succeeds(Call((SR, "replace_host"), one, r(h))), Make("false")))
        out.append(("ShortRanges::replace_host", laws.Mut((SR, "replace_host"), one, r(h)), one))
        two = At(Call((SR, "new"), Make("Some", r(h)), r(h)), "!")
        out.append(("ShortRanges::replace_container", laws.Succeeds(Call((SR, "replace_container"), two, r(c))), Make("false")))
        out.append(("ShortRanges::replace_container", laws.Mut((SR, "replace_container"), two, r(c)), two))
    for old, h, c in ((None, (3, 5), (8, 10)), ((1, 3), (3, 5), (8, 10)), (None, (p, None), (q, None)), ((0, 65535), (0, 65535), (0, 65535)),
                      ((9, 9), (p, None), (q, None))):
        o = Make("None") if old is None else Make("Some", r(old))
        one = At(Call((SR, "new"), o, r(c)), "!")
        new = At(Call((SR, "new"), Make("Some", r(h)), r(c)), "!")
        out.append(("ShortRanges::replace_host", Call((SR, "replace_host"), one, r(h)), Make("Ok", o)))
        out.append(("ShortRanges::replace_host", laws.Mut((SR, "replace_host"), one, r(h)), new))
        out.append(("ShortRanges::take_host", Call((SR, "take_host"), one), o))
        out.append(("ShortRanges::take_host", laws.Mut((SR, "take_host"), one), At(Call((SR, "new"), Make("None"), r(c)), "!")))
        out.append(("ShortRanges::replace_container", Call((SR, "replace_container"), one, r(h)), Make("Ok", r(c))))
        out.append(("ShortRanges::replace_container", laws.Mut((SR, "replace_container"), one, r(h)), At(Call((SR, "new"), o, r(h)), "!")))
    for a in ((p, None), (3, 7), (0, 65534), (5, 5)):
        out.append(("Range::start", Call((Rg, "start"), r(a)), Txt(a[0])))
        if a[1] != a[0]:
            out.append(("Range::end", Call((Rg, "end"), r(a)), Make("None") if a[1] is None else Make("Some", Txt(a[1]))))
        out.append(("Range::size", Call((Rg, "size"), r(a)), Txt(1 if a[1] is None else a[1] - a[0] + 1)))
    Ch, Cc, Ct = A + "build::cache::Cache", A + "build::cache::CacheType", A + "build::cache::CacheOption"
    im = De(A + "image::Image", S)
    for e in (Call((Ch, "from_image"), im), Call((Ch, "from", A + "image::Image"), im), Call((Ch, "from", Cc), Call((Cc, "from", A + "image::Image"), im))):
        out.append(("Cache::from_image", e, De(Ch, "type=registry,ref=" + S)))
    CS = A + "config_or_secret::ConfigOrSecret"
    ident = At(sv({"networks": [S]}, "network_config!@Networks.0@Short.0"), "[0]")
    out.append(("ConfigOrSecret::from", Call((CS, "from", "common::keys::Identifier"), ident), De(CS, {"source": S})))
    out.append(("Build::from(Context)", Call((A + "build::Build", "from", A + "build::context::Context"), De(A + "build::context::Context", S)),
                De(A + "build::Build", {"context": S})))
    out.append(("env_file::Config::from", Call((A + "env_file::Config", "from", "std::path::PathBuf"), Txt(S)), De(A + "env_file::Config", {"path": S})))
    out.append(("env_file::Config::from", Call((A + "env_file::Config", "from", "alloc::string::String"), Txt(S)), De(A + "env_file::Config", {"path": S})))
    out.append(("Include::from", Call(("include::Include", "from", "std::path::PathBuf"), Txt(S)), De("include::Include", {"path": S})))
    for t, k in (("config", "Config"), ("secret", "Secret")):
        d = "%s::%s" % (t, k)
        for c in ({"file": S}, {"environment": S}) + (({"content": S},) if t == "config" else ()):
            out.append(("%s::from(Source)" % k, Call((d, "from", t + "::Source"), At(De(d, c), "source")), De(d, c)))
        out.append(("%s::Source::from(PathBuf)" % t, Call((t + "::Source", "from", "std::path::PathBuf"), Txt(S)), At(De(d, {"file": S}), "source")))
    HC = A + "healthcheck::Healthcheck"
    NC = A + "network_config::NetworkConfig"
    out.append(("NetworkConfig::from(NetworkMode)", Call((NC, "from", A + "network_config::NetworkMode"), De(A + "network_config::NetworkMode", "host")),
                sv({"network_mode": "host"}, "network_config!")))
    out.append(("NetworkConfig::from(Networks)", Call((NC, "from", "common::short_or_long"), sv({"networks": [S]}, "network_config!@Networks.0")),
                sv({"networks": [S]}, "network_config!")))
    VF = A + "VolumesFrom"
    for c in (S, "container:q" + S):
        s = De(A + "VolumesFromSource", c)
        out.append(("VolumesFrom::from", Call((VF, "from", A + "VolumesFromSource"), s), De(VF, c)))
    out.append(("Link::from(Identifier)", Call((A + "Link", "from", "common::keys::Identifier"), ident), De(A + "Link", S)))


def table():
    out = []
    variants(out)
    lists(out)
    builders(out)
    return out


def run(ctx):
    ctx.rule("is_x/as_x name the form that was read; into_x gives what the other form reads as; constructors set what they are given")
    laws.run(ctx, table())
