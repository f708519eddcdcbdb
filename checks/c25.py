"""Abstract interpretation of parsing on text templates (each hole a run of abstract characters), followed through the
public fields and accessors of the result: on every accepting path the value at each documented place must be the
term over exactly the characters of its hole (or the documented constant), and absent parts must be absent."""
import c01, forms, landing
from landing import S, N, C, V, NONE, instances
from texts import pmap

P = {"tcp": "Tcp", "udp": "Udp"}
T = []


def t(adt, tmpl, *exps):
    T.append((adt, tmpl, exps))


A = "service::"
for u, names in (("Bytes", "b B"), ("Kilobytes", "k K kb kB Kb KB"), ("Megabytes", "m M mb mB Mb MB"),
                 ("Gigabytes", "g G gb gB Gb GB")):
    for n in names.split():
        if n in ("b", "k", "kb", "m", "mb", "g", "gb"):
            t(A + "byte_value::ByteValue", "{n:n:1-19}" + n, ("@%s.0" % u, N("n")))
d = A + "device::"
t(d + "Device", "{h:l:1-4}:/{c:p:1-4}", ("host_path", S("{h}")), ("container_path.as_path()", S("/{c}")),
  ("permissions.any()", C(0)))
t(d + "Device", "/{h:p:1-4}:/{c:p:1-4}", ("host_path", S("/{h}")), ("container_path.as_path()", S("/{c}")))
for m in range(1, 8):
    s = "".join(c for i, c in enumerate("rwm") if m >> i & 1)
    fl = [("read", C("r" in s)), ("write", C("w" in s)), ("mknod", C("m" in s))]
    t(d + "Permissions", s, *fl)
    t(d + "Permissions", s[::-1], *fl)
    pre = [("permissions." + a, b) for a, b in fl]
    t(d + "Device", "/{h:p:1-2}:/{c:p:1-2}:" + s, ("host_path", S("/{h}")), ("container_path.as_path()", S("/{c}")), *pre)
    t(d + "CgroupRule", "c {a:n:1-3}:{b:n:1-3} " + s, ("major@Integer.0", N("a")), ("minor@Integer.0", N("b")),
      ("kind", V("Char")), *pre)
for c, k in (("a", "All"), ("b", "Block"), ("c", "Char")):
    t(d + "CgroupRule", c + " {a:n:1-4}:* r", ("kind", V(k)), ("major@Integer.0", N("a")), ("minor", V("All")))
    t(d + "CgroupRule", c + " *:{a:n:1-4} w", ("kind", V(k)), ("minor@Integer.0", N("a")), ("major", V("All")))
    t(d + "Kind", c, ("", V(k)))
t(d + "MajorMinorNumber", "{a:n:1-5}", ("@Integer.0", N("a")))
t(d + "MajorMinorNumber", "*", ("", V("All")))
p = A + "ports::"
t(p + "Range", "{a:n:1-5}", ("start()", N("a")), ("end()", NONE))
t(p + "Range", "1{a:d:1-4}-2{b:d:4,1-3}", ("start()", N("1{a}")), ("end()!", N("2{b}")))
t(p + "ShortRanges", "{a:n:1-5}", ("host()", NONE), ("container().start()", N("a")), ("container().end()", NONE))
t(p + "ShortRanges", "{a:n:1-5}:{b:n:1-5}", ("host()!.start()", N("a")), ("container().start()", N("b")),
  ("host()!.end()", NONE), ("container().end()", NONE))
t(p + "ShortRanges", "1{a:d:1-2}-2{b:d:2}:3{c:d:1-2}-4{d:d:2}", ("host()!.start()", N("1{a}")), ("host()!.end()!", N("2{b}")),
  ("container().start()", N("3{c}")), ("container().end()!", N("4{d}")))
t(p + "ShortRanges", "3{c:d:1-2}-4{d:d:2}", ("host()", NONE), ("container().start()", N("3{c}")), ("container().end()!", N("4{d}")))
for pr in ("tcp", "udp"):
    t(p + "ShortPort", "{a:n:1-5}:{b:n:1-5}/" + pr, ("ranges.host()!.start()", N("a")),
      ("ranges.container().start()", N("b")), ("host_ip", NONE), ("protocol!", V(P[pr])))
    t(p + "ShortPort", "1.2.3.4:{a:n:1-3}:{b:n:1-3}/" + pr, ("ranges.host()!.start()", N("a")),
      ("ranges.container().start()", N("b")), ("host_ip", V("Some")), ("protocol!", V(P[pr])))
    t(A + "expose::Expose", "{a:n:1-5}/" + pr, ("range.start()", N("a")), ("range.end()", NONE), ("protocol!", V(P[pr])))
t(p + "ShortPort", "{b:n:1-5}", ("ranges.host()", NONE), ("ranges.container().start()", N("b")), ("host_ip", NONE),
  ("protocol", NONE))
t(p + "ShortPort", "{b:n:1-5}/x{o:l:1-3}", ("ranges.container().start()", N("b")), ("protocol!@Other.0", S("x{o}")))
t(p + "ShortPort", "1.2.3.4::{b:n:1-4}", ("ranges.host()", NONE), ("ranges.container().start()", N("b")),
  ("host_ip", V("Some")), ("protocol", NONE))
t(p + "ShortPort", "[::1]:{a:n:1-2}:{b:n:1-3}", ("ranges.host()!.start()", N("a")), ("ranges.container().start()", N("b")),
  ("host_ip", V("Some")))
t(p + "ShortPort", "1{a:d:1-2}-2{b:d:2}:3{c:d:1-2}-4{d:d:2}", ("ranges.host()!.start()", N("1{a}")),
  ("ranges.host()!.end()!", N("2{b}")), ("ranges.container().start()", N("3{c}")), ("ranges.container().end()!", N("4{d}")))
t(A + "expose::Expose", "{a:n:1-5}", ("range.start()", N("a")), ("range.end()", NONE), ("protocol", NONE))
t(A + "expose::Expose", "1{a:d:1-2}-2{b:d:2}", ("range.start()", N("1{a}")), ("range.end()!", N("2{b}")), ("protocol", NONE))
t(A + "expose::Expose", "1{a:d:1-2}-2{b:d:2}/x{o:l:1-3}", ("range.start()", N("1{a}")), ("range.end()!", N("2{b}")),
  ("protocol!@Other.0", S("x{o}")))
n = A + "network_config::"
t(n + "MacAddress", ":".join("{%s:x:2}" % c for c in "abcdef"),
  *[("0[%d]" % i, N(c, 16)) for i, c in enumerate("abcdef")])
for k in ("none", "host"):
    t(n + "NetworkMode", k, ("", V(k.title())), ("is_%s()" % k, C(1)))
t(n + "NetworkMode", "service:{s:i:1-6}", ("@Service.0.as_str()", S("{s}")), ("as_service()!.as_str()", S("{s}")))
t(n + "NetworkMode", "container:{s:i:1-6}", ("@Container.0.as_str()", S("{s}")), ("as_container()!.as_str()", S("{s}")))
t(n + "NetworkMode", "x{s:i:1-6}", ("@Other.0", S("x{s}")))
t(A + "Ipc", "shareable", ("", V("Shareable")))
t(A + "Ipc", "service:{s:i:1-6}", ("@Service.0.as_str()", S("{s}")), ("as_service()!.as_str()", S("{s}")))
t(A + "Ipc", "x{s:i:1-6}", ("@Other.0", S("x{s}")), ("as_other()!", S("x{s}")))
t(A + "Link", "{s:i:1-6}", ("service.as_str()", S("{s}")), ("alias", NONE))
t(A + "Link", "{s:i:1-6}:{a:*:1-5}", ("service.as_str()", S("{s}")), ("alias!", S("{a}")))
for suf, ro in (("", 0), (":rw", 0), (":ro", 1)):
    t(A + "VolumesFrom", "{s:i:1-6}" + suf, ("source@Service.0.as_str()", S("{s}")), ("read_only", C(ro)))
    t(A + "VolumesFrom", "container:x{s:i:1-6}" + suf, ("source@Container.0.as_str()", S("x{s}")), ("read_only", C(ro)))
t(A + "VolumesFromSource", "{s:i:1-6}", ("@Service.0.as_str()", S("{s}")))
t(A + "VolumesFromSource", "container:{s:i:1-6}", ("@Container.0.as_str()", S("{s}")))
v = A + "volumes::"
t(v + "Source", "{s:i:1-6}", ("@Volume.0.as_str()", S("{s}")))
for pre in ("/", "./", "../"):
    t(v + "Source", pre + "{s:p:1-4}", ("@HostPath.0.as_path()", S(pre + "{s}")))
t(v + "ShortVolume", "/{c:p:1-4}", ("container_path.as_path()", S("/{c}")), ("options", NONE))
for opt, ro, se in (("", 0, None), (":ro", 1, None), (":rw", 0, None), (":z", 0, "Shared"), (":Z", 0, "Private"),
                    (":ro,z", 1, "Shared"), (":Z,ro", 1, "Private"), (":rw,Z", 0, "Private"), (":z,rw", 0, "Shared")):
    ex = [("options!.read_only", C(ro)), ("options!.selinux", NONE) if se is None else ("options!.selinux!", V(se))]
    t(v + "ShortVolume", "{s:i:1-3}:/{c:p:1-3}" + opt, ("container_path.as_path()", S("/{c}")),
      ("options!.source@Volume.0.as_str()", S("{s}")), *ex)
    t(v + "ShortVolume", "./{s:p:1-3}:/{c:p:1-3}" + opt, ("container_path.as_path()", S("/{c}")),
      ("options!.source@HostPath.0.as_path()", S("./{s}")), *ex)
t(A + "deploy::resources::Count", "{n:n:1-20}", ("@Integer.0", N("n")))
t(A + "deploy::resources::Count", "all", ("", V("All")))
b = A + "build::"
t(b + "ssh_auth::SshAuth", "default", ("", V("Default")), ("id()", NONE), ("path()", NONE))
t(b + "ssh_auth::SshAuth", "{i:=:1-4}={p:*:1-4}", ("id()!", S("{i}")), ("path()!", S("{p}")))
t(b + "ssh_auth::Id", "{i:=:1-5}={p:*:1-5}", ("id()", S("{i}")), ("path()", S("{p}")))
t(b + "network::Network", "x{s:i:1-6}", ("as_str()", S("x{s}")), ("into_option()!.as_str()", S("x{s}")))
t(b + "network::Network", "none", ("", V("None")), ("as_str()", S("none")), ("into_option()", NONE))
t(b + "context::Context", "{s:i:1-6}", ("@Path.0", S("{s}")), ("as_path()!", S("{s}")), ("as_url()", NONE))
i = A + "image::"
for nm in ("{n:w:1-3}", "{r:w:1-2}.{q:w:1}/{n:w:1-2}", "{a:w:1-2}/{n:w:1-2}", "{r:w:1}.{q:w:1}:{p:n:2}/{n:w:1-2}"):
    reg = nm.split("/")[0] if "." in nm else None
    strip = lambda x: landing.HOLE.sub(lambda m: "{%s}" % m[1], x)
    base = [("name()", S(strip(nm))), ("registry()", NONE) if reg is None else ("registry()!", S(strip(reg)))]
    base += [("as_name().as_ref()", S(strip(nm)))]
    t(i + "Image", nm, *base, ("tag()", NONE), ("digest()", NONE))
    t(i + "Image", nm + ":{t:t:1-3}", *base, ("tag()!", S("{t}")), ("digest()", NONE))
    t(i + "Image", nm + "@{g:w:1-2}:{h:w:1-2}", *base, ("tag()", NONE), ("digest()!", S("{g}:{h}")))
u = A + "user::"
t(u + "IdOrName", "{n:n:1-10}", ("@Id.0", N("n")), ("as_id()!", N("n")), ("as_name()", NONE))
t(u + "IdOrName", "{s:u:1-8}", ("@Name.0.as_str()", S("{s}")), ("as_name()!.as_str()", S("{s}")), ("as_id()", NONE))
t(u + "User", "{n:n:1-9}", ("user@Id.0", N("n")), ("group", NONE))
t(u + "User", "{s:u:1-6}", ("user@Name.0.as_str()", S("{s}")), ("group", NONE))
t(u + "User", "{n:n:1-4}:{g:n:1-4}", ("user@Id.0", N("n")), ("group!@Id.0", N("g")))
t(u + "User", "{n:u:1-4}:{g:n:1-4}", ("user@Name.0.as_str()", S("{n}")), ("group!@Id.0", N("g")))
t(u + "User", "{n:n:1-4}:{g:u:1-4}", ("user@Id.0", N("n")), ("group!@Name.0.as_str()", S("{g}")))
t(u + "User", "{n:u:1-4}:{g:u:1-4}", ("user@Name.0.as_str()", S("{n}")), ("group!@Name.0.as_str()", S("{g}")))
k = "common::"
t(k + "Number", "{n:n:1-19}", ("@UnsignedInt.0", N("n")), ("as_unsigned_int()!", N("n")))
t(k + "Number", "-{n:n:1-18}", ("@SignedInt.0", N("n", 10, True)), ("as_signed_int()!", N("n", 10, True)))
for ty in ("StringOrNumber", "Value"):
    t(k + ty, "{n:n:1-8}", ("@Number.0@UnsignedInt.0", N("n")))
    t(k + ty, "-{n:n:1-8}", ("@Number.0@SignedInt.0", N("n", 10, True)))
    t(k + ty, "x{s:l:1-5}", ("@String.0", S("x{s}")), ("as_string()!", S("x{s}")))
t(k + "Value", "true", ("@Bool.0", C(1)))
t(k + "Value", "false", ("@Bool.0", C(0)))
for ty, kw in ((p + "Protocol", {"tcp": "Tcp", "udp": "Udp"}), (A + "deploy::endpoint_mode::EndpointMode",
               {"vip": "VIp", "dnsrr": "DnsRR"}), (A + "deploy::resources::Capability", {"gpu": "Gpu", "tpu": "Tpu"}),
               ("network::Driver", {"host": "Host", "none": "None"})):
    for w, var in kw.items():
        t(ty, w, ("", V(var)), ("as_str()", S(w)))
        t(ty, w + "{s:l:1-3}", ("@Other.0", S(w + "{s}")), ("as_str()", S(w + "{s}")))
    t(ty, "x{s:i:1-6}", ("@Other.0", S("x{s}")), ("as_str()", S("x{s}")))

JOBS = []


def _nth(i):
    return landing.job(JOBS[i])


def run(ctx):
    F = ctx.F
    ctx.rule("each part of an accepted text is found, unchanged, at its documented public field or accessor")
    JOBS.clear()
    meta, lead = [], {}
    for adt, tmpl, exps in T:
        if adt not in lead:
            es = c01.primary(forms.all_entries(F, adt))
            if adt in ("common::Value", "common::StringOrNumber"):
                es = [e for e in forms.all_entries(F, adt) if e["name"] == "parse"]        # (a String is taken as it is)
            lead[adt] = [e for e in es if e["name"] == "from_str"] + [e for e in es if e["name"] != "from_str"]
            ctx.need(lead[adt], adt, "no function builds %s from a string" % adt)
        ctx.ob("templates", 1, "%s %s" % (adt, tmpl))
        for k, e in enumerate(lead[adt]):
            for bx, pos in list(instances(tmpl, ctx.thorough))[:None if k == 0 or ctx.thorough else 1]:
                JOBS.append((F, e, bx, pos, exps))
                meta.append((adt, tmpl, e))
    res = pmap(_nth, range(len(JOBS)))
    seen = {}
    for (adt, tmpl, e), r in zip(meta, res):
        ctx.ob("accepting paths", r["paths"])
        ctx.ob("places decided", r["ok"])
        seen[(adt, tmpl)] = seen.get((adt, tmpl), 0) + r["ok"] + len(r["bad"])
        for path, text, got, want in r["bad"]:
            if text == "missing":
                ctx.need(False, got, got)
            else:
                ctx.viol("%s:%s" % (adt, path), "%s(%r): the value at `%s` is %s, expected %s" % (
                    e["path"], text, path, got, want), e["loc"])
        for u in r["und"]:
            ctx.unk(adt, "%s %s: %s" % (e["name"], tmpl, u))
    for (adt, tmpl), k in seen.items():
        if not k:
            ctx.unk(adt, "template %s was never accepted" % tmpl)
    ctx.assumptions.append("the transfer functions in lib/models.py describe the standard library faithfully")
