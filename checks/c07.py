"""Every keyword type: the documented word of each variant against what is read (from a value, a parser), written (Display,
as_str, AsRef, conversions, serializing) and the default variant, by abstract interpretation of each of these functions;
texts of every length of a word, with every character free, are read as nothing but those words."""
import c20, laws
from laws import As, Call, De, Disp, Lin, Make, Outcome, Ser, Txt, Word, Reads

S = "service::"
WORDS = {
    S + "Cgroup": (None, {"Host": "host", "Private": "private"}),
    S + "Condition": ("ServiceStarted", {"ServiceStarted": "service_started", "ServiceHealthy": "service_healthy",
                                         "ServiceCompletedSuccessfully": "service_completed_successfully"}),
    S + "PullPolicy": ("Missing", {"Always": "always", "Never": "never", "Missing": "missing", "Build": "build"}),
    S + "Restart": ("No", {"No": "no", "Always": "always", "OnFailure": "on-failure", "UnlessStopped": "unless-stopped"}),
    S + "Uts": ("Host", {"Host": "host"}),
    S + "deploy::FailureAction": ("Pause", {"Continue": "continue", "Pause": "pause"}),
    S + "deploy::Mode": ("Replicated", {"Global": "global", "Replicated": "replicated"}),
    S + "deploy::Order": ("StopFirst", {"StopFirst": "stop-first", "StartFirst": "start-first"}),
    S + "deploy::RestartCondition": ("Any", {"None": "none", "OnFailure": "on-failure", "Any": "any"}),
    S + "develop::Action": (None, {"Rebuild": "rebuild", "Sync": "sync", "SyncAndRestart": "sync+restart"}),
    S + "ports::Mode": ("Ingress", {"Host": "host", "Ingress": "ingress"}),
    S + "volumes::SELinux": (None, {"Shared": "z", "Private": "Z"}),
    S + "volumes::mount::BindPropagation": ("RPrivate", {
        "Private": "private", "Shared": "shared", "Slave": "slave", "Unbindable": "unbindable", "RPrivate": "rprivate",
        "RShared": "rshared", "RSlave": "rslave", "RUnbindable": "runbindable"}),
    S + "platform::Os": (None, {
        "Aix": "aix", "Android": "android", "Darwin": "darwin", "DragonFly": "dragonfly", "FreeBsd": "freebsd",
        "Illumos": "illumos", "IOs": "ios", "Js": "js", "Linux": "linux", "NetBsd": "netbsd", "OpenBsd": "openbsd",
        "Plan9": "plan9", "Solaris": "solaris", "WasiP1": "wasip1", "Windows": "windows"}),
    S + "platform::ArmVariant": (None, {"V6": "v6", "V7": "v7", "V8": "v8"}),
    S + "device::Kind": (None, {"All": "a", "Char": "c", "Block": "b"}),
}


def near(w):
    """Texts that are nearly a word."""
    out = {w.upper(), w.capitalize(), w + " ", " " + w, w + "s", w[:-1], w.replace("-", "_"), w.replace("_", "-"),
           w.replace("-", ""), w.replace("_", ""), w.replace("+", "-"), w.replace("-", " ")}
    return out


def table(ctx, F):
    out = []
    for adt, (dflt, words) in WORDS.items():
        a = F.adts.get(adt)
        if not ctx.need(a is not None, adt, "the type %s" % adt):
            continue
        names = [v["name"] for v in a["variants"]]
        ways = c20.tos(F, adt)
        ser, de = (adt, "ser") in F.serde, (adt, "de") in F.serde
        for n in names:
            if n not in words:
                ctx.unk("%s::%s" % (adt, n), "a variant without a documented word")
        vals = {}
        for n, w in words.items():
            if not ctx.need(n in names, "%s::%s" % (adt, n), "the variant %s::%s" % (adt, n)):
                continue
            v = As(adt, names.index(n))
            vals[w] = v
            key = "%s::%s:" % (adt, n)
            if de:
                for how in ("de", "deref", "destr"):
                    out.append((key + how, De(adt, w, how), v))
            if ser:
                out.append((key + "ser", Ser(adt, v), laws.Con(w)))
            if F.trait_fn("core::fmt::Display", adt, "fmt"):
                out.append((key + "display", Disp(v), Txt(w)))
            for x in ways:
                if F.tystr(x["sig"][1]) != "char":
                    out.append((key + x["name"], Call(F.insts.index(x), v), Txt(w)))
            if len(w) == 1 and adt.endswith("SELinux"):
                out.append((key + "as_char", Call((adt, "as_char"), v), Lin([], ord(w))))
        if dflt:
            out.append((adt + ":default", Call((adt, "default")), As(adt, names.index(dflt))))
        if de:
            for n in sorted({len(w) for w in words.values()} | {1, 2, 3}):
                t = "{s:*:%d}" % n
                out.append(("%s:other" % adt, Outcome(adt, t), Word(t, vals)))
            for w in sorted(set().union(*(near(w) for w in words.values())) - set(words.values())):
                out.append(("%s:near" % adt, Reads(adt, w), Make("false")))
    return out


def run(ctx):
    ctx.rule("a keyword type reads and writes exactly its documented words")
    laws.run(ctx, table(ctx, ctx.F))
