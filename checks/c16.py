"""The reading options on YAML whose content is known: abstract interpretation of Options with serde_yaml's apply_merge and
deserializer followed.  With merging, the result is what the merged content reads as; without, what the content itself reads
as; malformed YAML and impossible merges are errors; all four entry points agree."""
import laws
from laws import Call, Con, De, Make, Mut, Succeeds, Txt, Yaml

O = "options::Options"
S, T, U = "x{s:l:1,2}", "y{t:l:1}", "z{u:l:1}"
M = "<<"


def sv(c):
    return {"services": {"a": c}}


# content, what it is after merging (None: an error)
MERGES = [
    (sv({"image": S}), sv({"image": S})),
    (sv({M: {"image": S}}), sv({"image": S})),
    (sv({"hostname": T, M: {"image": S}}), sv({"hostname": T, "image": S})),
    (sv({"image": T, M: {"image": S}}), sv({"image": T})),
    (sv({"image": T, M: {"image": S, "tty": True}}), sv({"image": T, "tty": True})),
    (sv({M: [{"image": S}, {"image": T}]}), sv({"image": S})),
    (sv({"tty": True, M: [{"image": S}, {"image": T, "hostname": U}]}), sv({"tty": True, "image": S, "hostname": U})),
    (sv({"environment": {"B": S, M: {"A": T, "B": U}}}), sv({"environment": {"B": S, "A": T}})),
    (sv({"labels": {M: {"A": T}}}), sv({"labels": {"A": T}})),
    (sv({"build": {"context": S, M: {"target": T}}}), sv({"build": {"context": S, "target": T}})),
    (sv({"volumes": [{"type": "tmpfs", M: {"target": "/" + S}}]}), sv({"volumes": [{"type": "tmpfs", "target": "/" + S}]})),
    (sv({"x-a": {"b": S, M: {"c": T}}}), sv({"x-a": {"b": S, "c": T}})),
    ({"services": {}, M: {"name": S}}, {"services": {}, "name": S}),
    ({"name": S, M: {"services": {}}}, {"name": S, "services": {}}),
    ({"services": {"a": {}, M: {"b": {"image": S}}}}, {"services": {"a": {}, "b": {"image": S}}}),
    ({"services": {}, "networks": {"n": {M: {"driver": S}}}}, {"services": {}, "networks": {"n": {"driver": S}}}),
    ({"services": {}, "configs": {"n": {M: {"file": S}}}}, {"services": {}, "configs": {"n": {"file": S}}}),
    (sv({M: S}), None), (sv({M: 5}), None), (sv({M: [S]}), None), (sv({M: {"nonsense": S}}), sv({"nonsense": S})),
    (sv({M: {"image": 5.5}}), sv({"image": {}})), ({"name": S}, {"name": S}), ({M: {"name": S}}, {"name": S}),
    (sv({"labels": {"A": S}, "networks": ["n"], M: {"network_mode": "host"}}), sv({"networks": ["n"], "network_mode": "host"})),
]
PLAIN = [c for c, m in MERGES] + [{"services": {S: {"image": T}}, "name": U}, {"services": {}, "x-" + S: {"b": T}}, {}, [], S, 5, None]


def options(*sets):
    e = Call(("Compose", "options"))
    for x in sets:
        e = Mut((O, "apply_merge"), e, Txt(x))
    return e


def bad(c):
    return "nonsense" in str(c) or c is None


def table():
    out = []
    on = (options(True), options(False, True), options(True, True))
    off = (options(), options(False), options(True, False), Call((O, "default")))
    for how in ("from_yaml_value", "from_yaml_str", "from_yaml_slice", "from_yaml_reader"):
        src = Con if how == "from_yaml_value" else Yaml
        for n, o in enumerate(on):
            for c, m in MERGES if n == 0 else MERGES[:5]:
                e = Call((O, how), o, src(c))
                if m is None or bad(m) or "services" not in m or m == sv({"image": {}}) or "network_mode" in str(m):
                    out.append((how + ":merged", Succeeds(e), Make("false")))
                else:
                    out.append((how + ":merged", e, Make("Ok", De("Compose", m))))
        for n, o in enumerate(off):
            for c in PLAIN if n == 0 else PLAIN[:5]:
                if c is None and src is Yaml:
                    continue
                e = Call((O, how), o, src(c))
                # an unmerged `<<` is a key like any other: fine where keys are free, unknown elsewhere
                if not isinstance(c, dict) or "services" not in c or M in str(c) and "x-a" not in str(c):
                    out.append((how + ":plain", Succeeds(e), Make("false")))
                else:
                    out.append((how + ":plain", e, Make("Ok", De("Compose", c))))
        if src is Yaml:
            for o in on[:1] + off[:1]:
                out.append((how + ":malformed", Succeeds(Call((O, how), o, Yaml(None))), Make("false")))
    return out


def run(ctx):
    ctx.rule("Options::from_yaml_* of a content is what Compose reads from it, merged first exactly if apply_merge was last set to true")
    laws.run(ctx, table())
