"""Abstract interpretation of every structure's `is_empty` on what its deserializer makes of trees with abstract
leaves: true for contents that set nothing, false as soon as any one key of the structure is set."""
import c11, forms, schema, texts, trees
from absint import Inconclusive
from forms import CRASH
from schema import B, I
from texts import pmap
from trees import Tree, combos, const_de, follow, show

JOBS = []
R = "service::deploy::resources::"
D = "service::deploy::"
# What sets nothing, where it is not the empty map.
BARE = {R + "Device": {"capabilities": []}}
PATH = {"service::healthcheck::Healthcheck": "@Command.0"}
# Values with an is_empty of their own.
PARTS = [("labels", ([], {}), (["x{s:l:1}"], ["x{s:l:1}=y", "z"], {"x{s:l:1}": None}, {"x{s:l:1}": "q", "z": 1})),
         ("environment", ([], {}), (["x{s:l:1}"], {"x{s:l:1}": B("b")})),
         ("cpuset", ("",), ("0", "{n:n:1}", "0-3", "1,5"))]
# Nested structures that set nothing themselves, and nested ones of which one does.
NESTED = {
    "network::Network": [("ipam", {"ipam": {}}, {"ipam": {"driver": "x{s:l:1}"}}),
                         ("ipam", {"ipam": {"config": [{}]}}, {"ipam": {"config": [{}, {"gateway": "10.1.0.1"}]}}),
                         ("ipam", {"ipam": {"config": []}}, {"ipam": {"x-{s:l:1}": "q"}})],
    "network::Ipam": [("config", {"config": [{}, {}]}, {"config": [{}, {"subnet": "10.0.0.0/8"}]})],
    R + "Resources": [("limits", {"limits": {}}, {"limits": {"x-{s:l:1}": "q"}}),
                      ("reservations", {"reservations": {}}, {"reservations": {"x-{s:l:1}": "q"}}),
                      ("reservations", {"reservations": {"devices": []}}, {"reservations": {"memory": I("n")}}),
                      ("limits", {"limits": {}, "reservations": {}}, {"limits": {}, "reservations": {"memory": I("n")}}),
                      ("limits", {}, {"limits": {"memory": I("n")}, "reservations": {}})],
    R + "Reservations": [("devices", {"devices": [{"capabilities": []}]},
                          {"devices": [{"capabilities": []}, {"capabilities": ["gpu"]}]}),
                         ("generic_resources", {"generic_resources": [{}]},
                          {"generic_resources": [{}, {"discrete_resource_spec": {"kind": "x{s:l:1}"}}]})],
    R + "GenericResource": [("discrete_resource_spec", {"discrete_resource_spec": {}},
                             {"discrete_resource_spec": {"value": I("n")}})],
    D + "Placement": [("preferences", {"preferences": [{}, {}]}, {"preferences": [{}, {"spread": "x{s:l:1}"}]})],
    D + "Deploy": [(k, {k: {}}, {k: c}) for k, c in (
        ("placement", {"preferences": [{"spread": "x{s:l:1}"}]}), ("resources", {"limits": {"memory": I("n")}}),
        ("restart_policy", {"condition": "any"}), ("rollback_config", {"order": "stop-first"}),
        ("update_config", {"failure_action": "pause"}))] + [
        ("resources", {"resources": {"limits": {}, "reservations": {}}}, {"resources": {"x-{s:l:1}": "q"}}),
        ("placement", {"placement": {"preferences": [{}]}}, {"placement": {"constraints": ["x{s:l:1}"]}})],
}


def expected(x, key, content, nums=None):
    """Is the structure empty with this key?  A boolean leaf counts only when it is not the default."""
    ds = [c for k, c in x.defaults if k == key]
    if any(type(c) is type(content) and c == content for c in ds):
        return True
    return False


def job(j):
    F, adt, content, want, path = j
    out = {"paths": 0, "bad": [], "und": []}

    def answer(v, st):
        rs = []
        for r, s in follow(F, v, st, path):
            if r is None or r[0] == "wrong":
                rs.append((None, s))
                continue
            if not forms.feasible(s):
                continue
            c = forms.canon(forms.Interp(F), s, r)
            rs.append((c[1] if c[0] == "c" else None, s))
        return rs

    def goal(st, nums):
        if isinstance(want, bool):
            return want
        r = ((nums[want],) * 2,) if nums is not None else st.facts.get(("r", ("in", want)), ((0, 1),))
        return None if r[0][0] != r[-1][1] else not r[0][0]

    for sizes in combos(content):
        tree = Tree(content, sizes)
        try:
            J, rs = trees.de(F, adt, tree.value, tree.state())
            ends = []
            for v, val, st in rs:
                if forms.feasible(st) and v == "ok":
                    ends += answer(val, st)
        except landing_Missing as e:
            out["bad"].append(("missing", str(e)))
            return out
        except (Inconclusive,) + CRASH as e:
            out["und"].append("%s %s" % (type(e).__name__, str(e)[:80]))
            continue
        if not ends:
            out["und"].append("no accepting path")
        for got, st in ends:
            w = goal(st, None)
            if got is not None and w is not None and bool(got) == w:
                out["paths"] += 1
                continue
            # Not as documented, or not told: try texts of the path.
            hit = False
            agreed = 0
            ps = tree.picks(st)
            for nums, text in ps:
                c = tree.concrete(nums, text)
                r = const_de(F, adt, c)
                if r is None or r[0] != "ok":
                    continue
                try:
                    a = answer(r[1], r[2])
                except (Inconclusive,) + CRASH:
                    continue
                if len(a) != 1 or a[0][0] is None:
                    continue
                if bool(a[0][0]) != goal(None, nums):
                    out["bad"].append((show(c), bool(a[0][0])))
                    hit = True
                    break
                agreed += 1
            if not hit:
                if isinstance(want, str) and agreed == len(ps) and {n[want] for n, _ in ps} == {0, 1} and len(content) < 3:
                    out["paths"] += 1       # one boolean, and both of its values tried
                else:
                    out["und"].append("not determined (%s)" % got)
    return out


import landing  # noqa: E402
landing_Missing = landing.Missing


def _nth(i):
    return job(JOBS[i])


def has(F, adt):
    return F.inherent_fn(adt, "is_empty")


def run(ctx):
    F = ctx.F
    ctx.rule("is_empty(de(content that sets nothing)); not is_empty(de({key: content})) for each key")
    JOBS.clear()
    meta = []

    def add(x, content, want, why, path=None):
        JOBS.append((F, x.adt, content, want, (PATH.get(x.adt, "") if path is None else path) + ".is_empty()"))
        meta.append((x, why))

    n = 0
    for x in schema.T:
        owner = "service::healthcheck::Command" if x.adt in PATH else x.adt
        if not has(F, owner):
            ctx.need(x.adt not in NEEDED, owner, "%s::is_empty" % owner)
            continue
        n += 1
        ctx.ob("structures with is_empty", 1, owner)
        bare = BARE.get(x.adt, {})
        add(x, bare, True, "nothing")
        alls = dict(bare)
        for k, c in x.defaults:
            if schema_ok(x, k, c):
                add(x, dict(bare, **{k: c}), True, "%s: %s" % (k, c))
                alls.setdefault(k, c)
        add(x, alls, True, "only defaults")
        seen = set()
        for k, c, _ in x.keys:
            if k is None or (x.adt in PATH and (k == "disable" or c == ["NONE"])):
                continue
            b = {y: v for y, v in bare.items() if y != k}
            if isinstance(c, B):
                add(x, dict(b, **{k: c}), c.name, "%s: a boolean" % k)
                continue
            seen.add(k)
            add(x, dict(b, **{k: c}), False, "%s: %s" % (k, c11.show_form(c)))
            rest = {y: v for y, v in alls.items() if y != k and y not in b and not (x.adt, y, k) in APART}
            if rest:
                add(x, dict(b, **{**rest, k: c}), False, "%s next to defaults" % k)
        for k, e, f in NESTED.get(x.adt, ()):
            add(x, dict(bare, **e), True, "%s setting nothing" % c11.show_form(e))
            add(x, dict(bare, **f), False, "%s" % c11.show_form(f))
    x = next(x for x in schema.T if x.adt == "service::Service")
    for k, none, some in PARTS:
        for c in none:
            add(x, {k: c}, True, "`%s`: %s" % (k, c11.show_form(c)), k)
        for c in some:
            add(x, {k: c}, False, "`%s`: %s" % (k, c11.show_form(c)), k)
    for (x, why), j, r in zip(meta, JOBS, pmap(_nth, range(len(JOBS)))):
        ctx.ob("contents", 1, "%s: %s" % (x.adt, why))
        ctx.ob("paths", r["paths"])
        for text, got in r["bad"][:1]:
            if text == "missing":
                ctx.need(False, x.adt, got)
                continue
            key = why.split(":")[0] if ":" in why else why
            f = has(F, x.adt)
            ctx.viol("%s:%s" % (x.adt, key), "is_empty is %s for the %s read from %s" % (str(got).lower(), x.adt, text),
                     f[0]["loc"] if f else c11.loc(F, x.adt))
        for u in r["und"]:
            ctx.unk(x.adt, "%s: %s" % (why, u))
    ctx.assumptions.append("lib/models.py describes the standard library and IndexMap faithfully")


NEEDED = {"network::Network", "network::Ipam", "network::IpamConfig", "volume::Volume", "service::volumes::mount::VolumeOptions",
          "service::volumes::mount::BindOptions", "service::volumes::mount::TmpfsOptions", "service::network_config::Network",
          R + "Resources", R + "Limits", R + "Reservations", R + "Device", R + "GenericResource", R + "DiscreteResourceSpec",
          D + "Deploy", D + "Placement", D + "Preference", D + "RestartPolicy", D + "UpdateOrRollbackConfig",
          "service::blkio_config::BlkioConfig", "service::build::Build", "service::healthcheck::Healthcheck", "service::Logging"}
APART = {("service::build::Build", "dockerfile", "dockerfile_inline"), ("service::build::Build", "dockerfile_inline", "dockerfile")}


def schema_ok(x, k, c):
    return not (x.adt in PATH and k == "disable")
