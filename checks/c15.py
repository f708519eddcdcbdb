"""Abstract interpretation of the validate_* methods on Compose files read from trees with abstract names: on every
path the verdict is the documented one (an undeclared network, config or secret used by a service, or an undeclared
named volume used by two services), and the displayed error names what the documentation says."""
import itertools

import c11, forms, schema, trees
from absint import Inconclusive, Interp, State
from forms import CRASH, canon
from texts import pmap
from trees import Tree, combos, const_de, show

JOBS = []
ADT = "Compose"
KINDS = ("networks", "volumes", "configs", "secrets")


# ---- the documentation ----------------------------------------------------------------------------
def named_volumes(s):
    out = []
    for v in s.get("volumes", []):
        if isinstance(v, dict):
            if v.get("type") == "volume" and v.get("source"):
                out.append(v["source"])
        elif ":" in v and v[0] not in "./~":
            out.append(v.split(":")[0])
    return out


def used(s, kind):
    if kind == "networks":
        return list(s.get("networks", []))
    return [c if isinstance(c, str) else c["source"] for c in s.get(kind, [])]


def expected(c, kind):
    """What the error displays, or None."""
    if kind == "all":
        return next((e for e in (expected(c, k) for k in KINDS) if e), None)
    there = c.get(kind, {})
    one = kind[:-1]
    if kind == "volumes":
        seen = {}
        for name, s in c["services"].items():
            for v in named_volumes(s):
                if seen.setdefault(v, name) != name and v not in there:
                    return "volume `%s` is used across multiple services and is not defined in the top-level `volumes` field" % v
        return None
    for name, s in c["services"].items():
        for n in used(s, kind):
            if n not in there:
                return "%s `%s` (used in the `%s` service) is not defined in the top-level `%s` field" % (one, n, name, kind)
    return None


# ---- the code -------------------------------------------------------------------------------------
def fill(term, text):
    """The text a canonical string stands for, for one choice of the input."""
    if term[0] != "str":
        return None
    out = ""
    for c in term[1]:
        if c[0] == "c":
            out += chr(c[1])
        elif c[0] == "t" and c[1][0] == "ch" and c[1][1] == "in":
            out += text[c[1][2]]
        else:
            return None
    return out


def verdicts(F, v, st, kind):
    """[(None or the canonical display of the error, state)]"""
    f = F.inherent_fn(ADT, "validate_" + kind)[0]
    J = Interp(F, budget=forms.BUDGET)
    out = []
    for r, s in J.run(f, [("rv", v)], st.fork()):
        if not forms.feasible(s):
            continue
        k, e, s = forms.outcome(F, f, r) + (s,)
        if r[0] == "agg" and r[2] == 0:
            out.append((None, s))
        elif r[0] == "agg" and r[2] == 1:
            e = r[3][0]
            d = forms.display(F, "ValidationError", e, s)
            for t, s2 in (d[0] if d else [(None, s)]):
                out.append((("?",) if t is None else canon(J, s2, t), s2))
        else:
            out.append((("?",), s))
    return out


def const(F, content, kind):
    r = const_de(F, ADT, content)
    if r is None or r[0] != "ok":
        return "?"
    try:
        rs = verdicts(F, r[1], r[2], kind)
    except (Inconclusive,) + CRASH:
        return "?"
    if len(rs) != 1:
        return "?"
    return None if rs[0][0] is None else fill(rs[0][0], "") or "?"


def same(tree, st):
    """Texts of a path whose names coincide in every possible way."""
    box = forms.box_of(st.facts, tuple(tree.boxes)) or ()
    if not box or len(box) > 4:
        return []
    ts = [t for t in itertools.product(b"bcdaqmn", repeat=len(box))
          if all(any(lo <= c <= hi for lo, hi in b) for c, b in zip(t, box)) and related(t, st)]
    return ["".join(map(chr, t)) for t in ts]


def related(t, st):
    for k, v in st.facts.items():
        if k[0] == "rel" and all(x[0] == "t" and x[1][:2] == ("ch", "in") for x in k[1:]):
            x, y = (t[z[1][2]] for z in k[1:])
            if not {"=": x == y, "<": x < y, ">": x > y, "<>": x != y}.get(v, True):
                return False
    return True


def job(j):
    F, content, kind, full = j
    out = {"paths": 0, "bad": [], "und": []}
    for sizes in combos(content, full):
        tree = Tree(content, sizes)
        try:
            ends = [e for v, val, st in trees.de(F, ADT, tree.value, tree.state())[1] if v == "ok" and forms.feasible(st)
                    for e in verdicts(F, val, st, kind)]
        except (Inconclusive,) + CRASH as e:
            out["und"].append("%s %s" % (type(e).__name__, str(e)[:80]))
            continue
        if not ends:
            out["und"].append("no accepting path")
        for got, st in ends:
            ps = [p for p in tree.picks(st) if len(p[1]) != len(tree.boxes) or related(list(map(ord, p[1])), st)]
            if tree.boxes and not ps and all(b[0][0] == b[-1][1] for b in forms.box_of(st.facts, tuple(tree.boxes)) or (((0, 1),),)):
                continue  # the only text left contradicts a comparison made on this path
            ps = ps or tree.picks(st)[:1]
            ps += [(n, t) for n in [p[0] for p in ps[:1]] for t in same(tree, st) if (n, t) not in ps]
            wrong, right = 0, 0
            for nums, text in ps:
                if right > 5 or wrong:
                    break
                c = tree.concrete(nums, text)
                if len(c["services"]) != len(content["services"]):
                    continue
                want = expected(c, kind)
                have = None if got is None else fill(got, text)
                if have != want or (got is not None and have is None):
                    k = const(F, c, kind)
                    if k != "?" and k != want:
                        out["bad"].append((show(c), k, want))
                        return out
                    wrong += k == "?"  # (otherwise the choice isn't on this path)
                else:
                    right += 1
            if wrong or not right:
                out["und"].append("path not decided")
            else:
                out["paths"] += 1
    return out


def _nth(i):
    return job(JOBS[i])


def net(*a):
    return {"networks": list(a)}


def contents():
    X, Y, Z = "{s:l:1}", "{t:l:1}", "{u:l:1}"
    two = [{}, {"image": "q"}]
    for k in ("networks", "configs", "secrets"):
        decl = {"networks": [{Y: None}, {Y: {"external": True}}, {"a": None, Y: {"driver": "d"}}],
                "configs": [{Y: {"file": "f"}}, {Y: {"external": True}}, {"a": {"content": "c"}, Y: {"environment": "E"}}],
                "secrets": [{Y: {"file": "f"}}, {Y: {"external": True}}, {"a": {"file": "c"}, Y: {"environment": "E"}}]}[k]
        if k == "networks":
            uses = [[X], {X: None}, {X: {"priority": 3}}, [X, "q"], {"q": None, X: None}]
        else:
            uses = [[X], [{"source": X}], [X, "q"], ["q", {"source": X, "target": "w"}], [{"source": "q"}, X]]
        for u in uses:
            for d in decl + [{}]:
                full = dict(d)
                if len(u) > 1:
                    full["q"] = {"networks": None, "configs": {"file": "g"}, "secrets": {"file": "g"}}[k]
                    yield k, {"services": {"w": {k: u}}, k: d}
                yield k, {"services": {"w": {k: u}}, k: full}
                yield k, {"services": {"v": {"image": "i"}, "w": {k: u}}, k: full}
                yield k, {"services": {"w": {k: u}, "z": {k: [Y if d else "q"]}}, k: full}
        yield k, {"services": {"w": {k: [X]}}}
        yield k, {"services": {"w": {}}}
        # declared elsewhere only
        for o in KINDS:
            if o != k:
                yield k, {"services": {"w": {k: [X]}}, o: {X.replace("s", "t"): {"external": True}}}
    yield "networks", {"services": {"w": {"network_mode": "host"}}}
    yield "networks", {"services": {"w": {"network_mode": "service:" + X}}}
    U, W = [X + ":/a", Y + ":/b"], [{"type": "volume", "source": X, "target": "/a"}, {"type": "volume", "source": Y, "target": "/b"}]
    for x in (U, W):
        for y in (U, W):
            for d in ({}, {Z: None}, {Z: {"external": True}}, {"a": {"driver": "d"}}):
                yield "volumes", {"services": {"w": {"volumes": [x[0]]}, "v": {"volumes": [y[1]]}}, "volumes": d}
                yield "volumes", {"services": {"w": {"volumes": [x[0], y[1]]}}, "volumes": d}
            yield "volumes", {"services": {"w": {"volumes": [x[0], "m:/c"]}, "v": {"volumes": ["n:/c", y[1]]}}, "volumes": {"m": None}}
            yield "volumes", {"services": {"w": {"volumes": [x[0], x[0].replace("/a", "/c") if isinstance(x[0], str) else
                                                               dict(x[0], target="/c")]}, "u": {}, "v": {"volumes": [y[1]]}}}
    for same in ([X + ":/a", "m:/c"], [{"type": "volume", "source": "m", "target": "/a"}, "m:/d"]):
        yield "volumes", {"services": {"w": {"volumes": same}, "v": {"volumes": ["m:/e"]}}}
        yield "volumes", {"services": {"w": {"volumes": same}, "v": {"volumes": ["m:/e"]}}, "volumes": {"m": None}}
    for v in ("/" + X, "./" + X + ":/a", {"type": "bind", "source": "./" + X, "target": "/a"}, {"type": "tmpfs", "target": "/a"},
              {"type": "volume", "target": "/" + X}, {"type": "npipe", "source": "./" + X, "target": "/a"}):
        yield "volumes", {"services": {"w": {"volumes": [v]}, "v": {"volumes": [v]}}}
    # All of them, in order.
    d = {"networks": {"n": None}, "volumes": {"v": None}, "configs": {"c": {"file": "f"}}, "secrets": {"s": {"file": "f"}}}
    s = {"networks": [X], "volumes": [Y + ":/a"], "configs": [Z], "secrets": ["{v:l:1}"]}
    t = {"networks": ["n"], "volumes": ["v:/a"], "configs": ["c"], "secrets": ["s"]}
    for k in KINDS:
        yield "all", dict(d, services={"w": t, "x": dict(t, **{k: s[k]})})
        yield "all", dict({x: y for x, y in d.items() if x != k}, services={"w": t, "x": dict(t)})
        for o in KINDS:
            if o != k:
                yield "all", dict(d, services={"w": dict(t, **{k: s[k]}), "x": dict(t, **{o: s[o], "volumes": s["volumes"]})})
    yield "all", dict(services={"w": t})
    yield "all", dict(d, services={"w": t, "x": t})


def run(ctx):
    F = ctx.F
    ctx.rule("validate_*(de(content)) == Ok(()) iff every used name is declared; otherwise the error displays the first one")
    JOBS.clear()
    meta = []
    if not ctx.need((ADT, "de") in F.serde, ADT, "deserializing Compose"):
        return
    for k in KINDS + ("all",):
        if not ctx.need(F.inherent_fn(ADT, "validate_" + k), k, "Compose::validate_" + k):
            return
    seen = set()
    for kind, c in contents():
        for k in dict.fromkeys((kind, "all")):
            key = (k, repr(c))
            if key not in seen and (k == kind or ctx.thorough or len(seen) % 4 == 0):
                seen.add(key)
                JOBS.append((F, c, k, ctx.thorough))
                meta.append(k)
    for k, j, r in zip(meta, JOBS, pmap(_nth, range(len(JOBS)))):
        ctx.ob("files", 1, "validate_%s: %s" % (k, c11.show_form(j[1])))
        ctx.ob("paths", r["paths"])
        for text, got, want in r["bad"][:1]:
            shape = "accepted" if got is None else "rejected" if want is None else "reported differently"
            ctx.viol("validate_%s:%s" % (k, shape), "%s: validate_%s gives %s, expected %s" % (
                text, k, repr(got) if got else "no error", repr(want) if want else "no error"),
                F.inherent_fn(ADT, "validate_" + k)[0]["loc"])
        for u in r["und"]:
            ctx.unk("validate_" + k, "%s: %s" % (c11.show_form(j[1]), u))
    ctx.assumptions.append("lib/models.py describes the standard library and IndexMap faithfully")
