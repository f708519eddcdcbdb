"""Contents that use every key of a structure at once."""
import re
import forms, landing, schema, serdes, trees
from absint import Inconclusive
from forms import CRASH
from landing import HOLE, C, N, S
from schema import B, I, Mul
from trees import Tree, combos

REF = re.compile(r"\{(\w+)\}")
# Keys that exclude each other.
GROUPS = {"service::Service": [("network_mode", "networks")], "service::build::Build": [("dockerfile", "dockerfile_inline")],
          "config::Config": [("file", "environment", "content")], "secret::Secret": [("file", "environment")],
          "service::credential_spec::CredentialSpec": [("config", "file", "registry")]}
SKIP = {"service::healthcheck::Healthcheck": ("disable",)}


def rename(c, n):
    """The content or expectation with its leaves named apart from those of other keys."""
    if isinstance(c, I):
        return I(c.name + n, c.lo, c.hi)
    if isinstance(c, B):
        return B(c.name + n)
    if isinstance(c, str):
        return HOLE.sub(lambda m: "{%s:%s:%s}" % (m[1] + n, m[2], m[3]), c)
    if isinstance(c, list):
        return [rename(x, n) for x in c]
    if isinstance(c, dict):
        return {rename(k, n): rename(v, n) for k, v in c.items()}
    if isinstance(c, S):
        return S(REF.sub(lambda m: "{%s}" % (m[1] + n), c.text))
    if isinstance(c, N):
        return N(REF.sub(lambda m: "{%s}" % (m[1] + n), c.hole), c.radix, c.neg)
    if isinstance(c, Mul):
        return Mul(c.hole + n, c.k, c.plus)
    return c


def fix(tree, exp, nums, text):
    """The expectation for one concrete choice of the leaves."""
    at = landing.at_text(text, tree.pos)
    if isinstance(exp, (I, B)):
        return C(int(nums[exp.name]) if exp.name in nums else 0)
    if isinstance(exp, S):
        return S("".join(chr(c[1]) for c in exp.build(at)[1]).replace("{", "").replace("}", ""))
    if isinstance(exp, N):
        return C(exp.build(at)[1])
    if isinstance(exp, Mul):
        return C(N(exp.hole).build(at)[1] * exp.k + exp.plus)
    return exp


def alone(F, x, key, content, exps, whole, then):
    """[(content, expectations)] of one key, concrete unless its leaves do not matter to the path."""
    out = []
    all_ = whole(x, key, content)
    tree = Tree(all_, combos(all_)[0])
    try:
        _, rs = trees.de(F, x.adt, tree.value, tree.state())
    except (Inconclusive,) + CRASH:
        return out
    rs = [r for r in rs if forms.feasible(r[2])]
    if len(rs) == 1 and rs[0][0] == "ok" and (then is None or then(F, x.adt, rs[0][1], rs[0][2])):
        return [(content, exps)]
    for v, _, st in rs:
        if v == "ok":
            for nums, text in tree.picks(st):
                c = tree.concrete(nums, text)
                r = trees.const_de(F, x.adt, c)
                if r is not None and r[0] == "ok":
                    if not key.startswith("x-") and all(c[key] != y for y, _ in out):
                        out.append((c[key], [(p, fix(tree, e, nums, text)) for p, e in exps]))
                    if len(out) > 1:
                        return out[::-1]
    return out


def singles(x):
    """Indices of the key forms that take part."""
    return [i for i, (k, c, e) in enumerate(x.keys)
            if k is not None and k not in SKIP.get(x.adt, ()) and not any(p == "" for p, _ in e)]


def rounds(x, got):
    """[(content, expectations)]: together they use each form of each key.  got: {key index: alone(...)}"""
    by = {}
    for i, rs in got.items():
        k = x.keys[i][0]
        for r in rs:
            by.setdefault(k if HOLE.search(k) is None else "x-", []).append((k,) + tuple(r))
    out = []
    if len(by) < 2:
        return out
    # As many contents as the key with most forms needs; keys with fewer forms go round at their own pace.
    for n in range(max(len(v) for v in by.values())):
        content, exps = {}, []
        for i, (key, fs) in enumerate(by.items()):
            g = next((g for g in GROUPS.get(x.adt, ()) if key in g), None)
            if g is not None and g[n % len(g)] != key:
                continue
            k, c, e = fs[n % len(fs)]
            t = "_%d" % i
            content[rename(k, t)] = rename(c, t)
            exps += [(p, rename(q, t)) for p, q in e]
        for k, v in x.base.items():
            if k not in content and not any(k in g for g in GROUPS.get(x.adt, ())):
                content[k] = v
        out.append((content, tuple(exps)))
    return out
