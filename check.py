#!/usr/bin/env python3
"""Run one property check: check.py <ID> [--tier quick|thorough]; --setup builds the driver and the facts."""
import argparse, hashlib, importlib, json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "checks"))
sys.setrecursionlimit(20000)
import facts  # noqa: E402


class Ctx:
    """What a check reports: obligations decided, violations, and what stayed undecided."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.F = None
        self.viols = {}
        self.obligations = 0
        self.counts = {}
        self.undecided = []
        self.samples = []
        self.rules = []
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def ob(self, kind, n=1, sample=None):
        self.obligations += n
        self.counts[kind] = self.counts.get(kind, 0) + n
        if sample is not None and len(self.samples) < 400:
            self.samples.append(sample)

    def viol(self, key, msg, loc=None):
        self.viols.setdefault(key, (msg, loc))

    def unk(self, key, why):
        u = "%s: %s" % (key, why)
        if u not in self.undecided:
            self.undecided.append(u)

    def rule(self, text):
        self.rules.append(text)

    def need(self, cond, key, msg):
        """An anchor of the property in the public interface must be there to be checked."""
        if not cond:
            self.viol("anchor:" + key, "the construct this property is about is missing: " + msg)
        return cond


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.setup:
        facts.build_driver()
        facts.extract()
        print("driver built, facts extracted")
        return 0
    t0 = time.time()
    pid = a.id
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    ctx = Ctx(pid, tier, seed)
    mod = importlib.import_module(pid.lower())
    ctx.F = facts.load()
    mod.run(ctx)
    kf = [f for f in known().get("findings", []) if f["property"] == pid]
    listed = {f["key"]: f for f in kf}
    new = {k: v for k, v in ctx.viols.items() if k not in listed}
    old = {k: v for k, v in ctx.viols.items() if k in listed}
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s -- %s" % (pid, k, listed[k]["what"]))
    vio = []
    if new:
        os.makedirs(os.path.join(VERIF, "violations"), exist_ok=True)
        for k in sorted(new):
            msg, loc = new[k]
            name = "%s-%s.txt" % (pid, hashlib.sha256(k.encode()).hexdigest()[:10])
            rp = os.path.join("violations", name)
            with open(os.path.join(VERIF, rp), "w") as f:
                f.write("property: %s\nkey: %s\nwhere: %s\n%s\nrerun: python3 check.py %s\n" % (pid, k, loc, msg, pid))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  %s%s\n    %s" % (k, " at %s" % loc if loc else "", msg.replace("\n", "\n    ")))
            vio.append({"key": k, "where": loc, "what": msg})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": mod.__doc__.strip(),
            "rules": ctx.rules,
            "obligations": ctx.obligations,
            "by_kind": ctx.counts,
            "samples": ctx.samples,
            "undecided": ctx.undecided[:200],
            "undecided_count": len(ctx.undecided),
            "functions_in_scope": len(ctx.F.roots),
        },
        "assumptions": ctx.assumptions,
        "violations": vio,
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d obligations decided, %d undecided, %d violation(s), %d known, %.1f s" % (
        pid, ctx.obligations, len(ctx.undecided), len(new), len(old), time.time() - t0))
    if a.v:
        for u in ctx.undecided:
            print("  undecided", u)
    return 1 if new else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
