#!/usr/bin/env python3
"""Development tool (no check uses it): make and confirm a planted bug from tools/plants/<id>.py.

A plant file defines PROP, EDITS [(file, old, new)], MAIN (Rust source of the demonstration, exits
nonzero by panicking), NEEDS, BREAKS.  Steps: copy /repo to a scratch tree, edit, build, run the
tests, run the demo on both trees, then run the property's check on the edited tree."""
import json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plantw"
DEMO = """#!/bin/bash
# exit 0 when the property holds for this input, nonzero otherwise (cwd: the repository)
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
compose_spec = { path = "$repo" }
serde = "1"
serde_yaml = "0.9"
indexmap = "2"
[workspace]
TOML
cd "$d" && CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true cargo run -q --offline 2>&1 | tail -20
exit "${PIPESTATUS[0]}"
"""


def sh(cmd, cwd=None, env=None, quiet=True):
    e = dict(os.environ, **(env or {}))
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr


def main(ids):
    for pid in ids:
        ns = {}
        exec(open("/tmp/plants/%s.py" % pid).read(), ns)
        d = os.path.join(VERIF, "seeded", pid)
        os.makedirs(d, exist_ok=True)
        if not os.path.isdir(W):
            sh("cp -a /repo %s" % W)
        sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", W)
        ok = True
        for f, old, new in ns["EDITS"]:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(pid, "edit does not match once:", f, t.count(old)); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        _, diff = sh("git diff", W)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/main.rs", "w").write(ns["MAIN"].lstrip())
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(d + "/meta.json", "w"), indent=1)
        rc, out = sh("timeout 780 cargo test --workspace --no-fail-fast --offline -- --include-ignored --test-threads 8", W,
                     {"CARGO_TARGET_DIR": W + "/target"})
        fails = re.findall(r"^test (.*) \.\.\. FAILED", out, re.M)
        if rc or fails:
            print(pid, "TESTS FAIL", fails[:5], out[-800:] if not fails else ""); continue
        a, oa = sh("bash %s/demo.sh" % d, "/repo")
        b, ob = sh("bash %s/demo.sh" % d, W)
        if a or not b:
            print(pid, "DEMO WRONG unchanged=%d patched=%d" % (a, b), oa[-600:], ob[-600:]); continue
        rc, out = sh("python3 check.py %s --tier quick" % ns["PROP"], VERIF,
                     {"VERIF_REPO": W, "VERIF_BUILD": "/tmp/plantb", "VERIF_EVIDENCE": "/tmp/plante"})
        v = [l for l in out.splitlines() if "VIOLATION" in l]
        print(pid, "demo ok;", "CAUGHT" if rc == 1 and v else "MISSED rc=%d" % rc,
              "\n".join(l[:220] for l in out.splitlines()[:3]))


main(sys.argv[1:])
