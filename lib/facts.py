"""Build the driver, run it over /repo's working tree and load the facts it dumps."""
import hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))


class AnalysisError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], env=_env(), text=True).strip()


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    out, stamp = os.path.join(BUILD, "driver"), os.path.join(BUILD, "driver.sha")
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "-O", "-Awarnings", src, "-o", tmp],
                       env=_env(), capture_output=True, text=True, cwd=os.path.dirname(src))
    if r.returncode != 0:
        raise AnalysisError("driver does not build:\n" + r.stderr[-4000:])
    os.replace(tmp, out)
    open(stamp, "w").write(h)
    return out


def tree_hash():
    """Hash of everything under /repo that the build reads."""
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".yaml", ".md")):
                p = os.path.join(base, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                h.update(open(p, "rb").read() + b"\0")
    h.update(open(os.path.join(VERIF, "driver", "main.rs"), "rb").read())
    return h.hexdigest()


def extract():
    """Run the driver under cargo check; returns the path of the facts file for the current tree."""
    drv = build_driver()
    th = tree_hash()
    out = os.path.join(BUILD, "facts-%s.json" % th[:24])
    if os.path.exists(out):
        return out
    for f in os.listdir(BUILD):
        if f.startswith("facts-"):
            os.remove(os.path.join(BUILD, f))
    target = os.path.join(BUILD, "target")
    # Force the crate under analysis through the wrapper: cargo would skip it on a warm target dir.
    for d in ("debug/build/compose_spec", ):
        p = os.path.join(target, d)
        if os.path.isdir(p):
            shutil.rmtree(p)
    fp = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("compose_spec-"):
                shutil.rmtree(os.path.join(fp, d))
    e = _env()
    tmp = out + ".tmp%d" % os.getpid()
    e.update(LD_LIBRARY_PATH=sysroot() + "/lib", CARGO_TARGET_DIR=target, VERIF_CRATE="compose_spec",
             VERIF_OUT=tmp, RUSTC_WORKSPACE_WRAPPER=drv, RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0")
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--locked", "-p", "compose_spec", "--lib"],
                       cwd=REPO, env=e, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(tmp):
        raise AnalysisError("cannot analyse /repo (cargo check failed):\n" + r.stderr[-6000:])
    os.replace(tmp, out)
    return out


class Facts:
    def __init__(self, path):
        f = json.load(open(path))
        self.types, self.fnrefs, self.consts = f["types"], f["fnrefs"], f["consts"]
        self.insts, self.impls, self.statics = f["insts"], f["impls"], f["statics"]
        self.autos = f["autos"]
        self.roots = f["roots"]
        self.monos, self.iters = f.get("monos", []), dict(f.get("iters", []))
        self.serde = {}
        for adt, kind, i in f["serde"]:
            self.serde[adt, kind] = i
        self.adts = {}
        for a in f["adts"]:
            self.adts.setdefault(a["path"], a)
        self.by_key, self.by_path = {}, {}
        for i, x in enumerate(self.insts):
            x["id"] = i
            self.by_key.setdefault(x["key"], []).append(i)
            self.by_path.setdefault(x["path"], []).append(i)
        self.root_set = set(self.roots)
        self._tystr = {}

    # -- types ---------------------------------------------------------------------------------
    def ty(self, i):
        return self.types[i]

    def tystr(self, i, d=0):
        if i in self._tystr:
            return self._tystr[i]
        if not isinstance(i, int):
            return str(i)
        t = self.types[i]
        k = t[0]
        if d > 8:
            return "…"
        if k in ("bool", "char", "str", "never"):
            r = k
        elif k in ("int", "uint", "float", "param"):
            r = t[1]
        elif k == "adt":
            r = t[1] + ("<" + ", ".join(self.tystr(a, d + 1) for a in t[2]) + ">" if t[2] else "")
        elif k == "ref":
            r = "&" + ("mut " if t[2] else "") + self.tystr(t[1], d + 1)
        elif k == "ptr":
            r = "*" + self.tystr(t[1], d + 1)
        elif k == "slice":
            r = "[" + self.tystr(t[1], d + 1) + "]"
        elif k == "array":
            r = "[%s; %s]" % (self.tystr(t[1], d + 1), t[2])
        elif k == "tuple":
            r = "(" + ", ".join(self.tystr(a, d + 1) for a in t[1]) + ")"
        elif k == "closure":
            r = "{closure " + t[1] + "}"
        else:
            r = str(t[1]) if len(t) > 1 else k
        self._tystr[i] = r
        return r

    def strip_ref(self, i):
        while self.types[i][0] in ("ref", "ptr"):
            i = self.types[i][1]
        return i

    def adt_of(self, i):
        """ADT path of a type id (through references), or None."""
        t = self.types[self.strip_ref(i)]
        return t[1] if t[0] == "adt" else None

    # -- functions -----------------------------------------------------------------------------
    def local_fns(self):
        """Identity instances of every local function and closure."""
        return [self.insts[i] for i in self.roots]

    def trait_fn(self, trait, adt, name, targs=None):
        """Local impl methods `<adt as trait>::name` (root instances)."""
        out = []
        for i in self.roots:
            x = self.insts[i]
            im = x["impl"]
            if x["name"] != name or not im or not im["trait"] or x["key"] != x["root"]:
                continue
            if im["trait"][0] != trait:
                continue
            st = self.types[im["self"]]
            if not (st[0] == "adt" and st[1] == adt):
                continue
            if targs is not None and [self.tystr(t) for t in im["trait"][1][1:]] != targs:
                continue
            out.append(x)
        return out

    def inherent_fn(self, adt, name):
        out = []
        for i in self.roots:
            x = self.insts[i]
            im = x["impl"]
            if x["name"] != name or not im or im["trait"] or x["key"] != x["root"]:
                continue
            st = self.types[im["self"]]
            if st[0] == "adt" and st[1] == adt:
                out.append(x)
        return out

    def closures_of(self, inst):
        return [self.insts[i] for i in self.roots
                if self.insts[i]["root"] == inst["key"] and self.insts[i]["key"] != inst["key"]]


_cache = None


def load():
    global _cache
    if _cache is None:
        _cache = Facts(extract())
    return _cache
