"""Abstract interpretation of the MIR of every function that builds a validated name from one string
(`new`, `TryFrom`, `FromStr`), on abstract strings: each character is an interval set of Unicode scalar
values, split where the code distinguishes characters, so every path stands for all strings of a box.  Each box
is compared with the documented language (as an automaton over character classes): a path that returns Ok must
lie inside it, a path that returns Err outside it, and the stored text must be the input text.  Strings of every
length up to the stated bound are covered in full; longer ones are covered by boxes around every length and
integer constant the code mentions."""
import time
import texts
from texts import *  # noqa: F401,F403
from lang import Lang
from absint import CHARS, inorm
from lang import pick
import models

A = "a-zA-Z0-9"
PART = r"[a-z0-9]+((\.|_|__|-+)[a-z0-9]+)*"


def ascii_of(s):
    return inorm([(ord(a), ord(b)) for a, b in s])


LOWER, DIG = ascii_of([("a", "z")]), ascii_of([("0", "9")])
ANY_ASCII = ((0, 127),)


NAME_MUST = Lang(r"%s(/%s)*" % (PART, PART), r"%s:[0-9]{1,4}(/%s)*" % (PART, PART), r"[^/:]*\.[^/:]*:.*",
                 test=lambda a, b, c: a or (b and c))
NAME_MAY = Lang(r"%s(/%s)*" % (PART, PART), r"%s:\+?[0-9]+(/%s)*" % (PART, PART), r"[^/:]*\.[^/:]*:.*",
                test=lambda a, b, c: a or (b and c))

# adt, must accept, may accept, exhaustive length (quick, thorough), documented language
SPECS = [
    ("common::keys::Identifier", Lang("[%s][%s._-]*" % (A, A)), None, (40, 130), "[a-zA-Z0-9][a-zA-Z0-9._-]*"),
    ("common::keys::MapKey", Lang(r"[^\n]+"), None, (24, 66), r"[^\n]+"),
    ("common::keys::ExtensionKey", Lang(r"x-[^\n]*"), None, (24, 66), r"x-[^\n]*"),
    ("name::Name", Lang("[a-z0-9][a-z0-9_-]*"), None, (40, 130), "[a-z0-9][a-z0-9_-]*"),
    ("service::hostname::Hostname",
     Lang(r"[%s]([%s-]*[%s])?(\.[%s]([%s-]*[%s])?)*" % ((A,) * 6)), None, (8, 11),
     "labels of [a-zA-Z0-9-], not starting or ending with -, joined by ."),
    ("service::user::Name",
     Lang(r"([%s_][%s_-]*)?\$?" % (A, A), "[0-9]*", ".{0,32}", test=lambda a, b, c: a and not b and c), None, (12, 34),
     r"([a-zA-Z0-9_][a-zA-Z0-9_-]*)?\$?, non-empty, not all digits, at most 32 characters"),
    ("service::ulimit::Resource", Lang("[a-z]+"), None, (40, 130), "[a-z]+"),
    ("service::build::cache::CacheOption", Lang(r"[^\s]+"), None, (16, 40), "non-empty, no whitespace"),
    ("service::image::tag::Tag", Lang("[%s._-]{1,128}" % A), None, (130, 130), "[a-zA-Z0-9._-]{1,128}"),
    ("service::image::digest::Digest", Lang(r"[a-z0-9]+([+._-][a-z0-9]+)*:[A-Za-z0-9=_-]+"), None, (8, 10),
     "[a-z0-9]+([+._-][a-z0-9]+)*:[A-Za-z0-9=_-]+"),
    ("service::image::name::Name", NAME_MUST, NAME_MAY, (6, 8),
     "/-joined parts of [a-z0-9] runs joined by ., _, __ or dashes; a first part with a dot may end in :port"),
    ("service::volumes::AbsolutePath", Lang("/.*"), None, (30, 130), "absolute Unix path"),
    ("service::volumes::HostPath", Lang(r"/.*|\.(/.*)?|\.\.(/.*)?"), None, (6, 9),
     "absolute path, or a path whose first component is . or .."),
]
FILL = {"service::ulimit::Resource": LOWER, "service::volumes::AbsolutePath": LOWER}
PREFIX = {"common::keys::ExtensionKey": "x-", "service::volumes::AbsolutePath": "/", "service::volumes::HostPath": "./",
          "service::image::digest::Digest": "sha256:"}
SPECIAL = ".-_/:$\n Z5\u00e9"
# Texts decided one by one, at numeric limits no box separates: (adt, text, must be accepted)
FIXED = [
    ("service::image::name::Name", "quay.io:65535/a", True),
    ("service::image::name::Name", "quay.io:65536/a", False),
    ("service::image::name::Name", "quay.io:0/a", True),
    ("service::image::name::Name", "quay.io:99999/a", False),
    ("service::image::name::Name", "quay.io:-1/a", False),
    ("service::image::name::Name", "quay.io:/a", False),
    ("service::image::name::Name", "quay.io:443/a:5/b", False),
    ("service::image::name::Name", "quay:443/a", False),
    ("service::image::name::Name", "a/quay.io:443", False),
]


def lit(c):
    return ((ord(c), ord(c)),)


def long_boxes(adt, lengths):
    """Boxes of long strings: a filler class everywhere, and one special character early, in the middle, last."""
    pre = PREFIX.get(adt, "")
    out = []
    for n in lengths:
        m = n - len(pre)
        if m < 2:
            continue
        base = [lit(c) for c in pre] + [LOWER] * m
        out.append(tuple(base))
        for ch in SPECIAL:
            for p in (len(pre), len(pre) + m // 2, n - 1):
                if len(pre) <= p < n:
                    b = list(base)
                    b[p] = lit(ch)
                    out.append(tuple(b))
                    if p + 1 < n and ch in "._-":
                        b = list(b)
                        b[p + 1] = lit(ch)
                        out.append(tuple(b))
        out.append(tuple([lit(c) for c in pre] + [DIG] * m))
    return out


def same_text(st, v, n):
    sy = models.syms(v) if models.is_str(v) else None
    if sy is None or len(sy) != n:
        return False
    for i, c in enumerate(sy):
        if c == ("t", ("ch", "in", i)):
            continue
        f = st.facts.get(("r", ("ch", "in", i)))
        if c[0] == "c" and f == ((c[1], c[1]),):
            continue
        return False
    return True


def strings_in(v, out):
    if v[0] in ("s", "q", "cat"):
        out.append(v)
    elif v[0] in ("rv",):
        strings_in(v[1], out)
    elif v[0] == "agg":
        for x in v[3]:
            strings_in(x, out)
    elif v[0] == "t":
        out.append(v)


def job(j):
    F, inst, must, may, boxes = j[0], j[1], j[2], j[3], j[4]
    stored = []

    def keep(I, ret, st, bx):
        ss = []
        strings_in(models.strip(I, st, ret[3][0]), ss)
        texts_ = [s for s in ss if models.is_str(s)]
        if texts_ and not any(same_text(st, s, len(boxes)) for s in texts_):
            stored.append("".join(chr(pick(c)) for c in bx))
    t0 = time.time()
    r = texts.compare(F, inst, must, boxes, may, keep)
    r['t'] = time.time() - t0
    r["stored"] = stored
    return r


def run(ctx):
    F = ctx.F
    jobs, meta = [], []
    for adt, must, may, lens, doc in SPECS:
        es = entries(F, adt)
        if not ctx.need(es, adt, "no function builds %s from a string" % adt):
            continue
        ctx.rule("%s: %s" % (adt, doc))
        nmax = lens[1] if ctx.thorough else lens[0]
        # integer constants in the functions reached decide which longer lengths matter
        reach = set()
        for e in es:
            r = texts.compare(F, e, must, shape_boxes(2), may)
            reach |= r["insts"]
        consts = {k for k in texts.int_consts(F, reach) if nmax < k + 1 and k <= 400}
        lengths = sorted({n for k in consts for n in (k - 1, k, k + 1) if n > nmax} |
                         {n for n in (40, 129, 256) if n > nmax})
        for e in es:
            main = e["name"] == "new" and e["mono"] or e["name"] in ("try_from", "from_str", "new")
            if not main and not e["reachable"]:
                continue
            for n in range(nmax + 1):
                jobs.append((F, e, must, may, shape_boxes(n)))
                meta.append((adt, e, "all texts of %d characters" % n))
            for b in long_boxes(adt, lengths):
                jobs.append((F, e, must, may, b))
                meta.append((adt, e, "box of length %d" % len(b)))
    global _jobs
    _jobs = jobs
    res = pmap(_nth, range(len(jobs)))
    import os
    if os.environ.get("VERIF_PROF"):
        tt = {}
        for m, r in zip(meta, res):
            k = (m[1]["path"], m[2][:3] == "all", m[2] if m[2][:3] == "all" else "")
            tt[k] = tt.get(k, 0) + r["t"]
        for k, v in sorted(tt.items(), key=lambda x: -x[1])[:40]:
            print(round(v, 2), k)
    seen = set()
    for (adt, e, what), r in zip(meta, res):
        name = e["path"]
        ctx.ob("paths", r["paths"])
        ctx.ob("boxes", 1)
        if name not in seen:
            seen.add(name)
            ctx.ob("entry points", 1, "%s (%s)" % (name, e["loc"]))
        for w, got in r["bad"]:
            ctx.viol("%s:%s" % (name, "accepts" if got == "ok" else "rejects"),
                     "%s %s %r, which the documented rules %s" % (
                         name, "accepts" if got == "ok" else "rejects", w,
                         "forbid" if got == "ok" else "allow"), e["loc"])
        for w in r["stored"]:
            ctx.viol("%s:stored" % name, "%s(%r) keeps a text other than its input" % (name, w), e["loc"])
        for u in r["undecided"]:
            ctx.unk(name, what + ": " + u)
    for adt, text, want in FIXED:
        for e in entries(F, adt):
            got, _ = texts.concrete(F, e, text)
            ctx.ob("boundary texts", 1)
            if got == "?":
                ctx.unk(e["path"], "boundary text %r" % text)
            elif got != ("ok" if want else "err"):
                ctx.viol("%s:%s" % (e["path"], "rejects" if want else "accepts"), "%s %s %r" % (
                    e["path"], "rejects" if want else "accepts", text), e["loc"])
    ctx.assumptions.append("the transfer functions in lib/models.py describe the standard library faithfully")


def _nth(i):
    return job(_jobs[i])
