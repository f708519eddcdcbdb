"""Comparing what a text entry point accepts with a language, on abstract strings."""
import multiprocessing as mp, os, resource, signal, time
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
from concurrent.futures.process import BrokenProcessPool
from absint import Interp, State, Inconclusive, CHARS, RES, OPT, iset, inorm, iand, iminus
from lang import Lang, pick
import models

STRINGY = {"alloc::string::String", "alloc::boxed::Box", "alloc::borrow::Cow"}


def is_stringy(F, t):
    t0 = F.types[t]
    while t0[0] == "ref":
        t0 = F.types[t0[1]]
    if t0[0] == "str":
        return True
    if t0[0] == "adt" and t0[1] in STRINGY:
        if t0[1] == "alloc::string::String":
            return True
        return any(F.types[a][0] == "str" for a in t0[2])
    return False


def result_of(F, t):
    """(wrapper, payload type) of a Result/Option type."""
    x = F.types[t]
    if x[0] == "adt" and x[1] in (RES, OPT) and x[2]:
        return x[1], x[2][0]
    return None, t


def entries(F, adt):
    """Local functions that turn one string into `adt`."""
    out = []
    for i in F.roots:
        x = F.insts[i]
        if x["key"] != x["root"] or not x["sig"] or x["body"] is None:
            continue
        ins, ret = x["sig"][0], x["sig"][1]
        w, p = result_of(F, ret)
        if w is None or len(ins) != 1:
            continue
        pt = F.types[p]
        if pt[0] != "adt" or pt[1] != adt:
            continue
        if x["impl"] and x["impl"]["trait"] and x["impl"]["trait"][0].startswith("serde"):
            continue
        if not is_stringy(F, ins[0]) and F.types[ins[0]][0] != "param":
            continue
        out.append(x)
    return out


def box(st, n, base="in"):
    return tuple(st.facts.get(("r", ("ch", base, i)), CHARS) for i in range(n))


def exact(st, base="in"):
    """Do the facts of this path constrain single characters only?"""
    return all(k[0] == "r" and k[1][0] == "ch" and k[1][1] == base for k in st.facts)


# Reads of moved-out locals only steer drops.
TAINT = ("call", "dyncall", "closure", "rec", "deep", "mut", "upd", "wid")


def mentions_opaque(x, heads=("call", "dyncall", "closure", "rec", "deep", "uninit", "undef", "mut", "upd", "wid")):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in heads:
            return True
        return any(mentions_opaque(y, heads) for y in x)
    return False


def tainted(st):
    """Does the path depend on an uninterpreted result?"""
    return any(mentions_opaque(k, TAINT) for k in st.facts)


def verdict(ret):
    if ret[0] == "agg" and ret[1] in (RES, OPT):
        good = ret[2] == 0 if ret[1] == RES else ret[2] == 1
        return "ok" if good else "err"
    return "?"


def run_on(F, inst, sval, st=None, budget=300000, **kw):
    I = Interp(F, budget=budget, **kw)
    arg = sval
    t = inst["sig"][0][0] if inst["sig"] else None
    if t is not None and F.types[t][0] == "adt" and F.types[t][1] == "alloc::borrow::Cow":
        arg = ("agg", "alloc::borrow::Cow", 0, (("rv", sval),))
    if t is not None and F.types[t][0] == "ref":
        arg = ("rv", sval)
        if F.types[F.types[t][1]][0] == "ref":
            arg = ("rv", arg)
    rs = I.run(inst, [arg], st)
    return I, rs


def state_for(boxes, base="in"):
    st = State()
    for i, b in enumerate(boxes):
        if b != CHARS:
            st.facts[("r", ("ch", base, i))] = b
    return st


def concrete(F, inst, text, budget=300000):
    """Constant propagation of one text: 'ok', 'err', 'panic' or '?'."""
    try:
        I, rs = run_on(F, inst, ("s", text), budget=budget)
    except (Inconclusive, KeyError, IndexError, TypeError, RecursionError):
        return "?", None
    if I.panics and not rs:
        return "panic", None
    if len(rs) != 1:
        vs = {verdict(r) for r, _ in rs}
        if I.panics or len(vs) != 1 or any(tainted(s) for _, s in rs):
            return "?", None
        return vs.pop(), rs[0][0]
    if tainted(rs[0][1]):
        return "?", None
    return verdict(rs[0][0]), rs[0]


def shape_boxes(n, alphabet=None):
    return tuple((alphabet or CHARS) for _ in range(n))


def compare(F, inst, lang, boxes, may=None, keep=None):
    """Compare one entry point with a language on one box.

    lang: texts that must be accepted; may: texts that may be accepted (default: lang).
    Returns a dict: paths, decided, undecided (reasons), bad [(text, expected, got)].
    """
    may = may or lang
    n = len(boxes)
    res = {"paths": 0, "undecided": [], "bad": [], "insts": set(), "unknown": {}}
    sval = ("q", "in", 0, n) if n else ("s", "")
    try:
        I, rs = run_on(F, inst, sval, state_for(boxes))
    except Inconclusive as e:
        res["undecided"].append(str(e))
        return res
    except (KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError) as e:
        res["undecided"].append("%s %s" % (type(e).__name__, e))
        return res
    res["insts"] = {i for i in I.visited_insts if F.insts[i]["local"]}
    res["unknown"] = dict(I.unknown)
    for ret, st in rs:
        res["paths"] += 1
        v = verdict(ret)
        bx = tuple(iand(b, c) for b, c in zip(box(st, n), boxes))
        if not all(bx):
            continue
        if v == "?":
            res["undecided"].append("result not determined")
            continue
        w = may.find(bx, False) if v == "ok" else lang.find(bx, True)
        if w is None:
            if keep is not None and v == "ok":
                keep(I, ret, st, bx)
            continue
        if exact(st):
            res["bad"].append((w, v))
            continue
        # Other constraints lie on this path: settle it on the witness itself.
        got, _ = concrete(F, inst, w)
        if got == v:
            res["bad"].append((w, v))
        elif got == "?":
            res["undecided"].append("path depends on an uninterpreted result")
        elif keep is not None and v == "ok":
            keep(I, ret, st, bx)
    return res


class Gone(dict):
    """The result of a job that gave no answer."""
    def __getitem__(self, k):
        return ["no answer"] if k == "und" else [] if k in ("bad", "panics") else 0

    def get(self, k, d=None):
        return self[k]


class Late(Inconclusive):
    pass


START = time.time()
TOTAL, EACH, MEMORY = 700, 240, 7 << 30     # seconds in all, seconds per job, bytes per worker


def _late(*_):
    raise Late("time")


def _start():
    resource.setrlimit(resource.RLIMIT_STACK, (100 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
    signal.signal(signal.SIGALRM, _late)


def pmap(fn, jobs, procs=None):
    """Run jobs in forked workers; results come back in order, with Gone for a job that gave no answer."""
    jobs = list(jobs)
    procs = min(procs or os.cpu_count() or 4, len(jobs) or 1)
    global _fn
    _fn = fn
    out = [Gone() for _ in jobs]
    left = []
    with ProcessPoolExecutor(procs, mp.get_context("fork"), _start) as p:
        fs = [p.submit(_call, j) for j in jobs]
        for i, f in enumerate(fs):
            try:
                out[i] = f.result()
            except BrokenProcessPool:
                left.append(i)

    def lone(i):
        # One job took the pool down: the rest is run one process per job.
        try:
            with ProcessPoolExecutor(1, mp.get_context("fork"), _start) as p:
                out[i] = p.submit(_call, jobs[i]).result()
        except BrokenProcessPool:
            pass
    if left:
        with ThreadPoolExecutor(procs) as t:
            list(t.map(lone, left))
    return out


def _call(j):
    signal.setitimer(signal.ITIMER_REAL, max(0.5, min(EACH, START + TOTAL - time.time())))
    try:
        return _fn(j)
    except (Late, MemoryError, RecursionError):
        return Gone()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def int_consts(F, insts):
    """Integer constants in the bodies of these instances."""
    out = set()

    def walk(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "k" and isinstance(x[1], int):
                t = F.consts[x[1]][0]
                if t and t[0] == "int":
                    out.add(int(t[1]))
            for y in x:
                walk(y)
    for i in insts:
        b = F.insts[i]["body"]
        if b:
            walk(b["blocks"])
    return out
