"""The documented text forms of compose_spec, and boxes of texts around them.

Each entry gives the texts a type must accept, the texts it may accept (leading zeros and signs that integer
parsing takes, for example), the length up to which all texts are covered, and seed texts whose neighbourhoods
(one character free, inserted or removed; digit runs of critical lengths) are covered beyond that length.
"""
from absint import CHARS, inorm
from lang import Lang
import texts

LOWER, UPPER, DIG = inorm([(97, 122)]), inorm([(65, 90)]), inorm([(48, 57)])
ID = "[a-zA-Z0-9][a-zA-Z0-9._-]*"


def upto(n):
    """Regular expression of the decimal numbers 0..=n without superfluous digits beyond n's length."""
    d = str(n)
    alts = []
    if len(d) > 1:
        alts.append("[0-9]{1,%d}" % (len(d) - 1))
    for i, c in enumerate(d):
        if c != "0":
            rest = len(d) - i - 1
            alts.append(d[:i] + ("0" if c == "1" else "[0-%d]" % (int(c) - 1)) + ("[0-9]{%d}" % rest if rest else ""))
    alts.append(d)
    return "(" + "|".join(alts) + ")"


U8, U16, U32, U64 = (upto(2 ** b - 1) for b in (8, 16, 32, 64))


def num(rx):
    """What integer parsing takes besides: a plus sign and leading zeros."""
    return r"(\+?0*%s)" % rx


N16, N32, N64 = num(U16), num(U32), num(U64)

OSES = {
    "aix": "ppc64", "android": "386 amd64 arm arm64", "darwin": "amd64 arm64", "dragonfly": "amd64",
    "freebsd": "386 amd64 arm", "illumos": "amd64", "ios": "arm64", "js": "wasm",
    "linux": "386 amd64 arm arm64 loong64 mips mipsle mips64 mips64le ppc64 ppc64le riscv64 s390x",
    "netbsd": "386 amd64 arm", "openbsd": "386 amd64 arm arm64", "plan9": "386 amd64 arm", "solaris": "amd64",
    "wasip1": "wasm", "windows": "386 amd64 arm arm64",
}
VARIANTS = {"arm": ["v6", "v7", "v8"], "arm64": ["v8"]}


def arch_texts(a):
    return [a] + [a + "/" + v for v in VARIANTS.get(a, [])]


def os_texts(o):
    return [o] + [o + "/" + t for a in OSES[o].split() for t in arch_texts(a)]


PLATFORMS = [t for o in OSES for t in os_texts(o)]
ARCHES = sorted({a for v in OSES.values() for a in v.split()})


def alts(ts):
    return "|".join(t.replace(".", r"\.") for t in ts)


PART = r"[a-z0-9]+((\.|_|__|-+)[a-z0-9]+)*"
TAG = "[a-zA-Z0-9._-]{1,128}"
DIGEST = r"[a-z0-9]+([+._-][a-z0-9]+)*:[A-Za-z0-9=_-]+"
# Image: NAME, NAME:TAG or NAME@DIGEST.  A registry port makes the split at `:` ambiguous to a regular expression only
# through which `:` separates the tag; the languages below enumerate the cases.
REG = r"[a-z0-9]+((\.|_|__|-+)[a-z0-9]+)*"
REGDOT = r"[a-z0-9]+((\.|_|__|-+)[a-z0-9]+)*(\.)[a-z0-9]+((\.|_|__|-+)[a-z0-9]+)*"
IMG_NAME = r"%s(/%s)*" % (PART, PART)
IMG_REG = r"%s:%s(/%s)+" % (REGDOT, U16, PART)
IMG_REG_MAY = r"%s:%s(/%s)*" % (REGDOT, N16, PART)
SUFFIX = r"(:%s|@%s)?" % (TAG, DIGEST)
IMAGE_MUST = r"(%s|%s)%s" % (IMG_NAME, IMG_REG, SUFFIX)
IMAGE_MAY = r"(%s|%s)%s" % (IMG_NAME, IMG_REG_MAY, SUFFIX)
ABS = "/.*"
HOST = r"/.*|\.(/.*)?|\.\.(/.*)?"
USER_NAME = r"[a-zA-Z_][a-zA-Z0-9_-]{0,30}\$?"
USER_NAME_MAY = r"[a-zA-Z0-9_-]{1,32}\$?|\$"
IDNAME = r"(%s|%s)" % (U32, USER_NAME)
IDNAME_MAY = r"(%s|%s)" % (N32, USER_NAME_MAY)
OPT = "(rw|ro|z|Z)"
OPTS = "(rw|ro|z|Z|rw,z|rw,Z|ro,z|ro,Z|z,rw|z,ro|Z,rw|Z,ro)"
SRC_MAY = r"(/[^:]*|\.(/[^:]*)?|\.\.(/[^:]*)?|%s)" % ID
IP4 = r"[0-9]{1,3}(\.[0-9]{1,3}){3}"
IPANY = r"[0-9a-fA-F:.]+"
NOWS = r"[^\s]+"
ARRAY = r"[\s\S]*"


class T:
    """One type: what its text form must and may be."""

    def __init__(self, adt, must, may=None, lens=(4, 5), seeds=(), doc=None, fixed=(), test=None, maytest=None):
        mk = lambda x, t: x if isinstance(x, Lang) else Lang(*((x,) if isinstance(x, str) else x), test=t)
        self.adt = adt
        self.must = mk(must, test)
        self.may = mk(may, maytest) if may is not None else self.must
        self.lens, self.seeds, self.fixed = lens, tuple(seeds), tuple(fixed)
        self.doc = doc or (must if isinstance(must, str) else "")


ANY = "[^\U0010ffff]*|.*"
ANYTHING = ".*"
S_ = "service::"

TYPES = [
    T("service::byte_value::ByteValue", U64 + "?(b|k|kb|m|mb|g|gb)" .replace("?", ""), num(U64) + "([kKmMgG]?[bB]?)",
      lens=(3, 4), seeds=["12kb", "5b", "70gb", "18446744073709551615", "3M"],
      doc="{u64}{b|k|kb|m|mb|g|gb}",
      fixed=[("18446744073709551615b", True), ("18446744073709551616b", False), ("", False), ("1tb", False),
             ("1 kb", False), ("1bk", False), ("-1b", False), ("kb", False)]),
    T("service::device::Device", r"/?[^:/]*(/[^:]*)?:/[^:]*(:[rwm]*)?", r"[^:]*:/[^:]*(:[rwm]*)?", lens=(5, 6),
      seeds=["/dev/a:/dev/b", "/a:/b:rwm", "/a:/b:mr"], doc="{host_path}:{container_path}[:{permissions}]"),
    T("service::device::Permissions", "r?w?m?", "[rwm]*", lens=(4, 6), seeds=["rwm"], doc="[r][w][m]"),
    T("service::device::CgroupRule", r"[acb] (\*|%s):(\*|%s) r?w?m?" % (U16, U16),
      r"[acb] (\*|%s)?:(\*|%s)?( [rwm]*)?" % (N16, N16), lens=(5, 6),
      seeds=["c 1:3 mr", "a *:* rwm", "b 7:* rwm", "a 65535:65535 w", "c 12:345 r"],
      doc="{a|c|b} {major|*}:{minor|*} {permissions}",
      fixed=[("c 65536:0 r", False), ("c 0:65536 r", False), ("c 65535:65535 r", True), ("c 1:3", None),
             ("d 1:3 r", False), ("c 1 r", False), ("c 1:3 x", False)]),
    T("service::device::MajorMinorNumber", r"\*|%s" % U16, r"(\*|%s)?" % N16, lens=(5, 6), seeds=["65535", "*"],
      doc="*|{u16}", fixed=[("65535", True), ("65536", False)]),
    T("service::device::Kind", "[acb]", lens=(4, 6), seeds=["a", "b", "c"]),
    T("service::ports::Range", U16, r"%s(-%s)?" % (N16, N16), lens=(5, 6), seeds=["8000-8010", "80", "65535", "0-65535"],
      doc="{start}[-{end}], start <= end",
      fixed=[("1-2", True), ("2-1", False), ("7-7", True), ("0-65535", True), ("65535-0", False), ("65536", False),
             ("1-65536", False), ("9999-10000", True), ("10000-9999", False), ("1-", False), ("-1", False),
             ("", False), ("1-2-3", False)]),
    T("service::ports::ShortRanges", U16, r"((%s(-%s)?)?:)?%s(-%s)?" % (N16, N16, N16, N16), lens=(5, 6),
      seeds=["80:80", "8000-8001:9000-9001", "65535:0"],
      doc="[[{host}]:]{container}, ranges of equal size",
      fixed=[("1:2", True), ("1-2:3-4", True), ("1-3:3-4", False), ("1:3-4", False), ("1-2:3", False),
             ("0-65535:0-65535", True), ("0-65534:0-65535", False), ("2-1:3-4", False), ("1-2:4-3", False),
             ("1:2:3", False), (":1", True), ("1:", False), ("", False), ("5-9:15-19", True)]),
    T("service::ports::ShortPort", r"%s(/(tcp|udp))?" % U16,
      r"(((\[?%s\]?)?:)?(%s(-%s)?)?:)?%s(-%s)?(/.*)?" % (IPANY, N16, N16, N16, N16), lens=(4, 5),
      seeds=["80:80/tcp", "1.2.3.4:5:6", "1.2.3.4::6/udp", "[::1]:8:9", "::1:8:9", "8-9:18-19"],
      doc="[[{ip}:][{host}]:]{container}[/{protocol}]",
      fixed=[("127.0.0.1:80:8080", True), ("127.0.0.1:80:8080/udp", True), ("127.0.0.1::8080", True),
             ("[::1]:80:8080", True), ("::1:80:8080", True), ("127.0.0.1:8080", False), ("1.2.3:80:80", False),
             ("256.0.0.1:80:80", False), ("80:80:80", False), ("127.0.0.1:1-2:3", False), ("[::]::80", True),
             ("127.0.0.1:1-2:3-4/tcp", True), ("65535:65535", True), ("65536:1", False), ("/tcp", False)]),
    T("service::expose::Expose", r"%s(/.*)?" % U16, r"%s(-%s)?(/.*)?" % (N16, N16), lens=(5, 6),
      seeds=["80/tcp", "80-90/udp", "65535"], doc="{start}[-{end}][/{protocol}]",
      fixed=[("1-2/tcp", True), ("2-1/tcp", False), ("65536", False), ("/tcp", False)]),
    T("service::network_config::MacAddress", r"[0-9a-fA-F]{2}(:[0-9a-fA-F]{2}){5}",
      r"\+?0*[0-9a-fA-F]{1,2}(:\+?0*[0-9a-fA-F]{1,2}){5}", lens=(4, 5), seeds=["01:23:45:67:89:aB", "1:2:3:4:5:6"],
      doc="six hexadecimal bytes joined by :"),
    T("service::network_config::NetworkMode", r"none|host|(service|container):%s" % ID,
      r"none|host|service:%s|container:%s|.*" % (ID, ID), lens=(6, 7),
      seeds=["none", "host", "service:ab", "container:ab", "bridge"],
      maytest=None, doc="none|host|service:{id}|container:{id}|{driver}"),
    T("service::Ipc", r"shareable|service:%s|[^:]*" % ID, lens=(6, 7),
      may=[r"shareable|service:%s" % ID, "service:.*"], maytest=lambda a, b: a or not b,
      seeds=["shareable", "service:ab", "private"], doc="shareable|service:{id}|{other}"),
    T("service::Link", r"%s(:.*)?" % ID, lens=(6, 8), seeds=["a:b", "a.b-c_d:e"], doc="{service}[:{alias}]"),
    T("service::VolumesFrom", r"(container:)?%s(:ro|:rw)?" % ID, lens=(6, 7),
      seeds=["container:a:ro", "a:rw", "container:ab", "a-b:ro", "container"], doc="[container:]{id}[:ro|:rw]"),
    T("service::VolumesFromSource", r"(container:)?%s" % ID, lens=(6, 7), seeds=["container:ab", "ab", "container"],
      doc="[container:]{id}"),
    T("service::volumes::Source", r"%s|%s" % (HOST, ID), lens=(6, 8), seeds=["./ab", "../a", "/a", "a-b.c"],
      doc="{host path}|{volume name}"),
    T("service::volumes::ShortVolume", r"(%s:)?/[^:]*|%s:/[^:]*:%s" % (SRC_MAY, SRC_MAY, OPTS), lens=(6, 7),
      seeds=["/a:/b:ro", "./a:/b:rw,z", "vol:/b:Z,ro", "/a", "a:/b:z", "../a:/b:ro,Z"],
      may=[r"(%s:)?/[^:]*|%s:/[^:]*:(%s(,%s)*)?" % (SRC_MAY, SRC_MAY, OPT, OPT)],
      doc="[{source}:]{container_path}[:{options}], options among rw|ro and z|Z",
      fixed=[("a:/b:ro,rw", False), ("a:/b:ro,ro", False), ("a:/b:z,Z", False), ("a:/b:z,z", False),
             ("a:/b:rw,rw", False), ("a:/b:ro,z,rw", False), ("a:/b:ro,Z", True), ("a:/b:Z,ro", True),
             ("a:/b:nocopy", False), ("a:b", False), ("a", False), ("a:/b:/c", False)]),
    T("service::deploy::resources::Count", r"all|%s" % U64, r"all|%s" % N64, lens=(6, 8), seeds=["all", "18446744073709551615"],
      doc="all|{u64}", fixed=[("18446744073709551615", True), ("18446744073709551616", False), ("-1", False)]),
    T("service::build::ssh_auth::SshAuth", "default|[^=]+=.+", lens=(7, 9), seeds=["default", "a=b", "id=/p=q"],
      doc="default|{id}={path}"),
    T("service::build::ssh_auth::Id", "[^=]+=.+", lens=(7, 9), seeds=["a=b", "id=/p=q"], doc="{id}={path}"),
    T("service::build::cache::Cache", r"%s|type=%s(,[^\s,=]+=[^\s,=]+)*" % (IMG_NAME, "(gha|s3|local|azblob)"), lens=(5, 6),
      may=[r"type=[^\s,]+(,[^\s,=]+=[^\s,]+)*", r"(.*,.*)|(type=.*)", IMAGE_MAY],
      maytest=lambda a, b, c: a if b else c,
      seeds=["type=gha", "type=local,src=a", "type=registry,ref=a", "type=s3,b=c,d=e", "a/b:c", "type=a"],
      doc="{image}|type={type}[,{key}={value}]*",
      fixed=[("type=registry", False), ("type=registry,ref=A", False), ("type=", False), ("type=a,b", False),
             ("type=registry,ref=a/b:c", True), ("type=registry,ref=quay.io/a:b", True), ("src=a,type=b", None)]),
    T("service::image::Image", IMAGE_MUST, IMAGE_MAY, lens=(5, 6),
      seeds=["a/b:c", "quay.io/a/b:1.0", "a.b:50/c:d", "a@sha256:ab", "a.b:5/c@s:d", "a_b", "a__b", "a--b"],
      doc="{name}[:{tag}|@{digest}]"),
    T("service::user::User", r"%s(:%s)?" % (IDNAME, IDNAME), r"%s(:%s)?" % (IDNAME_MAY, IDNAME_MAY), lens=(5, 6),
      seeds=["1000:1000", "root:wheel", "a:1", "1:a", "a$:b$", "4294967295"], doc="{uid|name}[:{gid|name}]",
      fixed=[("4294967295:0", True), ("4294967296", False), ("0:4294967296", False), ("a:b:c", False)]),
    T("service::user::IdOrName", IDNAME, IDNAME_MAY, lens=(6, 8), seeds=["1000", "root", "a$", "4294967295"],
      doc="{u32}|{name}", fixed=[("4294967295", True), ("4294967296", False)]),
    T("service::build::network::Network", r"none|%s" % ID, lens=(6, 8), seeds=["none", "ab"], doc="none|{id}"),
    T("common::Number", r"-?(0|[1-9][0-9]{0,17})", r".*", lens=(4, 5), seeds=["-123", "9223372036854775807"],
      doc="integer or float text",
      fixed=[("18446744073709551615", True), ("18446744073709551616", None), ("-9223372036854775808", True),
             ("1.5", True), ("abc", False), ("", False), ("-", False), ("1e3", True), ("0", True)]),
    T("service::cpuset::CpuSet", r"(%s(,%s)*)?" % (U64, U64), r"(%s(-%s)?(,%s(-%s)?)*,?)?|,*" % ((N64,) * 4), lens=(3, 4),
      seeds=["1,2,3", "7"], doc="{cpu}[-{cpu}],…",
      fixed=[("0-3", True), ("0-3,7", True), ("18446744073709551615", True), ("0,18446744073709551615", True),
             ("18446744073709551614-18446744073709551615", True), ("18446744073709551616", False), ("5,5", True),
             ("3,1,2", True), ("2-4,3-6", True), ("0", True), ("8,10-12,11", True), ("a", False), ("1-", False), ("-1", False), ("1-2-3", False)]),
    # open keyword sets: everything is accepted
    T("service::ports::Protocol", ANYTHING, lens=(5, 7), seeds=["tcp", "udp"], doc="tcp|udp|{other}"),
    T("service::deploy::endpoint_mode::EndpointMode", ANYTHING, lens=(5, 7), seeds=["vip", "dnsrr"], doc="vip|dnsrr|{other}"),
    T("service::deploy::resources::Capability", ANYTHING, lens=(5, 7), seeds=["gpu", "tpu"], doc="gpu|tpu|{other}"),
    T("network::Driver", ANYTHING, lens=(6, 8), seeds=["bridge", "host", "none"], doc="host|none|{other}"),
    T("service::build::context::Context", ANYTHING, lens=(5, 6), seeds=["https://a.b", ".", "/a", "a:b"],
      doc="{url}|{path}"),
    T("common::Value", ANYTHING, lens=(4, 5), seeds=["true", "false", "12", "-3", "a"], doc="{number|bool|string}"),
    T("common::StringOrNumber", ANYTHING, lens=(4, 5), seeds=["12", "-3", "a"], doc="{number|string}"),
    # closed keyword sets
    T("service::platform::Platform", alts(PLATFORMS), lens=(6, 8), seeds=PLATFORMS, doc="{os}[/{arch}[/{variant}]]"),
    T("service::platform::Os", alts(OSES), lens=(6, 8), seeds=list(OSES)),
    T("service::platform::Arch", alts([t for a in ARCHES for t in arch_texts(a)]), lens=(6, 8),
      seeds=[t for a in ARCHES for t in arch_texts(a)], doc="{arch}[/{variant}]"),
    T("service::platform::ArmVariant", "v6|v7|v8", lens=(4, 6), seeds=["v6"]),
    T("service::platform::Arm64Variant", "v8", lens=(4, 6), seeds=["v8"]),
]
# Lengths up to which every text is covered (quick, thorough).
LENS = {
    "service::byte_value::ByteValue": (24, 40), "service::device::Device": (11, 14),
    "service::device::Permissions": (10, 12), "service::device::CgroupRule": (9, 11),
    "service::device::MajorMinorNumber": (24, 40), "service::device::Kind": (24, 40),
    "service::ports::Range": (14, 26), "service::ports::ShortRanges": (6, 8), "service::ports::ShortPort": (5, 7),
    "service::expose::Expose": (11, 16), "service::network_config::MacAddress": (7, 9),
    "service::network_config::NetworkMode": (24, 60), "service::Ipc": (24, 60), "service::Link": (24, 60),
    "service::VolumesFrom": (24, 40), "service::VolumesFromSource": (24, 60), "service::volumes::Source": (10, 13),
    "service::volumes::ShortVolume": (10, 12), "service::deploy::resources::Count": (24, 40),
    "service::build::ssh_auth::SshAuth": (24, 60), "service::build::ssh_auth::Id": (24, 60),
    "service::build::cache::Cache": (5, 7), "service::image::Image": (6, 8), "service::user::User": (9, 12),
    "service::user::IdOrName": (20, 34), "service::build::network::Network": (24, 60), "common::Number": (14, 24),
    "service::cpuset::CpuSet": (6, 8), "service::build::context::Context": (24, 40),
}
OS_TYPES = {"Aix": "aix", "Android": "android", "Darwin": "darwin", "DragonFly": "dragonfly", "FreeBsd": "freebsd",
            "Illumos": "illumos", "IOs": "ios", "Js": "js", "Linux": "linux", "NetBsd": "netbsd", "OpenBsd": "openbsd",
            "Plan9": "plan9", "Solaris": "solaris", "WasiP1": "wasip1", "Windows": "windows"}
for _n, _o in OS_TYPES.items():
    _ts = [t for a in OSES[_o].split() for t in arch_texts(a)]
    TYPES.append(T("service::platform::%sArch" % _n, alts(_ts), lens=(6, 8), seeds=_ts, doc="{arch}[/{variant}]"))

DURATION_MUST = r"([0-9]{1,9}(us|ms|s|m|h))+"
DURATION_MAY = r"([0-9]+(us|ms|s|m|h))*"
for _t in TYPES:
    _t.lens = LENS.get(_t.adt, (24, 60))
BY_ADT = {t.adt: t for t in TYPES}


# ---- boxes -------------------------------------------------------------------------------------
def lit(c):
    return ((ord(c), ord(c)),)


def klass(c):
    return LOWER if "a" <= c <= "z" else UPPER if "A" <= c <= "Z" else DIG if "0" <= c <= "9" else lit(c)


def runs(text):
    """Maximal digit runs of a text: [(start, end)]."""
    out, i = [], 0
    while i < len(text):
        j = i
        while j < len(text) and text[j].isdigit():
            j += 1
        if j > i:
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


def near(seed, pairs=False):
    """Boxes around one seed text."""
    out = set()
    literal = tuple(lit(c) for c in seed)
    bases = [literal]
    digits = tuple(DIG if c.isdigit() else lit(c) for c in seed)
    if digits != literal:
        bases.append(digits)
    for b in bases:
        out.add(b)
        n = len(b)
        for i in range(n):
            out.add(b[:i] + (CHARS,) + b[i + 1:])
            out.add(b[:i] + b[i + 1:])
        for i in range(n + 1):
            out.add(b[:i] + (CHARS,) + b[i:])
        if pairs:
            for i in range(n):
                for j in range(i + 1, n):
                    if j - i < 6:
                        c = list(b)
                        c[i] = c[j] = CHARS
                        out.add(tuple(c))
    for i, j in runs(seed):
        for k in (1, 2, 3, 4, 5, 6, 10, 11, 20, 21, 40):
            if k != j - i:
                out.add(literal[:i] + (DIG,) * k + literal[j:])
    # every letter of the seed free within its class
    out.add(tuple(klass(c) for c in seed))
    return sorted(out)


def boxes(t, thorough):
    n = t.lens[1] if thorough else t.lens[0]
    out = [texts.shape_boxes(k) for k in range(n + 1)]
    seen = set()
    for s in t.seeds:
        for b in near(s, thorough):
            # covered already by the exhaustive part
            if len(b) > n and b not in seen:
                seen.add(b)
                out.append(b)
    return out


def shorter(t, thorough):
    """Boxes for analyses that follow every accepting path further."""
    n = min(t.lens[1] - 1, 16) if thorough else min(t.lens[0] - 1, 8)
    out = [texts.shape_boxes(k) for k in range(n + 1)]
    seen = set()
    for s in t.seeds:
        for b in near(s):
            if len(b) > n and b not in seen:
                seen.add(b)
                out.append(b)
    return out
