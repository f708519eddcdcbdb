"""The parts of an image: each accessor gives the documented piece of the text and each setter gives the image that the
recombined text reads as.  Decided by abstract interpretation on symbolic parts, as equations."""
import laws
from laws import At, Call, De, Disp, Make, Mut, Txt

P = "service::image::"
IM, NA, TA, DI, TD = P + "Image", P + "name::Name", P + "tag::Tag", P + "digest::Digest", P + "TagOrDigest"
R = ("q{r:l:1}.io", "{r:l:1}.{r2:d:1}:8080", "l.{r:l:1-2}:1")                  # registries
REST = ("{n:l:1-2}", "lib/{n:l:1-2}", "{n:l:1}_{m:l:1}/{o:l:1}", "{n:l:1}--{m:d:1}/a__b/{o:l:1}")
D = "sha256:" + "0a" * 31 + "{h:d:2}"
D2 = "md5:{j:d:32}"
SUF = ("", ":{t:l:1-2}", ":{t:d:1}.{u:l:1}-3", "@" + D)
NEW = (":{v:l:1-3}", ":V{v:d:1-2}", "@sha512:" + "f" * 127 + "{k:d:1}")


def opt(e):
    return Make("None") if e is None else Make("Some", e)


def name(t):
    return At(Call((NA, "new"), Txt(t)), "!")


def tod(s):
    """TagOrDigest of ':tag' or '@digest'."""
    adt = TA if s[0] == ":" else DI
    return Call((TD, "from", adt), part(s))


def part(s):
    return At(Call((TA if s[0] == ":" else DI, "new"), Txt(s[1:])), "!")


def table():
    out = []
    im = lambda t: De(IM, t)
    names = [(None, x) for x in REST] + [(r, r + "/" + x) for r in R for x in REST[:2]] + [("q{r:l:1}.io", "q{r:l:1}.io")]
    for reg, n in names:
        out.append(("Name::new", Call((NA, "registry"), name(n)), opt(reg and Txt(reg))))
        out.append(("Name::into_inner", Call((NA, "into_inner"), name(n)), Txt(n)))
        for s in SUF:
            v = im(n + s)
            tag = Txt(s[1:]) if s[:1] == ":" else None
            dig = Txt(s[1:]) if s[:1] == "@" else None
            out += [("Image::as_str", Call((IM, "as_str"), v), Txt(n + s)),
                    ("Image::into_inner", Call((IM, "into_inner"), v), Txt(n + s)),
                    ("Image::registry", Call((IM, "registry"), v), opt(reg and Txt(reg))),
                    ("Image::name", Call((IM, "name"), v), Txt(n)),
                    ("Image::as_name", Call((IM, "as_name"), v), name(n)),
                    ("Image::tag", Call((IM, "tag"), v), opt(tag)),
                    ("Image::digest", Call((IM, "digest"), v), opt(dig)),
                    ("Image::as_tag", Call((IM, "as_tag"), v), opt(part(s) if tag else None)),
                    ("Image::as_digest", Call((IM, "as_digest"), v), opt(part(s) if dig else None)),
                    ("Image::as_tag_or_digest", Call((IM, "as_tag_or_digest"), v), opt(tod(s) if s else None)),
                    ("Image::as_parts", Call((IM, "as_parts"), v), Make("tuple", name(n), opt(tod(s) if s else None))),
                    ("Image::from_parts", Call((IM, "from_parts"), name(n), opt(tod(s) if s else None)), v)]
            if s:
                out.append(("Image::from(pair)", Call((IM, "from", "(%s, %s" % (NA, TD)), Make("tuple", name(n), tod(s))), v))
            else:
                out.append(("Image::from(Name)", Call((IM, "from", NA), name(n)), v))
            # setters
            for x in NEW + ("",):
                w = im(n + x)
                out.append(("Image::set_tag_or_digest", Mut((IM, "set_tag_or_digest"), v, opt(tod(x) if x else None)), w))
                if x[:1] != "@":
                    out.append(("Image::set_tag", Mut((IM, "set_tag"), v, opt(part(x) if x else None)), w))
                if x[:1] != ":":
                    out.append(("Image::set_digest", Mut((IM, "set_digest"), v, opt(part(x) if x else None)), w))
            for x in ("{x:l:1-3}", "z{x:l:1}.{y:l:1}:9/{z:l:1}"):
                out.append(("Image::set_name", Mut((IM, "set_name"), v, name(x)), im(x + s)))
            if "/" in n or reg is None:
                rest = n[len(reg) + 1:] if reg else n
                for x in ("{x:l:1}.{y:l:1-2}", "z{x:l:1}.{y:l:1}:443"):
                    out.append(("Image::set_registry", Mut((IM, "set_registry"), v, opt(name(x))), im(x + "/" + rest + s)))
                out.append(("Image::set_registry", Mut((IM, "set_registry"), v, Make("None")), im(rest + s)))
                # one after the other
                step = Mut((IM, "set_registry"), v, opt(name("{x:l:1}.y")))
                out.append(("Image::set_registry", Mut((IM, "set_registry"), step, Make("None")), im(rest + s)))
                out.append(("Image::set_tag", Mut((IM, "set_tag"), step, Make("Some", part(":{v:l:1-3}"))),
                            im("{x:l:1}.y/" + rest + ":{v:l:1-3}")))
    for s in SUF:
        v = Mut((IM, "set_registry"), im("q{r:l:1}.io" + s), Make("None"))
        out.append(("Image::set_registry(None):one-part:" + s.split("{")[0][:8], v, im("q{r:l:1}.io" + s)))
    for s in SUF[1:]:
        t = tod(s)
        out.append(("TagOrDigest::separator", Call((TD, "separator"), t), Txt(ord(s[0]))))
        out.append(("TagOrDigest::as_ref", Call((TD, "as_ref"), t), Txt(s[1:])))
        out.append(("TagOrDigest::into_tag", Call((TD, "into_tag"), t), opt(part(s) if s[0] == ":" else None)))
        out.append(("TagOrDigest::into_digest", Call((TD, "into_digest"), t), opt(part(s) if s[0] == "@" else None)))
    return out


def run(ctx):
    ctx.rule("each accessor of an image gives the documented piece; each setter gives what the recombined text reads as")
    laws.run(ctx, table())
