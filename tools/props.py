"""The properties and how each is decided: source of properties.jsonl and MANIFEST.json."""

INTERP = "abstract interpretation of MIR (character-interval strings), inclusion in a documented automaton"
TRUST = ("Trusts the rustc front end, the driver that dumps MIR, and the transfer functions for std in "
         "lib/models.py; results the interpreter cannot determine are counted as undecided in the evidence, "
         "never as alarms.")


def anchors(files, *mech):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}


PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mech, technique="", note="", na=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over if isinstance(over, list) else [over], "text": text},
         "why_tests_cant": why, "anchors": anchors(files, *mech),
         "technique": technique, "level_note": note}
    if na:
        d["na"] = na
    PROPS.append(d)


P("C03", "Validated names accept exactly their documented language",
  "Every way of building an identifier, map key, extension key, project name, hostname, user name, ulimit resource, "
  "cache option, image tag, digest or name, absolute container path or host path from a string accepts exactly the "
  "strings its documentation allows. An accepted value holds the given text unchanged.",
  "inputs", "all Unicode strings given to any public constructor of a validated string type, whatever their length",
  "Each validator is tested with a handful of accepted and rejected strings; a wrong class boundary, off-by-one length "
  "limit or a constructor that skips a check shows only on strings nobody listed.",
  ["src/common/keys.rs", "src/name.rs", "src/service/hostname.rs", "src/service/user.rs", "src/service/ulimit.rs",
   "src/service/build/cache.rs", "src/service/image/tag.rs", "src/service/image/digest.rs",
   "src/service/image/name.rs", "src/service/volumes.rs"],
  [("key constructors", "src/common/keys.rs key_impls! / Identifier::new, MapKey::new, ExtensionKey::new"),
   ("image part validators", "src/service/image/{tag,digest,name}.rs Tag::new, Digest::new, Name::new"),
   ("path validators", "src/service/volumes.rs AbsolutePath::new, HostPath::new")],
  INTERP,
  "Decides acceptance for every string up to a per-type length (8 to 130 characters, all Unicode), and for boxes of "
  "longer strings around the lengths and constants the code mentions. " + TRUST)

BOXES = ("Covers every Unicode string up to a per-type length (5 to 60 characters), and boxes around documented forms "
         "with any one character replaced, inserted or removed and digit runs up to 40. ")

P("C01", "Parsing text never panics",
  "Parsing a string into any of the crate's text-form types (names, images, ports, volumes, devices, users, durations, "
  "byte values, platforms and so on) returns a value or an error and never panics, whatever the string.",
  "inputs", "all Unicode strings, given to every public parser, constructor and conversion from one string",
  "Unit tests parse a few dozen texts; slicing off a character boundary, an overflowing amount or an unwrap on an "
  "unexpected separator is reached only by texts nobody wrote down.",
  ["src/service/ports.rs", "src/service/image.rs", "src/service/volumes.rs", "src/duration.rs", "src/common/keys.rs",
   "src/service/device.rs", "src/service/byte_value.rs", "src/service/build/cache.rs", "src/service/user.rs"],
  [("FromStr implementations", "every impl FromStr / TryFrom<&str|String|Box<str>|Cow<str>> in src/"),
   ("duration parser", "src/duration.rs parse")],
  "abstract interpretation of MIR (character-interval strings): panic-site reachability",
  BOXES + "A panic that depends on more than single characters is reported only when constant propagation of a text "
  "of the box reaches it. " + TRUST)

P("C02", "Functions of parsed values never panic",
  "Every public function that takes only a value parsed from text (accessors, conversions, iterators, Display) returns "
  "normally for every value that parsing can produce.",
  "inputs", "all values obtained by parsing any accepted string, and every public function of the value alone",
  "The accessors slice the text at positions recorded when it was parsed; tests use texts where positions are small "
  "and ASCII, so a stale or off-by-one position goes unseen.",
  ["src/service/image.rs", "src/service/ports.rs", "src/service/cpuset.rs", "src/service/build/ssh_auth.rs",
   "src/service/platform.rs"],
  [("image accessors", "src/service/image.rs Image::as_name, tag, digest, registry"),
   ("port range arithmetic", "src/service/ports.rs Range::size, ShortRanges iteration")],
  "abstract interpretation of MIR: parse, then accessor, panic-site reachability",
  BOXES + TRUST)

P("C04", "Composite text forms accept exactly the documented syntax",
  "Parsing ports, port ranges, exposed ports, devices, cgroup rules, MAC addresses, volumes, links, volumes_from, ipc "
  "and network modes, users, images, caches, ssh ids, platforms, counts, byte values, cpu sets and durations accepts "
  "every string in the documented format and rejects every other string.",
  "inputs", "all Unicode strings given to the parser of each composite text form",
  "Each parser is tested on some valid strings and few invalid ones; a missing check accepts malformed input that no "
  "test contains.",
  ["src/service/ports.rs", "src/service/device.rs", "src/service/volumes.rs", "src/service/user.rs",
   "src/service/image.rs", "src/service/build/cache.rs", "src/service/platform.rs", "src/service/byte_value.rs",
   "src/service.rs", "src/duration.rs", "src/service/network_config.rs"],
  [("ports", "src/service/ports.rs ShortPort, ShortRanges, Range from_str"),
   ("volumes", "src/service/volumes.rs ShortVolume::from_str"),
   ("platforms", "src/service/platform.rs platforms! and compose_spec_macros")],
  INTERP, BOXES + "Integers may carry a plus sign and leading zeros, as integer parsing allows; relations between numbers "
  "(range order, equal sizes) and number limits are decided on listed boundary texts and by number ranges on paths. " + TRUST)

P("C08", "Displaying a parsed value and parsing it again gives an equal value",
  "For every string accepted by a type that both parses from and displays as text, the displayed text parses again to "
  "an equal value. Floating point numbers are excepted.",
  "inputs", "all accepted strings of every type with both FromStr and Display",
  "Display and FromStr are separate code; tests round-trip a few values, and lost separators, dropped parts, padding "
  "and option order show only for particular combinations of parts.",
  ["src/service/ports.rs", "src/service/device.rs", "src/service/volumes.rs", "src/service/network_config.rs",
   "src/service/build/cache.rs", "src/service/byte_value.rs", "src/service/user.rs", "src/service.rs"],
  [("Display implementations", "every impl Display next to a FromStr in src/service"),
   ("serialisation through Display", "compose_spec_macros SerializeDisplay, DeserializeFromStr")],
  "abstract interpretation of MIR: parse, Display as a term over the input, parse again, compare values",
  BOXES + "Values with a non-constant IP address, and cpu sets of several symbolic numbers, stay undecided. " + TRUST)

P("C25", "Each part of a parsed text is found at its documented field or accessor",
  "Parsing a composite text form puts every part of the text, unchanged, into the documented public field, variant "
  "or accessor of the result: ports, ranges, protocols, devices, cgroup rules, MAC addresses, modes, links, volumes, "
  "users, images, ssh ids, counts, byte values, numbers. Parts absent from the text are absent from the result.",
  "inputs", "all texts of each documented form, whatever the characters and digits of the parts",
  "Tests compare a few parsed values with hand-written ones; swapped parts, a wrong unit or a flag set for the wrong "
  "option survive when the sample does not tell the parts apart.",
  ["src/service/ports.rs", "src/service/device.rs", "src/service/volumes.rs", "src/service/user.rs",
   "src/service/image.rs", "src/service/network_config.rs", "src/service/byte_value.rs", "src/service.rs",
   "src/service/build/ssh_auth.rs", "src/common.rs"],
  [("parsers", "FromStr and TryFrom<&str|String> implementations in src/"),
   ("accessors", "Image::{registry,name,tag,digest}, Range::{start,end}, ShortRanges::{host,container}, as_* methods")],
  "abstract interpretation of MIR: terms over template holes followed through public fields and accessors",
  "Covers templates of every documented form with parts of 1 to 5 (numbers: 1 to 20) characters. " + TRUST)

P("C05", "Numbers are accepted exactly within their documented limits and stored unchanged",
  "Percentages (0 to 100), oom scores (-1000 to 1000), blkio weights (10 to 1000) and cpu amounts (finite, not negative) "
  "are accepted from numbers exactly within these limits; a port range needs start <= end, and short port ranges need "
  "equal sizes. An accepted number is stored unchanged, and integers and floats become the matching kind of value.",
  "inputs", "all numbers of the parameter type, and all pairs of ports, given to any constructor or conversion",
  "Limits are tested near one end at best; an inclusive bound turned exclusive, a truncating cast or a replacement "
  "that skips the size check shows for single numbers only.",
  ["src/service.rs", "src/service/blkio_config.rs", "src/service/deploy/resources.rs", "src/service/ports.rs",
   "src/common.rs", "src/service/user.rs", "src/service/limit.rs"],
  [("limits", "src/service.rs Percent::new, OomScoreAdj::new; src/service/blkio_config.rs Weight::new"),
   ("port ranges", "src/service/ports.rs Range::new, ShortRanges::{new,replace_host,replace_container}")],
  "abstract interpretation of MIR over integer intervals and float classes",
  "Integers are covered over their whole type as intervals; floats by sign and class representatives; range order by "
  "path facts and boundary pairs; equal sizes by boundary pairs only. " + TRUST)

SERDE = "abstract interpretation of MIR of the (derived) serde code, following serde_yaml's Value, on trees of abstract leaves"
KEYS = ("Covers the keys and forms tabulated in lib/schema.py for 43 structures, one key at a time with symbolic leaves "
        "(all numbers of the type, letters and digits at 1 to 3 positions), and all keys of a structure at once. The YAML "
        "text parser itself is outside. ")

P("C11", "Each documented key is read into its public field",
  "Reading a Compose file or any of its parts puts the content of each documented key, in each of its documented forms, "
  "unchanged into the matching public field or accessor, and leaves every other field as it is without the key. "
  "Structures that take extensions keep each x- key and reject any other unknown key.",
  "inputs", "all contents of each documented form of each key of Compose, Service and the structures inside them",
  "There are more than 300 keys with several forms each, most without a test; a renamed, swapped or skipped field, or a "
  "form read into the wrong variant, goes unseen.",
  ["src/lib.rs", "src/service.rs", "src/service/build.rs", "src/service/deploy.rs", "src/service/deploy/resources.rs",
   "src/service/healthcheck.rs", "src/service/volumes/mount.rs", "src/service/network_config.rs", "src/network.rs",
   "src/volume.rs", "src/config.rs", "src/secret.rs", "src/serde.rs"],
  [("derived deserializers", "every #[derive(Deserialize)] structure with its serde attributes"),
   ("hand-written deserializers", "src/serde.rs, src/service/healthcheck.rs, src/service/network_config.rs, src/common.rs"),
   ("AsShort / FromShort derives", "compose_spec_macros")],
  SERDE, KEYS + TRUST)

P("C10", "Serializing a read value and reading it back gives an equal value",
  "A value read from documented content serializes without error or panic, and what is written reads as an equal value. "
  "What is written has no key the content did not have, except that a healthcheck with test NONE is written as disable. "
  "A key given its default content is left out again.",
  "inputs", "all contents of each documented form of each key of Compose, Service and the structures inside them",
  "Serialize and Deserialize are separate code joined only by attributes; a skip condition that drops a meaningful "
  "value, a lossy helper or a missing rename shows only for the key and value concerned.",
  ["src/lib.rs", "src/service.rs", "src/serde.rs", "src/common/short_or_long.rs", "src/service/healthcheck.rs",
   "src/service/ports.rs", "src/service/volumes/mount.rs", "src/service/byte_value.rs", "src/duration.rs"],
  [("derived serializers", "every #[derive(Serialize)] structure with its skip_serializing_if attributes"),
   ("hand-written serializers", "src/serde.rs, src/service/healthcheck.rs, src/common.rs, compose_spec_macros SerializeDisplay")],
  SERDE, KEYS + "Durations use one digit per unit here. " + TRUST)

P("C17", "Short and long syntax convert without losing or inventing settings",
  "For ports, volumes, build, configs, secrets, env_file, include, ulimits, depends_on and service networks, converting a "
  "short syntax to the long one (into_long, into_long_iter, From) gives exactly what its documented long form reads as, one "
  "Port per container port of a range. into_short and as_short give back the short syntax when the long one sets "
  "nothing beyond it, and otherwise hand the value back unchanged (as_short: None), whether the extra setting is a key or "
  "an extension.",
  "inputs", "all port numbers, names, paths and protocols of one to three characters per listed short form, port ranges "
  "from the listed table, and each documented key of the long syntax added alone",
  "The tests convert a handful of values; a setting dropped in into_short only shows for long values that set exactly it.",
  ["src/service/ports.rs", "src/service/volumes.rs", "src/service/volumes/mount.rs", "src/common/short_or_long.rs",
   "src/service/ulimit.rs", "src/service/build.rs", "src/include.rs", "src/service/env_file.rs"],
  [("conversion", "into_long_iter, into_short, into_long"), ("AsShort", "AsShort for Build, Ulimit, ConfigOrSecret, env_file::Config, Include"),
   ("ShortOrLong", "src/common/short_or_long.rs")],
  SERDE + "; then each conversion, compared with the value read from the other form", KEYS + TRUST)
P("C18", "Content the documentation rules out is rejected",
  "Reading a Compose file or any of its parts from a YAML value fails when a required key is missing, when keys exclude each other "
  "(network_mode and networks, dockerfile and dockerfile_inline, two sources of a config, secret or credential spec, an "
  "external or disabled resource with further keys), when a number or word is outside its documented set, or when a "
  "key has a kind of content (boolean, number, text, list, map) that it does not take.",
  "inputs", "all contents of the listed invalid shapes, whatever the numbers and texts in them",
  "Tests hold few negative cases; a check dropped from a deserializer or a too permissive visitor accepts files that "
  "no test contains.",
  ["src/lib.rs", "src/service.rs", "src/config.rs", "src/secret.rs", "src/service/healthcheck.rs",
   "src/service/network_config.rs", "src/service/build/dockerfile.rs", "src/service/credential_spec.rs",
   "src/service/volumes/mount.rs", "src/service/ports.rs", "src/service/limit.rs"],
  [("exclusive keys", "src/service/network_config.rs, src/service/build.rs dockerfile, src/config.rs, src/secret.rs, src/lib.rs Resource"),
   ("visitors", "src/serde.rs, src/service/healthcheck.rs, src/service/byte_value.rs, src/service/limit.rs")],
  SERDE, KEYS + "Invalid contents are those listed in lib/schema.py plus every undocumented kind of content per key. " + TRUST)

P("C12", "is_empty tells exactly whether a structure sets anything",
  "For every structure with an is_empty method, read from content that sets none of its keys (or only to their "
  "defaults, or to nested structures and list items that are empty themselves) is_empty is true. As soon as any single "
  "key of the structure is set, with or without others, is_empty is false.",
  "inputs", "all contents of each structure that set nothing or one key, whatever the texts, numbers and booleans in it",
  "The methods combine up to a dozen fields and nested structures by hand; the doc tests set one of them, and a "
  "forgotten or negated field shows only for a value that sets just that one.",
  ["src/network.rs", "src/volume.rs", "src/service/deploy.rs", "src/service/deploy/resources.rs", "src/service/build.rs",
   "src/service/blkio_config.rs", "src/service/healthcheck.rs", "src/service/volumes/mount.rs",
   "src/service/network_config.rs", "src/service.rs", "src/common.rs", "src/service/cpuset.rs"],
  [("is_empty methods", "every fn is_empty(&self) in src/"),
   ("nested emptiness", "Network::is_empty (ipam), Deploy::is_empty, Resources::is_empty, Reservations::is_empty")],
  SERDE + "; then is_empty, for each key alone and next to defaults",
  KEYS + TRUST)

P("C13", "Equality, order and hashing agree with the content",
  "A value read from a file or text equals itself, and values whose contents differ in one documented key or in one "
  "text, number or boolean of it are not equal, whichever is compared with which; equal values hash equally. Types "
  "that borrow as a text or path (identifiers, keys, names, tags, digests, images, paths) equal, order and hash exactly "
  "as that text or path, and types comparable with an integer equal exactly their own number.",
  "inputs", "all pairs of values of each structure and text type that differ in one key or leaf, and all pairs of texts",
  "Equality and hashing of eight types is written by hand, for the rest derived; tests compare few values, so an "
  "ignored field or a hash that disagrees with Borrow (breaking map lookups) goes unseen.",
  ["src/service/volumes/mount.rs", "src/service/ports.rs", "src/service/image.rs", "src/service/image/name.rs",
   "src/service/image/tag.rs", "src/service/image/digest.rs", "src/common/keys.rs", "src/common.rs",
   "src/service/volumes.rs", "src/service/deploy/resources.rs", "src/service/blkio_config.rs", "src/service.rs"],
  [("hand-written PartialEq and Hash", "VolumeOptions, BindOptions, TmpfsOptions, mount::Common, ports::Port, Image, Name"),
   ("Borrow", "src/common/keys.rs, src/service/image*.rs, src/service/volumes.rs impl Borrow")],
  SERDE + "; then eq, hash, cmp, borrow on pairs", KEYS + "Text pairs are one or two symbolic letters around fixed "
  "parts; order of paths is that of std::path::Path. " + TRUST)


P("C15", "validate_* accept a file exactly when every used name is declared",
  "Compose::validate_networks, validate_configs and validate_secrets fail exactly when a service uses a name that the "
  "top-level field of that kind lacks, and validate_volumes fails exactly when two services use the same named volume "
  "that the top-level volumes lack. The error displays the first such name in file order (with the service for networks, "
  "configs and secrets), and validate_all gives the first error of networks, volumes, configs and secrets in that order.",
  "inputs", "all one-letter names in the used and declared places of each listed file shape with up to three services",
  "The doc tests validate one file per method; a lookup in the wrong table, an ignored long or map form or a skipped "
  "service only shows for files that use exactly that.",
  ["src/lib.rs", "src/service.rs", "src/service/network_config.rs", "src/service/volumes.rs", "src/common/short_or_long.rs"],
  [("validation", "Compose::validate_all, validate_networks, validate_volumes, validate_configs, validate_secrets"),
   ("named volumes", "src/service/volumes.rs named_volumes_iter")],
  SERDE + "; then each validate_ method and the Display of its error", KEYS + "Names are one symbolic letter, so that every "
  "coincidence of names is covered. " + TRUST)

P("C20", "All ways of reading or writing one type as text agree",
  "For every type that is read from a text (Number, Value and StringOrNumber aside), FromStr, TryFrom and From of the text types, new or parse, and reading a text "
  "in a file accept the same texts and give equal values. For every such type that is written as a text, Display, as_str, "
  "AsRef, into String conversions and serializing give the same text.",
  "inputs", "all texts of each type's grammar with one to three free characters per part, and the listed malformed texts",
  "Each type has up to eight entry points, some generated by macros and some written by hand; the tests use one or two of "
  "them, so a check or conversion missing from another goes unseen.",
  ["src/serde.rs", "src/common/keys.rs", "src/common.rs", "src/service/image.rs", "src/service/image/name.rs",
   "src/service/image/tag.rs", "src/service/image/digest.rs", "src/service/user.rs", "src/service/hostname.rs",
   "src/service/ports.rs", "src/service/byte_value.rs", "src/service/device.rs"],
  [("entry points", "every impl FromStr, TryFrom<&str | String | Box<str> | Cow<str>>, From<..>, new, parse and Deserialize of a type"),
   ("exits", "every impl Display, AsRef<str>, From<T> for String / Box<str> / Rc<str> / Arc<str>, as_str, Serialize"),
   ("macros", "compose_spec_macros DeserializeFromStr, DeserializeTryFromString, FromStr, TryFromString, SerializeDisplay")],
  "abstract interpretation of every entry point of a type on the same symbolic text, and of every exit on the same value",
  "Number, Value and StringOrNumber are compared among parsers only: in a file they also take numbers and booleans. " + TRUST)

P("C21", "Queries, list and map forms, and constructors agree with the documented syntax",
  "Each is_ and as_ method of an enum answers exactly for the form that was read. Converting between an item and a list "
  "(ItemOrList, EnvFile) or a list and a map (ListOrMap, keys split at the documented character) gives what the other form "
  "reads as. A constructor or From of parts gives what a file setting exactly those parts reads as; ShortRanges::new, "
  "replace_host and replace_container fail exactly when the range sizes differ, then leaving the ranges unchanged.",
  "inputs", "all names and paths of one or two characters and all port numbers in the listed forms of each type",
  "These small methods are written by hand per type and hardly tested; a swapped variant, a lost default or a changed "
  "field on failure only shows for the form concerned.",
  ["src/common.rs", "src/service/env_file.rs", "src/service/volumes/mount.rs", "src/service/volumes.rs", "src/service/ports.rs",
   "src/service/network_config.rs", "src/service/build/cache.rs", "src/service/build/context.rs", "src/lib.rs", "src/service.rs",
   "src/config.rs", "src/secret.rs"],
  [("queries", "is_*, as_*, kind, common of Mount, NetworkMode, Ipc, Protocol, Capability, EndpointMode, Context, CacheType, Resource"),
   ("forms", "ItemOrList, ListOrMap, EnvFile"), ("constructors", "new and From impls of Mount kinds, Port, ShortPort, ShortRanges, ShortVolume, Cache")],
  SERDE + "; then each method as an equation with the value read from the other form", TRUST)

P("C24", "Scalar values convert to and from Rust's numbers, booleans and texts exactly",
  "A number, boolean or text converted into Value, Number or StringOrNumber equals what the same scalar reads as, its "
  "is_/as_ methods name exactly its kind, and converting back gives it unchanged; TryFrom to u64, i64, f64 or bool fails "
  "exactly when the value is not in range or not of that kind. Weight, Percent, OomScoreAdj and Cpus accept exactly their "
  "documented range and return the number given, and Range, Expose, ShortPort, Port, Limit, Ulimit, Count and User built "
  "from integers, pairs or names equal what the same scalars read as.",
  "inputs", "all 64 bit integers (symbolic), the listed floats, texts of each scalar class with one to four free characters",
  "The conversions are some forty hand-written or macro-made impls; tests try a few small numbers, so a truncating cast or a "
  "wrong bound at the edge of a type goes unseen.",
  ["src/common.rs", "src/service/blkio_config.rs", "src/service.rs", "src/service/deploy/resources.rs",
   "src/service/limit.rs", "src/service/ulimit.rs", "src/service/ports.rs", "src/service/expose.rs", "src/service/user.rs",
   "src/service/device.rs"],
  [("scalar conversions", "impl From/TryFrom for Value, Number, StringOrNumber and back"),
   ("bounded numbers", "Weight, Percent, OomScoreAdj, Cpus"), ("built from integers", "Range, Expose, ShortPort, Port, Limit, Ulimit, Count, User, MacAddress")],
  "abstract interpretation of the conversions on symbolic numbers and texts, each as an equation between two expressions", TRUST)

P("C19", "The parts of an image are exactly those of its text, also after changing one",
  "registry, name, tag, digest, as_parts and the other accessors of an Image or Name give exactly the documented pieces of "
  "its text, and from_parts of those pieces gives the image back. After set_registry, set_name, set_tag, set_digest or "
  "set_tag_or_digest the image is the one that its recombined text reads as, whatever parts it had before.",
  "inputs", "all images with symbolic names, registries with and without port, tags and digests, in one or two steps",
  "Image keeps two byte offsets next to its text that every setter must shift by hand; the tests try four images, so an "
  "offset wrong for one combination of parts gives wrong pieces or a panic later.",
  ["src/service/image.rs", "src/service/image/name.rs", "src/service/image/tag.rs", "src/service/image/digest.rs"],
  [("offsets", "Image { inner, registry_end, tag_or_digest_start } in src/service/image.rs"),
   ("setters", "set_registry, set_name, set_tag, set_digest, set_tag_or_digest, update_tag_or_digest_start")],
  "abstract interpretation of accessors and setters on images read from symbolic texts, each as an equation with the value "
  "read from the recombined text", "set_registry takes a single part here, and None is set only where what remains has no dot in "
  "its first part; a name of one dotted part is the known finding. " + TRUST)

P("C14", "Lists and mappings keep their order and every entry",
  "Every list and every mapping of a Compose file (services, top-level resources, keys of lists or maps, extensions) is "
  "read with its entries in file order and written in that order, no entry lost, duplicated or moved. Each entry is read and "
  "written as it would be alone. Converting a list to a map or back keeps the order.",
  "inputs", "per collection, all texts in three entries whose order is neither sorted nor reversed",
  "An unordered or sorting collection, a swap_remove or a rebuilt list anywhere on the way in or out is invisible to tests "
  "that hold one or two entries or compare order-insensitive maps.",
  ["src/lib.rs", "src/service.rs", "src/common.rs", "src/serde.rs", "src/include.rs", "src/network.rs", "src/volume.rs",
   "src/service/build.rs", "src/service/deploy/resources.rs", "src/service/network_config.rs"],
  [("collections", "every IndexMap, IndexSet and Vec field of the public structures"),
   ("visitors", "src/serde.rs ItemOrListVisitor, ListOrMap in src/common.rs, extra_hosts and additional_contexts")],
  SERDE + "; entry by entry, read and written alone and among two others",
  "Iterating a hashed collection is taken to give an order other than that of insertion, which it may. " + TRUST)

P("C16", "Reading options merge exactly when asked, through every entry point",
  "Options::from_yaml_str, from_yaml_slice, from_yaml_reader and from_yaml_value give the same result for the same content, "
  "whose scalars are of a kind their keys take. "
  "When apply_merge was last set to true, that is what the content with all its << keys merged reads as (explicit keys "
  "and earlier merged mappings win; a << that is not a mapping or list of mappings is an error); otherwise it is "
  "what the content itself reads as.",
  "inputs", "all texts in the listed contents with << at every level of a Compose file, for each way the option was set",
  "Two tests read one merged environment; an entry point that forgets the option, or merges without being asked, "
  "goes unseen.",
  ["src/options.rs", "src/lib.rs"],
  [("options", "Options::apply_merge, from_yaml_str, from_yaml_slice, from_yaml_reader, from_yaml_value, Compose::options")],
  "abstract interpretation of Options, serde_yaml's Value::apply_merge and the deserializer of Compose",
  "YAML text is represented by the content it denotes: serde_yaml's parser is trusted to give the same content to a Value and "
  "to Compose. " + TRUST)

P("C22", "The crate reads nothing but its arguments",
  "No function of the crate reads or changes anything but its arguments: it touches no file, path on disk, environment "
  "variable, process, clock, network, standard stream or random source, and keeps no mutable or thread-local state "
  "between calls. Reading a Compose file therefore gives the same value in every process, directory and moment, and the "
  "only input it consumes is the reader, text or value it is given.",
  ["histories"], "every history of earlier calls, and every state of the machine, process and directory the crate is used in",
  "Tests run in one directory of one machine; a path that is looked up on disk, a variable that is interpolated or a cache "
  "that remembers an earlier call gives the expected answer there.",
  ["src/lib.rs", "src/service/volumes.rs", "src/service/env_file.rs", "src/include.rs", "src/duration.rs"],
  [("entry points", "src/lib.rs Compose::options, Options::from_yaml_str, from_yaml_reader"),
   ("paths are values", "src/service/volumes.rs HostPath, AbsolutePath; src/service/env_file.rs; src/include.rs")],
  "effect analysis over resolved callees of every MIR body, and over the types of statics",
  "Every local body (calls and function values) is scanned; the effects of dependencies are trusted to be none. " + TRUST)

P("C23", "Public types can be shared between threads",
  "Every public type of the crate is Send and Sync, and holds no cell, lock, atomic or reference-counted pointer at any "
  "depth. A shared reference to a value therefore never changes it, whatever other threads do with theirs.",
  ["schedules"], "all interleavings of threads that move, read, compare, clone or serialize values of public types",
  "No test shares a value between threads; a cached field or a reference-counted string compiles and passes every "
  "single-threaded test.",
  ["src/lib.rs", "src/service.rs", "src/service/image.rs", "src/common/keys.rs", "src/service/volumes.rs"],
  [("types", "every pub struct and enum in src/")],
  "auto-trait resolution by the type checker, and a walk over the fields and type arguments of every public type",
  "Generic types are decided for parameters that are themselves Send, Sync and free of cells. Types of dependencies are "
  "walked through their type arguments only.")

P("C09", "Durations and byte values mean the documented quantity",
  "duration::parse gives the sum of its amounts times their documented units (h 3600 s, m 60 s, s, ms, us), to the "
  "microsecond and in any combination, and duration::to_string writes a duration, cut to whole microseconds, as its "
  "non-zero units from h to us (0s when there is none). ByteValue::into_bytes is the amount times 1, 1000, 1000000 or "
  "1000000000. A quantity that does not fit is an error from parse and None from into_bytes, never a wrapped number.",
  "inputs", "amounts as symbolic digits (1 to 9 per amount), each combination of units, and the amounts next to the largest that fit",
  "Tests use amounts of 3 and 42; a carry between milliseconds and seconds, an overflow, a swapped factor or a truncated "
  "amount needs other ones.",
  ["src/duration.rs", "src/service/byte_value.rs"],
  [("durations", "src/duration.rs parse, to_string"), ("byte values", "src/service/byte_value.rs ByteValue::into_bytes, FromStr")],
  "abstract interpretation of MIR with sums of symbolic numbers times constants (divided exactly where ranges allow)",
  "Amounts beyond the listed digits are covered at the limits only. " + TRUST)

P("C26", "Owned, borrowed and passing content read the same",
  "Reading a value of any documented structure or text type gives an equal value whether the deserializer hands over its "
  "strings, sequences and mappings as owned content (serde_yaml::Value) or as borrowed content (&serde_yaml::Value); a text "
  "type also reads the same from a text that is handed over for the call only (serde's StrDeserializer). Content that one "
  "of these ways rejects is rejected in the others.",
  "inputs", "every documented form of every key with symbolic leaves, the text forms with one to four free characters per part, and the malformed contents",
  "A visitor that implements visit_string but not visit_str, or treats a borrowed text in another way, works from the one "
  "format the tests read; other formats and self-describing buffers hand content over differently.",
  ["src/serde.rs", "src/lib.rs", "src/service.rs", "src/common.rs", "src/service/build.rs", "src/service/volumes.rs",
   "src/service/ports.rs", "src/service/healthcheck.rs"],
  [("visitors", "every impl Visitor: visit_str, visit_borrowed_str, visit_string, visit_seq, visit_map"),
   ("derived", "derive(Deserialize) on every documented structure"),
   ("text types", "compose_spec_macros DeserializeFromStr, DeserializeTryFromString")],
  "abstract interpretation of every deserializer from two or three kinds of deserializer on the same symbolic content",
  "The deserializer of serde_yaml's parser itself is a dependency and is represented by these three. " + TRUST)

P("C07", "Keyword types read and write exactly their documented words",
  "Each variant of each keyword type (restart, pull_policy, cgroup, uts, depends_on condition, deploy mode, restart condition, "
  "failure action, update order, watch action, port mode, bind propagation, SELinux, operating system, ARM variant, device kind) is read from exactly its documented word, and "
  "Display, as_str, as_char, AsRef and serializing write that word; any other text, also one that differs in case, "
  "spaces or dashes, is rejected. Their Default is the documented default.",
  "inputs", "every variant, every text of a word's length and of one to three characters, and the near misses of each word",
  "Each of these types writes its words in up to three places (serde attributes, as_str, Display); the tests touch few of them.",
  ["src/service.rs", "src/service/deploy.rs", "src/service/develop.rs", "src/service/ports.rs", "src/service/volumes.rs",
   "src/service/volumes/mount.rs", "src/service/platform.rs", "src/service/device.rs"],
  [("words", "src/service.rs Restart, PullPolicy, Cgroup, Uts, Condition; src/service/deploy.rs Mode, RestartCondition, FailureAction, Order"),
   ("words", "src/service/develop.rs Action; src/service/ports.rs Mode; src/service/volumes.rs SELinux; src/service/volumes/mount.rs BindPropagation"),
   ("words", "src/service/platform.rs Os, ArmVariant; src/service/device.rs Kind")],
  "abstract interpretation of the reading and writing functions of each variant and of readers on texts with free characters",
  "The words are those of the Compose specification. " + TRUST)

P("C06", "Values built or changed in code are what their text or content reads as",
  "AbsolutePath, HostPath and volume Source are built from a path exactly when they are from its text, with the same value, and "
  "push and pop leave the joined and the parent path, which obey the type's rule again. Conversions between numbers, texts, parts and "
  "User, Weight, Permissions, Limit, Context, Healthcheck, Test and ShortOrLong give what the same text or content reads as, and "
  "comparing a Weight, Range or MajorMinorNumber with a number, or adding a number to a Range, works on the numbers it was read from.",
  "inputs", "the listed shapes of paths, texts and contents with free characters and numbers",
  "Values that are not read from a file take other ways into a type (a path, a tuple, push, From) than those the tests use; one "
  "that skips a check or swaps two parts goes unseen.",
  ["src/service/volumes.rs", "src/service/build/context.rs", "src/service/blkio_config.rs", "src/service/ports.rs",
   "src/service/user.rs", "src/service/device.rs", "src/service/limit.rs", "src/service/healthcheck.rs", "src/common/short_or_long.rs"],
  [("paths", "src/service/volumes.rs path_impls!, AbsolutePath::pop, HostPath::pop, TryFrom for Source"),
   ("numbers", "src/service/blkio_config.rs Weight, src/service/ports.rs Range, src/service/device.rs MajorMinorNumber"),
   ("forms", "src/common/short_or_long.rs is_short, is_long, as_long, From; src/service/healthcheck.rs; src/service/user.rs")],
  "abstract interpretation of each function against reading the text or content of its result, in the same path state",
  "Range arithmetic that leaves the port numbers overflows by design and is not covered. " + TRUST)
