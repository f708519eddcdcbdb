"""Lists and mappings of three entries, in an order that is neither sorted nor reversed, read and written by abstract
interpretation: the i-th entry of what is read (written) is what that entry alone reads (is written) as, and no entry is
added, lost or moved.  Hashed collections are iterated in an order that differs from insertion order, as they may be."""
import laws, schema
from laws import At, Call, De, Make, Ser, Sub, Txt

A = "service::"
SV = A + "Service"
B_, DV, NW = A + "build::Build", A + "deploy::resources::Device", A + "network_config::Network"
BL = A + "blkio_config::BlkioConfig"
TX = ["m{s:l:1}", "z{t:l:1}", "a{u:l:1,2}"]
IP = ["10.3.0.1", "10.9.0.1", "10.1.0.1"]
P = ["/m{s:l:1}", "/z{t:l:1}", "/a{u:l:1}"]
KV = lambda v: list(zip(TX, v))
VAL = ["q{v:l:1}", 5, True]
# (structure, key, place of the collection, entries; a list of pairs is a mapping)
T = [(SV, k, k, TX) for k in ("cap_add", "cap_drop", "dns_opt", "security_opt", "profiles", "external_links", "links", "volumes_from",
                              "configs", "secrets", "group_add")]
T += [(SV, "depends_on", "depends_on@Short.0", TX), (SV, "networks", "network_config!@Networks.0@Short.0", TX),
      (SV, "networks", "network_config!@Networks.0@Long.0", KV([None, {"priority": 3}, None])),
      (SV, "depends_on", "depends_on@Long.0", KV([{"condition": "service_healthy"}, {"condition": "service_started"},
                                                  {"condition": "service_started", "restart": True}])),
      (SV, "command", "command!@List.0", TX), (SV, "entrypoint", "entrypoint!@List.0", TX), (SV, "dns", "dns!@List.0", IP),
      (SV, "dns_search", "dns_search!@List.0", TX), (SV, "tmpfs", "tmpfs!@List.0", P),
      (SV, "env_file", "env_file!@List.0", ["m{s:l:1}", {"path": "z{t:l:1}", "required": False}, "a{u:l:1}"]),
      (SV, "expose", "expose", [500, "900-901/udp", "100-{n:n:1}99"]), (SV, "device_cgroup_rules", "device_cgroup_rules", ["c 5:* r", "a 9:1 w", "b 1:1 m"]),
      (SV, "devices", "devices", [x + ":/c" for x in P]),
      (SV, "ports", "ports", ["50{n:d:1}:1", {"target": 900, "name": "z{t:l:1}"}, "1{m:d:1}:2"]),
      (SV, "volumes", "volumes", ["m{s:l:1}:/m", {"type": "tmpfs", "target": "/z{t:l:1}"}, "/a{u:l:1}"]),
      (SV, "ulimits", "ulimits", KV([5, {"soft": 1, "hard": 2}, -1])), (SV, "storage_opt", "storage_opt", KV(["x", None, "b"])),
      (SV, "extra_hosts", "extra_hosts", list(zip(TX, IP)))]
T += [(SV, k, k + "@List.0", [x + "=1" for x in TX]) for k in ("environment", "labels", "annotations", "sysctls")]
T += [(SV, k, k + "@Map.0", KV(VAL)) for k in ("environment", "labels", "annotations", "sysctls")]
C = "Compose"
T += [(C, "services", "services", KV([{"image": "x"}, {}, {"image": "q"}])), (C, "include", "include", [TX[0], {"path": TX[1]}, TX[2]]),
      (C, "networks", "networks", KV([None, {"driver": "x"}, {"external": True}])), (C, "volumes", "volumes", KV([None, {"driver": "x"}, {"external": True}])),
      (C, "configs", "configs", KV([{"file": "x"}, {"external": True}, {"environment": "y"}])),
      (C, "secrets", "secrets", KV([{"file": "x"}, {"external": True}, {"environment": "y"}]))]
T += [("include::Include", "path", "path@List.0", TX), ("include::Include", "env_file", "env_file!@List.0", TX)]
T += [(a, "driver_opts", "driver_opts", KV(["x", 7, "b"])) for a in ("network::Network", "volume::Volume", "secret::Secret", NW)]
T += [(a, "labels", "labels@Map.0", KV(VAL)) for a in ("network::Network", "volume::Volume", "secret::Secret", "config::Config", B_, A + "deploy::Deploy")]
T += [(a, "labels", "labels@List.0", [x + "=1" for x in TX]) for a in ("network::Network", "volume::Volume", "secret::Secret", "config::Config", B_,
                                                                    A + "deploy::Deploy")]
T += [("network::Ipam", "config", "config", [{"subnet": "10.3.0.0/16"}, {"gateway": "10.9.0.1"}, {"subnet": "10.1.0.0/16"}]),
      ("network::Ipam", "options", "options", KV(["x", "y", "b"])), ("network::IpamConfig", "aux_addresses", "aux_addresses", list(zip(TX, IP))),
      (A + "Logging", "options", "options", KV(["x", 7, None]))]
T += [(B_, "args", "args@Map.0", KV(VAL)), (B_, "args", "args@List.0", [x + "=1" for x in TX]), (B_, "entitlements", "entitlements", TX),
      (B_, "ssh", "ssh", ["m{s:l:1}=/x", "default", "a{u:l:1}=/y"]), (B_, "cache_from", "cache_from", TX),
      (B_, "cache_to", "cache_to", ["m{s:l:1}", "type=z{t:l:1},z=1,a=2", "a{u:l:1}"]), (B_, "secrets", "secrets", TX), (B_, "tags", "tags", TX),
      (B_, "additional_contexts", "additional_contexts", list(zip(TX, ["./x", "./y", "./b"]))), (B_, "extra_hosts", "extra_hosts", list(zip(TX, IP))),
      (B_, "ulimits", "ulimits", KV([5, {"soft": 1, "hard": 2}, -1])), (B_, "platforms", "platforms", ["linux/arm64", "windows/amd64", "darwin"])]
for k in ("device_read_bps", "device_write_bps", "device_read_iops", "device_write_iops"):
    T.append((BL, k, k, [{"path": p, "rate": n} for p, n in zip(P, (5, 9, 1))]))
T += [(BL, "weight_device", "weight_device", [{"path": p, "weight": n} for p, n in zip(P, (50, 90, 10))])]
D_ = A + "deploy::"
T += [(D_ + "Placement", "constraints", "constraints", TX), (D_ + "Placement", "preferences", "preferences", [{"spread": x} for x in TX]),
      (D_ + "resources::Reservations", "devices", "devices", [{"capabilities": [x]} for x in TX]),
      (D_ + "resources::Reservations", "generic_resources", "generic_resources", [{"discrete_resource_spec": {"kind": x}} for x in TX]),
      (DV, "capabilities", "capabilities", TX), (DV, "device_ids", "device_ids", TX), (DV, "options", "options@Map.0", KV(VAL)),
      (A + "develop::Develop", "watch", "watch", [{"action": "sync", "path": x, "target": "/q"} for x in TX]),
      (A + "develop::WatchRule", "ignore", "ignore", TX), (NW, "aliases", "aliases", TX), (NW, "link_local_ips", "link_local_ips", IP)]
HC = A + "healthcheck::Healthcheck"
T.append((HC, "test", "@Command.0.test!@Command.0", TX))


def table():
    out = []
    base = {x.adt: x for x in schema.T}
    rows = list(T)
    for x in schema.T:
        # extensions, in the order of their keys
        if isinstance(x.base, dict):
            for k, c, exps in x.keys:
                if k is not None and k.startswith("x-"):
                    pl = next(e[0].split("[")[0] for e in exps if "extensions[0]" in e[0])
                    rows.append((x.adt, None, pl, [("x-m{s:l:1}", "q"), ("x-z{t:l:1}", 5), ("x-a{u:l:1}", None)]))
                    break
    for adt, key, pl, items in rows:
        pairs = isinstance(items[0], tuple)
        pre = ["CMD"] if adt == HC else []
        n0 = len(pre)
        wrap = lambda its: dict(base[adt].base, **(dict(its) if key is None else {key: dict(its) if pairs else (pre + its)}))
        full = wrap(items)
        name = "%s:%s" % (adt, key or "extensions")
        at = "" if pl == "" else pl
        out.append((name + ":read", At(De(adt, full), at + "#"), Txt(3)))
        ser = Ser(adt, De(adt, full))
        if key is not None:
            out.append((name + ":written", Sub(ser, key, None), Txt(3 + n0)))
        for i, it in enumerate(items):
            one = wrap([it])
            out.append((name + ":read", At(De(adt, full), "%s[%d]" % (at, i)), At(De(adt, one), at + "[0]")))
            s1 = Ser(adt, De(adt, one))
            if key is not None:
                out.append((name + ":written", Sub(ser, key, i + n0), Sub(s1, key, n0)))
            else:
                out.append((name + ":written", Sub(ser, "x-", i), Sub(s1, "x-", 0)))
    # the forms convert in order
    L = "common::ListOrMap"
    lm = lambda c: De(L, c)
    lst, mp = [TX[0] + "=q", TX[1], TX[2] + "=b"], dict(KV(["q", None, "b"]))
    out.append(("ListOrMap::into_list", Call((L, "into_list"), lm(mp)), At(lm(lst), "@List.0")))
    out.append(("ListOrMap::into_map", Call((L, "into_map"), lm(lst)), Make("Ok", At(lm(mp), "@Map.0"))))
    for a in (L,):
        for i, x in enumerate(lst):
            out.append(("ListOrMap:written", laws.Nth(Ser(a, lm(lst)), i), laws.Nth(Ser(a, lm([x])), 0)))
        for i, (k, v) in enumerate(mp.items()):
            out.append(("ListOrMap:written", laws.Nth(Ser(a, lm(mp)), i), laws.Nth(Ser(a, lm({k: v})), 0)))
    return out


def run(ctx):
    ctx.rule("the i-th entry read or written from a collection of three is what that entry alone reads or is written as")
    laws.run(ctx, table())
