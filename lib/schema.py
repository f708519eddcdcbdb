"""The keys of a Compose file, per structure: content with abstract leaves for each documented form of each key, and
where each part is found through the public interface of what is read.  Written from the Compose specification and
the crate's documentation, not from its code."""
from landing import S, N, C, V, NONE

NIL = V("None")


class I:
    """An unsigned (or, with neg, negative) integer leaf; as an expectation, that same number."""
    def __init__(self, name, lo=0, hi=2 ** 64 - 1):
        self.name, self.lo, self.hi = name, lo, hi

    def __str__(self):
        return "the number " + self.name


class B:
    """A boolean leaf; as an expectation, that same boolean."""
    def __init__(self, name):
        self.name = name

    def __str__(self):
        return "the boolean " + self.name


class L:
    """A constant value given by its display: the address or network an IP text stands for."""
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


class F64:
    def __init__(self, x):
        self.x = x

    def __str__(self):
        return repr(self.x)


class Struct:
    def __init__(self, adt, base, ext=False):
        self.adt, self.base, self.ext, self.keys = adt, base, ext, []
        self.reject, self.defaults = [], []
        self.other_key = {}     # key: keys its content may be written under instead

    def k(self, key, content, *exps):
        """`key: content` is accepted and found at exps."""
        self.keys.append((key, content, exps))
        return self

    def d(self, key, *contents):
        """Writing one of these contents is the same as leaving the key out."""
        for c in contents:
            self.defaults.append((key, c))
        return self

    def no(self, content, why):
        """The whole content is rejected."""
        self.reject.append((content, why))
        return self

    # -- shorthands
    def text(self, *keys, opt="!"):
        for k in keys:
            self.k(k, "x{s:l:1,3}", (k + opt, S("x{s}")))
            if opt:
                self.d(k, None)
        return self

    def ident(self, *keys, opt="!"):
        for k in keys:
            self.k(k, "{s:i:1,3}", (k + opt + ".as_str()", S("{s}")))
            if opt:
                self.d(k, None)
        return self

    def flag(self, *keys, default=False):
        for k in keys:
            self.k(k, B("b"), (k, B("b")))
            self.d(k, default)
        return self

    def num(self, *keys, opt="!", hi=2 ** 64 - 1, lo=0, acc=""):
        for k in keys:
            self.k(k, I("n", lo, hi), (k + opt + acc, I("n")))
            if opt:
                self.d(k, None)
        return self

    def dur(self, *keys, suf="!"):
        for k in keys:
            self.k(k, "{n:n:1,3}s", (k + suf + ".as_secs()", N("n")), (k + suf + ".subsec_nanos()", C(0)))
            self.k(k, "{n:n:1,3}m", (k + suf + ".as_secs()", Mul("n", 60)))
            self.k(k, "{n:n:1,2}h", (k + suf + ".as_secs()", Mul("n", 3600)))
            self.k(k, "1m{n:n:1}s", (k + suf + ".as_secs()", Mul("n", 1, 60)))
            self.d(k, None)
        return self

    def words(self, key, opt="!", **kw):
        for var, w in kw.items():
            self.k(key, w, (key + opt, V(var.rstrip("_"))))
        return self

    def texts(self, *keys, pre=""):
        """A list of strings."""
        for k in keys:
            self.k(k, ["x{s:l:1}", "y{t:l:1,2}"], (k + "[0]", S("x{s}")), (k + "[1]", S("y{t}")), (k + "#", C(2)))
            self.d(k, [])
        return self

    def list_or_map(self, *keys):
        for k in keys:
            self.k(k, ["A=x{s:l:1}", "B"], (k + "@List.0[0]", S("A=x{s}")), (k + "@List.0[1]", S("B")), (k + "@List.0#", C(2)))
            self.k(k, {"a{s:l:1}": "y{t:l:1,2}", "b": None}, (k + "@Map.0[0].0.as_str()", S("a{s}")),
                   (k + "@Map.0[0].1!@String.0", S("y{t}")), (k + "@Map.0[1].0.as_str()", S("b")), (k + "@Map.0[1].1", NIL))
            self.k(k, {"a": I("n"), "b": B("b")}, (k + "@Map.0[0].1!@Number.0@UnsignedInt.0", I("n")),
                   (k + "@Map.0[1].1!@Bool.0", B("b")))
            self.k(k, {"a": I("n", -2 ** 63, -1)}, (k + "@Map.0[0].1!@Number.0@SignedInt.0", I("n")))
            self.k(k, {"a": 1.5}, (k + "@Map.0[0].1!@Number.0@Float.0", F64(1.5)))
            self.d(k, [], {})
        return self

    def opts(self, *keys):
        """A map of strings or numbers."""
        for k in keys:
            self.k(k, {"a{s:l:1}": "x{t:l:1,2}", "b": I("n")}, (k + "[0].0.as_str()", S("a{s}")),
                   (k + "[0].1@String.0", S("x{t}")), (k + "[1].0.as_str()", S("b")), (k + "[1].1@Number.0@UnsignedInt.0", I("n")))
            self.d(k, {})
        return self

    def bytes(self, *keys, path="!"):
        for k in keys:
            self.k(k, I("n"), (k + path + "@Bytes.0", I("n")))
            for u, v in (("b", "Bytes"), ("k", "Kilobytes"), ("kb", "Kilobytes"), ("m", "Megabytes"), ("mb", "Megabytes"),
                         ("g", "Gigabytes"), ("gb", "Gigabytes")):
                self.k(k, "{n:n:1,2}" + u, (k + path + "@%s.0" % v, N("n")))
        return self

    def x(self):
        """Extension keys are kept; other unknown keys are rejected."""
        self.ext = True
        self.k("x-{s:l:1,2}", "y{t:l:1}", ("extensions[0].0.as_str()", S("x-{s}")), ("extensions#", C(1)),
               ("extensions[0].1@String.0", S("y{t}")))
        return self


class Mul:
    """A number hole times a constant, plus a constant."""
    def __init__(self, hole, k, plus=0):
        self.hole, self.k, self.plus = hole, k, plus

    def __str__(self):
        return "%s * %d + %d" % (self.hole, self.k, self.plus)


T = []


def s(adt, base, **kw):
    x = Struct(adt, base, **kw)
    T.append(x)
    return x


A = "service::"

c = s("Compose", {"services": {}}).text("version").x().k("name", "x{s:l:1,3}", ("name!.as_str()", S("x{s}"))).d("name", None)
c.k("services", {"{s:i:1,3}": {"image": "x{t:l:1}"}}, ("services[0].0.as_str()", S("{s}")), ("services#", C(1)),
    ("services[0].1.image!.name()", S("x{t}")))
c.k("include", ["x{s:l:1}", {"path": "y{t:l:1}"}], ("include[0]@Short.0", S("x{s}")), ("include#", C(2)),
    ("include[1]@Long.0.path@Item.0", S("y{t}"))).d("include", [])
for k in ("networks", "volumes"):
    c.k(k, {"x{s:l:1,2}": None, "b": {"external": True, "name": "y{t:l:1}"}, "c": {"driver": "z{u:l:1}"}},
        (k + "[0].0.as_str()", S("x{s}")), (k + "[0].1", NIL), (k + "[1].1!@External.0!", S("y{t}")),
        (k + "[2].0.as_str()", S("c")), (k + "[2].1!@Compose.0.driver!" + ("@Other.0" if k == "networks" else ""), S("z{u}")),
        (k + "#", C(3)))
    c.k(k, {"a": {"external": True}}, (k + "[0].1!@External.0", NIL)).d(k, {})
for k in ("configs", "secrets"):
    c.k(k, {"x{s:l:1,2}": {"file": "x{t:l:1}"}, "b": {"external": True, "name": "y{u:l:1}"}},
        (k + "[0].0.as_str()", S("x{s}")), (k + "[0].1@Compose.0.source@File.0", S("x{t}")),
        (k + "[1].1@External.0!", S("y{u}")), (k + "#", C(2))).d(k, {})
for k in ("networks", "volumes", "configs", "secrets"):
    c.no({"services": {}, k: {"a": {"external": True, "labels": ["a=b"]}}}, "an external resource with other keys")
c.no({"name": "a"}, "`services` is missing")
c.no({"services": {"a/b": {}}}, "`a/b` is not an identifier")
c.no({"services": {"": {}}}, "the empty text is not an identifier")

c = s("config::Config", {"file": "f"}).list_or_map("labels").x()
for k, v in (("file", "File"), ("environment", "Environment"), ("content", "Content")):
    c.k(k, "x{s:l:1,3}", ("source@%s.0" % v, S("x{s}")))
KINDS = {"config::Config": ("file", "environment", "content"), "secret::Secret": ("file", "environment")}
c = s("secret::Secret", {"file": "f"}).list_or_map("labels").text("driver").opts("driver_opts").x()
for k, v in (("file", "File"), ("environment", "Environment")):
    c.k(k, "x{s:l:1,3}", ("source@%s.0" % v, S("x{s}")))
c = s("include::Include", {"path": "p"}).text("project_directory")
c.k("path", "x{s:l:1,3}", ("path@Item.0", S("x{s}")))
c.k("path", ["x{s:l:1}", "y"], ("path@List.0[0]", S("x{s}")), ("path@List.0[1]", S("y")), ("path@List.0#", C(2)))
c.k("env_file", "x{s:l:1,3}", ("env_file!@Item.0", S("x{s}")))
c.k("env_file", ["x{s:l:1}", "y"], ("env_file!@List.0[0]", S("x{s}")), ("env_file!@List.0#", C(2))).d("env_file", None)
c.no({"project_directory": "a"}, "`path` is missing")

c = s("network::Network", {}).opts("driver_opts").flag("attachable", "enable_ipv6", "internal").text("name").x()
c.list_or_map("labels").k("driver", "x{s:l:1,2}", ("driver!@Other.0", S("x{s}"))).words("driver", Host="host", None_="none")
c.k("ipam", {"driver": "x{s:l:1}"}, ("ipam!.driver!", S("x{s}")))
c = s("network::Ipam", {}).text("driver").x()
c.k("config", [{"subnet": "10.0.0.0/8"}, {"gateway": "10.1.0.1"}], ("config#", C(2)), ("config[0].subnet!", L("10.0.0.0/8")),
    ("config[0].gateway", NIL), ("config[1].gateway!", L("10.1.0.1"))).d("config", [])
c.k("options", {"a{s:l:1}": "x{t:l:1}"}, ("options[0].0.as_str()", S("a{s}")), ("options[0].1", S("x{t}"))).d("options", {})
c = s("network::IpamConfig", {}).x()
for k in ("subnet", "ip_range"):
    c.k(k, "10.0.0.0/8", (k + "!", L("10.0.0.0/8"))).k(k, "2001:db8::/64", (k + "!", L("2001:db8::/64"))).d(k, None)
c.k("gateway", "10.1.0.1", ("gateway!", L("10.1.0.1"))).k("gateway", "::1", ("gateway!", L("::1"))).d("gateway", None)
c.k("aux_addresses", {"h{s:l:1}": "10.1.0.2", "i": "::1"}, ("aux_addresses[0].0.as_str()", S("h{s}")),
    ("aux_addresses[0].1", L("10.1.0.2")), ("aux_addresses[1].1", L("::1")), ("aux_addresses#", C(2))).d("aux_addresses", {})
c = s("volume::Volume", {}).text("driver", "name").opts("driver_opts").list_or_map("labels").x()

c = s(A + "Dependency", {"condition": "service_started"}).flag("restart").flag("required", default=True)
c.words("condition", "", ServiceStarted="service_started", ServiceHealthy="service_healthy",
        ServiceCompletedSuccessfully="service_completed_successfully")
c.no({"restart": True}, "`condition` is missing")
c = s(A + "Extends", {"service": "a"}).ident("service", opt="").text("file")
c = s(A + "Logging", {}).text("driver").x()
c.k("options", {"a{s:l:1}": "x{t:l:1}", "b": I("n"), "c": None}, ("options[0].0.as_str()", S("a{s}")), ("options#", C(3)),
    ("options[0].1!@String.0", S("x{t}")), ("options[1].1!@Number.0@UnsignedInt.0", I("n")), ("options[2].1", NIL))
c.d("options", {})

c = s(A + "Service", {"image": "q"}).flag("attach", default=True)
c.flag("init", "oom_kill_disable", "privileged", "read_only", "stdin_open", "tty")
c.num("cpu_count", "cpu_shares", "scale")
c.num("cpu_percent", "mem_swappiness", hi=100, acc=".into_inner()")
c.num("oom_score_adj", lo=0, hi=1000, acc=".0")
c.k("oom_score_adj", I("n", -1000, -1), ("oom_score_adj!.0", I("n")))
c.no({"cpu_percent": 101}, "a percentage above 100").no({"mem_swappiness": 101}, "a percentage above 100")
c.no({"oom_score_adj": 1001}, "a score above 1000").no({"oom_score_adj": -1001}, "a score below -1000")
c.k("build", "./x{s:l:1,2}", ("build!@Short.0@Path.0", S("./x{s}")))
c.k("build", {"context": "./x{s:l:1}", "target": "y{t:l:1}"}, ("build!@Long.0.context!@Path.0", S("./x{s}")),
    ("build!@Long.0.target!", S("y{t}"))).d("build", None)
c.k("blkio_config", {"weight": I("n", 10, 1000)}, ("blkio_config!.weight!.into_inner()", I("n"))).d("blkio_config", None)
for k in ("cpu_period", "cpu_quota"):
    c.k(k, I("n"), (k + "!.as_micros()", I("n"))).d(k, None).no({"image": "q", k: "x{s:l:1}"}, "a period that is no number")
c.dur("cpu_rt_runtime", "cpu_rt_period", "stop_grace_period")
c.k("cpus", "0.5", ("cpus!.into_inner()", F64(0.5))).k("cpus", 1.5, ("cpus!.into_inner()", F64(1.5)))
c.k("cpus", 2, ("cpus!.into_inner()", F64(2.0))).d("cpus", None)
c.k("cpuset", "0-2,5", ("cpuset.0#", C(4)), ("cpuset.0[0]", C(0)), ("cpuset.0[2]", C(2)), ("cpuset.0[3]", C(5)))
c.texts("cap_add", "cap_drop", "dns_opt", "security_opt")
c.words("cgroup", Host="host", Private="private").text("cgroup_parent")
for k in ("command", "entrypoint"):
    c.k(k, "x{s:l:1,3}", (k + "!@String.0", S("x{s}")))
    c.k(k, ["x{s:l:1}", "y"], (k + "!@List.0[0]", S("x{s}")), (k + "!@List.0[1]", S("y")), (k + "!@List.0#", C(2)))
    c.k(k, [], (k + "!@List.0#", C(0))).d(k, None)
for k in ("configs", "secrets"):
    c.k(k, ["x{s:l:1}", {"source": "y{t:l:1}", "target": "z{u:l:1}"}], (k + "[0]@Short.0.as_str()", S("x{s}")), (k + "#", C(2)),
        (k + "[1]@Long.0.source.as_str()", S("y{t}")), (k + "[1]@Long.0.target!", S("z{u}")), (k + "[1]@Long.0.uid", NIL)).d(k, [])
c.ident("container_name")
for k in ("config", "file", "registry"):
    c.k("credential_spec", {k: "x{s:l:1}"}, ("credential_spec!.kind@%s.0" % k.title() + (".as_str()" if k == "config" else ""),
                                              S("x{s}")))
c.k("depends_on", ["x{s:l:1}", "y"], ("depends_on@Short.0[0].as_str()", S("x{s}")), ("depends_on@Short.0[1].as_str()", S("y")),
    ("depends_on@Short.0#", C(2)))
c.k("depends_on", {"x{s:l:1}": {"condition": "service_healthy", "restart": B("b")}},
    ("depends_on@Long.0[0].0.as_str()", S("x{s}")), ("depends_on@Long.0[0].1.condition", V("ServiceHealthy")),
    ("depends_on@Long.0[0].1.restart", B("b")), ("depends_on@Long.0[0].1.required", C(1)))
c.d("depends_on", [], {})
c.k("deploy", {"replicas": I("n")}, ("deploy!.replicas!", I("n"))).d("deploy", None)
c.k("develop", {"watch": [{"action": "sync", "path": "x{s:l:1}", "target": "/y"}]}, ("develop!.watch[0].path", S("x{s}")))
c.k("device_cgroup_rules", ["c {n:n:1}:* r"], ("device_cgroup_rules[0].major@Integer.0", N("n")))
c.k("devices", ["/x{s:l:1}:/y{t:l:1}"], ("devices[0].host_path", S("/x{s}")), ("devices[0].container_path.as_path()", S("/y{t}")))
c.d("device_cgroup_rules", []).d("devices", [])
c.k("dns", "10.1.0.1", ("dns!@Item.0", L("10.1.0.1")))
c.k("dns", ["10.1.0.1", "::1"], ("dns!@List.0[0]", L("10.1.0.1")), ("dns!@List.0[1]", L("::1")), ("dns!@List.0#", C(2))).d("dns", None)
c.k("dns_search", "x{s:l:1}", ("dns_search!@Item.0.as_str()", S("x{s}")))
c.k("dns_search", ["x{s:l:1}", "y"], ("dns_search!@List.0[0].as_str()", S("x{s}")), ("dns_search!@List.0#", C(2))).d("dns_search", None)
c.k("domainname", "x{s:l:1,3}", ("domain_name!.as_str()", S("x{s}"))).k("hostname", "x{s:l:1,3}", ("hostname!.as_str()", S("x{s}")))
c.d("domainname", None).d("hostname", None)
c.k("env_file", "x{s:l:1}", ("env_file!@Single.0", S("x{s}")))
c.k("env_file", ["x{s:l:1}", {"path": "y{t:l:1}", "required": B("b")}], ("env_file!@List.0[0]@Short.0", S("x{s}")),
    ("env_file!@List.0[1]@Long.0.path", S("y{t}")), ("env_file!@List.0[1]@Long.0.required", B("b"))).d("env_file", None)
c.list_or_map("environment", "annotations", "labels", "sysctls")
c.k("expose", [I("n", 0, 65535), "1{m:d:2}-2{o:d:2}/udp"], ("expose[0].range.start()", I("n")), ("expose[1].range.start()", N("1{m}")),
    ("expose[1].range.end()!", N("2{o}")), ("expose[1].protocol!", V("Udp")), ("expose#", C(2))).d("expose", [])
c.k("extends", {"service": "x{s:l:1}", "file": "y{t:l:1}"}, ("extends!.service.as_str()", S("x{s}")), ("extends!.file!", S("y{t}")))
c.k("external_links", ["x{s:l:1}:y{t:l:1}", "z"], ("external_links[0].service.as_str()", S("x{s}")),
    ("external_links[0].alias!", S("y{t}")), ("external_links[1].alias", NIL)).d("external_links", [])
c.k("links", ["x{s:l:1}:y{t:l:1}", "z"], ("links[0].service.as_str()", S("x{s}")), ("links[0].alias!", S("y{t}"))).d("links", [])
HOSTS = [(["x{s:l:1}=10.1.0.1", "y:10.1.0.2"], "10.1.0.1", "10.1.0.2"),
         ({"x{s:l:1}": "10.1.0.1", "y": "::1"}, "10.1.0.1", "::1")]
for x, a, b in HOSTS:
    EH = (("extra_hosts[0].0.as_str()", S("x{s}")), ("extra_hosts[0].1", L(a)), ("extra_hosts[1].0.as_str()", S("y")),
          ("extra_hosts[1].1", L(b)), ("extra_hosts#", C(2)))
    c.k("extra_hosts", x, *EH)
c.d("extra_hosts", [], {})
c.k("group_add", ["x{s:l:1}", I("n", 0, 2 ** 32 - 1)], ("group_add[0]@Name.0.as_str()", S("x{s}")), ("group_add[1]@Id.0", I("n")))
c.d("group_add", [])
c.k("healthcheck", {"test": "x{s:l:1}"}, ("healthcheck!@Command.0.test!@ShellCommand.0", S("x{s}"))).d("healthcheck", None)
c.k("healthcheck", {"disable": True}, ("healthcheck!", V("Disable")))
c.k("image", "x{s:l:1,2}:y{t:l:1,2}", ("image!.name()", S("x{s}")), ("image!.tag()!", S("y{t}")))
c.words("ipc", Shareable="shareable").k("ipc", "service:x{s:l:1}", ("ipc!@Service.0.as_str()", S("x{s}")))
c.words("uts", Host="host").text("isolation", "pid", "runtime", "stop_signal", "userns_mode")
c.k("logging", {"driver": "x{s:l:1}"}, ("logging!.driver!", S("x{s}"))).d("logging", None)
c.k("network_mode", "host", ("network_config!@NetworkMode.0", V("Host")))
c.k("network_mode", "none", ("network_config!@NetworkMode.0", V("None")))
c.k("network_mode", "service:x{s:l:1}", ("network_config!@NetworkMode.0@Service.0.as_str()", S("x{s}")))
c.k("networks", ["x{s:l:1}", "y"], ("network_config!@Networks.0@Short.0[0].as_str()", S("x{s}")),
    ("network_config!@Networks.0@Short.0#", C(2)))
c.k("networks", {"x{s:l:1}": None, "y": {"priority": I("n")}}, ("network_config!@Networks.0@Long.0[0].0.as_str()", S("x{s}")),
    ("network_config!@Networks.0@Long.0[0].1", NIL), ("network_config!@Networks.0@Long.0[1].1!.priority!", I("n")))
c.no({"network_mode": "host", "networks": ["a"]}, "`network_mode` together with `networks`")
c.k("mac_address", "02:42:ac:11:65:43", ("mac_address!.0[0]", C(2)), ("mac_address!.0[5]", C(0x43))).d("mac_address", None)
c.bytes("mem_limit", "mem_reservation", "shm_size").bytes("memswap_limit", path="!@Value.0")
c.k("memswap_limit", -1, ("memswap_limit!", V("Unlimited")))
c.k("pids_limit", I("n", 0, 2 ** 32 - 1), ("pids_limit!@Value.0", I("n"))).k("pids_limit", -1, ("pids_limit!", V("Unlimited")))
c.k("platform", "linux/amd64", ("platform!", V("Linux")))
c.k("ports", [I("n", 0, 65535), "1{m:d:2}:2{o:d:2}/tcp", {"target": I("p", 0, 65535), "mode": "host"}], ("ports#", C(3)),
    ("ports[0]@Short.0.ranges.container().start()", I("n")), ("ports[1]@Short.0.ranges.host()!.start()", N("1{m}")),
    ("ports[1]@Short.0.ranges.container().start()", N("2{o}")), ("ports[1]@Short.0.protocol!", V("Tcp")),
    ("ports[2]@Long.0.target", I("p")), ("ports[2]@Long.0.mode!", V("Host"))).d("ports", [])
c.k("profiles", ["x{s:l:1}", "y"], ("profiles[0].as_str()", S("x{s}")), ("profiles#", C(2))).d("profiles", [])
c.words("pull_policy", Always="always", Never="never", Missing="missing", Build="build")
c.k("pull_policy", "if_not_present", ("pull_policy!", V("Missing")))
c.words("restart", No="no", Always="always", OnFailure="on-failure", UnlessStopped="unless-stopped")
c.k("storage_opt", {"x{s:l:1}": "y{t:l:1}", "b": None}, ("storage_opt[0].0.as_str()", S("x{s}")),
    ("storage_opt[0].1!@String.0", S("y{t}")), ("storage_opt[1].1", NIL)).d("storage_opt", {})
c.k("tmpfs", "/x{s:l:1}", ("tmpfs!@Item.0.as_path()", S("/x{s}")))
c.k("tmpfs", ["/x{s:l:1}", "/y"], ("tmpfs!@List.0[0].as_path()", S("/x{s}")), ("tmpfs!@List.0#", C(2))).d("tmpfs", None)
c.k("ulimits", {"x{s:l:1}": I("n"), "y": {"soft": I("m"), "hard": I("o")}, "z": -1}, ("ulimits[0].0.as_str()", S("x{s}")),
    ("ulimits[0].1@Short.0@Value.0", I("n")), ("ulimits[1].1@Long.0.soft@Value.0", I("m")),
    ("ulimits[1].1@Long.0.hard@Value.0", I("o")), ("ulimits[2].1@Short.0", V("Unlimited")), ("ulimits#", C(3))).d("ulimits", {})
c.k("user", "x{s:l:1}:{n:n:1,2}", ("user!.user@Name.0.as_str()", S("x{s}")), ("user!.group!@Id.0", N("n"))).d("user", None)
c.k("volumes", ["x{s:l:1}:/y{t:l:1}:ro", {"type": "bind", "source": "./z{u:l:1}", "target": "/w{v:l:1}"}], ("volumes#", C(2)),
    ("volumes[0]@Short.0.container_path.as_path()", S("/y{t}")), ("volumes[0]@Short.0.options!.source@Volume.0.as_str()", S("x{s}")),
    ("volumes[0]@Short.0.options!.read_only", C(1)), ("volumes[1]@Long.0@Bind.0.source.as_path()", S("./z{u}")),
    ("volumes[1]@Long.0@Bind.0.common.target.as_path()", S("/w{v}"))).d("volumes", [])
c.k("volumes_from", ["x{s:l:1}:ro", "container:y{t:l:1}"], ("volumes_from[0].source@Service.0.as_str()", S("x{s}")),
    ("volumes_from[0].read_only", C(1)), ("volumes_from[1].source@Container.0.as_str()", S("y{t}"))).d("volumes_from", [])
c.k("working_dir", "/x{s:l:1,3}", ("working_dir!.as_path()", S("/x{s}"))).d("working_dir", None).x()

b = A + "blkio_config::"
c = s(b + "BlkioConfig", {}).num("weight", lo=10, hi=1000, acc=".into_inner()")
for k in ("device_read_bps", "device_write_bps"):
    c.k(k, [{"path": "/x{s:l:1}", "rate": I("n")}, {"path": "/y", "rate": "{m:n:1}mb"}], (k + "[0].path.as_path()", S("/x{s}")),
        (k + "[0].rate@Bytes.0", I("n")), (k + "[1].rate@Megabytes.0", N("m")), (k + "#", C(2))).d(k, [])
for k in ("device_read_iops", "device_write_iops"):
    c.k(k, [{"path": "/x{s:l:1}", "rate": I("n")}], (k + "[0].path.as_path()", S("/x{s}")), (k + "[0].rate", I("n"))).d(k, [])
c.k("weight_device", [{"path": "/x{s:l:1}", "weight": I("n", 10, 1000)}], ("weight_device[0].path.as_path()", S("/x{s}")),
    ("weight_device[0].weight.into_inner()", I("n"))).d("weight_device", [])
c.no({"weight": 9}, "a weight below 10").no({"weight": 1001}, "a weight above 1000").no({"weight": 0}, "a weight of 0")

c = s(A + "build::Build", {"context": "q"}).x()
c.k("context", "./x{s:l:1,2}", ("context!@Path.0", S("./x{s}")))
c.k("dockerfile", "x{s:l:1,2}", ("dockerfile!@File.0", S("x{s}"))).k("dockerfile_inline", "x{s:l:1}", ("dockerfile!@Inline.0", S("x{s}")))
c.no({"context": ".", "dockerfile": "a", "dockerfile_inline": "b"}, "`dockerfile` together with `dockerfile_inline`")
c.list_or_map("args", "labels").flag("privileged", "no_cache", "pull").text("isolation", "target").texts("entitlements")
c.k("ssh", ["default", "x{s:l:1}=/y{t:l:1}"], ("ssh[0]", V("Default")), ("ssh[1].id()!", S("x{s}")), ("ssh[1].path()!", S("/y{t}")))
for k in ("cache_from", "cache_to"):
    c.k(k, ["x{s:l:1}", "type=y{t:l:1},z=w{u:l:1}"], (k + "[0].cache_type@Registry.0.name()", S("x{s}")), (k + "#", C(2)),
        (k + "[1].cache_type@Other.0.as_str()", S("y{t}")), (k + "[1].options[0].1.as_str()", S("w{u}"))).d(k, [])
c.d("ssh", [])
for x in (["x{s:l:1}=./y{t:l:1}"], {"x{s:l:1}": "./y{t:l:1}"}):
    c.k("additional_contexts", x, ("additional_contexts[0].0.as_str()", S("x{s}")), ("additional_contexts[0].1@Path.0", S("./y{t}")))
c.d("additional_contexts", [], {}).d("extra_hosts", [], {})
for x, i1, i2 in HOSTS:
    c.k("extra_hosts", x, ("extra_hosts[0].0.as_str()", S("x{s}")), ("extra_hosts[0].1", L(i1)), ("extra_hosts[1].1", L(i2)))
c.k("network", "x{s:l:1}", ("network!.as_str()", S("x{s}"))).k("network", "none", ("network!", V("None"))).d("network", None)
c.bytes("shm_size")
c.k("secrets", ["x{s:l:1}", {"source": "y{t:l:1}"}], ("secrets[0]@Short.0.as_str()", S("x{s}")),
    ("secrets[1]@Long.0.source.as_str()", S("y{t}"))).d("secrets", [])
c.k("tags", ["x{s:l:1}:y{t:l:1}"], ("tags[0].name()", S("x{s}")), ("tags[0].tag()!", S("y{t}"))).d("tags", [])
c.k("ulimits", {"x{s:l:1}": I("n")}, ("ulimits[0].0.as_str()", S("x{s}")), ("ulimits[0].1@Short.0@Value.0", I("n"))).d("ulimits", {})
c.k("platforms", ["linux/amd64", "darwin"], ("platforms[0]", V("Linux")), ("platforms[1]", V("Darwin")), ("platforms#", C(2)))
c.d("platforms", [])

c = s(A + "config_or_secret::ConfigOrSecret", {"source": "a"}).ident("source", opt="").text("target").x()
for k in ("uid", "gid"):
    c.k(k, "{n:n:1,3}", (k + "!", N("n"))).d(k, None)
c.num("mode", hi=2 ** 32 - 1)
c.no({"target": "a"}, "`source` is missing")
c = s(A + "credential_spec::CredentialSpec", {"file": "f"}).x()
c.k("config", "x{s:l:1,3}", ("kind@Config.0.as_str()", S("x{s}"))).k("file", "x{s:l:1,3}", ("kind@File.0", S("x{s}")))
c.k("registry", "x{s:l:1,3}", ("kind@Registry.0", S("x{s}")))

d = A + "deploy::"
c = s(d + "Deploy", {}).x().list_or_map("labels").num("replicas")
c.words("endpoint_mode", VIp="vip", DnsRR="dnsrr").k("endpoint_mode", "x{s:l:1}", ("endpoint_mode!@Other.0", S("x{s}")))
c.words("mode", Global="global", Replicated="replicated").d("mode", None)
c.k("placement", {"max_replicas_per_node": I("n")}, ("placement!.max_replicas_per_node!", I("n")))
c.k("resources", {"limits": {"pids": I("n", 0, 2 ** 32 - 1)}}, ("resources!.limits!.pids!@Value.0", I("n")))
c.k("restart_policy", {"max_attempts": I("n")}, ("restart_policy!.max_attempts!", I("n")))
for k in ("rollback_config", "update_config"):
    c.k(k, {"parallelism": I("n")}, (k + "!.parallelism!", I("n"))).d(k, None)
c = s(d + "Placement", {}).x().texts("constraints").num("max_replicas_per_node")
c.k("preferences", [{"spread": "x{s:l:1}"}], ("preferences[0].spread!", S("x{s}"))).d("preferences", [])
c = s(d + "Preference", {}).x().text("spread")
c = s(d + "RestartPolicy", {}).x().dur("delay", "window").num("max_attempts")
c.words("condition", None_="none", OnFailure="on-failure", Any="any")
c = s(d + "UpdateOrRollbackConfig", {}).x().num("parallelism", "max_failure_ratio").dur("delay", "monitor")
c.words("failure_action", Continue="continue", Pause="pause")
c.words("order", StopFirst="stop-first", StartFirst="start-first")
r = d + "resources::"
c = s(r + "Resources", {}).x()
c.k("limits", {"cpus": "0.5"}, ("limits!.cpus!.into_inner()", F64(0.5)))
c.k("reservations", {"cpus": "0.5"}, ("reservations!.cpus!.into_inner()", F64(0.5)))
c = s(r + "Limits", {}).x().bytes("memory").k("cpus", "0.5", ("cpus!.into_inner()", F64(0.5)))
c.k("pids", I("n", 0, 2 ** 32 - 1), ("pids!@Value.0", I("n"))).k("pids", -1, ("pids!", V("Unlimited"))).d("pids", None)
c = s(r + "Reservations", {}).x().bytes("memory").k("cpus", "0.5", ("cpus!.into_inner()", F64(0.5)))
c.k("devices", [{"capabilities": ["x{s:l:1}"]}], ("devices[0].capabilities[0]@Other.0", S("x{s}"))).d("devices", [])
c.k("generic_resources", [{"discrete_resource_spec": {"kind": "x{s:l:1}", "value": I("n")}}],
    ("generic_resources[0].discrete_resource_spec!.kind!", S("x{s}")),
    ("generic_resources[0].discrete_resource_spec!.value!", I("n"))).d("generic_resources", [])
c = s(r + "Device", {"capabilities": ["gpu"]}).x().text("driver").texts("device_ids").list_or_map("options")
c.k("capabilities", ["gpu", "tpu", "x{s:l:1}"], ("capabilities[0]", V("Gpu")), ("capabilities[1]", V("Tpu")),
    ("capabilities[2]@Other.0", S("x{s}")), ("capabilities#", C(3)))
c.k("count", "all", ("count!", V("All"))).k("count", I("n"), ("count!@Integer.0", I("n"))).d("count", None)
c.no({"driver": "a"}, "`capabilities` is missing")
c = s(r + "GenericResource", {}).x()
c.k("discrete_resource_spec", {"kind": "x{s:l:1}"}, ("discrete_resource_spec!.kind!", S("x{s}"))).d("discrete_resource_spec", None)
c = s(r + "DiscreteResourceSpec", {}).x().text("kind").num("value")
c = s(A + "develop::Develop", {})
c.k("watch", [{"action": "sync", "path": "x{s:l:1}", "target": "/y"}], ("watch[0].path", S("x{s}"))).d("watch", [])
c = s(A + "develop::WatchRule", {"action": "sync", "path": "p", "target": "/q"}).x()
c.words("action", "", Rebuild="rebuild", Sync="sync", SyncAndRestart="sync+restart").texts("ignore")
c.k("path", "x{s:l:1,3}", ("path", S("x{s}"))).k("target", "/x{s:l:1,3}", ("target!.as_path()", S("/x{s}")))
c.no({"path": "a"}, "`action` is missing").no({"action": "sync"}, "`path` is missing")
c = s(A + "env_file::Config", {"path": "p"}).k("path", "x{s:l:1,3}", ("path", S("x{s}"))).flag("required", default=True)
c.no({"required": True}, "`path` is missing")

n = A + "network_config::"
c = s(n + "Network", {}).x().num("priority").opts("driver_opts")
c.k("aliases", ["x{s:l:1}", "y"], ("aliases[0].as_str()", S("x{s}")), ("aliases#", C(2))).d("aliases", [])
c.k("ipv4_address", "10.1.0.1", ("ipv4_address!", L("10.1.0.1"))).k("ipv6_address", "::1", ("ipv6_address!", L("::1")))
c.d("ipv4_address", None).d("ipv6_address", None)
c.k("link_local_ips", ["10.1.0.1", "::1"], ("link_local_ips[0]", L("10.1.0.1")), ("link_local_ips[1]", L("::1"))).d("link_local_ips", [])
c.k("mac_address", "02:42:ac:11:65:43", ("mac_address!.0[0]", C(2)), ("mac_address!.0[5]", C(0x43))).d("mac_address", None)
c = s(A + "ports::Port", {"target": 1}).x().text("name", "app_protocol").num("target", opt="", hi=65535)
c.k("published", I("n", 0, 65535), ("published!.start()", I("n")), ("published!.end()", NIL))
c.k("published", "{n:n:1,3}", ("published!.start()", N("n"))).k("published", "1{n:d:2}-2{m:d:2}", ("published!.start()", N("1{n}")),
                                                             ("published!.end()!", N("2{m}"))).d("published", None)
c.k("host_ip", "10.1.0.1", ("host_ip!", L("10.1.0.1"))).d("host_ip", None)
c.words("protocol", Tcp="tcp", Udp="udp").k("protocol", "x{s:l:1}", ("protocol!@Other.0", S("x{s}"))).d("protocol", None)
c.words("mode", Host="host", Ingress="ingress").d("mode", None)
c.no({"name": "a"}, "`target` is missing").no({"target": 65536}, "a port above 65535")
c = s(A + "ulimit::Ulimit", {"soft": 1, "hard": 2}).x()
for k in ("soft", "hard"):
    c.k(k, I("n"), (k + "@Value.0", I("n"))).k(k, -1, (k, V("Unlimited")))
c.no({"soft": 1}, "`hard` is missing").no({"hard": 1}, "`soft` is missing")

m = A + "volumes::mount::"
c = s(m + "BindOptions", {}).x().flag("create_host_path")
c.words("propagation", Private="private", Shared="shared", Slave="slave", Unbindable="unbindable", RPrivate="rprivate",
        RShared="rshared", RSlave="rslave", RUnbindable="runbindable")
c.words("selinux", Shared="z", Private="Z")
c = s(m + "TmpfsOptions", {}).x().bytes("size").num("mode", hi=2 ** 32 - 1)
c = s(m + "VolumeOptions", {}).x().flag("nocopy").text("subpath")
MOUNTS = {"Volume": ({"source": "a"}, []), "Bind": ({"source": "./a"}, []), "Tmpfs": ({}, []), "NamedPipe": ({"source": "./a"}, []),
          "Cluster": ({"source": "a"}, [])}
for v, (base, _) in MOUNTS.items():
    c = s(m + v, dict(base, target="/t"))
    c.k("target", "/x{s:l:1,2}", ("common.target.as_path()", S("/x{s}"))).k("read_only", B("b"), ("common.read_only", B("b")))
    c.k("consistency", "x{s:l:1}", ("common.consistency!", S("x{s}"))).d("read_only", False).d("consistency", None)
    c.k("x-{s:l:1,2}", "y{t:l:1}", ("common.extensions[0].0.as_str()", S("x-{s}")), ("common.extensions[0].1@String.0", S("y{t}")))
    c.no(dict(base), "`target` is missing")
    if v == "Volume":
        c.k("source", "{s:i:1,2}", ("source!.as_str()", S("{s}"))).k("volume", {"nocopy": B("b")}, ("volume!.nocopy", B("b")))
    elif v == "Cluster":
        c.k("source", "x{s:l:1,2}", ("source", S("x{s}")))
    elif v != "Tmpfs":
        c.k("source", "./x{s:l:1,2}", ("source.as_path()", S("./x{s}")))
        c.no({"target": "/t"}, "`source` is missing")
    if v == "Bind":
        c.k("bind", {"create_host_path": B("b")}, ("bind!.create_host_path", B("b")))
    if v == "Tmpfs":
        c.k("tmpfs", {"mode": I("n", 0, 2 ** 32 - 1)}, ("tmpfs!.mode!", I("n")))
c = s(m + "Mount", {"type": "volume", "source": "a", "target": "/t"})
for v, (base, _) in MOUNTS.items():
    ty = {"NamedPipe": "npipe"}.get(v, v.lower())
    c.k(None, dict(base, type=ty, target="/x{s:l:1}", read_only=B("b")), ("@%s.0.common.target.as_path()" % v, S("/x{s}")),
        ("@%s.0.common.read_only" % v, B("b")))
c.no({"target": "/a"}, "`type` is missing").no({"type": "x", "target": "/a"}, "an unknown mount type")

h = "@Command.0."
c = s(A + "healthcheck::Healthcheck", {})
c.k("test", ["CMD", "x{s:l:1}", "y"], (h + "test!@Command.0[0]", S("x{s}")), (h + "test!@Command.0[1]", S("y")), (h + "test!@Command.0#", C(2)))
c.k("test", ["CMD-SHELL", "x{s:l:1,2}"], (h + "test!@ShellCommand.0", S("x{s}"))).k("test", "x{s:l:1,2}", (h + "test!@ShellCommand.0", S("x{s}")))
c.other_key["test"] = ["disable"]
c.k("test", ["NONE"], ("", V("Disable"))).k("disable", True, ("", V("Disable")))
c.k("retries", I("n"), (h + "retries!", I("n")))
for k in ("interval", "timeout", "start_period", "start_interval"):
    c.k(k, "{n:n:1,3}s", (h + k + "!.as_secs()", N("n"))).k(k, "{n:n:1,2}m", (h + k + "!.as_secs()", Mul("n", 60)))
    c.no({"disable": True, k: "1s"}, "a disabled healthcheck with other options").d(k, None)
c.k("x-{s:l:1,2}", "y{t:l:1}", (h + "extensions[0].0.as_str()", S("x-{s}")), (h + "extensions[0].1@String.0", S("y{t}")))
c.no({"disable": True, "test": "a"}, "a disabled healthcheck with a test").no({"disable": True, "retries": 1}, "a disabled healthcheck with retries")
c.no({"test": []}, "an empty test").no({"test": ["a"]}, "a test that is not CMD, CMD-SHELL or NONE")
c.no({"test": ["CMD-SHELL", "a", "b"]}, "CMD-SHELL with two arguments").no({"test": ["CMD-SHELL"]}, "CMD-SHELL alone")
c.d("disable", False)

# A key without content is the same as leaving it out, unless it is required, a boolean, or part of a choice.
CHOICE = {A + "healthcheck::Healthcheck": ("retries", "disable", "test"), A + "credential_spec::CredentialSpec": ("config", "file", "registry"),
          "config::Config": ("file", "environment", "content"), "secret::Secret": ("file", "environment"),
          A + "depends_on": ()}
for c in T:
    for k in dict.fromkeys(k for k, _, _ in c.keys if k is not None and not k.startswith("x-")):
        ds = [v for q, v in c.defaults if q == k]
        if {list, dict} <= {type(f) for q, f, _ in c.keys if q == k} or k == "cpuset":
            continue
        if k not in c.base and None not in ds and not any(isinstance(v, bool) for v in ds) and k not in CHOICE.get(c.adt, ()):
            c.d(k, None)

# ---- rejected contents -------------------------------------------------------------------------
BIG = 2 ** 64 - 1
P16, P32 = 2 ** 16, 2 ** 32


def rej(adt, why, *contents):
    c = next(x for x in T if x.adt == adt)
    for content in contents:
        c.no(dict(c.base, **content) if isinstance(content, dict) else content, why)


S_ = A + "Service"
for k in ("cpu_percent", "mem_swappiness"):
    rej(S_, "a percentage above 100", {k: I("n", 101)})
    rej(S_, "a negative percentage", {k: I("n", -2 ** 63, -1)})
rej(S_, "a score outside -1000..=1000", {"oom_score_adj": I("n", 1001)}, {"oom_score_adj": I("n", -2 ** 63, -1001)})
rej(S_, "a negative number", *({k: I("n", -2 ** 63, -1)} for k in ("cpu_count", "cpu_shares", "scale", "mem_limit", "shm_size")))
rej(S_, "a number below -1 for a limit", *({k: I("n", -2 ** 63, -2)} for k in ("pids_limit", "memswap_limit")))
rej(S_, "a number of processes above 32 bits", {"pids_limit": I("n", P32)})
rej(S_, "`network_mode` together with `networks`", {"network_mode": "host", "networks": ["x{s:l:1}"]},
    {"network_mode": "none", "networks": {"x{s:l:1}": None}}, {"network_mode": "service:x{s:l:1}", "networks": ["a"]})
rej(S_, "a port above 65535", {"expose": [I("n", P16)]}, {"ports": [I("n", P16)]}, {"ports": ["70{s:d:3}:80"]}, {"expose": ["70{s:d:3}"]})
rej(S_, "a backwards port range", {"expose": ["2{m:d:2}-1{o:d:2}"]}, {"ports": ["2{m:d:2}-1{o:d:2}:80"]})
rej(S_, "a relative path", {"working_dir": "x{s:l:1,3}"}, {"tmpfs": "x{s:l:1}"}, {"tmpfs": ["/a", "x{s:l:1}"]})
rej(S_, "a text that is not an identifier", {"container_name": "-x{s:l:1}"}, {"depends_on": ["x{s:l:1} "]},
    {"depends_on": {"x/{s:l:1}": {"condition": "service_started"}}}, {"networks": ["-x{s:l:1}"]},
    {"networks": {"x{s:l:1}/": None}}, {"configs": ["x {s:l:1}"]}, {"secrets": [{"source": ".x{s:l:1}"}]}, {"profiles": ["-x{s:l:1}"]},
    {"extends": {"service": "x{s:l:1}:a"}}, {"links": ["-x{s:l:1}"]})
rej(S_, "an empty identifier", {"container_name": ""}, {"depends_on": [""]}, {"networks": [""]}, {"configs": [""]}, {"profiles": [""]})
rej(S_, "an empty key in a map", *({k: {"": "x{s:l:1}"}} for k in ("labels", "environment", "annotations", "sysctls", "storage_opt")))
rej(S_, "a text that is not an address", {"dns": "x{s:l:1,3}"}, {"dns": ["10.1.0.1", "x{s:l:1}"]}, {"extra_hosts": {"a": "x{s:l:1}"}},
    {"extra_hosts": ["x{s:l:1}"]}, {"dns": "10.1.0"}, {"dns": "10.1.0.256"}, {"dns": "10.1.0.1.2"})
rej(S_, "a text that is not a host name", {"hostname": "-x{s:l:1}"}, {"hostname": "x{s:l:1}-"}, {"domainname": "x_{s:l:1}"},
    {"dns_search": "x {s:l:1}"}, {"hostname": ""})
rej(S_, "no time unit", {"stop_grace_period": "{n:n:1,3}"}, {"cpu_rt_period": "{n:n:1,3}x"}, {"cpu_rt_runtime": "x{s:l:1}"},
    {"stop_grace_period": ""}, {"stop_grace_period": "-{n:n:1}s"})
rej(S_, "no byte amount", {"mem_limit": "x{s:l:1}"}, {"mem_limit": "{n:n:1,2}x"}, {"mem_limit": "kb"}, {"shm_size": "-{n:n:1}k"},
    {"mem_reservation": ""}, {"memswap_limit": "{n:n:1}tb"})
rej(S_, "no MAC address", {"mac_address": "02:42:ac:11:65"}, {"mac_address": "02:42:ac:11:65:43:01"}, {"mac_address": "02:42:ac:11:65:4g"},
    {"mac_address": ""}, {"mac_address": "x{s:l:1}"})
rej(S_, "no number of CPUs", {"cpus": "x{s:l:1}"}, {"cpus": ""}, {"cpus": -1}, {"cpus": "-0.5"}, {"cpus": "nan"}, {"cpus": "inf"})
rej(S_, "an unknown word", {"pull_policy": "z{s:l:1,3}"}, {"restart": "z{s:l:1}"}, {"cgroup": "z{s:l:1}"},
    {"depends_on": {"a": {"condition": "z{s:l:1}"}}}, {"uts": "z{s:l:1}"})
rej(S_, "an unknown key inside", {"deploy": {"z{s:l:1}": "q"}},
    {"build": {"z{s:l:1}": "q"}}, {"healthcheck": {"z{s:l:1}": "q"}}, {"ports": [{"target": 1, "z{s:l:1}": "q"}]},
    {"ulimits": {"a": {"soft": 1, "hard": 2, "z{s:l:1}": 3}}}, {"logging": {"z{s:l:1}": "q"}}, {"networks": {"a": {"z{s:l:1}": "q"}}},
    {"secrets": [{"source": "a", "z{s:l:1}": "q"}]},
    {"develop": {"watch": [{"action": "sync", "path": "a", "z{s:l:1}": "q"}]}},
    {"volumes": [{"type": "bind", "source": "./a", "target": "/a", "z{s:l:1}": "q"}]}, 
    {"credential_spec": {"file": "a", "z{s:l:1}": "q"}})
rej(S_, "two sources in one credential spec", {"credential_spec": {"file": "x{s:l:1}", "registry": "y"}},
    {"credential_spec": {"config": "x{s:l:1}", "file": "y"}}, {"credential_spec": {"config": "a", "registry": "x{s:l:1}"}})
rej(S_, "a credential spec without source", {"credential_spec": {}}, {"credential_spec": {"x-a": "x{s:l:1}"}})
for k in ("networks", "volumes", "configs", "secrets"):
    extra = {"networks": {"driver": "x{s:l:1}"}, "volumes": {"driver": "x{s:l:1}"}, "configs": {"file": "x{s:l:1}"},
             "secrets": {"environment": "x{s:l:1}"}}[k]
    rej("Compose", "an external resource with other keys", {k: {"a": dict({"external": True}, **extra)}},
        {k: {"a": {"external": True, "name": "b", "labels": {"a": "x{s:l:1}"}}}})
    rej("Compose", "a name that is not an identifier", {k: {"-x{s:l:1}": {"external": True}}}, {k: {"": {"external": True}}},
        {k: {"x{s:l:1}/": {"external": True}}})
rej("Compose", "a name that is not an identifier", {"services": {"-x{s:l:1}": {}}}, {"services": {"x{s:l:1} y": {}}})
rej("Compose", "not a project name", {"name": "-x{s:l:1}"}, {"name": "X{s:l:1}"}, {"name": ""}, {"name": "x{s:l:1}."})
for k in ("config::Config", "secret::Secret"):
    rej(k, "two sources", {"file": "x{s:l:1}", "environment": "y"}, {"environment": "y{t:l:1}", "file": "x"})
    next(x for x in T if x.adt == k).no({}, "no source").no({"name": "x{s:l:1}"}, "no source")
rej("config::Config", "two sources", {"content": "x{s:l:1}"}, {"file": "a", "content": "b", "environment": "c"})
rej(A + "blkio_config::BlkioConfig", "a weight outside 10..=1000", {"weight": I("n", 0, 9)}, {"weight": I("n", 1001)},
    {"weight": I("n", -2 ** 63, -1)}, {"weight_device": [{"path": "/a", "weight": I("n", 1001)}]},
    {"weight_device": [{"path": "/a", "weight": I("n", 0, 9)}]})
rej(A + "blkio_config::BlkioConfig", "a key is missing", {"weight_device": [{"path": "/x{s:l:1}"}]}, {"weight_device": [{"weight": 10}]},
    {"device_read_bps": [{"path": "/x{s:l:1}"}]}, {"device_read_iops": [{"rate": 10}]}, {"device_write_bps": [{"rate": 10}]})
rej(A + "build::Build", "`dockerfile` together with `dockerfile_inline`", {"dockerfile": "x{s:l:1}", "dockerfile_inline": "y{t:l:1}"},
    {"dockerfile_inline": "y{t:l:1}", "dockerfile": "x{s:l:1}"})
rej(A + "build::Build", "a port in a tag", {"tags": [""]})
rej(A + "ports::Port", "a port above 65535", {"target": I("n", P16)}, {"published": I("n", P16)}, {"published": "70{s:d:3}"})
rej(A + "ports::Port", "a negative port", {"target": I("n", -2 ** 63, -1)}, {"published": I("n", -2 ** 63, -1)})
rej(A + "ports::Port", "a backwards range", {"published": "2{m:d:2}-1{o:d:2}"})
rej(A + "ports::Port", "an unknown mode", {"mode": "z{s:l:1}"})
rej(A + "ulimit::Ulimit", "a limit below -1", {"soft": I("n", -2 ** 63, -2)}, {"hard": I("n", -2 ** 63, -2)})
rej(A + "config_or_secret::ConfigOrSecret", "a mode above 32 bits", {"mode": I("n", P32)})
rej(A + "healthcheck::Healthcheck", "a disabled healthcheck with other options", {"disable": True, "retries": I("n")},
    {"disable": True, "test": "x{s:l:1}"}, {"disable": True, "test": ["CMD", "x{s:l:1}"]}, {"disable": True, "interval": "{n:n:1,2}s"},
    {"disable": True, "x-{s:l:1}": "q"})
rej(A + "healthcheck::Healthcheck", "a test that does not start with CMD, CMD-SHELL or NONE", {"test": ["x{s:l:1,2}"]},
    {"test": ["x{s:l:1}", "CMD"]}, {"test": ["cmd", "x{s:l:1}"]})
rej(A + "healthcheck::Healthcheck", "CMD-SHELL with two arguments", {"test": ["CMD-SHELL", "x{s:l:1}", "y{t:l:1}"]})
for v, (base, _) in MOUNTS.items():
    rej(m + v, "a relative target", {"target": "x{s:l:1,2}"})
rej(m + "Volume", "not a volume name", {"source": "-x{s:l:1}"}, {"source": "x{s:l:1}/y"})
rej(m + "BindOptions", "an unknown word", {"propagation": "zz{s:l:1}"}, {"selinux": "x{s:l:1}"})
rej(m + "Mount", "an unknown mount type", {"type": "x{s:l:1,3}"})
rej(m + "Mount", "options of another mount type", {"bind": {"propagation": "private"}}, {"tmpfs": {"mode": 1}})
rej(n + "Network", "not an address", {"ipv4_address": "x{s:l:1}"}, {"ipv6_address": "x{s:l:1}"}, {"ipv4_address": "::1"}, {"ipv6_address": "10.1.0.1"},
    {"link_local_ips": ["x{s:l:1}"]}, {"aliases": ["-x{s:l:1}"]})
rej("network::IpamConfig", "not a network", {"subnet": "10.0.0.0"}, {"subnet": "abc"}, {"ip_range": "10.0.0.0/33"}, {"gateway": "10.1.0.0/16"})
rej(A + "deploy::Deploy", "an unknown mode", {"mode": "z{s:l:1}"})
rej(A + "deploy::RestartPolicy", "an unknown condition", {"condition": "z{s:l:1}"})
rej(A + "deploy::UpdateOrRollbackConfig", "an unknown word", {"failure_action": "z{s:l:1}"}, {"order": "z{s:l:1}"})
rej(A + "deploy::resources::Device", "an unknown count", {"count": "x{s:l:1}"})
rej(A + "develop::WatchRule", "an unknown action", {"action": "x{s:l:1}"})
rej(A + "develop::WatchRule", "a relative target", {"target": "x{s:l:1}"})
rej(A + "Dependency", "an unknown condition", {"condition": "x{s:l:1}"})
rej(A + "Extends", "not an identifier", {"service": "-x{s:l:1}"})
