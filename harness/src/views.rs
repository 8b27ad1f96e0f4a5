//! Reads each setting of a generated document from the field of the parsed value it belongs to.

use std::time::Duration;

use compose_spec::{
    config, network, secret,
    service::{self, deploy, healthcheck, network_config, volumes::mount},
    Compose, ExtensionKey, Extensions, Include, Network, Resource, Service, ShortOrLong, YamlValue,
};
use serde::Serialize;

use crate::{
    docgen::{Kind, Node},
    fw::Res,
};

fn val<T: Serialize + ?Sized>(v: &T) -> Result<YamlValue, String> {
    serde_yaml::to_value(v).map_err(|e| format!("cannot serialise: {e}"))
}

fn same<T: Serialize + ?Sized>(n: &Node, v: &T, at: &str) -> Res {
    let v = val(v)?;
    // settings at their default are omitted when written
    if n.expected().is_none() {
        let default = match &v {
            YamlValue::Null | YamlValue::Bool(_) => true,
            YamlValue::Sequence(s) => s.is_empty(),
            YamlValue::Mapping(m) => m.is_empty(),
            _ => false,
        };
        let asked = n.input();
        let agrees = match (&v, &asked) {
            (YamlValue::Bool(a), YamlValue::Bool(b)) => a == b,
            _ => default,
        };
        return if agrees { Ok(()) } else { Err(format!("{at}: the field holds {v:?}, written as {asked:?}")) };
    }
    n.matches(Some(&v), at).map_err(|e| format!("field {e}"))
}

fn micros(n: &Node, d: Option<Duration>, at: &str) -> Res {
    let d = d.ok_or_else(|| format!("{at} is not set"))?;
    let got = u64::try_from(d.as_micros()).map_err(|e| e.to_string())?;
    match n.expected() {
        Some(YamlValue::Number(want)) if want.as_u64() == Some(got) => Ok(()),
        Some(YamlValue::String(want)) if want == crate::docgen::show_duration(got) => Ok(()),
        want => Err(format!("{at} holds {d:?}, expected {want:?}")),
    }
}

/// The extensions of a type; `()` for types without.
trait Ext {
    fn one(&self, n: &Node, k: &str, at: &str) -> Res;
    fn all(&self, n: &Node, at: &str) -> Res;
}

impl Ext for () {
    fn one(&self, _: &Node, k: &str, at: &str) -> Res {
        Err(format!("harness: no view of {at} {k}"))
    }
    fn all(&self, _: &Node, _: &str) -> Res {
        Ok(())
    }
}

impl Ext for Extensions {
    fn one(&self, n: &Node, k: &str, at: &str) -> Res {
        if !k.starts_with("x-") {
            return Err(format!("harness: no view of {at} {k}"));
        }
        n.matches(ExtensionKey::new(k).ok().and_then(|k| self.get(&k)), at)
    }

    /// Check the extensions are exactly those written.
    fn all(&self, n: &Node, at: &str) -> Res {
        let want: Vec<&str> = n.entries().iter().map(|(k, _)| k.as_str()).filter(|k| k.starts_with("x-")).collect();
        let got: Vec<&str> = self.keys().map(ExtensionKey::as_str).collect();
        if want == got { Ok(()) } else { Err(format!("{at}: extensions {got:?}, expected {want:?}")) }
    }
}

/// Per-field comparison; `=> e` a value, `=> |n, at| e` anything else.
macro_rules! fields {
    ($node:expr, $at:expr, $x:expr; $($key:literal => $e:expr),* $(,)?) => {{
        let (node, at): (&Node, &str) = ($node, $at);
        #[allow(clippy::redundant_closure_call)]
        for (k, n) in node.entries() {
            let at = &format!("{at}.{k}");
            match k.as_str() {
                $($key => $e(n, at)?,)*
                k => Ext::one(&$x, n, k, at)?,
            }
        }
        Ext::all(&$x, node, at)?;
    }};
}

macro_rules! v {
    ($e:expr) => {
        |n: &Node, at: &str| same(n, &$e, at)
    };
}
macro_rules! d {
    ($e:expr) => {
        |n: &Node, at: &str| micros(n, $e, at)
    };
}
macro_rules! some {
    ($e:expr, $view:expr) => {
        |n: &Node, at: &str| match &$e {
            Some(v) => $view(v, n, at),
            None => Err(format!("{at} is not set")),
        }
    };
}
macro_rules! each {
    ($e:expr, $view:expr) => {
        |n: &Node, at: &str| each_of(n, &mut $e.iter(), at, $view)
    };
}

fn items(n: &Node) -> Vec<&Node> {
    match &n.kind {
        Kind::Seq(items) => items.iter().filter(|n| !n.traceless()).collect(),
        Kind::Map(e) => e.iter().map(|(_, n)| n).collect(),
        _ => vec![],
    }
}

fn each_of<'a, T: 'a>(n: &Node, of: &mut dyn Iterator<Item = &'a T>, at: &str, view: fn(&T, &Node, &str) -> Res) -> Res {
    let got: Vec<&T> = of.collect();
    let want = items(n);
    if got.len() != want.len() {
        return Err(format!("{at}: {} items, expected {}", got.len(), want.len()));
    }
    got.into_iter().zip(want).enumerate().try_for_each(|(i, (v, n))| view(v, n, &format!("{at}[{i}]")))
}

fn short_or_long<S: Serialize, L>(v: &ShortOrLong<S, L>, n: &Node, at: &str, long: fn(&L, &Node, &str) -> Res) -> Res {
    match (v, n.as_obj()) {
        (ShortOrLong::Short(s), None) => same(n, s, at),
        (ShortOrLong::Long(l), Some(_)) => long(l, n, at),
        (ShortOrLong::Short(_), Some(_)) => Err(format!("{at}: short value for long syntax")),
        (ShortOrLong::Long(_), None) => Err(format!("{at}: long value for short syntax")),
    }
}

fn grant(v: &ShortOrLong<compose_spec::Identifier, service::ConfigOrSecret>, n: &Node, at: &str) -> Res {
    short_or_long(v, n, at, |c, n, at| {
        fields!(n, at, c.extensions;
            "source" => v!(c.source),
            "target" => v!(c.target),
            "uid" => v!(c.uid.map(|i| i.to_string())),
            "gid" => v!(c.gid.map(|i| i.to_string())),
            "mode" => v!(c.mode),
        );
        Ok(())
    })
}

fn ulimit(v: &ShortOrLong<service::Limit<u64>, service::Ulimit>, n: &Node, at: &str) -> Res {
    short_or_long(v, n, at, |u, n, at| {
        fields!(n, at, u.extensions; "soft" => v!(u.soft), "hard" => v!(u.hard));
        Ok(())
    })
}

fn build(v: &ShortOrLong<service::build::Context, service::Build>, n: &Node, at: &str) -> Res {
    short_or_long(v, n, at, |b, n, at| {
        let dockerfile = |inline: bool| match &b.dockerfile {
            Some(service::build::Dockerfile::File(p)) if !inline => val(p),
            Some(service::build::Dockerfile::Inline(t)) if inline => val(t),
            other => Err(format!("dockerfile holds {other:?}")),
        };
        fields!(n, at, b.extensions;
            "context" => v!(b.context),
            "dockerfile" => |n, at| same(n, &dockerfile(false)?, at),
            "dockerfile_inline" => |n, at| same(n, &dockerfile(true)?, at),
            "args" => v!(b.args),
            "ssh" => v!(b.ssh),
            "cache_from" => v!(b.cache_from),
            "cache_to" => v!(b.cache_to),
            "additional_contexts" => v!(b.additional_contexts),
            "entitlements" => v!(b.entitlements),
            "extra_hosts" => v!(b.extra_hosts),
            "isolation" => v!(b.isolation),
            "privileged" => v!(b.privileged),
            "labels" => v!(b.labels),
            "no_cache" => v!(b.no_cache),
            "pull" => v!(b.pull),
            "network" => v!(b.network),
            "shm_size" => v!(b.shm_size),
            "target" => v!(b.target),
            "secrets" => each!(b.secrets, grant),
            "tags" => v!(b.tags),
            "ulimits" => |n, at| each_of(n, &mut b.ulimits.values(), at, ulimit),
            "platforms" => v!(b.platforms),
        );
        Ok(())
    })
}

fn blkio(b: &service::BlkioConfig, n: &Node, at: &str) -> Res {
    use service::blkio_config::{BpsLimit, IopsLimit, WeightDevice};
    fn bps(l: &BpsLimit, n: &Node, at: &str) -> Res {
        fields!(n, at, (); "path" => v!(l.path), "rate" => v!(l.rate));
        Ok(())
    }
    fn iops(l: &IopsLimit, n: &Node, at: &str) -> Res {
        fields!(n, at, (); "path" => v!(l.path), "rate" => v!(l.rate));
        Ok(())
    }
    fn weight(l: &WeightDevice, n: &Node, at: &str) -> Res {
        fields!(n, at, (); "path" => v!(l.path), "weight" => v!(l.weight));
        Ok(())
    }
    fields!(n, at, ();
        "device_read_bps" => each!(b.device_read_bps, bps),
        "device_read_iops" => each!(b.device_read_iops, iops),
        "device_write_bps" => each!(b.device_write_bps, bps),
        "device_write_iops" => each!(b.device_write_iops, iops),
        "weight" => v!(b.weight),
        "weight_device" => each!(b.weight_device, weight),
    );
    Ok(())
}

fn credential_spec(c: &service::CredentialSpec, n: &Node, at: &str) -> Res {
    use service::CredentialSpecKind as K;
    let source = |key: &str| match (&c.kind, key) {
        (K::Config(v), "config") => val(v),
        (K::File(v), "file") => val(v),
        (K::Registry(v), "registry") => val(v),
        (other, _) => Err(format!("credential_spec {key} is {other:?}")),
    };
    fields!(n, at, c.extensions;
        "config" => |n, at| same(n, &source("config")?, at),
        "file" => |n, at| same(n, &source("file")?, at),
        "registry" => |n, at| same(n, &source("registry")?, at),
    );
    Ok(())
}

fn dependency(d: &service::Dependency, n: &Node, at: &str) -> Res {
    fields!(n, at, (); "condition" => v!(d.condition), "restart" => v!(d.restart), "required" => v!(d.required));
    Ok(())
}

fn update(u: &deploy::UpdateOrRollbackConfig, n: &Node, at: &str) -> Res {
    fields!(n, at, u.extensions;
        "parallelism" => v!(u.parallelism),
        "delay" => d!(u.delay),
        "failure_action" => v!(u.failure_action),
        "monitor" => d!(u.monitor),
        "max_failure_ratio" => v!(u.max_failure_ratio),
        "order" => v!(u.order),
    );
    Ok(())
}

fn resources(r: &deploy::Resources, n: &Node, at: &str) -> Res {
    use deploy::resources::{Device, DiscreteResourceSpec, GenericResource, Limits, Reservations};
    fn limits(l: &Limits, n: &Node, at: &str) -> Res {
        fields!(n, at, l.extensions; "cpus" => v!(l.cpus), "memory" => v!(l.memory), "pids" => v!(l.pids));
        Ok(())
    }
    fn device(d: &Device, n: &Node, at: &str) -> Res {
        fields!(n, at, d.extensions;
            "capabilities" => v!(d.capabilities),
            "driver" => v!(d.driver),
            "count" => v!(d.count),
            "device_ids" => v!(d.device_ids),
            "options" => v!(d.options),
        );
        Ok(())
    }
    fn spec(d: &DiscreteResourceSpec, n: &Node, at: &str) -> Res {
        fields!(n, at, d.extensions; "kind" => v!(d.kind), "value" => v!(d.value));
        Ok(())
    }
    fn generic(g: &GenericResource, n: &Node, at: &str) -> Res {
        fields!(n, at, g.extensions; "discrete_resource_spec" => some!(g.discrete_resource_spec, spec));
        Ok(())
    }
    fn reservations(r: &Reservations, n: &Node, at: &str) -> Res {
        fields!(n, at, r.extensions;
            "cpus" => v!(r.cpus),
            "memory" => v!(r.memory),
            "devices" => each!(r.devices, device),
            "generic_resources" => each!(r.generic_resources, generic),
        );
        Ok(())
    }
    fields!(n, at, r.extensions; "limits" => some!(r.limits, limits), "reservations" => some!(r.reservations, reservations));
    Ok(())
}

fn deploy_view(d: &service::Deploy, n: &Node, at: &str) -> Res {
    fn preference(p: &deploy::Preference, n: &Node, at: &str) -> Res {
        fields!(n, at, p.extensions; "spread" => v!(p.spread));
        Ok(())
    }
    fn placement(p: &deploy::Placement, n: &Node, at: &str) -> Res {
        fields!(n, at, p.extensions;
            "constraints" => v!(p.constraints),
            "preferences" => each!(p.preferences, preference),
            "max_replicas_per_node" => v!(p.max_replicas_per_node),
        );
        Ok(())
    }
    fn restart(r: &deploy::RestartPolicy, n: &Node, at: &str) -> Res {
        fields!(n, at, r.extensions; "condition" => v!(r.condition), "delay" => d!(r.delay), "max_attempts" => v!(r.max_attempts), "window" => d!(r.window));
        Ok(())
    }
    fields!(n, at, d.extensions;
        "endpoint_mode" => v!(d.endpoint_mode),
        "labels" => v!(d.labels),
        "mode" => v!(d.mode),
        "placement" => some!(d.placement, placement),
        "replicas" => v!(d.replicas),
        "resources" => some!(d.resources, resources),
        "restart_policy" => some!(d.restart_policy, restart),
        "rollback_config" => some!(d.rollback_config, update),
        "update_config" => some!(d.update_config, update),
    );
    Ok(())
}

fn develop(d: &service::Develop, n: &Node, at: &str) -> Res {
    fn rule(r: &service::develop::WatchRule, n: &Node, at: &str) -> Res {
        fields!(n, at, r.extensions; "action" => v!(r.action), "ignore" => v!(r.ignore), "path" => v!(r.path), "target" => v!(r.target));
        Ok(())
    }
    fields!(n, at, (); "watch" => each!(d.watch, rule));
    Ok(())
}

fn health(h: &service::Healthcheck, n: &Node, at: &str) -> Res {
    let n = if let Kind::Alt(_, n) = &n.kind { n } else { n };
    let c = match h {
        service::Healthcheck::Disable if n.get("disable").is_some() => return Ok(()),
        service::Healthcheck::Command(c) if n.get("disable").is_none() => c,
        other => return Err(format!("{at} holds {other:?}")),
    };
    let test = |n: &Node, at: &str| -> Res {
        let want = n.expected();
        let got = match &c.test {
            Some(healthcheck::Test::Command(args)) => Some(std::iter::once("CMD").chain(args.iter().map(String::as_str)).map(YamlValue::from).collect::<Vec<_>>().into()),
            Some(healthcheck::Test::ShellCommand(c)) => Some(YamlValue::from(c.as_str())),
            None => None,
        };
        if got == want { Ok(()) } else { Err(format!("{at} holds {:?}, expected {want:?}", c.test)) }
    };
    fields!(n, at, c.extensions;
        "test" => test,
        "interval" => d!(c.interval),
        "timeout" => d!(c.timeout),
        "retries" => v!(c.retries),
        "start_period" => d!(c.start_period),
        "start_interval" => d!(c.start_interval),
    );
    Ok(())
}

fn logging(l: &service::Logging, n: &Node, at: &str) -> Res {
    fields!(n, at, l.extensions; "driver" => v!(l.driver), "options" => v!(l.options));
    Ok(())
}

fn endpoint(e: &Option<network_config::Network>, n: &Node, at: &str) -> Res {
    match (e, n.as_obj()) {
        (None, None) => Ok(()),
        (Some(e), Some(_)) => {
            fields!(n, at, e.extensions;
                "aliases" => v!(e.aliases),
                "ipv4_address" => v!(e.ipv4_address),
                "ipv6_address" => v!(e.ipv6_address),
                "link_local_ips" => v!(e.link_local_ips),
                "mac_address" => v!(e.mac_address),
                "driver_opts" => v!(e.driver_opts),
                "priority" => v!(e.priority),
            );
            Ok(())
        }
        _ => Err(format!("{at} holds {e:?}")),
    }
}

fn port(v: &ShortOrLong<service::ports::ShortPort, service::ports::Port>, n: &Node, at: &str) -> Res {
    short_or_long(v, n, at, |p, n, at| {
        fields!(n, at, p.extensions;
            "name" => v!(p.name),
            "target" => v!(p.target),
            "published" => v!(p.published),
            "host_ip" => v!(p.host_ip),
            "protocol" => v!(p.protocol),
            "app_protocol" => v!(p.app_protocol),
            "mode" => v!(p.mode),
        );
        Ok(())
    })
}

fn mount_view(m: &mount::Mount, n: &Node, at: &str) -> Res {
    fn common(c: &mount::Common, k: &str, n: &Node, at: &str) -> Res {
        match k {
            "target" => same(n, &c.target, at),
            "read_only" => same(n, &c.read_only, at),
            "consistency" => same(n, &c.consistency, at),
            k if k.starts_with("x-") => c.extensions.one(n, k, at),
            _ => Err(format!("{at} is not a field of the mount")),
        }
    }
    fn volume(o: &mount::VolumeOptions, n: &Node, at: &str) -> Res {
        fields!(n, at, o.extensions; "nocopy" => v!(o.nocopy), "subpath" => v!(o.subpath));
        Ok(())
    }
    fn bind(o: &mount::BindOptions, n: &Node, at: &str) -> Res {
        fields!(n, at, o.extensions; "propagation" => v!(o.propagation), "create_host_path" => v!(o.create_host_path), "selinux" => v!(o.selinux));
        Ok(())
    }
    fn tmpfs(o: &mount::TmpfsOptions, n: &Node, at: &str) -> Res {
        fields!(n, at, o.extensions; "size" => v!(o.size), "mode" => v!(o.mode));
        Ok(())
    }
    fn opt<T>(o: Option<&T>, n: &Node, at: &str, view: fn(&T, &Node, &str) -> Res) -> Res {
        view(o.ok_or_else(|| format!("{at} is not set"))?, n, at)
    }
    let (kind, c) = match m {
        mount::Mount::Volume(m) => ("volume", &m.common),
        mount::Mount::Bind(m) => ("bind", &m.common),
        mount::Mount::Tmpfs(m) => ("tmpfs", &m.common),
        mount::Mount::NamedPipe(m) => ("npipe", &m.common),
        mount::Mount::Cluster(m) => ("cluster", &m.common),
        _ => return Err(format!("{at} holds {m:?}")),
    };
    for (k, n) in n.entries() {
        let at = &format!("{at}.{k}");
        match (k.as_str(), m) {
            ("type", _) => same(n, kind, at)?,
            ("source", mount::Mount::Volume(m)) => same(n, &m.source, at)?,
            ("source", mount::Mount::Bind(m)) => same(n, &m.source, at)?,
            ("source", mount::Mount::NamedPipe(m)) => same(n, &m.source, at)?,
            ("source", mount::Mount::Cluster(m)) => same(n, &m.source, at)?,
            ("volume", mount::Mount::Volume(m)) => opt(m.volume.as_ref(), n, at, volume)?,
            ("bind", mount::Mount::Bind(m)) => opt(m.bind.as_ref(), n, at, bind)?,
            ("tmpfs", mount::Mount::Tmpfs(m)) => opt(m.tmpfs.as_ref(), n, at, tmpfs)?,
            (k, _) => common(c, k, n, at)?,
        }
    }
    c.extensions.all(n, at)
}

fn volume(v: &ShortOrLong<service::volumes::ShortVolume, mount::Mount>, n: &Node, at: &str) -> Res {
    short_or_long(v, n, at, mount_view)
}

pub fn service_view(s: &Service, n: &Node, at: &str) -> Res {
    let networks = |n: &Node, at: &str| -> Res {
        let Some(network_config::NetworkConfig::Networks(networks)) = &s.network_config else { return Err(format!("{at}: {:?}", s.network_config)) };
        same(n, networks, at)?;
        match networks {
            ShortOrLong::Long(m) => each_of(n, &mut m.values(), at, endpoint),
            ShortOrLong::Short(_) => Ok(()),
        }
    };
    let mode = |n: &Node, at: &str| -> Res {
        let Some(network_config::NetworkConfig::NetworkMode(mode)) = &s.network_config else { return Err(format!("{at}: {:?}", s.network_config)) };
        same(n, mode, at)
    };
    let depends = |n: &Node, at: &str| -> Res {
        same(n, &s.depends_on, at)?;
        match &s.depends_on {
            ShortOrLong::Long(m) => each_of(n, &mut m.values(), at, dependency),
            ShortOrLong::Short(_) => Ok(()),
        }
    };
    fields!(n, at, s.extensions;
        "attach" => v!(s.attach),
        "build" => some!(s.build, build),
        "blkio_config" => some!(s.blkio_config, blkio),
        "cpu_count" => v!(s.cpu_count),
        "cpu_percent" => v!(s.cpu_percent),
        "cpu_shares" => v!(s.cpu_shares),
        "cpu_period" => d!(s.cpu_period),
        "cpu_quota" => d!(s.cpu_quota),
        "cpu_rt_runtime" => d!(s.cpu_rt_runtime),
        "cpu_rt_period" => d!(s.cpu_rt_period),
        "cpus" => v!(s.cpus),
        "cpuset" => v!(s.cpuset),
        "cap_add" => v!(s.cap_add),
        "cap_drop" => v!(s.cap_drop),
        "cgroup" => v!(s.cgroup),
        "cgroup_parent" => v!(s.cgroup_parent),
        "command" => v!(s.command),
        "configs" => each!(s.configs, grant),
        "container_name" => v!(s.container_name),
        "credential_spec" => some!(s.credential_spec, credential_spec),
        "depends_on" => depends,
        "deploy" => some!(s.deploy, deploy_view),
        "develop" => some!(s.develop, develop),
        "device_cgroup_rules" => v!(s.device_cgroup_rules),
        "devices" => v!(s.devices),
        "dns" => v!(s.dns),
        "dns_opt" => v!(s.dns_opt),
        "dns_search" => v!(s.dns_search),
        "domainname" => v!(s.domain_name),
        "entrypoint" => v!(s.entrypoint),
        "env_file" => v!(s.env_file),
        "environment" => v!(s.environment),
        "expose" => v!(s.expose),
        "extends" => v!(s.extends),
        "annotations" => v!(s.annotations),
        "external_links" => v!(s.external_links),
        "extra_hosts" => v!(s.extra_hosts),
        "group_add" => v!(s.group_add),
        "healthcheck" => some!(s.healthcheck, health),
        "hostname" => v!(s.hostname),
        "image" => v!(s.image),
        "init" => v!(s.init),
        "ipc" => v!(s.ipc),
        "uts" => v!(s.uts),
        "isolation" => v!(s.isolation),
        "labels" => v!(s.labels),
        "links" => v!(s.links),
        "logging" => some!(s.logging, logging),
        "networks" => networks,
        "network_mode" => mode,
        "mac_address" => v!(s.mac_address),
        "mem_limit" => v!(s.mem_limit),
        "mem_reservation" => v!(s.mem_reservation),
        "mem_swappiness" => v!(s.mem_swappiness),
        "memswap_limit" => v!(s.memswap_limit),
        "oom_kill_disable" => v!(s.oom_kill_disable),
        "oom_score_adj" => v!(s.oom_score_adj),
        "pid" => v!(s.pid),
        "pids_limit" => v!(s.pids_limit),
        "platform" => v!(s.platform),
        "ports" => each!(s.ports, port),
        "privileged" => v!(s.privileged),
        "profiles" => v!(s.profiles),
        "pull_policy" => v!(s.pull_policy),
        "read_only" => v!(s.read_only),
        "restart" => v!(s.restart),
        "runtime" => v!(s.runtime),
        "scale" => v!(s.scale),
        "secrets" => each!(s.secrets, grant),
        "security_opt" => v!(s.security_opt),
        "shm_size" => v!(s.shm_size),
        "stdin_open" => v!(s.stdin_open),
        "stop_grace_period" => d!(s.stop_grace_period),
        "stop_signal" => v!(s.stop_signal),
        "storage_opt" => v!(s.storage_opt),
        "sysctls" => v!(s.sysctls),
        "tmpfs" => v!(s.tmpfs),
        "tty" => v!(s.tty),
        "ulimits" => |n, at| each_of(n, &mut s.ulimits.values(), at, ulimit),
        "user" => v!(s.user),
        "userns_mode" => v!(s.userns_mode),
        "volumes" => each!(s.volumes, volume),
        "volumes_from" => v!(s.volumes_from),
        "working_dir" => v!(s.working_dir),
    );
    Ok(())
}

/// The ordinary resource, or check the external one.
fn ordinary<'a, T: std::fmt::Debug>(r: &'a Resource<T>, n: &Node, at: &str) -> Result<Option<&'a T>, String> {
    let external = n.get("external").is_some_and(|n| n.input() == YamlValue::Bool(true));
    match r {
        Resource::External { name } if external => {
            let want = n.get("name").and_then(Node::expected);
            if name.as_deref().map(YamlValue::from) == want { Ok(None) } else { Err(format!("{at}: external name {name:?}, expected {want:?}")) }
        }
        Resource::Compose(v) if !external => Ok(Some(v)),
        r => Err(format!("{at} holds {r:?}")),
    }
}

pub fn network_view(r: &Resource<Network>, n: &Node, at: &str) -> Res {
    fn config(c: &network::IpamConfig, n: &Node, at: &str) -> Res {
        fields!(n, at, c.extensions; "subnet" => v!(c.subnet), "ip_range" => v!(c.ip_range), "gateway" => v!(c.gateway), "aux_addresses" => v!(c.aux_addresses));
        Ok(())
    }
    fn ipam(i: &network::Ipam, n: &Node, at: &str) -> Res {
        fields!(n, at, i.extensions; "driver" => v!(i.driver), "config" => each!(i.config, config), "options" => v!(i.options));
        Ok(())
    }
    let want_name = n.get("name").and_then(Node::expected);
    if r.name().map(|n| YamlValue::from(n.as_str())) != want_name {
        return Err(format!("{at}: name() is {:?}, expected {want_name:?}", r.name()));
    }
    let Some(v) = ordinary(r, n, at)? else { return Ok(()) };
    fields!(n, at, v.extensions;
        "external" => |_, _| Res::Ok(()),
        "driver" => v!(v.driver),
        "driver_opts" => v!(v.driver_opts),
        "attachable" => v!(v.attachable),
        "enable_ipv6" => v!(v.enable_ipv6),
        "ipam" => some!(v.ipam, ipam),
        "internal" => v!(v.internal),
        "labels" => v!(v.labels),
        "name" => v!(v.name),
    );
    Ok(())
}

pub fn volume_view(r: &Resource<compose_spec::Volume>, n: &Node, at: &str) -> Res {
    let want_name = n.get("name").and_then(Node::expected);
    if r.name().map(|n| YamlValue::from(n.as_str())) != want_name {
        return Err(format!("{at}: name() is {:?}, expected {want_name:?}", r.name()));
    }
    let Some(v) = ordinary(r, n, at)? else { return Ok(()) };
    fields!(n, at, v.extensions;
        "external" => |_, _| Res::Ok(()),
        "driver" => v!(v.driver),
        "driver_opts" => v!(v.driver_opts),
        "labels" => v!(v.labels),
        "name" => v!(v.name),
    );
    Ok(())
}

pub fn config_view(r: &Resource<compose_spec::Config>, n: &Node, at: &str) -> Res {
    let Some(c) = ordinary(r, n, at)? else { return Ok(()) };
    let source = |key: &str| match (&c.source, key) {
        (config::Source::File(v), "file") => val(v),
        (config::Source::Environment(v), "environment") => val(v),
        (config::Source::Content(v), "content") => val(v),
        (other, _) => Err(format!("config {key} is {other:?}")),
    };
    fields!(n, at, c.extensions;
        "external" => |_, _| Res::Ok(()),
        "file" => |n, at| same(n, &source("file")?, at),
        "environment" => |n, at| same(n, &source("environment")?, at),
        "content" => |n, at| same(n, &source("content")?, at),
        "labels" => v!(c.labels),
    );
    Ok(())
}

pub fn secret_view(r: &Resource<compose_spec::Secret>, n: &Node, at: &str) -> Res {
    let Some(c) = ordinary(r, n, at)? else { return Ok(()) };
    let source = |key: &str| match (&c.source, key) {
        (secret::Source::File(v), "file") => val(v),
        (secret::Source::Environment(v), "environment") => val(v),
        (other, _) => Err(format!("secret {key} is {other:?}")),
    };
    fields!(n, at, c.extensions;
        "external" => |_, _| Res::Ok(()),
        "file" => |n, at| same(n, &source("file")?, at),
        "environment" => |n, at| same(n, &source("environment")?, at),
        "labels" => v!(c.labels),
        "driver" => v!(c.driver),
        "driver_opts" => v!(c.driver_opts),
    );
    Ok(())
}

fn optional<T>(v: &Option<T>, n: &Node, at: &str, view: fn(&T, &Node, &str) -> Res) -> Res {
    match (v, n.as_obj()) {
        (None, None) => Ok(()),
        (Some(v), Some(_)) => view(v, n, at),
        _ => Err(format!("{at}: set {}, expected {}", v.is_some(), n.as_obj().is_some())),
    }
}

fn include(v: &ShortOrLong<std::path::PathBuf, Include>, n: &Node, at: &str) -> Res {
    short_or_long(v, n, at, |i, n, at| {
        fields!(n, at, (); "path" => v!(i.path), "project_directory" => v!(i.project_directory), "env_file" => v!(i.env_file));
        Ok(())
    })
}

pub fn compose_view(c: &Compose, n: &Node) -> Res {
    fields!(n, "", c.extensions;
        "version" => v!(c.version),
        "name" => v!(c.name),
        "include" => each!(c.include, include),
        "services" => |n: &Node, at: &str| {
            let got: Vec<&str> = c.services.keys().map(compose_spec::Identifier::as_str).collect();
            let want: Vec<&str> = n.entries().iter().map(|(k, _)| k.as_str()).collect();
            if got != want {
                return Err(format!("services {got:?}, expected {want:?}"));
            }
            each_of(n, &mut c.services.values(), at, service_view)
        },
        "networks" => |n, at| each_of(n, &mut c.networks.values(), at, |v, n, at| optional(v, n, at, network_view)),
        "volumes" => |n, at| each_of(n, &mut c.volumes.values(), at, |v, n, at| optional(v, n, at, volume_view)),
        "configs" => |n, at| each_of(n, &mut c.configs.values(), at, config_view),
        "secrets" => |n, at| each_of(n, &mut c.secrets.values(), at, secret_view),
    );
    Ok(())
}
