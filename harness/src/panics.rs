//! C02: no input makes parsing, or using what was parsed, panic.

use std::{
    borrow::Cow,
    collections::hash_map::DefaultHasher,
    fmt::{Debug, Display},
    hash::{Hash, Hasher},
    hint::black_box,
    path::{Path, PathBuf},
    str::FromStr,
};

use compose_spec::{
    duration, network,
    service::{
        self,
        blkio_config::Weight,
        build::{Cache, CacheOption, Context, Network as BuildNetwork, SshAuth, SshAuthId},
        deploy::{
            self,
            resources::{Capability, Count, Cpus},
            EndpointMode,
        },
        develop,
        device::{CgroupRule, Kind as DeviceKind, MajorMinorNumber, Permissions},
        image::{Digest, Name as ImageName, Tag, TagOrDigest},
        network_config::{MacAddress, NetworkMode},
        platform,
        ports::{self, Protocol, Range, ShortPort, ShortRanges},
        user,
        volumes::{self, mount, HostPath, Mount, ShortVolume, Source},
        AbsolutePath, ByteValue, CpuSet, Device, EnvFile, Expose, Healthcheck, Hostname, IdOrName, Image, Ipc, Limit, Link, OomScoreAdj, Percent, Platform, Resource as UlimitResource, User, VolumesFrom,
        VolumesFromSource,
    },
    AsShort, Compose, ExtensionKey, Identifier, Include, ItemOrList, ListOrMap, MapKey, Name, Number, Options, Service, ShortOrLong, StringOrNumber, Value, YamlValue,
};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_yaml::Mapping;

use crate::{
    docgen::{self, Choices, Src},
    fw::{sub, Cov, Property, Res},
    gen,
};

// Everything here is done for its side effect of not panicking; the framework turns a panic of a
// case into a failure of it.

fn hash<T: Hash>(v: &T) {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    black_box(h.finish());
}

fn dbg<T: Debug>(v: &T) {
    black_box(format!("{v:?}{v:#?}"));
}

fn disp<T: Display>(v: &T) {
    black_box(format!("{v}{v:>30}{v:.2}{v:<3}"));
}

fn error<E: std::error::Error>(e: &E) {
    dbg(e);
    disp(e);
    let mut source = e.source();
    while let Some(s) = source {
        black_box(s.to_string());
        source = s.source();
    }
}

fn ser<T: Serialize>(v: &T) {
    let value = serde_yaml::to_value(v);
    black_box(value.is_ok());
    black_box(serde_yaml::to_string(v).is_ok());
}

fn de<T: DeserializeOwned>(v: &YamlValue) -> Option<T> {
    match serde_yaml::from_value::<T>(v.clone()) {
        Ok(t) => Some(t),
        Err(e) => {
            disp(&e);
            None
        }
    }
}

/// Number of values accepted.
type Count_ = usize;

/// Every way to make a `T` of text.
macro_rules! text {
    ($s:expr, $n:expr, $T:ty, |$v:ident| $use:expr) => {{
        let s: &str = $s;
        let made: [Result<$T, _>; 2] = [<$T as FromStr>::from_str(s), <$T as TryFrom<&str>>::try_from(s).map_err(Into::into)];
        for m in made {
            match m {
                Ok($v) => {
                    $n += 1;
                    $use;
                }
                Err(e) => error(&e),
            }
        }
    }};
}

fn basics<T: Debug + Clone + PartialEq>(v: &T) {
    dbg(v);
    black_box(v.clone() == *v);
}

fn typed<T: Debug + Clone + PartialEq + Serialize + DeserializeOwned>(v: &T) {
    basics(v);
    ser(v);
    if let Ok(y) = serde_yaml::to_value(v) {
        black_box(de::<T>(&y).is_some());
    }
}

/// Whether a CPU set would be expanded to more than a few CPUs.
pub fn wide(s: &str) -> bool {
    s.split(|c: char| !c.is_ascii_digit()).any(|n| n.len() > 5)
}

fn check_text(s: &String, cov: &mut Cov) -> Res {
    let s = s.as_str();
    let mut n: Count_ = 0;
    cov.label(if s.is_ascii() { "ASCII" } else { "not ASCII" });

    text!(s, n, Identifier, |v| {
        typed(&v);
        disp(&v);
        hash(&v);
        black_box(v.as_str() == s && v == s);
        black_box(String::from(v));
    });
    text!(s, n, MapKey, |v| {
        typed(&v);
        disp(&v);
        black_box(Box::<str>::from(v));
    });
    text!(s, n, ExtensionKey, |v| {
        typed(&v);
        disp(&v);
        black_box(v.strip_prefix());
    });
    text!(s, n, Name, |v| {
        typed(&v);
        disp(&v);
    });
    text!(s, n, Hostname, |v| {
        typed(&v);
        disp(&v);
    });
    text!(s, n, UlimitResource, |v| {
        typed(&v);
        disp(&v);
    });
    text!(s, n, CacheOption, |v| {
        typed(&v);
        disp(&v);
    });
    text!(s, n, user::Name, |v| {
        typed(&v);
        disp(&v);
    });
    text!(s, n, IdOrName, |v| {
        typed(&v);
        disp(&v);
        black_box((v.as_id(), v.is_id(), v.is_name(), v.as_name().map(user::Name::as_str)));
    });
    text!(s, n, User, |v| {
        typed(&v);
        disp(&v);
    });
    text!(s, n, Image, |v| image(v));
    text!(s, n, MacAddress, |v| {
        typed(&v);
        disp(&v);
    });
    text!(s, n, NetworkMode, |v| {
        typed(&v);
        disp(&v);
        black_box((v.is_none(), v.is_host(), v.is_service(), v.as_service(), v.is_container(), v.as_container(), v.is_other(), v.as_other()));
    });
    text!(s, n, Ipc, |v| {
        typed(&v);
        disp(&v);
        black_box((v.as_service(), v.as_other(), v.is_shareable()));
    });
    text!(s, n, Link, |v| {
        typed(&v);
        disp(&v);
    });
    text!(s, n, VolumesFrom, |v| {
        typed(&v);
        disp(&v);
    });
    text!(s, n, VolumesFromSource, |v| {
        basics(&v);
        disp(&v);
    });
    text!(s, n, ShortPort, |v| port(v));
    text!(s, n, ShortRanges, |v| {
        basics(&v);
        disp(&v);
        ranges(v);
    });
    text!(s, n, Range, |v| {
        typed(&v);
        disp(&v);
        black_box((v.start(), v.end(), v.size()));
        black_box(v.into_iter().count());
    });
    text!(s, n, Expose, |v| {
        typed(&v);
        disp(&v);
    });
    text!(s, n, Source, |v| {
        basics(&v);
        disp(&v);
    });
    text!(s, n, Device, |v| {
        typed(&v);
        disp(&v);
    });
    text!(s, n, Permissions, |v| {
        basics(&v);
        disp(&v);
        black_box(v.any());
    });
    text!(s, n, CgroupRule, |v| {
        typed(&v);
        disp(&v);
    });
    text!(s, n, DeviceKind, |v| {
        basics(&v);
        disp(&v);
        black_box(v.as_char());
    });
    text!(s, n, MajorMinorNumber, |v| {
        basics(&v);
        disp(&v);
    });
    text!(s, n, Cache, |v| {
        typed(&v);
        disp(&v);
        black_box((v.cache_type.as_other(), v.cache_type.as_registry()));
        black_box(v.into_options());
    });
    text!(s, n, BuildNetwork, |v| {
        typed(&v);
        disp(&v);
        black_box(v.as_str());
        black_box(v.into_option());
    });
    text!(s, n, Number, |v| number(v));
    if !wide(s) {
        text!(s, n, CpuSet, |v| {
            typed(&v);
            disp(&v);
            black_box(v.is_empty());
        });
    }

    // constructors of only one kind
    macro_rules! from_str {
        ($T:ty, |$v:ident| $use:expr) => {
            match <$T as FromStr>::from_str(s) {
                Ok($v) => {
                    n += 1;
                    $use;
                }
                Err(e) => error(&e),
            }
        };
    }
    from_str!(ByteValue, |v| {
        typed(&v);
        disp(&v);
        hash(&v);
        black_box((v.into_bytes(), v.unit()));
    });
    from_str!(Limit<u64>, |v| {
        typed(&v);
        disp(&v);
    });
    from_str!(Limit<ByteValue>, |v| {
        typed(&v);
        disp(&v);
    });
    from_str!(Count, |v| typed(&v));
    from_str!(SshAuth, |v| {
        typed(&v);
        disp(&v);
        black_box((v.id(), v.path(), v.as_id().map(SshAuthId::id)));
    });
    from_str!(SshAuthId, |v| {
        basics(&v);
        disp(&v);
    });
    from_str!(ShortVolume, |v| volume(v));
    from_str!(Platform, |v| {
        typed(&v);
        disp(&v);
    });
    from_str!(Context, |v| context(v));
    from_str!(Protocol, |v| {
        typed(&v);
        disp(&v);
        black_box(v.as_str());
    });
    from_str!(EndpointMode, |v| {
        typed(&v);
        disp(&v);
        black_box(v.as_str());
    });
    from_str!(Capability, |v| {
        typed(&v);
        disp(&v);
        black_box(v.as_str());
    });
    from_str!(network::Driver, |v| {
        typed(&v);
        disp(&v);
        black_box(v.as_str());
    });

    match duration::parse(s) {
        Ok(d) => {
            n += 1;
            black_box(duration::to_string(d));
        }
        Err(e) => error(&e),
    }
    black_box(Value::parse(s));
    black_box(StringOrNumber::parse(s));
    match ImageName::new(s) {
        Ok(v) => {
            n += 1;
            dbg(&v);
            disp(&v);
            black_box((v.registry(), v.into_inner()));
        }
        Err(e) => error(&e),
    }
    match Tag::new(s) {
        Ok(v) => {
            n += 1;
            dbg(&v);
            let t = TagOrDigest::from(v);
            black_box(t.separator());
        }
        Err(e) => error(&e),
    }
    match Digest::new(s) {
        Ok(v) => {
            n += 1;
            dbg(&v);
            black_box(TagOrDigest::from(v).separator());
        }
        Err(e) => error(&e),
    }
    for p in [PathBuf::from(s), Path::new(s).components().collect()] {
        match AbsolutePath::new(p.clone()) {
            Ok(mut v) => {
                n += 1;
                typed(&v);
                v.push(s);
                while v.pop() {}
                dbg(&v.as_path());
            }
            Err(e) => error(&e),
        }
        match HostPath::new(p) {
            Ok(mut v) => {
                n += 1;
                typed(&v);
                while v.pop() {}
                dbg(&v);
            }
            Err(e) => error(&e),
        }
    }

    // as an item of a list or map
    let list = ListOrMap::List([s.to_owned(), format!("{s}={s}")].into_iter().collect());
    dbg(&list.clone().into_map());
    dbg(&list.clone().into_map_split_on(&['=', ':']));
    dbg(&list.clone().into_map_split_on(&[]));
    if let Ok(m) = list.into_map() {
        black_box(ListOrMap::Map(m).into_list());
    }

    // in documents
    every_type(&YamlValue::from(s), &mut n);
    if let Ok(y) = serde_yaml::from_str::<YamlValue>(s) {
        every_type(&y, &mut n);
    }
    cov.nontrivial_if(n > 0);
    Ok(())
}

fn number(v: Number) {
    typed(&v);
    disp(&v);
    black_box(format!("{v:e}{v:E}"));
    black_box((v.as_unsigned_int(), v.as_signed_int(), v.as_float()));
    black_box((u64::try_from(v).is_ok(), i64::try_from(v).is_ok(), f64::try_from(v).is_ok()));
}

fn value(v: &Value) {
    basics(v);
    disp(v);
    if let Some(n) = v.as_number() {
        number(*n);
    }
    black_box((Number::try_from(v.clone()).is_ok(), u64::try_from(v.clone()).is_ok(), i64::try_from(v.clone()).is_ok(), f64::try_from(v.clone()).is_ok(), bool::try_from(v.clone()).is_ok()));
}

fn image(v: Image) {
    typed(&v);
    disp(&v);
    hash(&v);
    black_box((v.as_str(), v.registry(), v.name(), v.tag(), v.digest()));
    dbg(&(v.as_name(), v.as_tag(), v.as_digest(), v.as_tag_or_digest(), v.as_parts()));
    let (name, end) = v.as_parts();
    let mut again = Image::from_parts(name, end);
    again.set_tag(Tag::new("tag").ok());
    again.set_digest(v.as_digest());
    again.set_registry(ImageName::new("quay.io").ok());
    again.set_tag_or_digest(v.as_tag_or_digest());
    again.set_registry(None);
    again.set_name(v.as_name());
    again.set_tag(None);
    again.set_digest(None);
    disp(&again);
    black_box(again.into_inner());
}

fn ranges(mut v: ShortRanges) {
    dbg(&(v.host(), v.container()));
    black_box(v.into_iter().count());
    if let Ok(r) = Range::new(1, Some(2)) {
        black_box((v.replace_host(r).is_ok(), v.replace_container(r).is_ok(), v.take_host()));
    }
    disp(&v);
}

fn port(v: ShortPort) {
    typed(&v);
    disp(&v);
    ranges(v.ranges);
    for long in v.into_long_iter().take(40) {
        long_port(long);
    }
}

fn long_port(p: ports::Port) {
    typed(&p);
    black_box(p.into_short().is_ok());
}

fn volume(v: ShortVolume) {
    typed(&v);
    disp(&v);
    a_mount(v.into_long());
}

fn a_mount(m: Mount) {
    typed(&m);
    hash(&m);
    black_box((m.kind(), m.common(), m.as_volume(), m.as_bind(), m.as_tmpfs(), m.as_named_pipe(), m.as_cluster()));
    black_box(m.source_to_string());
    if let Ok(s) = m.into_short() {
        disp(&s);
    }
}

fn context(v: Context) {
    typed(&v);
    black_box((v.as_path(), v.as_url(), v.is_git_repo_url(), v.branch_or_tag(), v.subdirectory()));
    black_box(v.into_string().is_ok());
}

/// Give `$all` every public type that can be read, but for the outermost ones and CPU sets.
macro_rules! public_types {
    ($all:ident) => {{
        #[allow(unused_imports)]
        use compose_spec::{
            duration, network,
            service::{
                self,
                blkio_config::Weight,
                build::{Cache, CacheOption, Context, Network as BuildNetwork, SshAuth, SshAuthId},
                deploy::{
                    self,
                    resources::{Capability, Count, Cpus},
                    EndpointMode,
                },
                develop,
                device::{CgroupRule, Kind as DeviceKind, MajorMinorNumber, Permissions},
                image::{Digest, Name as ImageName, Tag, TagOrDigest},
                network_config::{MacAddress, NetworkMode},
                platform,
                ports::{self, Protocol, Range, ShortPort, ShortRanges},
                user,
                volumes::{self, mount, HostPath, Mount, ShortVolume, Source},
                AbsolutePath, ByteValue, CpuSet, Device, EnvFile, Expose, Healthcheck, Hostname, IdOrName, Image, Ipc, Limit, Link, OomScoreAdj, Percent, Platform, Resource as UlimitResource, User, VolumesFrom,
                VolumesFromSource,
            },
            AsShort, Compose, ExtensionKey, Identifier, Include, ItemOrList, ListOrMap, MapKey, Name, Number, Options, Service, ShortOrLong, StringOrNumber, Value, YamlValue,
        };
        $all!(
            Include, compose_spec::Network, compose_spec::Volume, compose_spec::Config, compose_spec::Secret,
            compose_spec::Resource<compose_spec::Network>, compose_spec::Resource<compose_spec::Secret>,
            network::Ipam, network::IpamConfig, network::Driver, service::BlkioConfig, service::blkio_config::BpsLimit, service::blkio_config::WeightDevice, Weight,
            service::Build, Cache, Context, SshAuth, BuildNetwork, ByteValue, service::ConfigOrSecret, service::CredentialSpec,
            service::Deploy, deploy::Placement, deploy::Preference, deploy::RestartPolicy, deploy::UpdateOrRollbackConfig,
            deploy::Resources, deploy::resources::Limits, deploy::resources::Reservations, deploy::resources::Device, deploy::resources::GenericResource, Cpus, Count, Capability, EndpointMode,
            service::Develop, develop::WatchRule, Device, CgroupRule, EnvFile, service::env_file::Config, Expose, Healthcheck, Hostname, Image, Limit<u64>, Limit<u32>, Limit<ByteValue>,
            service::network_config::Network, NetworkMode, MacAddress, Platform, ports::Port, ShortPort, ShortRanges, Range, Protocol, ports::Mode, service::NetworkConfig, service::build::Dockerfile, service::Ulimit, UlimitResource, IdOrName, User,
            AbsolutePath, HostPath, ShortVolume, Mount, mount::Volume, mount::Bind, mount::Tmpfs, mount::NamedPipe, mount::Cluster, mount::VolumeOptions, mount::BindOptions, mount::TmpfsOptions,
            Percent, OomScoreAdj, service::Dependency, service::Extends, Ipc, Link, service::Logging, service::PullPolicy, service::Restart, VolumesFrom, service::Uts, service::Cgroup, service::Condition,
            ListOrMap, ItemOrList<String>, ItemOrList<Expose>, Value, Number, StringOrNumber, Identifier, MapKey, ExtensionKey, Name,
            ShortOrLong<Context, service::Build>, ShortOrLong<ShortPort, ports::Port>, ShortOrLong<ShortVolume, Mount>, ShortOrLong<Identifier, service::ConfigOrSecret>, ShortOrLong<Limit<u64>, service::Ulimit>,
            platform::Os,
        );
    }};
}
pub(crate) use public_types;

/// Deserialise every public type from one value.
fn every_type(y: &YamlValue, n: &mut Count_) {
    macro_rules! all {
        ($($T:ty),* $(,)?) => {
            $(if let Some(v) = de::<$T>(y) {
                *n += 1;
                dbg(&v);
                ser(&v);
            })*
        };
    }
    if !has_wide_cpuset(y) && !y.as_str().is_some_and(wide) {
        all!(CpuSet);
        // the whole service, with everything that is in it
        if let Some(v) = de::<Service>(y) {
            *n += 1;
            a_service(v);
        }
        if let Some(v) = de::<Compose>(y) {
            *n += 1;
            a_compose(&v);
        }
    }
    public_types!(all);
    if let Some(v) = de::<Value>(y) {
        value(&v);
    }
    if let Some(v) = de::<Image>(y) {
        image(v);
    }
    if let Some(v) = de::<Mount>(y) {
        a_mount(v);
    }
    if let Some(v) = de::<ports::Port>(y) {
        long_port(v);
    }
    if let Some(l) = de::<ListOrMap>(y) {
        list_or_map(l);
    }
}

fn list_or_map(l: ListOrMap) {
    basics(&l);
    black_box((l.is_empty(), l.as_list(), l.as_map()));
    black_box(l.clone().into_map_split_on(&['=', ':']).is_ok());
    if let Ok(m) = l.clone().into_map() {
        for v in m.values().flatten() {
            value(v);
        }
    }
    black_box(l.into_list());
}

fn a_service(s: Service) {
    basics(&s);
    ser(&s);
    if let Some(i) = s.image {
        image(i);
    }
    if let Some(b) = s.build {
        dbg(&b.as_short());
        let b = b.into_long();
        black_box(b.is_empty());
        if let Some(c) = b.context {
            context(c);
        }
        list_or_map(b.args);
        list_or_map(b.labels);
        for c in b.cache_from {
            disp(&c);
            black_box(c.into_options());
        }
    }
    black_box(s.blkio_config.as_ref().map(service::BlkioConfig::is_empty));
    for c in s.configs.into_iter().chain(s.secrets) {
        dbg(&c.as_short());
        dbg(&c.into_long());
    }
    if let Some(d) = &s.deploy {
        black_box(d.is_empty());
        black_box(d.resources.as_ref().map(deploy::Resources::is_empty));
    }
    if let Some(e) = s.env_file {
        dbg(&e.as_single());
        dbg(&e.into_list());
    }
    for l in [s.environment, s.labels, s.annotations, s.sysctls] {
        list_or_map(l);
    }
    for p in s.ports.iter() {
        dbg(p);
        hash(p);
    }
    black_box(ports::into_short_iter(s.ports.clone()).filter(Result::is_ok).count());
    black_box(ports::into_long_iter(s.ports).take(1000).count());
    for v in s.volumes.iter() {
        hash(v);
    }
    black_box(volumes::into_short_iter(s.volumes.clone()).filter(Result::is_ok).count());
    volumes::into_long_iter(s.volumes).for_each(a_mount);
    for u in s.ulimits.into_values() {
        dbg(&u.as_short());
        dbg(&u.into_long());
    }
    if let Some(Healthcheck::Command(c)) = &s.healthcheck {
        black_box(c.is_empty());
    }
    black_box(s.logging.as_ref().map(service::Logging::is_empty));
}

fn a_compose(c: &Compose) {
    basics(c);
    ser(c);
    for r in [c.validate_all(), c.validate_networks(), c.validate_volumes(), c.validate_configs(), c.validate_secrets()] {
        if let Err(e) = r {
            error(&e);
        }
    }
    for n in c.networks.values().flatten() {
        black_box((n.name(), n.as_compose().map(compose_spec::Network::is_empty)));
    }
    for v in c.volumes.values().flatten() {
        black_box((v.name(), v.as_compose().map(compose_spec::Volume::is_empty)));
    }
    for i in &c.include {
        dbg(&i.as_short());
        dbg(&i.clone().into_long());
    }
    for s in c.services.values() {
        a_service(s.clone());
    }
}

/// Whether some `cpuset` in the document is too wide to expand.
pub fn has_wide_cpuset(y: &YamlValue) -> bool {
    match y {
        YamlValue::Sequence(s) => s.iter().any(has_wide_cpuset),
        YamlValue::Mapping(m) => m.iter().any(|(k, v)| {
            (k == "cpuset"
                && match v {
                    YamlValue::String(s) => wide(s),
                    YamlValue::Number(n) => n.as_u64().is_some_and(|n| n > 99_999),
                    _ => false,
                })
                || has_wide_cpuset(v)
        }),
        YamlValue::Tagged(t) => has_wide_cpuset(&t.value),
        _ => false,
    }
}

// ---------------------------------------------------------------------------------------------
// Texts of the grammars

const SEEDS: &[&str] = &[
    "1h2m3s4ms5us", "30s", "1.5s", "18446744073709551615h", "5kb", "10GB", "18446744073709551615g", "0b", "80", "8080:80", "127.0.0.1:8080-8081:80-81/tcp", "[::1]:1-2:3-4/udp", "::1:80:80", "0-65535", "65535-65535:1",
    "65534-65535", "3000-3005", "/a", "/a:/b:ro,z", "./a:/b", "vol:/b:rw,Z", "../a:/b", "~/a:/b", "/dev/a:/dev/b:rwm", "/dev/a:/dev/b", "c 1:3 mr", "a *:* rwm", "b 65535:65536 w", "quay.io/a/b:latest",
    "localhost:5000/a@sha256:0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef", "a", "a/b/c", "a:b", "1000:1000", "user:group", "root", "4294967295", "4294967296", "type=registry,ref=a/b:c,x=y", "type=local,src=a",
    "https://github.com/a/b.git#main:dir", "git@github.com:a/b.git", "https://a/b.git#", "https://a/b.git#:", "docker-image://a", "default", "id=/path", "a=b=c", "none", "host", "service:a", "container:a", "00:11:22:33:44:55",
    "linux/amd64", "linux/arm/v7", "linux/arm64/v8", "windows", "0-3,5", "1,2,3", "3-1", "0-99999", "-1", "99999999999999999999", "1e400", "-0", "0x10", "1_000", ".5", "5.", "+1", "NaN", "inf", "true", "null", "~", "x-a", "x-", "FOO=bar", "a:ro",
    "container:a:rw", "a:b:ro", "sha256:abc", "gpu", "nofile", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "1/tcp", "1-2/udp", "/", "", " ", ":", "::", "/:/", "=", ",", "-", "#", "@", "/:", ":/", "a:/", "[", "[]", "[:",
    "[::1]", "[::1]:", "[::1]:80", "{}", "{a: b}", "[a]", "CMD", "type=", "type=,", "type=a,,", "ref=", "a,b", "192.168.0.1", "fe80::1%eth0", "10.0.0.0/8", "host.docker.internal:host-gateway", "a=127.0.0.1", "a:::1",
];

fn texts() -> BoxedStrategy<String> {
    let seed = prop::sample::select(SEEDS).prop_map(str::to_owned);
    let seed_ = seed.clone();
    prop_oneof![
        2 => seed.clone(),
        8 => gen::near(seed.clone()),
        4 => (seed.clone(), seed.clone(), gen::nasty_char()).prop_map(|(a, b, c)| format!("{a}{c}{b}")),
        3 => gen::near((seed.clone(), seed).prop_map(|(a, b)| format!("{a}{b}"))),
        3 => gen::text(),
        2 => gen::wide_at(),
        2 => (seed_, gen::wide_at()).prop_map(|(a, b)| format!("{a}{b}")),
        2 => ".{0,30}",
        1 => (prop::sample::select(vec!["a", "1", ":", "/", "-", ",", "=", ".", "é", " ", "é:", "9", "[", "{", "- ", "a:"]), 1..400_usize).prop_map(|(s, n)| s.repeat(n)),
        2 => any::<u64>().prop_map(|n| n.to_string()),
        2 => (any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>()).prop_map(|(a, b, c, d)| format!("{a}-{b}:{c}-{d}")),
        1 => (any::<u64>(), prop::sample::select(vec!["us", "ms", "s", "m", "h", "b", "kb", "k", "mb", "m", "gb", "g", "/tcp", ":80", "-1"])).prop_map(|(n, u)| format!("{n}{u}")),
    ]
    .boxed()
}

// ---------------------------------------------------------------------------------------------
// Mutated documents

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mutated {
    doc: Choices,
    extra: Vec<u32>,
}

fn count(v: &YamlValue) -> usize {
    1 + match v {
        YamlValue::Sequence(s) => s.iter().map(count).sum(),
        YamlValue::Mapping(m) => m.values().map(count).sum(),
        _ => 0,
    }
}

/// The value at position `at` of a walk.
fn nth<'a>(v: &'a mut YamlValue, at: &mut usize) -> Option<&'a mut YamlValue> {
    if *at == 0 {
        return Some(v);
    }
    *at -= 1;
    match v {
        YamlValue::Sequence(s) => s.iter_mut().find_map(|v| nth(v, at)),
        YamlValue::Mapping(m) => m.iter_mut().find_map(|(_, v)| nth(v, at)),
        _ => None,
    }
}

const PIECES: &[&str] = &[
    ":", "/", "-", ",", "=", "@", "#", " ", "0", "9", "18446744073709551616", "65536", "4294967296", "-1", "é", "\u{1f600}", "\u{0}", "\n", "[", "]", "*", ".", "..", "~", "tcp", "a", "Z", "\t", "{", "}", "1e999", "\u{feff}", "'", "\"", "::1",
];

fn edited(s: &mut Src, text: &str) -> String {
    let mut v: Vec<char> = text.chars().collect();
    for _ in 0..=s.n(3) {
        let at = s.n(v.len() + 1);
        match s.n(4) {
            0 => v.truncate(at),
            1 if at < v.len() => {
                v.remove(at);
            }
            2 if at < v.len() => {
                let c = v[at];
                v.insert(at, c);
            }
            _ => {
                let piece = s.pick(PIECES);
                v.splice(at..at, piece.chars());
            }
        }
    }
    v.into_iter().collect()
}

pub fn mutate(s: &mut Src, doc: &mut YamlValue) {
    let of = doc.clone();
    for _ in 0..=s.n(3) {
        let n = count(doc);
        // deep values are more interesting than the outermost ones
        let mut at = s.n(n).max(s.n(n));
        let Some(v) = nth(doc, &mut at) else { continue };
        match (s.n(9), &mut *v) {
            (0..=2, YamlValue::String(t)) => *t = edited(s, t),
            (0..=1, YamlValue::Number(t)) => {
                *v = match s.n(4) {
                    0 => t.as_i64().unwrap_or(1).wrapping_neg().into(),
                    1 => t.as_u64().unwrap_or(1).wrapping_mul(s.u64()).into(),
                    2 => edited(s, &t.to_string()).into(),
                    _ => s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e308, -0.0, 5e-324, 1.8446744073709552e19]).into(),
                };
            }
            (0..=2, YamlValue::Mapping(m)) => {
                let keys: Vec<YamlValue> = m.keys().cloned().collect();
                if keys.is_empty() {
                    m.insert(s.pick(&["a", "x-a", "<<", ""]).into(), docgen::free(s, 2));
                } else {
                    let k = keys[s.n(keys.len())].clone();
                    let old = m.remove(&k).unwrap_or_default();
                    match s.n(4) {
                        0 => {}
                        1 => {
                            let k = edited(s, k.as_str().unwrap_or_default());
                            m.insert(k.into(), old);
                        }
                        2 => {
                            m.insert(docgen::free(s, 1), old);
                        }
                        _ => {
                            m.insert(k, old);
                            m.insert("<<".into(), docgen::free(s, 2));
                        }
                    }
                }
            }
            (0..=2, YamlValue::Sequence(items)) => {
                let at = s.n(items.len() + 1);
                match s.n(3) {
                    0 if at < items.len() => {
                        items.remove(at);
                    }
                    1 if at < items.len() => items.insert(at, items[at].clone()),
                    _ => items.insert(at, docgen::free(s, 2)),
                }
            }
            (3, _) => *v = docgen::free(s, 3),
            (4, _) => *v = YamlValue::Null,
            (5, _) => *v = vec![v.clone()].into(),
            (6, _) => {
                let mut m = Mapping::new();
                m.insert(s.pick(&["a", "source", "target", "path", "test", "x-a", "external"]).into(), v.clone());
                *v = YamlValue::Mapping(m);
            }
            (7, _) => {
                // another part of the document
                let mut from = s.n(count(&of));
                let mut of = of.clone();
                if let Some(o) = nth(&mut of, &mut from) {
                    *v = o.clone();
                }
            }
            _ => {
                let n = s.n(SEEDS.len());
                *v = SEEDS[n].into();
            }
        }
    }
}

fn entry_points(text: &[u8]) {
    for merge in [false, true] {
        let mut o: Options = Compose::options();
        o.apply_merge(merge);
        let mut all = vec![o.from_yaml_slice(text), o.from_yaml_reader(text)];
        if let Ok(s) = std::str::from_utf8(text) {
            all.push(o.from_yaml_str(s));
        }
        for r in all {
            match r {
                Ok(c) => {
                    dbg(&c);
                    ser(&c);
                }
                Err(e) => {
                    error(&e);
                    dbg(&e.location());
                }
            }
        }
    }
}

fn check_documents(m: &Mutated, cov: &mut Cov) -> Res {
    let mut v = docgen::document(&mut Src::new(&m.doc.0)).input();
    mutate(&mut Src::new(&m.extra), &mut v);
    if has_wide_cpuset(&v) {
        return Ok(());
    }
    let mut accepted = false;
    for merge in [false, true] {
        match Compose::options().apply_merge(merge).from_yaml_value(v.clone()) {
            Ok(c) => {
                accepted = true;
                a_compose(&c);
            }
            Err(e) => error(&e),
        }
    }
    cov.nontrivial();
    cov.label(if accepted { "accepted" } else { "rejected" });
    if let Some(t) = serde_yaml::to_string(&v).ok().filter(|_| m.extra.first().is_some_and(|n| n % 4 == 0)) {
        entry_points(t.as_bytes());
    }
    Ok(())
}

fn check_texts(m: &Mutated, cov: &mut Cov) -> Res {
    let v = docgen::document(&mut Src::new(&m.doc.0)).input();
    let Ok(text) = serde_yaml::to_string(&v) else { return Ok(()) };
    let mut text = text.into_bytes();
    let mut s = Src::new(&m.extra);
    for _ in 0..=s.n(5) {
        let at = s.n(text.len() + 1);
        match s.n(6) {
            0 => text.truncate(at),
            1 => {
                let len = s.n(20).min(text.len() - at);
                text.drain(at..at + len);
            }
            2 => {
                let len = s.n(60).min(text.len() - at);
                let part = text[at..at + len].to_vec();
                let to = s.n(text.len() + 1);
                text.splice(to..to, part);
            }
            3 if at < text.len() => text[at] = (s.n(256)) as u8,
            4 => {
                let t = s.pick(&["&a ", "*a", "<<: *a", "!t ", "- ", "? ", ": ", "\n---\n", "\n...\n", "|\n", ">\n", "'", "\"", "{", "}", "[", "]", ",", "# ", "%YAML 1.1\n", "\t", "  ", "\r", "\u{85}", "\u{2028}"]);
                text.splice(at..at, t.bytes());
            }
            _ => {
                let t = s.pick(PIECES);
                text.splice(at..at, t.bytes());
            }
        }
    }
    let shown = String::from_utf8_lossy(&text);
    if shown.contains("cpuset") && wide(&shown) && serde_yaml::from_str::<YamlValue>(&shown).map_or(true, |v| has_wide_cpuset(&v)) {
        return Ok(());
    }
    cov.nontrivial();
    entry_points(&text);
    Ok(())
}

fn trees() -> BoxedStrategy<Vec<u32>> {
    prop::collection::vec(any::<u32>(), 0..60).boxed()
}

/// A part of a setting of a random kind, a few edits away from a valid one.
pub fn tree(s: &mut Src) -> YamlValue {
    let n = docgen::SERVICE.len() + docgen::TOP.len();
    let i = s.n(n + 2);
    let mut v = if i < docgen::SERVICE.len() {
        (docgen::SERVICE[i].1)(s).input()
    } else if i < n {
        (docgen::TOP[i - docgen::SERVICE.len()].1)(s).input()
    } else {
        docgen::free(s, 4)
    };
    if s.chance(60) {
        mutate(s, &mut v);
    }
    let mut at = s.n(count(&v));
    nth(&mut v, &mut at).cloned().unwrap_or_default()
}

/// A single scalar, at most a few edits away from one that some type takes.
pub fn scalar(s: &mut Src) -> YamlValue {
    let of = |s: &mut Src| s.pick(SEEDS);
    match s.n(8) {
        0 => of(s).into(),
        1..=4 => {
            let t = of(s);
            edited(s, t).into()
        }
        5 => (s.u64() >> s.n(64)).into(),
        6 => (-((s.u64() >> 1 >> s.n(63)) as i64)).into(),
        _ => match s.n(4) {
            0 => (s.u64() as f64 / 1024.0).into(),
            1 => s.chance(50).into(),
            2 => YamlValue::Null,
            _ => (s.n(1 << 17) as f64 / 8.0).into(),
        },
    }
}

fn check_trees(data: &Vec<u32>, cov: &mut Cov) -> Res {
    let part = tree(&mut Src::new(data));
    let mut n = 0;
    every_type(&part, &mut n);
    cov.nontrivial_if(n > 0);
    Ok(())
}

fn check_numbers(&(a, b, f): &(u64, u64, u64), cov: &mut Cov) -> Res {
    let f = f64::from_bits(f);
    cov.nontrivial();
    #[allow(clippy::cast_possible_truncation, clippy::cast_possible_wrap)]
    let (a8, a16, b16) = (a as u8, a as u16, b as u16);
    for r in [Percent::new(a8)] {
        if let Ok(p) = r {
            typed(&p);
        }
    }
    #[allow(clippy::cast_possible_wrap)]
    if let Ok(o) = OomScoreAdj::new(a16 as i16) {
        typed(&o);
    }
    match Weight::new(a16) {
        Ok(w) => {
            typed(&w);
            disp(&w);
        }
        Err(e) => error(&e),
    }
    for f in [f, -f, f.abs(), f.trunc()] {
        match Cpus::new(f) {
            Ok(c) => {
                dbg(&c);
                ser(&c);
            }
            Err(e) => error(&e),
        }
        number(Number::from(f));
        disp(&Value::from(f));
        ser(&StringOrNumber::from(f));
    }
    number(Number::from(a));
    #[allow(clippy::cast_possible_wrap)]
    number(Number::from(a as i64));
    for (x, y) in [(a16, Some(b16)), (b16, Some(a16)), (a16, None), (a16, Some(u16::MAX)), (0, Some(b16))] {
        match Range::new(x, y) {
            Ok(r) => {
                typed(&r);
                disp(&r);
                black_box((r.size(), r.into_iter().count()));
                for c in [Range::new(0, Some(u16::MAX)), Range::new(b16, None), Range::new(b16, Some(b16.saturating_add(b16)))].into_iter().flatten() {
                    match ShortRanges::new(Some(r), c) {
                        Ok(s) => {
                            disp(&s);
                            ranges(s);
                        }
                        Err(e) => error(&e),
                    }
                    let mut s = ShortRanges::from(a16);
                    black_box((s.replace_container(c).is_ok(), s.replace_host(r).is_ok(), s.replace_container(c).is_ok()));
                    disp(&s);
                    port(ShortPort::from(c));
                }
            }
            Err(e) => error(&e),
        }
    }
    let d = std::time::Duration::new(a, u32::try_from(b % 1_000_000_000).unwrap_or_default());
    black_box(duration::to_string(d));
    for v in [ByteValue::Bytes(a), ByteValue::Kilobytes(a), ByteValue::Megabytes(a), ByteValue::Gigabytes(a)] {
        disp(&v);
        typed(&v);
        black_box((v.into_bytes(), v.unit()));
    }
    let c = service::healthcheck::Command { interval: Some(d), timeout: Some(d), ..Default::default() };
    ser(&c);
    let mut s = Service::default();
    (s.cpu_period, s.cpu_quota, s.cpu_rt_runtime, s.stop_grace_period) = (Some(d), Some(d), Some(d), Some(d));
    ser(&s);
    black_box(Cow::from("").len());
    Ok(())
}

fn bits() -> BoxedStrategy<u64> {
    prop_oneof![
        any::<u64>(),
        0..300_u64,
        prop::sample::select(vec![u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 65535, 65536, 65534, 32767, 32768, 1 << 32, f64::NAN.to_bits(), f64::INFINITY.to_bits(), f64::MAX.to_bits(), f64::MIN_POSITIVE.to_bits(), (-0.0_f64).to_bits(), 1.0_f64.to_bits(), (-1.0_f64).to_bits()]),
        (0..64_u32).prop_map(|n| 1 << n),
    ]
    .boxed()
}

pub fn c02() -> Property {
    let mutated = |max: usize| (docgen::choices(max), docgen::extra(40)).prop_map(|(doc, extra)| Mutated { doc, extra }).boxed();
    Property {
        id: "C02",
        subs: vec![
            sub("texts", "texts of the grammars with edits, or arbitrary, given to every constructor and type; non-trivial: something accepts it", 12_000, texts, check_text),
            sub("values", "settings with edits, or arbitrary trees, given to every type; non-trivial: something accepts it", 12_000, trees, check_trees),
            sub("numbers", "arbitrary numbers given to every numeric constructor; non-trivial: always", 3_000, || (bits(), bits(), bits()), check_numbers),
            sub("documents", "documents with edited values; non-trivial: always", 6_000, move || mutated(250), check_documents),
            sub("document texts", "texts of documents with edits; non-trivial: always", 3_000, move || mutated(150), check_texts),
        ],
        known: vec![],
        assumptions: &["CPU sets are only given numbers below 100000, as they are expanded when parsed"],
    }
}
