//! Values put together in code: C33.

use std::{
    borrow::Cow,
    collections::BTreeSet,
    ffi::{OsStr, OsString},
    fmt::Debug,
    num::NonZeroU16,
    path::{Path, PathBuf},
};

use compose_spec::{
    config, secret,
    service::{
        self,
        blkio_config::Weight,
        build::{Cache, CacheOption, CacheType, Context, Network as BuildNetwork},
        deploy::resources::{Capability, Count, Cpus, Device as ReservedDevice},
        device::{CgroupRule, Kind as DeviceKind, MajorMinorNumber, Permissions},
        env_file,
        healthcheck::{self, Test},
        network_config::{MacAddress, NetworkMode},
        ports::{Port, Protocol, Range, ShortPort, ShortRanges},
        user::{self, IdOrName},
        volumes::{
            mount::{self, Bind, BindOptions, BindPropagation, Cluster, Common, Mount, NamedPipe, Tmpfs, Volume},
            AbsolutePath, HostPath, SELinux, ShortOptions, ShortVolume, Source,
        },
        ByteValue, Command, ConfigOrSecret, CpuSet, EnvFile, Expose, Healthcheck, Image, Ipc, Limit, Link, NetworkConfig, OomScoreAdj, Percent, Ulimit, User, VolumesFrom, VolumesFromSource,
    },
    AsShort, AsShortIter, Compose, Config, Identifier, Include, ItemOrList, ListOrMap, MapKey, Network, Number, Resource, Secret, Service, ShortOrLong, StringOrNumber, Value, YamlValue,
};
use indexmap::{IndexMap, IndexSet};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_yaml::Mapping;

use crate::{
    docgen::{self, extra, ident_text, Extra, Src},
    ensure, ensure_eq, fail,
    fw::{sub, Cov, Property, Res},
    whole::shown,
};

// ---------------------------------------------------------------------------------------------
// Conversions

/// A value made in code is the one read from its written form, and is written as that one is.
fn same<T: DeserializeOwned + Serialize + PartialEq + Debug>(made: &T, form: impl Into<YamlValue>) -> Res {
    let form = form.into();
    let read: T = match serde_yaml::from_value(form.clone()) {
        Ok(v) => v,
        Err(e) => fail!("{made:?} was made, but its written form is rejected: {e}\n{}", shown(&form)),
    };
    ensure!(*made == read, "made {made:?}, but read {read:?}");
    let written = serde_yaml::to_value(made).map_err(|e| e.to_string())?;
    ensure_eq!(Some(&written), serde_yaml::to_value(&read).ok().as_ref(), "written, of the one made and the one read");
    let again: T = serde_yaml::from_value(written.clone()).map_err(|e| format!("made {made:?}, which cannot be read back: {e}\n{}", shown(&written)))?;
    ensure!(again == *made, "made {made:?}, read back as {again:?}");
    Ok(())
}

fn map<const N: usize>(entries: [(&str, YamlValue); N]) -> YamlValue {
    YamlValue::Mapping(entries.into_iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.into(), v)).collect())
}

fn maybe<T: Clone + Into<YamlValue>>(v: &Option<T>) -> YamlValue {
    v.clone().map_or(YamlValue::Null, Into::into)
}

fn text(s: &mut Src) -> String {
    docgen::string(s)
}

/// A text which is not taken for a number.
fn word(s: &mut Src) -> String {
    let t = ident_text(s);
    if t.starts_with(|c: char| c.is_ascii_digit()) || ["true", "false", "null", "inf", "nan", "infinity"].contains(&t.to_lowercase().as_str()) {
        format!("w{t}")
    } else {
        t
    }
}

fn identifier(s: &mut Src) -> Identifier {
    ident_text(s).parse().expect("identifier")
}

fn absolute(s: &mut Src) -> AbsolutePath {
    let t = format!("/{}", word(s));
    AbsolutePath::new(PathBuf::from(t)).expect("absolute")
}

fn host(s: &mut Src) -> HostPath {
    let t = format!("{}{}", s.pick(&["/", "./", "../", "../../"]), word(s));
    HostPath::new(PathBuf::from(t)).expect("host path")
}

fn show(p: &Path) -> YamlValue {
    p.to_str().expect("text").into()
}

fn port(s: &mut Src) -> u16 {
    match s.n(4) {
        0 => s.pick(&[0, 1, 65535, 65534, 80, 443]),
        _ => s.u64() as u16,
    }
}

fn span(s: &mut Src) -> (u16, u16) {
    let a = port(s);
    (a, a.saturating_add(s.n(5) as u16))
}

fn user_name(s: &mut Src) -> user::Name {
    let t = s.pick(&["root", "a", "_b", "a-b", "www-data", "x1", "A", "nobody"]);
    user::Name::new(t).expect("user name")
}

fn image(s: &mut Src) -> Image {
    s.pick(&["a", "a:b", "a/b", "q.io/a:1.2", "a@sha256:abc", "r.io:5000/a/b:c"]).parse().expect("image")
}

macro_rules! makers {
    ($($name:ident($s:ident) $body:block)*) => {
        $(fn $name($s: &mut Src) -> Res { $body Ok(()) })*
        const MAKERS: &[(&str, fn(&mut Src) -> Res)] = &[$((stringify!($name), $name)),*];
    };
}

makers! {
    resources(s) {
        let name = s.chance(50).then(|| text(s));
        macro_rules! resource {
            ($T:ty, $($v:expr, $form:expr;)*) => {
                let r = Resource::<$T>::external(name.clone());
                ensure!(r.is_external() && !r.is_compose() && r.as_compose().is_none());
                ensure_eq!(r.name(), name.as_ref());
                same(&r, map([("external", true.into()), ("name", maybe(&name))]))?;
                $(
                let v: $T = $v;
                let r = Resource::from(v.clone());
                ensure!(!r.is_external() && r.is_compose());
                ensure_eq!(r.as_compose(), Some(&v));
                same(&r, $form)?;
                same(&v, $form)?;
                )*
            };
        }
        let t = text(s);
        let p = word(s);
        {
            let driver = s.chance(50).then(|| text(s));
            let (attachable, internal, own) = (s.chance(50), s.chance(50), s.chance(50).then(|| text(s)));
            resource!(Network,
                Network { driver: driver.clone().map(Into::into), attachable, internal, name: own.clone(), ..Network::default() },
                map([("driver", maybe(&driver)), ("attachable", if attachable { true.into() } else { YamlValue::Null }), ("internal", if internal { true.into() } else { YamlValue::Null }), ("name", maybe(&own))]);
                Network::default(), map([]);
            );
            let v = compose_spec::Volume { driver: driver.clone(), name: own.clone(), ..Default::default() };
            resource!(compose_spec::Volume, v.clone(), map([("driver", maybe(&driver)), ("name", maybe(&own))]); compose_spec::Volume::default(), map([]););
        }
        macro_rules! external_only {
            ($T:ty, $Src:ident, [$($form:expr => $made:expr),* $(,)?]) => {
                let r = Resource::<$T>::external(name.clone());
                ensure!(r.is_external() && !r.is_compose() && r.as_compose().is_none());
                same(&r, map([("external", true.into()), ("name", maybe(&name))]))?;
                $(
                let v = <$T>::from($made);
                let r = Resource::from(v.clone());
                ensure!(!r.is_external() && r.is_compose());
                ensure_eq!(r.as_compose(), Some(&v));
                same(&v, $form)?;
                same(&r, $form)?;
                )*
            };
        }
        external_only!(Config, config, [
            map([("file", p.clone().into())]) => config::Source::from(PathBuf::from(&p)),
            map([("environment", t.clone().into())]) => config::Source::Environment(t.clone()),
            map([("content", t.clone().into())]) => config::Source::Content(t.clone()),
        ]);
        external_only!(Secret, secret, [
            map([("file", p.clone().into())]) => secret::Source::from(PathBuf::from(&p)),
            map([("environment", t.clone().into())]) => secret::Source::Environment(t.clone()),
        ]);
    }

    mounts(s) {
        let (target, source, id, t) = (absolute(s), host(s), identifier(s), text(s));
        let (tv, sv): (YamlValue, YamlValue) = (show(target.as_path()), show(source.as_path()));
        let mut common = if s.chance(50) { Common::new(target.clone()) } else { Common::from(target.clone()) };
        let plain = Common::new(target.clone());
        common.read_only = s.chance(50);
        common.consistency = s.chance(50).then(|| text(s));
        let form = |kind: &str, c: &Common, more: &[(&str, YamlValue)]| {
            let mut m = Mapping::new();
            m.insert("type".into(), kind.into());
            m.insert("target".into(), tv.clone());
            if c.read_only {
                m.insert("read_only".into(), true.into());
            }
            if let Some(t) = &c.consistency {
                m.insert("consistency".into(), t.clone().into());
            }
            for (k, v) in more {
                m.insert((*k).into(), v.clone());
            }
            YamlValue::Mapping(m)
        };
        let src = ("source", sv.clone());

        let volume = if s.chance(50) { Volume::new(common.clone()) } else { Volume::from(common.clone()) };
        ensure!(volume.source.is_none() && volume.volume.is_none() && volume.common == common, "{volume:?}");
        let m = Mount::from(volume.clone());
        same(&m, form("volume", &common, &[]))?;
        ensure_eq!(m.as_volume(), Some(&volume));
        ensure_eq!(m.source_to_string(), None);
        let named = Volume { source: Some(id.clone()), ..volume };
        let m = Mount::from(named);
        same(&m, form("volume", &common, &[("source", id.as_str().into())]))?;
        ensure_eq!(m.source_to_string().as_deref(), Some(id.as_str()));
        kinds(&m, "volume", [true, false, false, false, false], &common)?;

        let bind = if s.chance(50) { Bind::new(source.clone(), common.clone()) } else { Bind::from((source.clone(), common.clone())) };
        let m = Mount::from(bind.clone());
        same(&m, form("bind", &common, &[src.clone()]))?;
        ensure_eq!(m.as_bind(), Some(&bind));
        ensure_eq!(m.source_to_string().map(Into::into), Some(sv.clone()));
        kinds(&m, "bind", [false, true, false, false, false], &common)?;

        let propagation = s.pick(&[BindPropagation::Private, BindPropagation::Shared, BindPropagation::Slave, BindPropagation::Unbindable, BindPropagation::RPrivate, BindPropagation::RShared, BindPropagation::RSlave, BindPropagation::RUnbindable]);
        let selinux = s.pick(&[SELinux::Shared, SELinux::Private]);
        let words: (YamlValue, YamlValue) = (propagation.as_str().into(), selinux.as_str().into());
        for (options, form_of) in [
            (BindOptions::from(propagation), map([("propagation", words.0.clone())])),
            (BindOptions::from(Some(propagation)), map([("propagation", words.0)])),
            (BindOptions::from(selinux), map([("selinux", words.1.clone())])),
            (BindOptions::from(Some(selinux)), map([("selinux", words.1)])),
        ] {
            ensure!(!options.is_empty(), "{options:?}");
            same(&options, form_of.clone())?;
            let m = Mount::from(Bind { bind: Some(options), ..bind.clone() });
            same(&m, form("bind", &common, &[src.clone(), ("bind", form_of)]))?;
        }
        for nothing in [BindOptions::from(None::<BindPropagation>), BindOptions::from(None::<SELinux>), BindOptions::default()] {
            ensure!(nothing.is_empty() && nothing == BindOptions::default(), "{nothing:?}");
        }

        let tmpfs = Tmpfs::new(common.clone());
        ensure_eq!(Tmpfs::from(common.clone()), tmpfs.clone());
        ensure_eq!(Tmpfs::from_target(target.clone()), Tmpfs::new(plain.clone()));
        ensure_eq!(Tmpfs::from(target.clone()), Tmpfs::new(plain.clone()));
        let m = Mount::from(tmpfs.clone());
        same(&m, form("tmpfs", &common, &[]))?;
        ensure_eq!(m.as_tmpfs(), Some(&tmpfs));
        ensure_eq!(m.source_to_string(), None);
        kinds(&m, "tmpfs", [false, false, true, false, false], &common)?;

        let pipe = NamedPipe::from((source.clone(), common.clone()));
        let m = Mount::from(pipe.clone());
        same(&m, form("npipe", &common, &[src]))?;
        ensure_eq!(m.as_named_pipe(), Some(&pipe));
        ensure_eq!(m.source_to_string().map(Into::into), Some(sv));
        kinds(&m, "npipe", [false, false, false, true, false], &common)?;

        let cluster = Cluster::from((t.clone(), common.clone()));
        let m = Mount::from(cluster.clone());
        same(&m, form("cluster", &common, &[("source", t.clone().into())]))?;
        ensure_eq!(m.as_cluster(), Some(&cluster));
        ensure_eq!(m.source_to_string(), Some(t));
        kinds(&m, "cluster", [false, false, false, false, true], &common)?;
    }

    short_volumes(s) {
        let (target, path, id) = (absolute(s), host(s), identifier(s));
        let shown = |v: &AbsolutePath| v.as_path().to_str().expect("text").to_owned();
        same(&ShortVolume::new(target.clone()), shown(&target))?;
        same(&ShortVolume::from(target.clone()), shown(&target))?;
        let path_text = path.as_path().to_str().expect("text");
        for (source, t) in [
            (Source::from(path.clone()), path_text),
            (Source::try_from(path.as_path()).map_err(|e| e.to_string())?, path_text),
            (Source::try_from(path.as_path().to_path_buf()).map_err(|e| e.to_string())?, path_text),
            (Source::try_from(Box::<Path>::from(path.as_path())).map_err(|e| e.to_string())?, path_text),
            (Source::try_from(Cow::Borrowed(path.as_path())).map_err(|e| e.to_string())?, path_text),
            (Source::try_from(Cow::<Path>::Owned(path.as_path().to_path_buf())).map_err(|e| e.to_string())?, path_text),
            (Source::try_from(path_text).map_err(|e| e.to_string())?, path_text),
            (Source::try_from(path_text.to_owned()).map_err(|e| e.to_string())?, path_text),
            (Source::from(id.clone()), id.as_str()),
            (Source::from(target.clone()), &shown(&target)),
            (Source::HostPath(HostPath::from(target.clone())), &shown(&target)),
        ] {
            ensure_eq!(source.to_string(), t.to_owned());
            let options = if s.chance(50) { ShortOptions::new(source.clone()) } else { ShortOptions::from(source) };
            ensure!(!options.read_only && options.selinux.is_none(), "{options:?}");
            let v = ShortVolume { container_path: target.clone(), options: Some(options) };
            same(&v, format!("{t}:{}", shown(&target)))?;
            let v = ShortVolume { options: v.options.map(|o| ShortOptions { read_only: true, selinux: Some(SELinux::Private), ..o }), ..v };
            same(&v, format!("{t}:{}:ro,Z", shown(&target)))?;
        }
        let m = Mount::from(ShortVolume::from(target.clone()));
        ensure_eq!(m, Mount::from(Volume::new(Common::new(target))));
    }

    users(s) {
        let (id, gid) = (s.pick(&[0, 1, 1000, 65534, u32::MAX]), s.u64() as u32);
        let (name, group) = (user_name(s), user_name(s));
        same(&IdOrName::from(id), id)?;
        same(&IdOrName::from(name.clone()), name.as_str())?;
        for v in [IdOrName::from(id), IdOrName::from(name.clone())] {
            ensure_eq!(v.is_id(), v.as_id().is_some());
            ensure_eq!(v.is_name(), v.as_name().is_some());
            ensure!(v.is_id() != v.is_name(), "{v:?}");
        }
        ensure_eq!(IdOrName::from(id).as_id(), Some(id));
        ensure_eq!(IdOrName::from(name.clone()).as_name(), Some(&name));
        for (user, t) in [
            (User::from(id), format!("{id}")),
            (User::from(name.clone()), format!("{name}")),
            (User::from(IdOrName::from(id)), format!("{id}")),
            (User::from((id, gid)), format!("{id}:{gid}")),
            (User::from((name.clone(), gid)), format!("{name}:{gid}")),
            (User::from((id, group.clone())), format!("{id}:{group}")),
            (User::from((name.clone(), group.clone())), format!("{name}:{group}")),
            (User::from((IdOrName::from(name), IdOrName::from(gid))), format!("{}:{gid}", group)),
        ] {
            let t = if t.starts_with(&format!("{group}:{gid}")) { format!("{}:{gid}", user.user) } else { t };
            same(&user, t.clone())?;
            ensure_eq!(user.to_string(), t.clone());
            ensure_eq!(String::from(user), t);
        }
    }

    ranges(s) {
        let (p, (a, b)) = (port(s), span(s));
        let range = Range::new(a, Some(b)).map_err(|e| e.to_string())?;
        let t = if a == b { a.to_string() } else { format!("{a}-{b}") };
        for r in [Range::try_from((a, b)), Range::try_from((a, Some(b))), Range::try_from(a..=b)] {
            ensure_eq!(r.map_err(|e| e.to_string())?, range);
        }
        ensure_eq!(Range::try_from((a, None)).map_err(|e| e.to_string())?, Range::from(a));
        ensure_eq!(range.into_iter().collect::<Vec<_>>(), (a..=b).collect::<Vec<_>>());
        ensure_eq!(range == (a..=b), true, "{range:?} is {a}..={b}");
        ensure_eq!(range == (a..=b.wrapping_add(1)), false, "{range:?} is {a}..={}", b.wrapping_add(1));
        ensure_eq!(range == p, a == b && a == p, "{range:?} == {p}");
        ensure_eq!(Range::from(p) == p, true);
        ensure_eq!(range == a, a == b);
        let by = s.n(9) as u16;
        if let Some(b) = b.checked_add(by) {
            let mut r = range;
            r += by;
            ensure_eq!((r.start(), r.into_iter().last()), (a + by, Some(b)), "{range} + {by}");
            ensure_eq!(range + by, r);
            ensure_eq!(r - by, range, "{r} - {by}");
            r -= by;
            ensure_eq!(r, range);
        }
        same(&Expose::from(p), p)?;
        same(&Expose::from(range), t.clone())?;
        same(&ShortPort::from(p), p)?;
        same(&ShortPort::from(range), t.clone())?;
        same(&ShortPort::new(range.into()), t.clone())?;
        let ranges = ShortRanges::from(range);
        ensure_eq!(ranges, ShortRanges::new(None, range).map_err(|e| e.to_string())?);
        ensure_eq!(ShortRanges::from(p), ShortRanges::from(Range::from(p)));
        same(&ShortPort::from(ranges), t.clone())?;
        same(&Port::from(p), map([("target", p.into())]))?;
        ensure_eq!(Port::new(p), Port::from(p));
        let h = s.n((65535 - (b - a) as usize).min(60000)) as u16;
        let hosts = Range::new(h, Some(h + (b - a))).map_err(|e| e.to_string())?;
        let both = ShortRanges::new(Some(hosts), range).map_err(|e| e.to_string())?;
        same(&ShortPort::from(both), format!("{hosts}:{range}"))?;
        let protocol = s.pick(&["tcp", "udp", "sctp"]);
        let v = ShortPort { host_ip: Some("127.0.0.1".parse().expect("address")), ranges: both, protocol: Some(protocol.into()) };
        same(&v, format!("127.0.0.1:{hosts}:{range}/{protocol}"))?;
        same(&Expose { range, protocol: Some(protocol.into()) }, format!("{t}/{protocol}"))?;
    }

    words(s) {
        let t = s.pick(&["tcp", "udp", "gpu", "tpu", "none", "host", "bridge", "shareable", "sctp", "a", "service:a", "container:a", "default", "private"]);
        let protocol = if s.chance(50) { Protocol::from(t) } else { Protocol::parse(t.to_owned()) };
        ensure_eq!((protocol.is_tcp(), protocol.is_udp()), (t == "tcp", t == "udp"), "{protocol:?}");
        ensure_eq!((protocol.as_str(), AsRef::<str>::as_ref(&protocol)), (t, t));
        ensure_eq!((String::from(protocol.clone()), Cow::from(protocol.clone()).into_owned()), (t.to_owned(), t.to_owned()));
        same(&protocol, t)?;
        let capability = if s.chance(50) { Capability::from(t) } else { Capability::parse(t.to_owned()) };
        ensure_eq!((capability.is_gpu(), capability.is_tpu()), (t == "gpu", t == "tpu"), "{capability:?}");
        ensure_eq!((String::from(capability.clone()), Cow::from(capability.clone()).into_owned(), AsRef::<str>::as_ref(&capability)), (t.to_owned(), t.to_owned(), t));
        same(&capability, t)?;
        let e = s.pick(&["vip", "dnsrr", "a", "VIP", ""]);
        let mode = if s.chance(50) { service::deploy::EndpointMode::from(e) } else { service::deploy::EndpointMode::parse(e.to_owned()) };
        ensure_eq!((mode.is_vip(), mode.is_dnsrr()), (e == "vip", e == "dnsrr"), "{mode:?}");
        ensure_eq!((String::from(mode.clone()), Cow::from(mode.clone()).into_owned(), mode.as_str()), (e.to_owned(), e.to_owned(), e));
        same(&mode, e)?;
        let mode = NetworkMode::parse(t).map_err(|e| e.to_string())?;
        let id: Option<Identifier> = (t.len() > 2 && t.ends_with(":a")).then(|| "a".parse().expect("identifier"));
        let (is_service, is_container) = (t.starts_with("service:"), t.starts_with("container:"));
        ensure_eq!((mode.is_none(), mode.is_host(), mode.is_service(), mode.is_container()), (t == "none", t == "host", is_service, is_container), "{mode:?}");
        ensure_eq!(mode.as_service(), if is_service { id.as_ref() } else { None });
        ensure_eq!(mode.as_container(), if is_container { id.as_ref() } else { None });
        let other = !["none", "host"].contains(&t) && id.is_none();
        ensure_eq!((mode.is_other(), mode.as_other().map(String::as_str)), (other, other.then_some(t)), "{mode:?}");
        ensure_eq!((String::from(mode.clone()), Cow::from(mode.clone()).into_owned(), mode.to_string()), (t.to_owned(), t.to_owned(), t.to_owned()));
        same(&mode, t)?;
        let config = NetworkConfig::from(mode.clone());
        ensure_eq!(serde_yaml::to_value(&config).ok(), Some(map([("network_mode", t.into())])));
        let svc = Service { network_config: Some(config), ..Service::default() };
        same(&svc, map([("network_mode", t.into())]))?;
        if let Ok(ipc) = Ipc::parse(t) {
            let is_service = t.starts_with("service:");
            ensure_eq!((ipc.is_shareable(), ipc.is_service(), ipc.is_other()), (t == "shareable", is_service, t != "shareable" && !is_service), "{ipc:?}");
            ensure_eq!(ipc.as_service(), if is_service { id.as_ref() } else { None });
            ensure_eq!(ipc.as_other().map(String::as_str), (t != "shareable" && !is_service).then_some(t));
            ensure_eq!((String::from(ipc.clone()), Cow::from(ipc.clone()).into_owned()), (t.to_owned(), t.to_owned()));
            same(&ipc, t)?;
        }
        if let Ok(network) = BuildNetwork::parse(t) {
            ensure_eq!((network.is_none(), network.as_str(), String::from(network.clone()), Cow::from(network.clone()).into_owned()), (t == "none", t, t.to_owned(), t.to_owned()));
            ensure_eq!(network.clone().into_option(), (t != "none").then(|| t.parse::<Identifier>().expect("identifier")));
            same(&network, t)?;
        }
        let driver = compose_spec::network::Driver::parse(t);
        ensure_eq!((driver.as_str(), String::from(driver.clone()), Cow::from(driver.clone()).into_owned()), (t, t.to_owned(), t.to_owned()));
        same(&driver, t)?;
    }

    files(s) {
        let (p, q) = (word(s), word(s));
        let list = |items: &[&str]| YamlValue::Sequence(items.iter().map(|i| (*i).into()).collect());
        same(&EnvFile::from(PathBuf::from(&p)), p.clone())?;
        same(&EnvFile::from(p.clone()), p.clone())?;
        same(&EnvFile::from_iter([PathBuf::from(&p), PathBuf::from(&q)]), list(&[&p, &q]))?;
        same(&EnvFile::from_iter([p.clone(), q.clone(), p.clone()]), list(&[&p, &q, &p]))?;
        let required = s.chance(50);
        let config = env_file::Config { path: PathBuf::from(&p), required };
        let form = map([("path", p.clone().into()), ("required", required.into())]);
        same(&config, form.clone())?;
        same(&EnvFile::from_iter([config.clone(), q.clone().into()]), vec![form.clone(), map([("path", q.clone().into())])])?;
        same(&EnvFile::from(vec![ShortOrLong::Long(config.clone()), ShortOrLong::Short(PathBuf::from(&q))]), vec![form, q.clone().into()])?;
        ensure_eq!(env_file::Config::from(p.clone()), env_file::Config { path: PathBuf::from(&p), required: true });
        ensure_eq!(env_file::Config::from(PathBuf::from(&p)), env_file::Config { path: PathBuf::from(&p), required: true });
        ensure_eq!(config.as_short(), required.then_some(&config.path));
        let single = EnvFile::from(p.clone());
        ensure_eq!(single.as_single(), Some(&PathBuf::from(&p)));
        ensure_eq!(single.into_list(), vec![ShortOrLong::Short(PathBuf::from(&p))]);
        let include = Include::from(PathBuf::from(&p));
        same(&include, map([("path", p.clone().into())]))?;
        ensure_eq!(include.as_short(), Some(&PathBuf::from(&p)));
        same(&ShortOrLong::<PathBuf, Include>::from(PathBuf::from(&p)), p.clone())?;
        same(&ShortOrLong::<PathBuf, Include>::from(p.clone()), p.clone())?;
        let written = ShortOrLong::<PathBuf, Include>::from(include.clone());
        ensure!(written.is_long() && !written.is_short() && written.as_long() == Some(&include));
        ensure_eq!(written.as_short(), Some(&PathBuf::from(&p)));
        ensure_eq!(written.into_long(), include.clone());
        ensure_eq!(Include::from(ShortOrLong::<PathBuf, Include>::from(p)), include);
    }

    lists(s) {
        let items: IndexSet<String> = (0..s.n(4)).map(|_| text(s)).collect();
        let t = text(s);
        let one = ItemOrList::from(t.clone());
        same(&one, t.clone())?;
        ensure_eq!((one.as_item(), one.as_list()), (Some(&t), None));
        ensure_eq!(IndexSet::from(one), [t.clone()].into_iter().collect::<IndexSet<_>>());
        let many = ItemOrList::from(items.clone());
        same(&many, items.iter().cloned().collect::<Vec<_>>())?;
        ensure_eq!((many.as_item(), many.as_list()), (if items.len() == 1 { items.first() } else { None }, Some(&items)));
        ensure_eq!(IndexSet::from(many.clone()), items.clone());
        ensure_eq!(many.into_list().into_iter().collect::<Vec<_>>(), items.into_iter().collect::<Vec<_>>());
    }

    values(s) {
        let (u, f, t, b) = (s.u64(), (s.u64() as i32 as f64) / 8.0, text(s), s.chance(50));
        let i = s.u64() as i64;
        let i = if i >= 0 { -i - 1 } else { i };
        macro_rules! of {
            ($T:ident) => {
                for v in [$T::from(t.clone()), $T::from(t.as_str()), $T::from(t.clone().into_boxed_str()), $T::from(Cow::Borrowed(t.as_str())), $T::from(Cow::<str>::Owned(t.clone()))] {
                    ensure_eq!(v, $T::String(t.clone()));
                    ensure_eq!((v.is_string(), v.is_number(), v.as_string()), (true, false, Some(&t)));
                    ensure_eq!(String::from(v.clone()), t.clone());
                    same(&v, t.clone())?;
                }
                for (v, form, n) in [($T::from(u), YamlValue::from(u), Number::UnsignedInt(u)), ($T::from(i), i.into(), Number::SignedInt(i)), ($T::from(f), f.into(), Number::Float(f)), ($T::from(Number::from(u)), u.into(), Number::UnsignedInt(u))] {
                    ensure_eq!((v.is_string(), v.is_number(), v.as_string()), (false, true, None), "{v:?}");
                    ensure_eq!(v, $T::Number(n));
                    ensure_eq!(Number::try_from(v.clone()).ok(), Some(n));
                    ensure_eq!(String::from(v.clone()), n.to_string());
                    same(&v, form)?;
                }
            };
        }
        of!(Value);
        of!(StringOrNumber);
        let v = Value::from(b);
        ensure_eq!((v.is_bool(), v.is_string(), v.is_number(), v.as_bool(), v.as_number(), v.as_string()), (true, false, false, Some(b), None, None));
        ensure_eq!((bool::try_from(v.clone()).ok(), u64::try_from(v.clone()).ok(), String::from(v.clone())), (Some(b), Some(u64::from(b)), b.to_string()));
        same(&v, b)?;
        ensure_eq!((Value::from(u).as_number(), Value::from(u).as_bool(), StringOrNumber::from(u).as_number()), (Some(&Number::UnsignedInt(u)), None, Some(Number::UnsignedInt(u))));
        ensure!(bool::try_from(Value::from(u)).is_err() && bool::try_from(Value::from("true")).is_err());
        let n = Number::from(u);
        ensure_eq!((n.is_unsigned_int(), n.is_signed_int(), n.is_float(), n.as_unsigned_int(), n.as_signed_int(), n.as_float()), (true, false, false, Some(u), None, None));
        let n = Number::from(i);
        ensure_eq!((n.is_unsigned_int(), n.is_signed_int(), n.is_float(), n.as_unsigned_int(), n.as_signed_int(), n.as_float()), (false, true, false, None, Some(i), None));
        let n = Number::from(f);
        ensure_eq!((n.is_unsigned_int(), n.is_signed_int(), n.is_float(), n.as_unsigned_int(), n.as_signed_int(), n.as_float()), (false, false, true, None, None, Some(f)));
        ensure_eq!((format!("{:e}", Number::from(u)), format!("{:E}", Number::from(u))), (format!("{u:e}"), format!("{u:E}")));
        ensure_eq!((format!("{:e}", Number::from(i)), format!("{:E}", Number::from(i))), (format!("{i:e}"), format!("{i:E}")));
        ensure_eq!((format!("{:e}", Number::from(f)), format!("{:E}", Number::from(f))), (format!("{f:e}"), format!("{f:E}")));
    }

    limits(s) {
        let (u, v) = (s.u64() >> s.n(64), s.u64() >> s.n(64));
        same(&Limit::<u64>::from(u), u)?;
        same(&Limit::<u32>::from(u as u32), u as u32)?;
        same(&Limit::<u64>::Unlimited, -1)?;
        let bytes = ByteValue::Bytes(u);
        same(&Limit::<ByteValue>::from(bytes), u)?;
        for soft in [Limit::Value(u), Limit::Unlimited] {
            let limit = Ulimit::from(soft);
            let n = |l: Limit<u64>| if let Limit::Value(v) = l { YamlValue::from(v) } else { (-1).into() };
            same(&limit, map([("soft", n(soft)), ("hard", n(soft))]))?;
            ensure_eq!(limit.as_short(), Some(&soft));
            same(&ShortOrLong::<Limit<u64>, Ulimit>::from(soft), n(soft))?;
            ensure_eq!(ShortOrLong::<Limit<u64>, Ulimit>::from(soft).into_long(), limit);
            let two = Ulimit { hard: Limit::Value(v), ..limit };
            ensure_eq!(two.as_short().copied(), (soft == Limit::Value(v)).then_some(soft));
            same(&ShortOrLong::<Limit<u64>, Ulimit>::from(two), map([("soft", n(soft)), ("hard", v.into())]))?;
        }
        ensure_eq!(Ulimit::from(u), Ulimit::from(Limit::Value(u)));
        same(&ShortOrLong::<Limit<u64>, Ulimit>::from(u), u)?;
    }

    commands(s) {
        let (t, items) = (text(s), (0..s.n(4)).map(|_| text(s)).collect::<Vec<_>>());
        same(&Command::from(t.clone()), t.clone())?;
        same(&Command::from(items.clone()), items.clone())?;
        let exec = Test::from(items.clone());
        ensure_eq!(exec, Test::Command(items.clone()));
        let shell = Test::from(t.clone());
        ensure_eq!(shell, Test::ShellCommand(t.clone()));
        let retries = s.chance(50).then(|| s.u64() >> s.n(64));
        for (test, form) in [(exec, YamlValue::from([vec!["CMD".to_owned()], items].concat())), (shell, t.into())] {
            let command = healthcheck::Command { test: Some(test), retries, ..Default::default() };
            let check = Healthcheck::from(command.clone());
            ensure_eq!(check, Healthcheck::Command(command));
            same(&check, map([("test", form), ("retries", maybe(&retries))]))?;
        }
        same(&Healthcheck::Disable, map([("disable", true.into())]))?;
        same(&Healthcheck::default(), map([]))?;
    }

    contexts(s) {
        let t = match s.n(3) {
            0 => word(s),
            1 => format!("./{}/{}", word(s), word(s)),
            _ => format!("https://e.org/{}.git#{}:{}", word(s), word(s), word(s)),
        };
        let first = Context::parse(t.as_str());
        same(&first, t.clone())?;
        for v in [Context::from(t.as_str()), Context::from(t.clone()), Context::from(t.clone().into_boxed_str()), Context::from(Cow::Borrowed(t.as_str())), Context::from(Cow::<str>::Owned(t.clone()))] {
            ensure_eq!(v, first.clone());
        }
        ensure_eq!(first.clone().into_string().ok(), Some(t.clone()));
        match &first {
            Context::Url(url) => {
                ensure_eq!(Context::from(url.clone()), first.clone());
                ensure!(first.as_path().is_none() && first.as_url() == Some(url), "{first:?}");
            }
            Context::Path(p) => {
                for v in [Context::from(p.as_path()), Context::from(Cow::Borrowed(p.as_path())), Context::from(Cow::<Path>::Owned(p.clone())), Context::from(p.clone())] {
                    ensure_eq!(v, first.clone());
                }
                ensure!(first.as_path() == Some(p) && first.as_url().is_none(), "{first:?}");
            }
        }
        let build = service::Build::from(first.clone());
        same(&build, map([("context", t.clone().into())]))?;
        ensure_eq!(build.as_short(), Some(&first));
        same(&ShortOrLong::<Context, service::Build>::from(first.clone()), t.clone())?;
        ensure_eq!(ShortOrLong::<Context, service::Build>::from(first).into_long(), build.clone());
        same(&ShortOrLong::<Context, service::Build>::from(build), map([("context", t.into())]))?;
    }

    caches(s) {
        let image = image(s);
        let t = image.to_string();
        let kind = CacheType::from(image.clone());
        ensure_eq!((kind.is_registry(), kind.is_other(), kind.as_registry(), kind.as_other()), (true, false, Some(&image), None));
        for v in [Cache::from(kind.clone()), Cache::from(image.clone()), Cache::from_image(image.clone())] {
            ensure_eq!(v.cache_type, kind.clone());
            same(&v, t.clone())?;
            same(&v, format!("type=registry,ref={t}"))?;
        }
        ensure_eq!(CacheOption::from(image.clone()).as_str(), t.as_str());
        let (k, a, b) = (word(s), word(s), word(s));
        {
            let option = |t: &str| CacheOption::new(t.to_owned()).expect("cache option");
            let mut v = Cache::from_image(image.clone());
            let others: IndexMap<String, String> = (0..s.n(3)).map(|_| (word(s), word(s))).filter(|(k, _)| k != "type" && k != "ref").collect();
            v.options = others.iter().map(|(k, v)| (option(k), option(v))).collect();
            let all: Vec<(String, String)> = [("type".to_owned(), "registry".to_owned()), ("ref".to_owned(), t.clone())].into_iter().chain(others).collect();
            same(&v, all.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(","))?;
            ensure_eq!(v.into_options().into_iter().collect::<Vec<_>>(), all.iter().map(|(k, v)| (option(k), option(v))).collect::<Vec<_>>());
        }
        let option = |t: &str| CacheOption::new(t.to_owned()).expect("cache option");
        if k != "registry" {
            let kind = CacheType::Other(option(&k));
            ensure_eq!((kind.is_registry(), kind.is_other(), kind.as_registry(), kind.as_other()), (false, true, None, Some(&option(&k))));
            same(&Cache::from(kind.clone()), format!("type={k}"))?;
            let mut v = Cache::from(kind);
            v.options.insert(option(&a), option(&b));
            same(&v, format!("type={k},{a}={b}"))?;
            if a != "type" {
                ensure_eq!(v.into_options().into_iter().collect::<Vec<_>>(), vec![(option("type"), option(&k)), (option(&a), option(&b))]);
            }
        }
    }

    sets(s) {
        let cpus: BTreeSet<u64> = (0..s.n(8)).map(|_| s.n(12) as u64).collect();
        let set = CpuSet::from(cpus.clone());
        ensure_eq!(BTreeSet::from(set.clone()), cpus.clone());
        ensure_eq!(set.is_empty(), cpus.is_empty());
        if !cpus.is_empty() {
            same(&set, cpus.iter().map(u64::to_string).collect::<Vec<_>>().join(","))?;
        }
        let bytes: [u8; 6] = std::array::from_fn(|_| s.u64() as u8);
        let mac = MacAddress::from(bytes);
        ensure_eq!((<[u8; 6]>::from(mac), AsRef::<[u8]>::as_ref(&mac)), (bytes, bytes.as_slice()));
        same(&mac, bytes.map(|b| format!("{b:02x}")).join(":"))?;
        same(&mac, bytes.map(|b| format!("{b:02X}")).join(":"))?;
        let device = if s.chance(50) { ReservedDevice::new(["gpu", "a", "gpu"]) } else { ReservedDevice::new([Capability::Gpu, Capability::Other("a".to_owned())]) };
        same(&device, map([("capabilities", vec!["gpu", "a"].into())]))?;
        ensure!(!device.is_empty() && ReservedDevice::new(None::<Capability>).is_empty());
        ensure_eq!(ReservedDevice::new(None::<Capability>), ReservedDevice::default());
    }

    bounded(s) {
        let n = s.u64();
        let weight = 10 + (n % 991) as u16;
        let w = Weight::try_from(weight).map_err(|e| e.to_string())?;
        let nonzero = NonZeroU16::new(weight).expect("not zero");
        ensure_eq!(Weight::try_from(nonzero).ok(), Some(w));
        ensure_eq!((u16::from(w), NonZeroU16::from(w), w.into_inner()), (weight, nonzero, nonzero));
        ensure!(w == weight && w == nonzero && w != weight + 1 && w != NonZeroU16::MIN, "{w:?}");
        same(&w, weight)?;
        let p = (n % 101) as u8;
        let percent = Percent::try_from(p).map_err(|e| e.to_string())?;
        ensure_eq!((u8::from(percent), percent.into_inner()), (p, p));
        ensure!(percent == p && percent != p.wrapping_add(1));
        same(&percent, p)?;
        let o = (n % 2001) as i16 - 1000;
        let score = OomScoreAdj::try_from(o).map_err(|e| e.to_string())?;
        ensure_eq!(i16::from(score), o);
        ensure!(score == o && score != o + 1);
        same(&score, o)?;
        let (a, b, c, f) = (n as u8, n as u16, n as u32, (n % 100_000) as f64 / 8.0);
        for (cpus, v) in [(Cpus::from(a), f64::from(a)), (Cpus::from(b), f64::from(b)), (Cpus::from(c), f64::from(c)), (Cpus::try_from(f).map_err(|e| e.to_string())?, f)] {
            ensure_eq!((f64::from(cpus), cpus.into_inner()), (v, v));
            ensure!(cpus == v && cpus != v + 1.0);
            ensure_eq!((cpus.partial_cmp(&v), cpus.partial_cmp(&(v + 1.0)), cpus.partial_cmp(&(v - 1.0)), cpus.partial_cmp(&f64::NAN)), (Some(std::cmp::Ordering::Equal), Some(std::cmp::Ordering::Less), Some(std::cmp::Ordering::Greater), None));
            same(&cpus, v)?;
            same(&cpus, v.to_string())?;
        }
        for v in [Cpus::try_from(a as i8 & 0x7f), Cpus::try_from((b as i16) & 0x7fff), Cpus::try_from((c as i32) & 0x7fff_ffff), Cpus::try_from(f as f32)] {
            ensure!(v.is_ok(), "{v:?}");
        }
        same(&Count::from(n), n)?;
        ensure!(Count::from(n) == n && Count::from(n) != n.wrapping_add(1) && Count::All != n && Count::All != 0);
        same(&Count::default(), "all")?;
        let m = MajorMinorNumber::from(b);
        ensure!(m == b && m != b.wrapping_add(1) && MajorMinorNumber::All != b && MajorMinorNumber::All != 0);
        let (kind, letter) = s.pick(&[(DeviceKind::Char, 'c'), (DeviceKind::Block, 'b'), (DeviceKind::All, 'a')]);
        ensure_eq!((char::from(kind), kind.as_char(), DeviceKind::try_from(letter).ok()), (letter, letter, Some(kind)));
        let permissions = Permissions { read: s.chance(50), write: s.chance(50), mknod: s.chance(50) };
        ensure_eq!(permissions.any(), permissions != Permissions::default());
        ensure_eq!(Permissions::all(), Permissions { read: true, write: true, mknod: true });
        let permissions = if permissions.any() { permissions } else { Permissions::all() };
        let rule = CgroupRule { kind, major: m, minor: MajorMinorNumber::All, permissions };
        same(&rule, format!("{letter} {b}:* {}{}{}", if permissions.read { "r" } else { "" }, if permissions.write { "w" } else { "" }, if permissions.mknod { "m" } else { "" }))?;
        ensure_eq!((char::from(SELinux::Shared), SELinux::Shared.as_char(), char::from(SELinux::Private), SELinux::Private.as_char()), ('z', 'z', 'Z', 'Z'));
    }

    links(s) {
        let id = identifier(s);
        let link = Link::from(id.clone());
        ensure_eq!(String::from(link.clone()), id.to_string());
        same(&link, id.as_str())?;
        let alias = identifier(s);
        let link = Link { alias: Some(alias.to_string()), ..link };
        ensure_eq!(String::from(link.clone()), format!("{id}:{alias}"));
        same(&link, format!("{id}:{alias}"))?;
        for (source, t) in [(VolumesFromSource::Service(id.clone()), id.to_string()), (VolumesFromSource::Container(id.clone()), format!("container:{id}"))] {
            ensure_eq!(String::from(source.clone()), t.clone());
            let from = VolumesFrom::from(source);
            ensure_eq!((from.read_only, String::from(from.clone())), (false, t.clone()));
            if id.as_str() != "container" || t.contains(':') {
                same(&from, t.clone())?;
                same(&VolumesFrom { read_only: true, ..from }, format!("{t}:ro"))?;
            }
        }
        let short = ConfigOrSecret::from(id.clone());
        same(&short, map([("source", id.as_str().into())]))?;
        ensure_eq!(short.as_short(), Some(&id));
        same(&ShortOrLong::<Identifier, ConfigOrSecret>::from(id.clone()), id.as_str())?;
        same(&ShortOrLong::<Identifier, ConfigOrSecret>::from(short.clone()), map([("source", id.as_str().into())]))?;
        ensure_eq!(ShortOrLong::<Identifier, ConfigOrSecret>::from(id).into_long(), short.clone());
        let more = ConfigOrSecret { uid: Some(s.u64() as u32), ..short };
        ensure_eq!(more.as_short(), None);
    }

    both_syntaxes(s) {
        let ids: IndexSet<Identifier> = (0..s.n(4)).map(|_| identifier(s)).collect();
        type Networks = ShortOrLong<IndexSet<Identifier>, IndexMap<Identifier, Option<service::network_config::Network>>>;
        let short = Networks::from(ids.clone());
        ensure!(short.is_short() && !short.is_long() && short.as_long().is_none());
        let names: Vec<&str> = ids.iter().map(Identifier::as_str).collect();
        ensure_eq!(short.as_short_iter().map(|i| i.map(Identifier::as_str).collect::<Vec<_>>()), Some(names.clone()));
        let long = IndexMap::<Identifier, Option<service::network_config::Network>>::from(short.clone());
        ensure_eq!(long.keys().cloned().collect::<Vec<_>>(), ids.iter().cloned().collect::<Vec<_>>());
        ensure!(long.values().all(Option::is_none), "{long:?}");
        ensure_eq!((&long).as_short_iter().map(|i| i.map(Identifier::as_str).collect::<Vec<_>>()), Some(names.clone()));
        let written = Networks::from(long.clone());
        ensure_eq!(written.as_long(), Some(&long));
        ensure_eq!(written.clone().into_long(), long.clone());
        let svc = |n: &Networks| Service { network_config: Some(NetworkConfig::from(n.clone())), ..Service::default() };
        same(&svc(&short), map([("networks", names.clone().into())]))?;
        let entries = |v: YamlValue| YamlValue::Mapping(names.iter().map(|n| ((*n).into(), v.clone())).collect());
        same(&svc(&written), map([("networks", entries(YamlValue::Null))]))?;
        if let Some(n) = ids.first() {
            let mut some = long.clone();
            some.insert(n.clone(), Some(service::network_config::Network { priority: Some(1), ..Default::default() }));
            ensure!((&some).as_short_iter().is_none() && Networks::from(some).as_short_iter().is_none());
        }
        type DependsOn = ShortOrLong<IndexSet<Identifier>, IndexMap<Identifier, service::Dependency>>;
        let long = IndexMap::<Identifier, service::Dependency>::from(DependsOn::from(ids.clone()));
        ensure!(long.values().all(|d| *d == service::Dependency::default()), "{long:?}");
        ensure_eq!((&long).as_short_iter().map(|i| i.map(Identifier::as_str).collect::<Vec<_>>()), Some(names.clone()));
        if !ids.is_empty() {
            same(&Service { depends_on: long.into(), ..Service::default() }, map([("depends_on", entries(map([("condition", "service_started".into())])))]))?;
            same(&Service { depends_on: ids.clone().into(), ..Service::default() }, map([("depends_on", names.into())]))?;
        }

        let (p, target) = (port(s), absolute(s));
        let short = ShortPort::from(p);
        let v = ShortOrLong::<ShortPort, Port>::from(short);
        same(&v, p)?;
        ensure!(v.is_short() && v.as_long().is_none());
        same(&ShortOrLong::<ShortPort, Port>::from(Port::new(p)), map([("target", p.into())]))?;
        let v = ShortOrLong::<ShortVolume, Mount>::from(ShortVolume::new(target.clone()));
        same(&v, show(target.as_path()))?;
        ensure_eq!(v.into_long(), Mount::from(Volume::new(Common::new(target.clone()))));
        let m = Mount::from(Tmpfs::from(target.clone()));
        same(&ShortOrLong::<ShortVolume, Mount>::from(m), map([("type", "tmpfs".into()), ("target", show(target.as_path()))]))?;

        // the plain types
        macro_rules! plain {
            ($($T:ty: $v:expr),* $(,)?) => {
                $({
                    let v: $T = $v;
                    let made = ShortOrLong::<$T, u8>::from(v.clone());
                    ensure!(made.is_short() && made == ShortOrLong::Short(v), "{made:?}");
                })*
            };
        }
        let (n, t) = (s.u64(), word(s));
        plain!((): (), bool: n % 2 == 0, u8: n as u8, u16: n as u16, u32: n as u32, u64: n, u128: n.into(), i8: n as i8, i16: n as i16, i32: n as i32, i64: n as i64, i128: n.into(), f32: n as f32, f64: n as f64, char: 'a', String: t.clone(), Box<str>: t.clone().into(), PathBuf: t.clone().into(), Box<Path>: Path::new(&t).into(), OsString: t.clone().into(), Box<OsStr>: OsStr::new(&t).into());
    }

    defaults(s) {
        let _ = s;
        macro_rules! empty {
            ($($T:ty),* $(,)?) => { $(same(&<$T>::default(), map([])).map_err(|e| format!("{}: {e}", stringify!($T)))?;)* };
        }
        empty!(
            Service, service::Build, service::Deploy, service::deploy::Placement, service::deploy::RestartPolicy, service::deploy::UpdateOrRollbackConfig, service::deploy::Resources,
            service::deploy::resources::Limits, service::deploy::resources::Reservations, service::BlkioConfig, service::Logging, service::network_config::Network,
            Network, compose_spec::network::Ipam, compose_spec::network::IpamConfig, compose_spec::Volume, mount::VolumeOptions, mount::BindOptions, mount::TmpfsOptions, Healthcheck, service::Develop,
        );
        same(&Compose::default(), map([("services", map([]))]))?;
        ensure!(ListOrMap::default().is_empty() && ListOrMap::default() == ListOrMap::List(IndexSet::new()));
        ensure_eq!(ByteValue::default().into_bytes(), Some(0));
        ensure_eq!(Weight::default(), 500);
        same(&Context::default(), ".")?;
        let key: MapKey = "a".parse().expect("key");
        ensure_eq!(ListOrMap::Map([(key, None)].into_iter().collect()).into_list(), ["a".to_owned()].into_iter().collect::<IndexSet<_>>());
    }
}

/// What a mount is, by every predicate.
fn kinds(m: &Mount, kind: &str, is: [bool; 5], common: &Common) -> Res {
    ensure_eq!(m.kind(), kind);
    ensure_eq!([m.is_volume(), m.is_bind(), m.is_tmpfs(), m.is_named_pipe(), m.is_cluster()], is, "{m:?}");
    ensure_eq!([m.as_volume().is_some(), m.as_bind().is_some(), m.as_tmpfs().is_some(), m.as_named_pipe().is_some(), m.as_cluster().is_some()], is, "{m:?}");
    ensure_eq!(m.common(), common);
    Ok(())
}

fn check_made(e: &Extra, cov: &mut Cov) -> Res {
    let mut s = Src::new(e);
    let (name, make) = s.pick(MAKERS);
    cov.nontrivial();
    cov.label(name);
    make(&mut s).map_err(|e| format!("{name}: {e}"))
}

// ---------------------------------------------------------------------------------------------
// Fields

/// Move some fields of one value to another, in the values and in the mappings they were read from.
macro_rules! fields {
    ($a:ident, $b:ident, $av:ident, $bv:ident, $s:ident; $($field:ident: $($key:literal),*;)*) => {
        $(if $s.chance(40) {
            std::mem::swap(&mut $a.$field, &mut $b.$field);
            $(let (from_a, from_b) = ($av.shift_remove($key), $bv.shift_remove($key));
            if let Some(v) = from_b {
                $av.insert($key.into(), v);
            }
            if let Some(v) = from_a {
                $bv.insert($key.into(), v);
            })*
        })*
    };
}

macro_rules! swaps {
    ($($name:ident: $T:ty, $make:expr; { $($fields:tt)* })*) => {
        $(fn $name(s: &mut Src) -> Result<bool, String> {
            let make: fn(&mut Src) -> YamlValue = $make;
            let (YamlValue::Mapping(mut av), YamlValue::Mapping(mut bv)) = (make(s), make(s)) else { return Ok(false) };
            let read = |v: &Mapping| serde_yaml::from_value::<$T>(YamlValue::Mapping(v.clone())).map_err(|e| format!("rejected: {e}\n{}", shown(&YamlValue::Mapping(v.clone()))));
            let (mut a, mut b) = (read(&av)?, read(&bv)?);
            let before = av.clone();
            fields!(a, b, av, bv, s; $($fields)*);
            if s.chance(30) {
                std::mem::swap(&mut a.extensions, &mut b.extensions);
                let take = |m: &mut Mapping| {
                    let keys: Vec<YamlValue> = m.keys().filter(|k| k.as_str().is_some_and(|k| k.starts_with("x-"))).cloned().collect();
                    keys.into_iter().filter_map(|k| m.shift_remove(&k).map(|v| (k, v))).collect::<Vec<_>>()
                };
                let (from_a, from_b) = (take(&mut av), take(&mut bv));
                av.extend(from_b);
                bv.extend(from_a);
            }
            for (made, v) in [(&a, &av), (&b, &bv)] {
                let expected = read(v)?;
                let form = || shown(&YamlValue::Mapping(v.clone()));
                ensure!(*made == expected, "put together, it is\n{made:?}\nbut read,\n{expected:?}\nfrom\n{}", form());
                let (x, y) = (serde_yaml::to_value(made), serde_yaml::to_value(&expected));
                let (x, y) = (x.map_err(|e| e.to_string())?, y.map_err(|e| e.to_string())?);
                ensure_eq!(x, y, "written, put together and read from\n{}", form());
                let again: $T = serde_yaml::from_value(x.clone()).map_err(|e| format!("what was put together cannot be read back: {e}\n{}", shown(&x)))?;
                ensure_eq!(serde_yaml::to_value(&again).ok(), Some(x), "read back and written again");
            }
            Ok(av != before)
        })*
        const SWAPS: &[(&str, fn(&mut Src) -> Result<bool, String>)] = &[$((stringify!($T), $name)),*];
    };
}

swaps! {
    documents: Compose, |s| docgen::document(s).input(); {
        version: "version"; name: "name"; include: "include"; services: "services"; networks: "networks"; volumes: "volumes"; configs: "configs"; secrets: "secrets";
    }
    services: Service, |s| docgen::service(s).input(); {
        annotations: "annotations"; attach: "attach"; build: "build"; blkio_config: "blkio_config"; cpu_count: "cpu_count"; cpu_percent: "cpu_percent"; cpu_shares: "cpu_shares";
        cpu_period: "cpu_period"; cpu_quota: "cpu_quota"; cpu_rt_runtime: "cpu_rt_runtime"; cpu_rt_period: "cpu_rt_period"; cpuset: "cpuset"; cpus: "cpus"; cap_add: "cap_add"; cap_drop: "cap_drop";
        cgroup: "cgroup"; cgroup_parent: "cgroup_parent"; command: "command"; configs: "configs"; container_name: "container_name"; credential_spec: "credential_spec"; depends_on: "depends_on";
        deploy: "deploy"; develop: "develop"; device_cgroup_rules: "device_cgroup_rules"; devices: "devices"; dns: "dns"; dns_opt: "dns_opt"; dns_search: "dns_search"; domain_name: "domainname";
        entrypoint: "entrypoint"; env_file: "env_file"; environment: "environment"; expose: "expose"; extends: "extends"; external_links: "external_links"; extra_hosts: "extra_hosts";
        group_add: "group_add"; healthcheck: "healthcheck"; hostname: "hostname"; image: "image"; init: "init"; ipc: "ipc"; uts: "uts"; isolation: "isolation"; labels: "labels"; links: "links";
        logging: "logging"; network_config: "network_mode", "networks"; mac_address: "mac_address"; mem_limit: "mem_limit"; mem_reservation: "mem_reservation"; mem_swappiness: "mem_swappiness";
        memswap_limit: "memswap_limit"; oom_kill_disable: "oom_kill_disable"; oom_score_adj: "oom_score_adj"; pid: "pid"; pids_limit: "pids_limit"; platform: "platform"; ports: "ports";
        privileged: "privileged"; profiles: "profiles"; pull_policy: "pull_policy"; read_only: "read_only"; restart: "restart"; runtime: "runtime"; scale: "scale"; secrets: "secrets";
        security_opt: "security_opt"; shm_size: "shm_size"; stdin_open: "stdin_open"; stop_grace_period: "stop_grace_period"; stop_signal: "stop_signal"; storage_opt: "storage_opt"; sysctls: "sysctls";
        tmpfs: "tmpfs"; tty: "tty"; ulimits: "ulimits"; user: "user"; userns_mode: "userns_mode"; volumes: "volumes"; volumes_from: "volumes_from"; working_dir: "working_dir";
    }
    builds: service::Build, build_form; {
        context: "context"; dockerfile: "dockerfile", "dockerfile_inline"; args: "args"; ssh: "ssh"; cache_from: "cache_from"; cache_to: "cache_to"; additional_contexts: "additional_contexts";
        extra_hosts: "extra_hosts"; isolation: "isolation"; privileged: "privileged"; labels: "labels"; no_cache: "no_cache"; pull: "pull"; network: "network"; shm_size: "shm_size"; target: "target";
        secrets: "secrets"; tags: "tags"; ulimits: "ulimits"; platforms: "platforms"; entitlements: "entitlements";
    }
    deploys: service::Deploy, |s| docgen::deploy(s).input(); {
        endpoint_mode: "endpoint_mode"; labels: "labels"; mode: "mode"; placement: "placement"; replicas: "replicas"; resources: "resources"; restart_policy: "restart_policy";
        rollback_config: "rollback_config"; update_config: "update_config";
    }
    network_groups: Network, |s| docgen::network(s).input(); {
        driver: "driver"; driver_opts: "driver_opts"; attachable: "attachable"; enable_ipv6: "enable_ipv6"; ipam: "ipam"; internal: "internal"; labels: "labels"; name: "name";
    }
    volume_groups: compose_spec::Volume, |s| docgen::top_volume(s).input(); {
        driver: "driver"; driver_opts: "driver_opts"; labels: "labels"; name: "name";
    }
}

/// A build in the long syntax.
fn build_form(s: &mut Src) -> YamlValue {
    match docgen::service_field(s, "build").input() {
        v @ YamlValue::Mapping(_) => v,
        _ => Mapping::new().into(),
    }
}

fn check_fields((kind, e): &(u8, Vec<u32>), cov: &mut Cov) -> Res {
    let (name, swap) = SWAPS[*kind as usize % SWAPS.len()];
    if swap(&mut Src::new(e)).map_err(|e| format!("{name}: {e}"))? {
        cov.nontrivial();
    }
    cov.label(name);
    Ok(())
}

pub fn c33() -> Property {
    Property {
        id: "C33",
        subs: vec![
            sub("conversions", "values made from generated parts by every constructor and conversion; non-trivial: always", 20_000, || extra(40), check_made),
            sub("fields", "two generated values of a group which exchange some fields; non-trivial: something changed", 10_000, || (any::<u8>(), prop::collection::vec(any::<u32>(), 0..600)), check_fields),
        ],
        known: vec![],
        assumptions: &["fields of Compose, Service, Build, Deploy, Network and Volume are exchanged; other groups only as part of these"],
    }
}
