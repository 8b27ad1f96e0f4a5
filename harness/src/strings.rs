//! C19 devices and block IO, C20 networking strings, C21 keywords, C23 build strings.

use std::{
    borrow::Cow,
    fmt::{Debug, Display},
    net::IpAddr,
    path::{Path, PathBuf},
    str::FromStr,
};

use compose_spec::{
    network,
    service::{
        build::{Cache, CacheOption, CacheType, Context, Network as BuildNetwork, SshAuth, SshAuthId},
        deploy::{self, resources::{Capability, Count}, EndpointMode},
        develop,
        device::{CgroupRule, Device, Kind, MajorMinorNumber, Permissions},
        network_config::{MacAddress, NetworkConfig, NetworkMode},
        ports::{self, Protocol},
        volumes::{mount::{BindPropagation, Mount}, SELinux},
        Build, Cgroup, Condition, Image, Ipc, Link, PullPolicy, Restart, Uts, VolumesFrom, VolumesFromSource,
    },
    Compose, Identifier, ShortOrLong, YamlValue,
};
use indexmap::IndexMap;
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use url::Url;

use crate::{
    ensure, ensure_eq, fail,
    fw::{all, sub, Cov, Property, Res, Sub},
    gen,
    keys::{ref_cache_option, ref_hostname, ref_identifier, ref_map_key},
    tmpl,
};

/// A document template and what it holds at its hole.
type Field<T> = (&'static str, fn(&Compose) -> Option<T>);

fn long_build(c: &Compose) -> Option<&Build> {
    c.services["svc"].build.as_ref()?.as_long()
}

/// `text` at every field: taken exactly when `expected` is given, kept as that value, and written as
/// text which parses to it again.
fn in_documents<T>(fields: &[Field<T>], text: &str, expected: Option<&T>) -> Res
where
    T: PartialEq + Debug + DeserializeOwned,
{
    for (template, get) in fields {
        let doc = tmpl::fill(template, &text.into());
        let Some(c) = tmpl::parse(&doc)? else {
            ensure!(expected.is_none(), "{text:?} rejected in {template:?}, expected {expected:?}");
            continue;
        };
        let got = get(&c);
        let Some(expected) = expected else { fail!("{text:?} taken in {template:?} as {got:?}, expected to be rejected") };
        ensure_eq!(got.as_ref(), Some(expected), "{text:?} in {template:?}");
        let v = serde_yaml::to_value(&c).map_err(|e| format!("cannot serialise {text:?} in {template:?}: {e}"))?;
        let Some(w) = tmpl::hole(template, &v) else { fail!("{text:?} in {template:?} is not written: {v:?}") };
        let again: Result<T, _> = serde_yaml::from_value(w.clone());
        ensure_eq!(again.as_ref().ok(), Some(expected), "{text:?} as written in {template:?} ({w:?})");
        match serde_yaml::from_value::<Compose>(v.clone()) {
            Ok(again) => ensure_eq!(again, c, "document with {text:?} in {template:?} as written"),
            Err(e) => fail!("document {v:?} as written: {e}"),
        }
    }
    Ok(())
}

/// The value of `s` by every way of making a `T` from text; all must agree.
macro_rules! ways {
    ($T:ty, $s:expr; $($extra:expr),*) => {{
        let s: &str = $s;
        let results: Vec<(&str, Option<$T>)> = vec![
            ("FromStr", <$T>::from_str(s).ok()),
            ("TryFrom<&str>", <$T>::try_from(s).ok()),
            ("serde", serde_yaml::from_value(YamlValue::String(s.to_owned())).ok()),
            $($extra),*
        ];
        let mut results = results.into_iter();
        let first = results.next().expect("one way").1;
        for (what, r) in results {
            ensure_eq!(r, first, "{what} of {s:?}, against FromStr");
        }
        first
    }};
}

macro_rules! all_ways {
    ($T:ty, $s:expr) => {
        ways!($T, $s;
            ("parse", <$T>::parse($s).ok()),
            ("TryFrom<String>", <$T>::try_from($s.to_owned()).ok()),
            ("TryFrom<Box<str>>", <$T>::try_from(Box::<str>::from($s)).ok()),
            ("TryFrom<Cow>", <$T>::try_from(Cow::Borrowed($s)).ok()),
            ("TryFrom<owned Cow>", <$T>::try_from(Cow::<str>::Owned($s.to_owned())).ok())
        )
    };
}

macro_rules! open_ways {
    ($T:ty, $s:expr) => {
        ways!($T, $s;
            ("parse", Some(<$T>::parse($s))),
            ("From<String>", Some(<$T>::from($s.to_owned()))),
            ("From<Box<str>>", Some(<$T>::from(Box::<str>::from($s)))),
            ("From<Cow>", Some(<$T>::from(Cow::Borrowed($s)))),
            ("From<owned Cow>", Some(<$T>::from(Cow::<str>::Owned($s.to_owned()))))
        )
    };
}

/// Printing: as expected, the same through serde, and parsed to an equal value again.
fn printed<T>(v: &T, want: &str) -> Res
where
    T: Display + Debug + PartialEq + FromStr + Serialize,
{
    ensure_eq!(v.to_string(), want, "text of {v:?}");
    ensure_eq!(serde_yaml::to_value(v).ok(), Some(YamlValue::from(want)), "serialised {v:?}");
    ensure_eq!(T::from_str(want).ok().as_ref(), Some(v), "parsed text {want:?} of {v:?}");
    Ok(())
}

/// Decided: accepted with these parts, rejected, or left open.
enum Want<T> {
    Parts(T),
    Reject,
    /// No claim on acceptance; when accepted, with these parts.
    Open(T),
    /// No claim.
    Free,
}

impl<T> Want<T> {
    fn decide(self, s: &str, accepted: bool) -> Result<Option<T>, String> {
        match self {
            Want::Parts(p) => {
                ensure!(accepted, "{s:?} is rejected");
                Ok(Some(p))
            }
            Want::Reject => {
                ensure!(!accepted, "{s:?} is accepted");
                Ok(None)
            }
            Want::Open(p) => Ok(accepted.then_some(p)),
            Want::Free => Ok(None),
        }
    }
}

// ---- C19 ----

type Bits = (bool, bool, bool);

fn bits(p: Permissions) -> Bits {
    (p.read, p.write, p.mknod)
}

fn perms_text((r, w, m): Bits) -> String {
    [(r, 'r'), (w, 'w'), (m, 'm')].into_iter().filter_map(|(b, c)| b.then_some(c)).collect()
}

/// Permissions text; `None` when some letter is unknown, and whether a letter is repeated.
fn ref_perms(s: &str) -> Option<(Bits, bool)> {
    if !s.chars().all(|c| "rwm".contains(c)) {
        return None;
    }
    let b = (s.contains('r'), s.contains('w'), s.contains('m'));
    Some((b, perms_text(b).len() != s.len()))
}

fn ref_device(s: &str) -> Want<(String, String, Bits)> {
    let parts: Vec<&str> = s.splitn(3, ':').collect();
    let [host, container, ..] = parts[..] else { return Want::Reject };
    if !container.starts_with('/') {
        return Want::Reject;
    }
    let perms = parts.get(2).copied();
    let Some((b, repeated)) = ref_perms(perms.unwrap_or("")) else { return Want::Reject };
    let out = (host.to_owned(), container.to_owned(), b);
    if host.is_empty() || perms == Some("") || repeated {
        Want::Open(out)
    } else {
        Want::Parts(out)
    }
}

fn perms_strategy() -> BoxedStrategy<String> {
    prop_oneof![
        4 => prop::sample::subsequence(vec!['r', 'w', 'm'], 1..=3).prop_shuffle().prop_map(|v| v.into_iter().collect()),
        1 => "[rwm]{0,4}",
    ]
    .boxed()
}

fn device_text() -> BoxedStrategy<String> {
    (
        prop_oneof![3 => gen::abs_path(), 1 => gen::host_path(), 1 => "[a-zA-Z0-9._=,-]{1,8}", 1 => "[^:\\n\\r\\x00]{1,6}"],
        prop_oneof![4 => gen::abs_path(), 1 => "/[^:\\n\\r\\x00]{0,6}"],
        prop_oneof![1 => Just(None), 2 => perms_strategy().prop_map(Some)],
    )
        .prop_map(|(h, c, p)| p.map_or_else(|| format!("{h}:{c}"), |p| format!("{h}:{c}:{p}")))
        .boxed()
}

const DEVICE: &[Field<Device>] = &[("{services: {svc: {devices: ['@']}}}", |c| c.services["svc"].devices.first().cloned())];

fn check_device(s: &String, cov: &mut Cov) -> Res {
    let s = s.as_str();
    let got = ways!(Device, s;);
    in_documents(DEVICE, s, got.as_ref())?;
    let Some((host, container, b)) = ref_device(s).decide(s, got.is_some())? else { return Ok(()) };
    cov.nontrivial();
    let got = got.expect("accepted");
    ensure_eq!(got.host_path.as_os_str().to_str(), Some(host.as_str()), "host path of {s:?}");
    ensure_eq!(got.container_path.as_path().as_os_str().to_str(), Some(container.as_str()), "container path of {s:?}");
    ensure_eq!(bits(got.permissions), b, "permissions of {s:?}");
    let made = Device {
        host_path: host.as_str().into(),
        container_path: container.parse().map_err(|e| format!("{container:?}: {e}"))?,
        permissions: Permissions { read: b.0, write: b.1, mknod: b.2 },
    };
    ensure_eq!(made, got, "device made from the parts of {s:?}");
    ensure_eq!(got.permissions.any(), b.0 || b.1 || b.2, "any permission of {s:?}");
    let p = perms_text(b);
    let want = if p.is_empty() { format!("{host}:{container}") } else { format!("{host}:{container}:{p}") };
    printed(&got, &want)
}

#[derive(Clone, PartialEq, Debug)]
struct RuleParts {
    kind: char,
    major: Option<u16>,
    minor: Option<u16>,
    perms: Bits,
}

/// Number or `*`; the flag says whether the text is left open.
fn ref_number(s: &str) -> Option<(Option<u16>, bool)> {
    if s == "*" {
        return Some((None, false));
    }
    if s.is_empty() {
        return Some((None, true));
    }
    let digits = s.strip_prefix('+').unwrap_or(s);
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let n: u16 = digits.parse().ok()?;
    Some((Some(n), s.starts_with('+') || (s.len() > 1 && s.starts_with('0'))))
}

fn ref_rule(s: &str) -> Want<RuleParts> {
    let parts: Vec<&str> = s.splitn(3, ' ').collect();
    let [kind, numbers, ..] = parts[..] else { return Want::Reject };
    if !["a", "b", "c"].contains(&kind) {
        return Want::Reject;
    }
    let Some((major, minor)) = numbers.split_once(':') else { return Want::Reject };
    let (Some(major), Some(minor)) = (ref_number(major), ref_number(minor)) else { return Want::Reject };
    let perms = parts.get(2).copied();
    let Some((b, repeated)) = ref_perms(perms.unwrap_or("")) else { return Want::Reject };
    let out = RuleParts { kind: kind.chars().next().expect("kind"), major: major.0, minor: minor.0, perms: b };
    if major.1 || minor.1 || repeated || perms == Some("") {
        Want::Open(out)
    } else {
        Want::Parts(out)
    }
}

fn rule_text() -> BoxedStrategy<String> {
    let number = || prop_oneof![
        3 => gen::port().prop_map(|p| p.to_string()),
        3 => Just("*".to_owned()),
        1 => prop::sample::select(vec!["65536", "70000", "00", "-1", "", "99999999999999999999", "1*"]).prop_map(String::from),
    ];
    ("[abc]", number(), number(), prop::option::of(perms_strategy()))
        .prop_map(|(k, a, b, p)| match p {
            Some(p) => format!("{k} {a}:{b} {p}"),
            None => format!("{k} {a}:{b}"),
        })
        .boxed()
}

const RULE: &[Field<CgroupRule>] = &[(
    "{services: {svc: {device_cgroup_rules: ['@']}}}",
    |c| c.services["svc"].device_cgroup_rules.first().copied(),
)];

fn check_rule(s: &String, cov: &mut Cov) -> Res {
    let s = s.as_str();
    let got = ways!(CgroupRule, s;);
    in_documents(RULE, s, got.as_ref())?;
    let Some(p) = ref_rule(s).decide(s, got.is_some())? else { return Ok(()) };
    cov.nontrivial();
    let got = got.expect("accepted");
    let num = |n: MajorMinorNumber| match n {
        MajorMinorNumber::All => None,
        MajorMinorNumber::Integer(n) => Some(n),
    };
    let kind = match p.kind {
        'a' => Kind::All,
        'b' => Kind::Block,
        _ => Kind::Char,
    };
    ensure_eq!((got.kind, num(got.major), num(got.minor), bits(got.permissions)), (kind, p.major, p.minor, p.perms), "{s:?}");
    let t = |n: Option<u16>| n.map_or_else(|| "*".to_owned(), |n| n.to_string());
    let perms = perms_text(p.perms);
    let want = format!("{} {}:{}{}{perms}", p.kind, t(p.major), t(p.minor), if perms.is_empty() { "" } else { " " });
    printed(&got, &want)
}

fn check_device_parts(s: &String, cov: &mut Cov) -> Res {
    let s = s.as_str();
    let kind = [("a", Kind::All), ("b", Kind::Block), ("c", Kind::Char)].into_iter().find(|k| k.0 == s);
    ensure_eq!(Kind::from_str(s).ok(), kind.map(|k| k.1), "kind {s:?}");
    ensure_eq!(Kind::try_from(s).ok(), kind.map(|k| k.1), "kind {s:?} with TryFrom");
    if let Some(c) = s.chars().next() {
        if s.chars().count() == 1 {
            ensure_eq!(Kind::try_from(c).ok(), kind.map(|k| k.1), "kind {c:?}");
        }
    }
    if let Some((_, k)) = kind {
        cov.nontrivial();
        ensure_eq!((k.to_string().as_str(), k.as_char().to_string().as_str(), char::from(k).to_string().as_str()), (s, s, s), "text of {k:?}");
    }
    ensure_eq!(Permissions::from_str(s).ok(), Permissions::try_from(s).ok(), "permissions {s:?}");
    match ref_perms(s) {
        None => ensure!(Permissions::from_str(s).is_err(), "permissions {s:?} accepted"),
        Some((b, repeated)) => {
            cov.nontrivial();
            match Permissions::from_str(s) {
                Ok(p) => {
                    ensure_eq!(bits(p), b, "permissions {s:?}");
                    ensure_eq!(p.to_string(), perms_text(b), "text of {p:?}");
                    ensure_eq!(p.any(), !s.is_empty(), "any of {p:?}");
                    ensure_eq!(p == Permissions::all(), b == (true, true, true), "all, for {p:?}");
                }
                Err(e) => ensure!(repeated, "permissions {s:?}: {e}"),
            }
        }
    }
    ensure_eq!(MajorMinorNumber::from_str(s).ok(), MajorMinorNumber::try_from(s).ok(), "number {s:?}");
    match ref_number(s) {
        None => ensure!(MajorMinorNumber::from_str(s).is_err(), "number {s:?} accepted"),
        Some((n, open)) => {
            cov.nontrivial();
            match MajorMinorNumber::from_str(s) {
                Ok(got) => {
                    ensure_eq!(got, n.map_or(MajorMinorNumber::All, MajorMinorNumber::Integer), "number {s:?}");
                    ensure_eq!(got.to_string(), n.map_or_else(|| "*".to_owned(), |n| n.to_string()), "text of {got:?}");
                    if let Some(n) = n {
                        ensure!(got == n && MajorMinorNumber::from(n) == got && got != n.wrapping_add(1), "comparison of {got:?}");
                    } else {
                        ensure!(got != 0 && got != 65535, "comparison of {got:?}");
                    }
                }
                Err(e) => ensure!(open, "number {s:?}: {e}"),
            }
        }
    }
    Ok(())
}

/// (weight, [(path, weight)], four lists of (path, rate))
type Blkio = (Option<u16>, Vec<(String, u16)>, [Vec<(String, u64)>; 4]);

const RATES: [&str; 4] = ["device_read_bps", "device_read_iops", "device_write_bps", "device_write_iops"];

fn check_blkio((weight, devices, rates): &Blkio, cov: &mut Cov) -> Res {
    const T: &str = "{services: {svc: {blkio_config: '@'}}}";
    let mut m = serde_yaml::Mapping::new();
    let entry = |p: &str, k: &str, v: YamlValue| -> YamlValue {
        YamlValue::Mapping([("path".into(), p.into()), (k.into(), v)].into_iter().collect())
    };
    let mut ok = weight.is_none_or(|w| (10..=1000).contains(&w));
    if let Some(w) = weight {
        m.insert("weight".into(), (*w).into());
    }
    for (name, list) in RATES.iter().zip(rates) {
        if !list.is_empty() {
            let bytes = name.ends_with("bps");
            m.insert((*name).into(), list.iter().map(|(p, r)| entry(p, "rate", if bytes { format!("{r}b").into() } else { (*r).into() })).collect::<Vec<_>>().into());
        }
    }
    if !devices.is_empty() {
        m.insert("weight_device".into(), devices.iter().map(|(p, w)| entry(p, "weight", (*w).into())).collect::<Vec<_>>().into());
    }
    ok &= devices.iter().all(|d| d.0.starts_with('/') && (10..=1000).contains(&d.1));
    ok &= rates.iter().flatten().all(|d| d.0.starts_with('/'));
    let doc = YamlValue::Mapping(m);
    let got = tmpl::parse(&tmpl::fill(T, &doc))?;
    ensure_eq!(got.is_some(), ok, "{doc:?} accepted");
    let Some(c) = got else { return Ok(()) };
    cov.nontrivial_if(rates.iter().any(|r| !r.is_empty()) || !devices.is_empty());
    let Some(b) = &c.services["svc"].blkio_config else { fail!("{doc:?} is lost") };
    ensure_eq!(b.weight.map(u16::from), *weight, "weight of {doc:?}");
    ensure_eq!(
        b.weight_device.iter().map(|d| (d.path.as_path().to_str().unwrap_or("").to_owned(), u16::from(d.weight))).collect::<Vec<_>>(),
        *devices,
        "device weights of {doc:?}"
    );
    let bps = |l: &[compose_spec::service::blkio_config::BpsLimit]| -> Vec<(String, u64)> {
        l.iter().map(|d| (d.path.as_path().to_str().unwrap_or("").to_owned(), d.rate.into_bytes().unwrap_or(0))).collect()
    };
    let iops = |l: &[compose_spec::service::blkio_config::IopsLimit]| -> Vec<(String, u64)> {
        l.iter().map(|d| (d.path.as_path().to_str().unwrap_or("").to_owned(), d.rate)).collect()
    };
    let all = [bps(&b.device_read_bps), iops(&b.device_read_iops), bps(&b.device_write_bps), iops(&b.device_write_iops)];
    for (i, name) in RATES.iter().enumerate() {
        ensure_eq!(all[i], rates[i], "{name} of {doc:?}");
    }
    ensure_eq!(b.is_empty(), weight.is_none() && devices.is_empty() && rates.iter().all(Vec::is_empty), "is_empty of {b:?}");
    let v = serde_yaml::to_value(&c).map_err(|e| e.to_string())?;
    ensure_eq!(tmpl::hole(T, &v), Some(&doc), "written form");
    Ok(())
}

pub fn c19() -> Property {
    let path = || prop_oneof![12 => gen::abs_path(), 1 => gen::host_path()];
    let rates = move || prop::collection::vec((path(), gen::edge_u64()), 0..3);
    let weight = || prop_oneof![8 => 10..=1000u16, 1 => prop::sample::select(vec![0u16, 9, 10, 11, 500, 999, 1000, 1001, 65535])];
    Property {
        id: "C19",
        subs: vec![
            sub("devices", "device mappings with and without random edits; non-trivial: accepted", 30_000, || gen::mixed(device_text()), check_device),
            sub("cgroup rules", "device cgroup rules with and without random edits; non-trivial: accepted", 30_000, || gen::mixed(rule_text()), check_rule),
            sub(
                "parts",
                "kinds, permissions and numbers with and without random edits; non-trivial: one of them accepted",
                15_000,
                || gen::mixed(prop_oneof![
                    "[abc]".prop_map(String::from),
                    perms_strategy(),
                    any::<u16>().prop_map(|n| n.to_string()),
                    Just("*".to_owned()),
                    (65_500..70_000u32).prop_map(|n| n.to_string()),
                ].boxed()),
                check_device_parts,
            ),
            all(
                "every permission and kind",
                "the full product of kinds, permissions and number forms; non-trivial: all",
                || {
                    let mut out = Vec::new();
                    for k in ["a", "b", "c"] {
                        for a in ["*", "0", "7", "65535"] {
                            for b in ["*", "0", "3", "65535"] {
                                for p in ["", " r", " w", " m", " rw", " wr", " rm", " mr", " wm", " mw", " rwm", " mwr", " wrm", " rmw"] {
                                    out.push(format!("{k} {a}:{b}{p}"));
                                }
                            }
                        }
                    }
                    out
                },
                check_rule,
            ),
            sub(
                "block IO",
                "block IO settings with every kind of limit; non-trivial: some device limit",
                8_000,
                move || (
                    prop::option::weighted(0.6, weight()),
                    prop::collection::vec((path(), weight()), 0..3),
                    [rates(), rates(), rates(), rates()],
                ),
                check_blkio,
            ),
        ],
        known: vec![],
        assumptions: &[
            "no claim on an empty host path, empty or repeated permissions, and empty, signed or zero-padded device numbers",
            "host paths are valid UTF-8 without colon",
        ],
    }
}

// ---- C20 ----

fn id(s: &str) -> Option<Identifier> {
    ref_identifier(s).then(|| Identifier::new(s).expect("identifier"))
}

fn prefixed(base: BoxedStrategy<String>) -> BoxedStrategy<String> {
    prop_oneof![
        2 => base.clone(),
        6 => (prop::sample::select(vec!["service:", "container:", "Service:", "service", "service: ", "container:container:", "container:service:", "service:service:", ":"]), base.clone()).prop_map(|(p, b)| format!("{p}{b}")),
        1 => prop::sample::select(vec!["none", "host", "bridge", "shareable", "service:", "container:", "None", "HOST", "private", "slirp4netns:a=b", "ns:/proc/1"]).prop_map(String::from),
    ]
    .boxed()
}

const NETWORK_MODE: &[Field<NetworkMode>] = &[("{services: {svc: {network_mode: '@'}}}", |c| match &c.services["svc"].network_config {
    Some(NetworkConfig::NetworkMode(m)) => Some(m.clone()),
    _ => None,
})];

fn check_network_mode(s: &String, cov: &mut Cov) -> Res {
    let s = s.as_str();
    let got = all_ways!(NetworkMode, s);
    let want = match s {
        "none" => Some(NetworkMode::None),
        "host" => Some(NetworkMode::Host),
        s => {
            if let Some(x) = s.strip_prefix("service:") {
                id(x).map(NetworkMode::Service)
            } else if let Some(x) = s.strip_prefix("container:") {
                id(x).map(NetworkMode::Container)
            } else {
                Some(NetworkMode::Other(s.to_owned()))
            }
        }
    };
    ensure_eq!(got, want, "network mode {s:?}");
    in_documents(NETWORK_MODE, s, want.as_ref())?;
    let Some(v) = got else { return Ok(()) };
    cov.nontrivial_if(!v.is_other());
    printed(&v, s)?;
    ensure_eq!(String::from(v.clone()), s, "String from {v:?}");
    ensure_eq!(Cow::<'static, str>::from(v.clone()), s, "Cow from {v:?}");
    let kinds = [v.is_none(), v.is_host(), v.is_service(), v.is_container(), v.is_other()];
    let want_kinds = match &v {
        NetworkMode::None => [true, false, false, false, false],
        NetworkMode::Host => [false, true, false, false, false],
        NetworkMode::Service(_) => [false, false, true, false, false],
        NetworkMode::Container(_) => [false, false, false, true, false],
        NetworkMode::Other(_) => [false, false, false, false, true],
    };
    ensure_eq!(kinds, want_kinds, "is_* of {v:?}");
    ensure_eq!(v.as_service().map(Identifier::as_str), s.strip_prefix("service:"), "as_service of {v:?}");
    ensure_eq!(v.as_container().map(Identifier::as_str), s.strip_prefix("container:"), "as_container of {v:?}");
    ensure_eq!(v.as_other().map(String::as_str), v.is_other().then_some(s), "as_other of {v:?}");
    Ok(())
}

const IPC: &[Field<Ipc>] = &[("{services: {svc: {ipc: '@'}}}", |c| c.services["svc"].ipc.clone())];

fn check_ipc(s: &String, cov: &mut Cov) -> Res {
    let s = s.as_str();
    let got = all_ways!(Ipc, s);
    let want = if s == "shareable" {
        Some(Ipc::Shareable)
    } else if let Some(x) = s.strip_prefix("service:") {
        id(x).map(Ipc::Service)
    } else {
        Some(Ipc::Other(s.to_owned()))
    };
    ensure_eq!(got, want, "ipc {s:?}");
    in_documents(IPC, s, want.as_ref())?;
    let Some(v) = got else { return Ok(()) };
    cov.nontrivial_if(!v.is_other());
    printed(&v, s)?;
    ensure_eq!(String::from(v.clone()), s, "String from {v:?}");
    ensure_eq!(Cow::<'static, str>::from(v.clone()), s, "Cow from {v:?}");
    ensure_eq!(
        (v.is_shareable(), v.as_service().map(Identifier::as_str), v.as_other().map(String::as_str)),
        (s == "shareable", s.strip_prefix("service:"), v.is_other().then_some(s)),
        "parts of {v:?}"
    );
    ensure_eq!(v.is_service(), s.starts_with("service:"), "is_service of {v:?}");
    ensure_eq!(v.is_other(), s != "shareable" && !s.starts_with("service:"), "is_other of {v:?}");
    Ok(())
}

const LINK: &[Field<Link>] = &[
    ("{services: {svc: {links: ['@']}}}", |c| c.services["svc"].links.first().cloned()),
    ("{services: {svc: {external_links: ['@']}}}", |c| c.services["svc"].external_links.first().cloned()),
];

fn check_link(s: &String, cov: &mut Cov) -> Res {
    let s = s.as_str();
    let got = all_ways!(Link, s);
    let (service, alias) = match s.split_once(':') {
        Some((a, b)) => (a, Some(b.to_owned())),
        None => (s, None),
    };
    let want = id(service).map(|service| Link { service, alias });
    if s.ends_with(':') && !s[..s.len() - 1].contains(':') {
        // an empty alias: no claim on whether it is accepted, but it is kept then
        if let Some(v) = &got {
            ensure_eq!(v.to_string(), s, "{v:?} printed, parsed from {s:?}");
            ensure_eq!(Some(v), want.as_ref(), "link {s:?}");
        }
        return in_documents(LINK, s, got.as_ref());
    }
    ensure_eq!(got, want, "link {s:?}");
    in_documents(LINK, s, want.as_ref())?;
    let Some(v) = got else { return Ok(()) };
    cov.nontrivial();
    printed(&v, s)?;
    ensure_eq!(String::from(v.clone()), s, "String from {v:?}");
    if v.alias.is_none() {
        ensure_eq!(Link::from(v.service.clone()), v, "link from an identifier");
    }
    Ok(())
}

const VOLUMES_FROM: &[Field<VolumesFrom>] = &[("{services: {svc: {volumes_from: ['@']}}}", |c| c.services["svc"].volumes_from.first().cloned())];

fn ref_source(s: &str) -> Option<VolumesFromSource> {
    match s.strip_prefix("container:") {
        Some(x) => id(x).map(VolumesFromSource::Container),
        None => id(s).map(VolumesFromSource::Service),
    }
}

fn check_volumes_from(s: &String, cov: &mut Cov) -> Res {
    let s = s.as_str();
    let got = all_ways!(VolumesFrom, s);
    let (rest, read_only) = if let Some(r) = s.strip_suffix(":ro") {
        (r, true)
    } else {
        (s.strip_suffix(":rw").unwrap_or(s), false)
    };
    // "container:ro" may be a container called "ro", or a service called "container" with an option
    if s == "container:ro" || s == "container:rw" {
        return in_documents(VOLUMES_FROM, s, got.as_ref());
    }
    let want = ref_source(rest).map(|source| VolumesFrom { source, read_only });
    ensure_eq!(got, want, "volumes_from {s:?}");
    in_documents(VOLUMES_FROM, s, want.as_ref())?;
    let Some(v) = got else { return Ok(()) };
    cov.nontrivial();
    let text = v.to_string();
    ensure_eq!(VolumesFrom::parse(text.as_str()).ok().as_ref(), Some(&v), "parsed text {text:?} of {v:?}");
    ensure_eq!(String::from(v.clone()), text, "String from {v:?}");
    ensure_eq!(serde_yaml::to_value(&v).ok(), Some(text.as_str().into()), "serialised {v:?}");
    // printing only drops or adds the default `:rw`
    ensure_eq!(text.strip_suffix(":rw").unwrap_or(&text), s.strip_suffix(":rw").unwrap_or(s), "text of {v:?}");
    if !read_only {
        ensure_eq!(VolumesFrom::from(v.source.clone()), v, "from the source");
    }
    Ok(())
}

fn check_volumes_from_source(s: &String, cov: &mut Cov) -> Res {
    let s = s.as_str();
    let got = all_ways!(VolumesFromSource, s);
    let want = ref_source(s);
    ensure_eq!(got, want, "volumes_from source {s:?}");
    let Some(v) = got else { return Ok(()) };
    cov.nontrivial();
    printed(&v, s)?;
    ensure_eq!(String::from(v.clone()), s, "String from {v:?}");
    for read_only in [false, true] {
        let f = VolumesFrom { source: v.clone(), read_only };
        let text = f.to_string();
        ensure_eq!(VolumesFrom::parse(text.as_str()).ok(), Some(f.clone()), "parsed text {text:?} of {f:?}");
        ensure_eq!(String::from(f.clone()), text, "String from {f:?}");
    }
    Ok(())
}

const MAC: &[Field<MacAddress>] = &[
    ("{services: {svc: {mac_address: '@'}}}", |c| c.services["svc"].mac_address),
    ("{services: {svc: {networks: {a: {mac_address: '@'}}}}}", |c| match &c.services["svc"].network_config {
        Some(NetworkConfig::Networks(n)) => n.as_long()?["a"].as_ref()?.mac_address,
        _ => None,
    }),
];

fn ref_mac(s: &str) -> Want<[u8; 6]> {
    let parts: Vec<&str> = s.split(':').collect();
    if parts.len() != 6 {
        return Want::Reject;
    }
    let mut out = [0; 6];
    let mut open = false;
    for (o, p) in out.iter_mut().zip(&parts) {
        let digits = p.strip_prefix('+').unwrap_or(p);
        if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_hexdigit()) {
            return Want::Reject;
        }
        open |= p.len() != 2 || digits.len() != p.len();
        let Ok(b) = u8::from_str_radix(digits, 16) else { return Want::Reject };
        *o = b;
    }
    if open {
        Want::Open(out)
    } else {
        Want::Parts(out)
    }
}

fn mac_text() -> BoxedStrategy<String> {
    let hex = prop_oneof![
        10 => any::<u8>().prop_map(|b| format!("{b:02x}")),
        4 => any::<u8>().prop_map(|b| format!("{b:02X}")),
        1 => (0..16u8).prop_map(|b| format!("0{b:x}")),
        1 => prop::sample::select(vec!["", "0", "g0", "100", "fff", "0x", "-1", " 1", "ff ", "٣٣"]).prop_map(String::from),
    ];
    prop_oneof![
        3 => prop::array::uniform6(any::<u8>()).prop_map(|b| b.map(|b| format!("{b:02x}")).join(":")),
        3 => prop::collection::vec(hex.clone(), 6).prop_map(|v| v.join(":")),
        1 => prop::collection::vec(hex, 4..9).prop_map(|v| v.join(":")),
        1 => prop::array::uniform6(any::<u8>()).prop_map(|b| b.map(|b| format!("{b:02x}")).join("-")),
    ]
    .boxed()
}

fn check_mac(s: &String, cov: &mut Cov) -> Res {
    let s = s.as_str();
    let got = ways!(MacAddress, s;);
    in_documents(MAC, s, got.as_ref())?;
    let Some(bytes) = ref_mac(s).decide(s, got.is_some())? else { return Ok(()) };
    cov.nontrivial();
    let v = got.expect("accepted");
    ensure_eq!(v.0, bytes, "bytes of {s:?}");
    ensure_eq!(MacAddress::from(bytes), v, "from the bytes of {s:?}");
    ensure_eq!(<[u8; 6]>::from(v), bytes, "into bytes of {s:?}");
    ensure_eq!(v.as_ref(), &bytes[..], "as_ref of {s:?}");
    printed(&v, &bytes.map(|b| format!("{b:02x}")).join(":"))
}

/// Hosts as (host, separator, address, brackets) and whether they are given as a list.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hosts {
    entries: Vec<(String, bool, String, bool)>,
    list: bool,
    raw: Option<String>,
}

const HOSTS: &[(&str, fn(&Compose) -> Option<Vec<(String, IpAddr)>>)] = &[
    ("{services: {svc: {extra_hosts: '@'}}}", |c| {
        Some(c.services["svc"].extra_hosts.iter().map(|(k, v)| (k.to_string(), *v)).collect())
    }),
    ("{services: {svc: {build: {extra_hosts: '@'}}}}", |c| {
        Some(long_build(c)?.extra_hosts.iter().map(|(k, v)| (k.to_string(), *v)).collect())
    }),
];

fn strip_brackets(s: &str) -> Option<&str> {
    s.strip_prefix('[').and_then(|s| s.strip_suffix(']'))
}

fn check_hosts(h: &Hosts, cov: &mut Cov) -> Res {
    let mut seen = std::collections::HashSet::new();
    let entries: Vec<_> = h.entries.iter().filter(|e| seen.insert(e.0.clone())).collect();
    let item = |e: &(String, bool, String, bool)| if e.3 { format!("[{}]", e.2) } else { e.2.clone() };
    let mut ok = true;
    let mut want = Vec::new();
    let doc: YamlValue = if h.list {
        let mut items: Vec<String> = entries.iter().map(|e| format!("{}{}{}", e.0, if e.1 { '=' } else { ':' }, item(e))).collect();
        items.extend(h.raw.clone());
        let mut keys = std::collections::HashSet::new();
        for i in &items {
            let Some((k, v)) = i.split_once(['=', ':']) else {
                ok = false;
                continue;
            };
            if !keys.insert(k.to_owned()) {
                // no claim on repeated hosts
                return Ok(());
            }
            let address = strip_brackets(v).unwrap_or(v);
            match address.parse::<IpAddr>() {
                Ok(IpAddr::V4(_)) if address != v => return Ok(()),
                Ok(a) if ref_hostname(k) => want.push((k.to_owned(), a)),
                _ => ok = false,
            }
        }
        items.into_iter().map(YamlValue::from).collect::<Vec<_>>().into()
    } else {
        for e in &entries {
            match e.2.parse::<IpAddr>() {
                Ok(IpAddr::V4(_)) if e.3 => return Ok(()),
                Ok(a) if ref_hostname(&e.0) => want.push((e.0.clone(), a)),
                _ => ok = false,
            }
        }
        YamlValue::Mapping(entries.iter().map(|e| (e.0.as_str().into(), item(e).into())).collect())
    };
    cov.label(if h.list { "list" } else { "map" });
    for (t, get) in HOSTS {
        let got = tmpl::parse(&tmpl::fill(t, &doc))?;
        ensure_eq!(got.is_some(), ok, "{doc:?} accepted in {t:?}");
        let Some(c) = got else { continue };
        cov.nontrivial_if(!want.is_empty());
        ensure_eq!(get(&c).as_ref(), Some(&want), "hosts of {doc:?}");
        let v = serde_yaml::to_value(&c).map_err(|e| e.to_string())?;
        let again: Compose = serde_yaml::from_value(v.clone()).map_err(|e| format!("{v:?} as written: {e}"))?;
        ensure_eq!(again, c, "hosts as written");
        let written: Vec<(String, String)> = match tmpl::hole(t, &v) {
            None => vec![],
            Some(w) => serde_yaml::from_value::<IndexMap<String, String>>(w.clone()).map_err(|e| format!("{w:?}: {e}"))?.into_iter().collect(),
        };
        ensure_eq!(written, want.iter().map(|(k, v)| (k.clone(), v.to_string())).collect::<Vec<_>>(), "written hosts");
    }
    Ok(())
}

fn ip_text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => any::<[u8; 4]>().prop_map(|b| IpAddr::from(b).to_string()),
        2 => any::<[u16; 8]>().prop_map(|b| IpAddr::from(b).to_string()),
        2 => any::<[u8; 8]>().prop_map(|b| IpAddr::from([0u16, 0, u16::from(b[0] & 1), 0, u16::from(b[1]), 0, 0, u16::from(b[2])]).to_string()),
        1 => prop::sample::select(vec!["::1", "::", "::ffff:1.2.3.4", "0.0.0.0", "255.255.255.255", "1:2:3:4:5:6:7:8", "fe80::1"]).prop_map(String::from),
    ]
    .boxed()
}

/// Plain text settings are kept as they are.
const PLAIN: &[Field<String>] = &[
    ("{services: {svc: {pid: '@'}}}", |c| c.services["svc"].pid.clone()),
    ("{services: {svc: {userns_mode: '@'}}}", |c| c.services["svc"].userns_mode.clone()),
    ("{services: {svc: {isolation: '@'}}}", |c| c.services["svc"].isolation.clone()),
    ("{services: {svc: {cgroup_parent: '@'}}}", |c| c.services["svc"].cgroup_parent.clone()),
    ("{services: {svc: {runtime: '@'}}}", |c| c.services["svc"].runtime.clone()),
    ("{services: {svc: {stop_signal: '@'}}}", |c| c.services["svc"].stop_signal.clone()),
    ("{services: {svc: {build: {isolation: '@'}}}}", |c| long_build(c)?.isolation.clone()),
    ("{services: {svc: {build: {target: '@'}}}}", |c| long_build(c)?.target.clone()),
    ("{services: {svc: {logging: {driver: '@'}}}}", |c| c.services["svc"].logging.as_ref()?.driver.clone()),
    ("{services: {}, volumes: {a: {driver: '@'}}}", |c| c.volumes["a"].as_ref()?.as_compose()?.driver.clone()),
    ("{services: {}, configs: {a: {environment: '@'}}}", |c| match &c.configs["a"].as_compose()?.source {
        compose_spec::config::Source::Environment(e) => Some(e.clone()),
        _ => None,
    }),
    ("{services: {}, configs: {a: {content: '@'}}}", |c| match &c.configs["a"].as_compose()?.source {
        compose_spec::config::Source::Content(e) => Some(e.clone()),
        _ => None,
    }),
    ("{services: {}, secrets: {a: {environment: '@'}}}", |c| match &c.secrets["a"].as_compose()?.source {
        compose_spec::secret::Source::Environment(e) => Some(e.clone()),
        _ => None,
    }),
];

/// A network endpoint: (aliases, ipv4, ipv6, link local addresses, mac, options, priority).
type Endpoint = (Vec<String>, Option<[u8; 4]>, Option<[u16; 8]>, Vec<String>, Option<[u8; 6]>, Vec<(String, u64)>, Option<u64>);

fn check_endpoint((aliases, v4, v6, local, mac, options, priority): &Endpoint, cov: &mut Cov) -> Res {
    const T: &str = "{services: {svc: {networks: {z: null, a: '@'}}}}";
    let dedup = |v: &[String]| -> Vec<String> {
        let mut seen = std::collections::HashSet::new();
        v.iter().filter(|x| seen.insert((*x).clone())).cloned().collect()
    };
    let (aliases, local) = (dedup(aliases), dedup(local));
    let options: IndexMap<String, u64> = options.iter().cloned().collect();
    let mut m = serde_yaml::Mapping::new();
    let list = |v: &[String]| -> YamlValue { v.iter().map(|s| YamlValue::from(s.as_str())).collect::<Vec<_>>().into() };
    if !aliases.is_empty() {
        m.insert("aliases".into(), list(&aliases));
    }
    if let Some(a) = v4 {
        m.insert("ipv4_address".into(), IpAddr::from(*a).to_string().into());
    }
    if let Some(a) = v6 {
        m.insert("ipv6_address".into(), IpAddr::from(*a).to_string().into());
    }
    if !local.is_empty() {
        m.insert("link_local_ips".into(), list(&local));
    }
    if let Some(a) = mac {
        m.insert("mac_address".into(), a.map(|b| format!("{b:02x}")).join(":").into());
    }
    if !options.is_empty() {
        m.insert("driver_opts".into(), YamlValue::Mapping(options.iter().map(|(k, v)| (k.as_str().into(), (*v).into())).collect()));
    }
    if let Some(p) = priority {
        m.insert("priority".into(), (*p).into());
    }
    cov.nontrivial_if(!m.is_empty());
    let doc = YamlValue::Mapping(m);
    let Some(c) = tmpl::parse(&tmpl::fill(T, &doc))? else { fail!("{doc:?} rejected") };
    let n = match &c.services["svc"].network_config {
        Some(NetworkConfig::Networks(ShortOrLong::Long(n))) => {
            ensure_eq!(n.keys().map(Identifier::as_str).collect::<Vec<_>>(), ["z", "a"], "networks");
            ensure!(n["z"].is_none(), "z has options");
            n["a"].clone()
        }
        other => fail!("networks are {other:?}"),
    };
    let Some(n) = n else { fail!("options of {doc:?} are lost") };
    ensure_eq!(n.aliases.iter().map(|a| a.as_str().to_owned()).collect::<Vec<_>>(), aliases, "aliases");
    ensure_eq!(n.ipv4_address.map(|a| a.octets()), *v4, "ipv4_address");
    ensure_eq!(n.ipv6_address.map(|a| a.segments()), *v6, "ipv6_address");
    ensure_eq!(n.link_local_ips.iter().map(ToString::to_string).collect::<Vec<_>>(), local, "link_local_ips");
    ensure_eq!(n.mac_address.map(|a| a.0), *mac, "mac_address");
    ensure_eq!(
        n.driver_opts.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect::<Vec<_>>(),
        options.iter().map(|(k, v)| (k.clone(), v.to_string())).collect::<Vec<_>>(),
        "driver_opts"
    );
    ensure_eq!(n.priority, *priority, "priority");
    let v = serde_yaml::to_value(&c).map_err(|e| e.to_string())?;
    ensure_eq!(tmpl::hole(T, &v), Some(&doc), "endpoint as written");
    Ok(())
}

pub fn c20() -> Property {
    let name = || prop_oneof![4 => gen::ident(), 1 => prop::sample::select(vec!["ro", "rw", "container", "service", "none", "host"]).prop_map(String::from)].boxed();
    let with_suffix = move || (prefixed(name()), prop::sample::select(vec!["", "", ":ro", ":rw", ":ro:ro", ":RO", ":rw:ro", ":ro:rw", ":z"]))
        .prop_map(|(a, b)| format!("{a}{b}"));
    Property {
        id: "C20",
        subs: vec![
            sub("network mode", "network modes with and without random edits; non-trivial: not an other mode", 20_000, move || gen::mixed(prefixed(name())), check_network_mode),
            sub("ipc", "ipc modes with and without random edits; non-trivial: not an other mode", 20_000, move || gen::mixed(prefixed(name())), check_ipc),
            sub(
                "links",
                "links with and without alias and random edits; non-trivial: accepted",
                20_000,
                move || gen::mixed((name(), prop::option::of(prop_oneof![3 => name(), 1 => "[^\\n\\r\\x00]{1,6}"])).prop_map(|(s, a)| a.map_or(s.clone(), |a| format!("{s}:{a}"))).boxed()),
                check_link,
            ),
            sub("volumes_from", "volumes_from with and without random edits; non-trivial: accepted", 25_000, move || gen::mixed(with_suffix().boxed()), check_volumes_from),
            sub("volumes_from source", "sources and what they print as with each access mode; non-trivial: accepted", 10_000, move || gen::mixed(prefixed(name())), check_volumes_from_source),
            sub("mac address", "MAC addresses with and without random edits; non-trivial: accepted", 25_000, || gen::mixed(mac_text()), check_mac),
            sub(
                "extra hosts",
                "host lists and maps; non-trivial: some host accepted",
                25_000,
                || (
                    prop::collection::vec(
                        (
                            prop_oneof![12 => gen::hostname(), 1 => gen::mixed(gen::hostname())],
                            any::<bool>(),
                            prop_oneof![12 => ip_text(), 1 => gen::mixed(ip_text())],
                            prop::bool::weighted(0.3),
                        ).prop_map(|(h, s, a, b)| { let v6 = a.contains(':'); (h, s, a, b && v6) }),
                        0..4,
                    ),
                    any::<bool>(),
                    prop::option::weighted(0.1, gen::mixed(ip_text())),
                ).prop_map(|(entries, list, raw)| Hosts { entries, list, raw }),
                check_hosts,
            ),
            sub(
                "plain text",
                "text of the settings without a format; non-trivial: not a plain word",
                10_000,
                || (0..PLAIN.len(), prop_oneof![4 => gen::scalar_text(), 1 => gen::text(), 1 => prop::sample::select(vec!["host", "service:a", "container:b", "private", "shareable", ""]).prop_map(String::from)]),
                |(i, s), cov| {
                    cov.nontrivial_if(!s.chars().all(|c| c.is_ascii_alphanumeric()));
                    in_documents(&PLAIN[*i..=*i], s, Some(s))
                },
            ),
            sub(
                "endpoints",
                "service network endpoints with any subset of settings; non-trivial: some setting",
                10_000,
                || (
                    prop::collection::vec(gen::hostname(), 0..3),
                    prop::option::of(any::<[u8; 4]>()),
                    prop::option::of(any::<[u16; 8]>()),
                    prop::collection::vec(ip_text(), 0..3).prop_map(|v| v.iter().filter_map(|s| Some(s.parse::<IpAddr>().ok()?.to_string())).collect()),
                    prop::option::of(any::<[u8; 6]>()),
                    prop::collection::vec(("[a-z.]{1,6}", gen::edge_u64()), 0..3),
                    prop::option::of(gen::edge_u64()),
                ),
                check_endpoint,
            ),
        ],
        known: vec![],
        assumptions: &[
            "no claim on whether an empty link alias is accepted, on `container:ro`/`container:rw` in volumes_from, MAC parts which are not two digits, repeated extra hosts and brackets around IPv4",
        ],
    }
}

// ---- C21 ----

struct Words {
    name: &'static str,
    words: &'static [&'static str],
    /// Further words which are taken: (word, the word it stands for).
    aliases: &'static [(&'static str, &'static str)],
    open: bool,
    /// The word for the value parsed from a text, checked against every other way to get it.
    decide: fn(&str) -> Result<Option<String>, String>,
    fields: &'static [Field<String>],
    default: Option<fn() -> String>,
}

macro_rules! closed {
    ($T:ty, $text:ident) => {
        |s| {
            let v: Option<$T> = serde_yaml::from_value(s.into()).ok();
            let quoted: Option<$T> = serde_yaml::to_string(s).ok().and_then(|t| serde_yaml::from_str(&t).ok());
            if serde_yaml::to_string(s).ok().and_then(|t| serde_yaml::from_str::<String>(&t).ok()).as_deref() == Some(s) {
                ensure_eq!(quoted, v, "{s:?} from text");
            }
            let Some(v) = v else { return Ok(None) };
            let word = v.$text().to_owned();
            ensure_eq!(AsRef::<str>::as_ref(&v), word, "as_ref of {v:?}");
            ensure_eq!(v.to_string(), word, "Display of {v:?}");
            ensure_eq!(serde_yaml::to_value(&v).ok(), Some(YamlValue::from(word.as_str())), "serialised {v:?}");
            let again: Option<$T> = serde_yaml::from_value(word.as_str().into()).ok();
            ensure_eq!(again, Some(v.clone()), "parsed {word:?}");
            Ok(Some(word))
        }
    };
}

macro_rules! open {
    ($T:ty, $other:path) => {
        |s| {
            let v = open_ways!($T, s);
            let Some(v) = v else { return Ok(None) };
            let word = v.as_str().to_owned();
            ensure_eq!(AsRef::<str>::as_ref(&v), word, "as_ref of {v:?}");
            ensure_eq!(String::from(v.clone()), word, "String from {v:?}");
            ensure_eq!(Cow::<'static, str>::from(v.clone()), word, "Cow from {v:?}");
            printed(&v, &word)?;
            if let $other(o) = &v {
                ensure_eq!(*o, word, "text of {v:?}");
                ensure_eq!(<$T>::parse("not a known word").to_string(), "not a known word", "unknown word");
            }
            Ok(Some(match &v {
                $other(_) => format!("other {word}"),
                _ => word,
            }))
        }
    };
}

fn text<T: AsRef<str>>(v: T) -> String {
    v.as_ref().to_owned()
}

fn open_text(words: &[&str], s: &str) -> String {
    if words.contains(&s) {
        s.to_owned()
    } else {
        format!("other {s}")
    }
}

fn deploy_of(c: &Compose) -> Option<&deploy::Deploy> {
    c.services["svc"].deploy.as_ref()
}

const WORDS: &[Words] = &[
    Words {
        name: "pull policy",
        words: &["always", "never", "missing", "build"],
        aliases: &[("if_not_present", "missing")],
        open: false,
        decide: closed!(PullPolicy, as_str),
        fields: &[("{services: {svc: {pull_policy: '@'}}}", |c| c.services["svc"].pull_policy.map(text))],
        default: Some(|| text(PullPolicy::default())),
    },
    Words {
        name: "restart",
        words: &["no", "always", "on-failure", "unless-stopped"],
        aliases: &[],
        open: false,
        decide: closed!(Restart, as_str),
        fields: &[("{services: {svc: {restart: '@'}}}", |c| c.services["svc"].restart.map(text))],
        default: Some(|| text(Restart::default())),
    },
    Words {
        name: "dependency condition",
        words: &["service_started", "service_healthy", "service_completed_successfully"],
        aliases: &[],
        open: false,
        decide: closed!(Condition, as_str),
        fields: &[("{services: {svc: {depends_on: {a: {condition: '@'}}}}}", |c| {
            Some(text(c.services["svc"].depends_on.as_long()?["a"].condition))
        })],
        default: Some(|| text(Condition::default())),
    },
    Words {
        name: "cgroup",
        words: &["host", "private"],
        aliases: &[],
        open: false,
        decide: closed!(Cgroup, as_str),
        fields: &[("{services: {svc: {cgroup: '@'}}}", |c| c.services["svc"].cgroup.map(text))],
        default: None,
    },
    Words {
        name: "uts",
        words: &["host"],
        aliases: &[],
        open: false,
        decide: closed!(Uts, as_str),
        fields: &[("{services: {svc: {uts: '@'}}}", |c| c.services["svc"].uts.map(text))],
        default: Some(|| text(Uts::default())),
    },
    Words {
        name: "deploy mode",
        words: &["global", "replicated"],
        aliases: &[],
        open: false,
        decide: closed!(deploy::Mode, as_str),
        fields: &[("{services: {svc: {deploy: {mode: '@'}}}}", |c| deploy_of(c)?.mode.map(text))],
        default: Some(|| text(deploy::Mode::default())),
    },
    Words {
        name: "restart condition",
        words: &["none", "on-failure", "any"],
        aliases: &[],
        open: false,
        decide: closed!(deploy::RestartCondition, as_str),
        fields: &[("{services: {svc: {deploy: {restart_policy: {condition: '@'}}}}}", |c| {
            deploy_of(c)?.restart_policy.as_ref()?.condition.map(text)
        })],
        default: Some(|| text(deploy::RestartCondition::default())),
    },
    Words {
        name: "failure action",
        words: &["continue", "pause"],
        aliases: &[],
        open: false,
        decide: closed!(deploy::FailureAction, as_str),
        fields: &[
            ("{services: {svc: {deploy: {update_config: {failure_action: '@'}}}}}", |c| deploy_of(c)?.update_config.as_ref()?.failure_action.map(text)),
            ("{services: {svc: {deploy: {rollback_config: {failure_action: '@'}}}}}", |c| deploy_of(c)?.rollback_config.as_ref()?.failure_action.map(text)),
        ],
        default: Some(|| text(deploy::FailureAction::default())),
    },
    Words {
        name: "update order",
        words: &["stop-first", "start-first"],
        aliases: &[],
        open: false,
        decide: closed!(deploy::Order, as_str),
        fields: &[
            ("{services: {svc: {deploy: {update_config: {order: '@'}}}}}", |c| deploy_of(c)?.update_config.as_ref()?.order.map(text)),
            ("{services: {svc: {deploy: {rollback_config: {order: '@'}}}}}", |c| deploy_of(c)?.rollback_config.as_ref()?.order.map(text)),
        ],
        default: Some(|| text(deploy::Order::default())),
    },
    Words {
        name: "watch action",
        words: &["rebuild", "sync", "sync+restart"],
        aliases: &[],
        open: false,
        decide: closed!(develop::Action, as_str),
        fields: &[("{services: {svc: {develop: {watch: [{path: a, target: /a, action: '@'}]}}}}", |c| {
            Some(text(c.services["svc"].develop.as_ref()?.watch.first()?.action))
        })],
        default: None,
    },
    Words {
        name: "port mode",
        words: &["host", "ingress"],
        aliases: &[],
        open: false,
        decide: closed!(ports::Mode, as_str),
        fields: &[("{services: {svc: {ports: [{target: 1, mode: '@'}]}}}", |c| {
            match c.services["svc"].ports.first()? {
                ShortOrLong::Long(p) => p.mode.map(text),
                ShortOrLong::Short(_) => None,
            }
        })],
        default: Some(|| text(ports::Mode::default())),
    },
    Words {
        name: "bind propagation",
        words: &["private", "shared", "slave", "unbindable", "rprivate", "rshared", "rslave", "runbindable"],
        aliases: &[],
        open: false,
        decide: closed!(BindPropagation, as_str),
        fields: &[("{services: {svc: {volumes: [{type: bind, source: /a, target: /b, bind: {propagation: '@'}}]}}}", |c| {
            match c.services["svc"].volumes.first()? {
                ShortOrLong::Long(Mount::Bind(b)) => b.bind.as_ref()?.propagation.map(text),
                _ => None,
            }
        })],
        default: Some(|| text(BindPropagation::default())),
    },
    Words {
        name: "selinux",
        words: &["z", "Z"],
        aliases: &[],
        open: false,
        decide: |s| {
            let v: Option<SELinux> = serde_yaml::from_value(s.into()).ok();
            let Some(v) = v else { return Ok(None) };
            ensure_eq!(v.as_char().to_string(), v.as_str(), "as_char of {v:?}");
            ensure_eq!(char::from(v), v.as_char(), "char from {v:?}");
            ensure_eq!(v.to_string(), v.as_str(), "Display of {v:?}");
            ensure_eq!(v.as_ref() as &str, v.as_str(), "as_ref of {v:?}");
            ensure_eq!(serde_yaml::to_value(v).ok(), Some(v.as_str().into()), "serialised {v:?}");
            ensure_eq!(v, if s == "z" { SELinux::Shared } else { SELinux::Private }, "{s:?}");
            Ok(Some(v.as_str().to_owned()))
        },
        fields: &[("{services: {svc: {volumes: [{type: bind, source: /a, target: /b, bind: {selinux: '@'}}]}}}", |c| {
            match c.services["svc"].volumes.first()? {
                ShortOrLong::Long(Mount::Bind(b)) => b.bind.as_ref()?.selinux.map(|s| s.to_string()),
                _ => None,
            }
        })],
        default: None,
    },
    Words {
        name: "endpoint mode",
        words: &["vip", "dnsrr"],
        aliases: &[],
        open: true,
        decide: open!(EndpointMode, EndpointMode::Other),
        fields: &[("{services: {svc: {deploy: {endpoint_mode: '@'}}}}", |c| deploy_of(c)?.endpoint_mode.as_ref().map(text))],
        default: None,
    },
    Words {
        name: "capability",
        words: &["gpu", "tpu"],
        aliases: &[],
        open: true,
        decide: open!(Capability, Capability::Other),
        fields: &[("{services: {svc: {deploy: {resources: {reservations: {devices: [{capabilities: ['@']}]}}}}}}", |c| {
            deploy_of(c)?.resources.as_ref()?.reservations.as_ref()?.devices.first()?.capabilities.first().map(text)
        })],
        default: None,
    },
    Words {
        name: "protocol",
        words: &["tcp", "udp"],
        aliases: &[],
        open: true,
        decide: open!(Protocol, Protocol::Other),
        fields: &[("{services: {svc: {ports: [{target: 1, protocol: '@'}]}}}", |c| {
            match c.services["svc"].ports.first()? {
                ShortOrLong::Long(p) => p.protocol.as_ref().map(text),
                ShortOrLong::Short(_) => None,
            }
        })],
        default: Some(|| text(Protocol::default())),
    },
    Words {
        name: "network driver",
        words: &["host", "none"],
        aliases: &[],
        open: true,
        decide: open!(network::Driver, network::Driver::Other),
        fields: &[("{services: {}, networks: {a: {driver: '@'}}}", |c| {
            c.networks["a"].as_ref()?.as_compose()?.driver.as_ref().map(text)
        })],
        default: None,
    },
];

/// The documented word of every alternative, and the documented defaults.
fn check_tables(_: &u8, cov: &mut Cov) -> Res {
    cov.nontrivial();
    macro_rules! table {
        ($($v:expr => $w:literal,)*) => {{ $(
            let v = $v;
            ensure_eq!(AsRef::<str>::as_ref(&v), $w, "word of {v:?}");
            ensure_eq!(v.as_str(), $w, "as_str of {v:?}");
            ensure_eq!(v.to_string(), $w, "Display of {v:?}");
            ensure_eq!(serde_yaml::to_value(&v).ok(), Some($w.into()), "serialised {v:?}");
            ensure_eq!(serde_yaml::from_value(YamlValue::from($w)).ok(), Some(v), "parsed {}", $w);
        )* }};
    }
    table! {
        PullPolicy::Always => "always", PullPolicy::Never => "never", PullPolicy::Missing => "missing", PullPolicy::Build => "build",
        Restart::No => "no", Restart::Always => "always", Restart::OnFailure => "on-failure", Restart::UnlessStopped => "unless-stopped",
        Condition::ServiceStarted => "service_started", Condition::ServiceHealthy => "service_healthy",
        Condition::ServiceCompletedSuccessfully => "service_completed_successfully",
        Cgroup::Host => "host", Cgroup::Private => "private", Uts::Host => "host",
        deploy::Mode::Global => "global", deploy::Mode::Replicated => "replicated",
        deploy::RestartCondition::None => "none", deploy::RestartCondition::OnFailure => "on-failure", deploy::RestartCondition::Any => "any",
        deploy::FailureAction::Continue => "continue", deploy::FailureAction::Pause => "pause",
        deploy::Order::StopFirst => "stop-first", deploy::Order::StartFirst => "start-first",
        develop::Action::Rebuild => "rebuild", develop::Action::Sync => "sync", develop::Action::SyncAndRestart => "sync+restart",
        ports::Mode::Host => "host", ports::Mode::Ingress => "ingress",
        BindPropagation::Private => "private", BindPropagation::Shared => "shared", BindPropagation::Slave => "slave",
        BindPropagation::Unbindable => "unbindable", BindPropagation::RPrivate => "rprivate", BindPropagation::RShared => "rshared",
        BindPropagation::RSlave => "rslave", BindPropagation::RUnbindable => "runbindable",
        EndpointMode::VIp => "vip", EndpointMode::DnsRR => "dnsrr", EndpointMode::Other("x".to_owned()) => "x",
        Capability::Gpu => "gpu", Capability::Tpu => "tpu", Capability::Other("x".to_owned()) => "x",
        Protocol::Tcp => "tcp", Protocol::Udp => "udp", Protocol::Other("x".to_owned()) => "x",
        network::Driver::Host => "host", network::Driver::None => "none", network::Driver::Other("x".to_owned()) => "x",
        SELinux::Shared => "z", SELinux::Private => "Z",
    }
    let defaults = [
        ("pull policy", "missing"), ("restart", "no"), ("dependency condition", "service_started"), ("uts", "host"),
        ("deploy mode", "replicated"), ("restart condition", "any"), ("failure action", "pause"), ("update order", "stop-first"),
        ("port mode", "ingress"), ("bind propagation", "rprivate"), ("protocol", "tcp"),
    ];
    for w in WORDS {
        let want = defaults.iter().find(|d| d.0 == w.name).map(|d| d.1.to_owned());
        ensure_eq!(w.default.map(|d| d()), want, "default {}", w.name);
    }
    ensure!(Capability::Gpu.is_gpu() && !Capability::Gpu.is_tpu() && Capability::Tpu.is_tpu() && !Capability::Tpu.is_gpu(), "is_gpu, is_tpu");
    Ok(())
}

fn check_word((i, s): &(usize, String), cov: &mut Cov) -> Res {
    let w = &WORDS[*i];
    let known = w.words.contains(&s.as_str());
    let want = if known {
        Some(s.clone())
    } else if let Some((_, word)) = w.aliases.iter().find(|a| a.0 == s) {
        Some((*word).to_owned())
    } else {
        w.open.then(|| format!("other {s}"))
    };
    cov.nontrivial_if(known);
    cov.label(w.name);
    ensure_eq!((w.decide)(s)?, want, "{} {s:?}", w.name);
    let want_text = want.map(|t| t.strip_prefix("other ").unwrap_or(&t).to_owned());
    if w.name == "protocol" && s.is_empty() {
        return Ok(());
    }
    for (template, get) in w.fields {
        let Some(c) = tmpl::parse(&tmpl::fill(template, &s.as_str().into()))? else {
            ensure!(want_text.is_none(), "{} {s:?} rejected in {template:?}", w.name);
            continue;
        };
        ensure_eq!(get(&c), want_text, "{} {s:?} in {template:?}", w.name);
        let v = serde_yaml::to_value(&c).map_err(|e| e.to_string())?;
        ensure_eq!(tmpl::hole(template, &v).cloned(), want_text.as_deref().map(YamlValue::from), "{s:?} as written in {template:?}");
        ensure_eq!(serde_yaml::from_value::<Compose>(v).ok().as_ref(), Some(&c), "document with {s:?} as written in {template:?}");
    }
    if w.open {
        ensure_eq!(open_text(w.words, s), (w.decide)(s)?.unwrap_or_default(), "{s:?}");
    }
    Ok(())
}

const COUNT: &str = "{services: {svc: {deploy: {resources: {reservations: {devices: [{capabilities: [gpu], count: '@'}]}}}}}}";

fn check_count(v: &YamlValue, cov: &mut Cov) -> Res {
    let want = match v {
        YamlValue::String(s) if s == "all" => Some(Count::All),
        YamlValue::String(s) if s.starts_with('+') => return Ok(()),
        YamlValue::String(s) if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) => s.parse().ok().map(Count::Integer),
        YamlValue::Number(n) => n.as_u64().map(Count::Integer),
        YamlValue::Null => return Ok(()),
        _ => None,
    };
    if let YamlValue::String(s) = v {
        ensure_eq!(Count::from_str(s).ok(), want, "count {s:?}");
    }
    let got = tmpl::parse(&tmpl::fill(COUNT, v))?;
    ensure_eq!(got.is_some(), want.is_some(), "count {v:?} accepted");
    let Some(c) = got else { return Ok(()) };
    cov.nontrivial();
    let d = deploy_of(&c).and_then(|d| d.resources.as_ref()?.reservations.as_ref()?.devices.first());
    ensure_eq!(d.and_then(|d| d.count), want, "count {v:?}");
    let w = serde_yaml::to_value(&c).map_err(|e| e.to_string())?;
    let (text, n) = match want {
        Some(Count::Integer(n)) => (YamlValue::from(n), Some(n)),
        _ => ("all".into(), None),
    };
    ensure_eq!(tmpl::hole(COUNT, &w), Some(&text), "written count {v:?}");
    if let (Some(n), Some(c)) = (n, want) {
        ensure!(c == n && c != n.wrapping_add(1) && Count::from(n) == c, "comparison of {c:?}");
    }
    Ok(())
}

pub fn c21() -> Property {
    Property {
        id: "C21",
        subs: vec![
            all("tables", "every alternative and its documented word; non-trivial: all", || vec![0u8], check_tables),
            all(
                "every word",
                "every documented word of any enumeration, for every enumeration; non-trivial: a word of it",
                || {
                    let mut words: Vec<&str> = WORDS.iter().flat_map(|w| w.words.iter().copied().chain(w.aliases.iter().map(|a| a.0))).collect();
                    words.extend(["", "true", "null", "1", "~", "if-not-present", "on_failure", "unless_stopped", "default", "sync_and_restart", "sync+rebuild"]);
                    words.sort_unstable();
                    words.dedup();
                    let mut out = Vec::new();
                    for i in 0..WORDS.len() {
                        for w in &words {
                            for v in [(*w).to_owned(), w.to_uppercase(), w.replace('-', "_"), w.replace('_', "-"), format!("{w} "), format!(" {w}")] {
                                out.push((i, v));
                            }
                        }
                    }
                    out
                },
                check_word,
            ),
            sub(
                "words",
                "documented words with random edits, and other text; non-trivial: a documented word",
                30_000,
                || (0..WORDS.len()).prop_flat_map(|i| {
                    let base = prop::sample::select(WORDS[i].words).prop_map(String::from).boxed();
                    (Just(i), prop_oneof![2 => base.clone(), 4 => gen::near(base), 2 => gen::scalar_text(), 1 => gen::text()])
                }),
                check_word,
            ),
            sub(
                "device counts",
                "integers, text and other values; non-trivial: accepted",
                10_000,
                || prop_oneof![
                    3 => gen::edge_u64().prop_map(YamlValue::from),
                    1 => gen::edge_i64().prop_map(YamlValue::from),
                    2 => gen::mixed(Just("all".to_owned())).prop_map(YamlValue::from),
                    2 => gen::mixed(gen::edge_u64().prop_map(|n| n.to_string()).boxed()).prop_map(YamlValue::from),
                    1 => gen::yaml(),
                ],
                check_count,
            ),
        ],
        known: vec![],
        assumptions: &["no claim on an empty port protocol"],
    }
}

// ---- C23 ----

const CACHE: &[Field<Cache>] = &[
    ("{services: {svc: {build: {cache_from: ['@']}}}}", |c| long_build(c)?.cache_from.first().cloned()),
    ("{services: {svc: {build: {cache_to: ['@']}}}}", |c| long_build(c)?.cache_to.first().cloned()),
];

struct CacheParts {
    /// The image, or another type.
    kind: Result<String, String>,
    options: Vec<(String, String)>,
}

fn ref_cache(s: &str) -> Want<CacheParts> {
    let image = |s: &str| Image::parse(s).is_ok();
    if !s.contains(',') && !s.starts_with("type=") {
        return if image(s) { Want::Parts(CacheParts { kind: Ok(s.to_owned()), options: vec![] }) } else { Want::Reject };
    }
    let mut parts = s.split(',');
    let Some(kind) = parts.next().and_then(|p| p.strip_prefix("type=")) else { return Want::Reject };
    let mut options: Vec<(String, String)> = Vec::new();
    for p in parts {
        let Some((k, v)) = p.split_once('=') else { return Want::Reject };
        if !ref_cache_option(k) || !ref_cache_option(v) {
            return Want::Reject;
        }
        if options.iter().any(|o| o.0 == k) {
            return Want::Free;
        }
        options.push((k.to_owned(), v.to_owned()));
    }
    let open = options.iter().any(|o| o.0 == "type");
    let kind = if kind == "registry" {
        let Some(i) = options.iter().position(|o| o.0 == "ref") else { return Want::Reject };
        let r = options.remove(i).1;
        if !image(&r) {
            return Want::Reject;
        }
        Ok(r)
    } else if ref_cache_option(kind) {
        Err(kind.to_owned())
    } else {
        return Want::Reject;
    };
    if open {
        return Want::Free;
    }
    Want::Parts(CacheParts { kind, options })
}

fn cache_text() -> BoxedStrategy<String> {
    let value = || prop_oneof![
        4 => "[a-zA-Z0-9_./:-]{1,8}",
        1 => "[^\\s,]{1,6}",
        1 => prop::sample::select(vec!["registry", "max", "true", "a=b", "=", "ref", "type=local"]).prop_map(String::from),
    ];
    let key = || prop_oneof![3 => "[a-z-]{1,6}", 2 => prop::sample::select(vec!["mode", "dest", "src", "ref", "image-manifest", "oci-mediatypes", "Type", "scope"]).prop_map(String::from)];
    let options = move || prop::collection::vec((key(), value()), 0..4);
    let join = |o: Vec<(String, String)>| o.into_iter().map(|(k, v)| format!(",{k}={v}")).collect::<String>();
    prop_oneof![
        2 => gen::image(),
        3 => (options(), gen::image(), options()).prop_map(move |(a, i, b)| format!("type=registry{},ref={i}{}", join(a), join(b))),
        4 => (prop_oneof![2 => prop::sample::select(vec!["local", "gha", "inline", "s3", "azblob"]).prop_map(String::from), 1 => value()], options()).prop_map(move |(t, o)| format!("type={t}{}", join(o))),
        1 => options().prop_map(move |o| format!("type=registry{}", join(o))),
    ]
    .boxed()
}

fn check_cache(s: &String, cov: &mut Cov) -> Res {
    let s = s.as_str();
    let got = all_ways!(Cache, s);
    in_documents(CACHE, s, got.as_ref())?;
    let Some(p) = ref_cache(s).decide(s, got.is_some())? else { return Ok(()) };
    cov.nontrivial();
    let v = got.expect("accepted");
    let option = |s: &str| CacheOption::new(s).map_err(|e| format!("{s:?}: {e}"));
    let options: IndexMap<CacheOption, CacheOption> = p.options.iter().map(|(k, v)| Ok((option(k)?, option(v)?))).collect::<Result<_, String>>()?;
    let order = |m: &IndexMap<CacheOption, CacheOption>| m.iter().map(|(k, v)| (k.as_str().to_owned(), v.as_str().to_owned())).collect::<Vec<_>>();
    ensure_eq!(order(&v.options), order(&options), "options of {s:?}");
    let (cache_type, mut text, mut list) = match &p.kind {
        Ok(image) => (
            CacheType::Registry(Image::parse(image.as_str()).map_err(|e| e.to_string())?),
            format!("type=registry,ref={image}"),
            vec![("type".to_owned(), "registry".to_owned()), ("ref".to_owned(), image.clone())],
        ),
        Err(t) => (CacheType::Other(option(t)?), format!("type={t}"), vec![("type".to_owned(), t.clone())]),
    };
    ensure_eq!(v.cache_type, cache_type, "type of {s:?}");
    ensure_eq!(v.cache_type.to_string(), text, "text of the type of {s:?}");
    ensure_eq!(
        (v.cache_type.is_registry(), v.cache_type.as_registry().map(Image::as_str), v.cache_type.is_other(), v.cache_type.as_other().map(CacheOption::as_str)),
        (p.kind.is_ok(), p.kind.as_deref().ok(), p.kind.is_err(), p.kind.as_ref().err().map(String::as_str)),
        "parts of the type of {s:?}"
    );
    for (k, v) in &p.options {
        text.push_str(&format!(",{k}={v}"));
    }
    list.extend(p.options.iter().cloned());
    if let (Ok(image), true) = (&p.kind, p.options.is_empty()) {
        text.clone_from(image);
        ensure_eq!(Cache::from_image(Image::parse(image.as_str()).map_err(|e| e.to_string())?), v, "from the image");
    }
    ensure_eq!(Cache { cache_type: cache_type.clone(), options }, v, "cache made from the parts of {s:?}");
    printed(&v, &text)?;
    ensure_eq!(order(&v.clone().into_options()), list, "into_options of {s:?}");
    cov.label(match (&p.kind, p.options.is_empty()) {
        (Ok(_), true) => "image",
        (Ok(_), false) => "registry with options",
        (Err(_), true) => "other",
        (Err(_), false) => "other with options",
    });
    Ok(())
}

const CONTEXT: &[Field<Context>] = &[
    ("{services: {svc: {build: '@'}}}", |c| match c.services["svc"].build.as_ref()? {
        ShortOrLong::Short(c) => Some(c.clone()),
        ShortOrLong::Long(_) => None,
    }),
    ("{services: {svc: {build: {context: '@'}}}}", |c| long_build(c)?.context.clone()),
    ("{services: {svc: {build: {additional_contexts: {a: '@'}}}}}", |c| long_build(c)?.additional_contexts.get("a").cloned()),
];

fn check_context(s: &String, cov: &mut Cov) -> Res {
    let s = s.as_str();
    let url = Url::parse(s).ok();
    if url.as_ref().is_some_and(|u| Url::parse(u.as_str()).ok().as_ref() != Some(u)) {
        // The url crate itself does not read back what it wrote (e.g. `file://a\\b:1/`).
        return Ok(());
    }
    let want = url.clone().map_or_else(|| Context::Path(PathBuf::from(s)), Context::Url);
    cov.label(if url.is_some() { "url" } else { "path" });
    cov.nontrivial_if(!s.is_empty());
    let made = [
        ("parse", Context::parse(s)),
        ("parse of a String", Context::parse(s.to_owned())),
        ("From<&str>", Context::from(s)),
        ("From<String>", Context::from(s.to_owned())),
        ("From<Box<str>>", Context::from(Box::<str>::from(s))),
        ("From<Cow>", Context::from(Cow::Borrowed(s))),
        ("From<owned Cow>", Context::from(Cow::<str>::Owned(s.to_owned()))),
        ("FromStr", Context::from_str(s).expect("infallible")),
        ("serde", serde_yaml::from_value(s.into()).map_err(|e| e.to_string())?),
    ];
    for (what, c) in made {
        ensure_eq!(c, want, "{what} of {s:?}");
    }
    for (what, c) in [
        ("From<&Path>", Context::from(Path::new(s))),
        ("From<PathBuf>", Context::from(PathBuf::from(s))),
        ("From<Cow<Path>>", Context::from(Cow::Borrowed(Path::new(s)))),
        ("From<owned Cow<Path>>", Context::from(Cow::<Path>::Owned(PathBuf::from(s)))),
    ] {
        ensure_eq!(c, Context::Path(PathBuf::from(s)), "{what} of {s:?}");
        ensure_eq!(c.into_string().ok().as_deref(), Some(s), "text of {what}");
    }
    let fields = if s.is_empty() { &CONTEXT[..2] } else { CONTEXT };
    in_documents(fields, s, Some(&want))?;
    let shown = url.as_ref().map_or_else(|| s.to_owned(), |u| u.as_str().to_owned());
    ensure_eq!(want.to_string(), shown, "text of {want:?}");
    ensure_eq!(Context::parse(shown.as_str()), want, "parsed text of {want:?}");
    ensure_eq!(serde_yaml::to_value(&want).ok(), Some(shown.as_str().into()), "serialised {want:?}");
    ensure_eq!(want.clone().into_string().ok(), Some(shown.clone()), "into_string of {want:?}");
    ensure_eq!((want.as_path().map(PathBuf::as_path), want.as_url()), (url.is_none().then(|| Path::new(s)), url.as_ref()), "as_path and as_url of {want:?}");
    if let Some(u) = url {
        ensure_eq!(Context::from(u), want, "from the URL");
    } else {
        ensure!(!want.is_git_repo_url() && want.branch_or_tag().is_none() && want.subdirectory().is_none(), "git parts of the path {s:?}");
    }
    Ok(())
}

fn path_text() -> BoxedStrategy<String> {
    prop_oneof![3 => gen::host_path(), 2 => "[a-zA-Z0-9_./-]{1,10}", 1 => "[0-9]{1,3}(\\.[0-9]{1,3})?", 1 => gen::scalar_text()].boxed()
}

fn url_text() -> BoxedStrategy<String> {
    prop_oneof![
        git().prop_map(|g| g.text()),
        ("[a-z]{2,6}", "[a-z]{1,6}(\\.[a-z]{2,3})?", "(/[a-z0-9%._-]{1,5}){0,3}").prop_map(|(s, h, p)| format!("{s}://{h}{p}")),
        "(docker-image|oci-layout|service|target|c|git\\+ssh):(//)?[a-z./:@]{1,10}",
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Git {
    scheme: String,
    host: String,
    path: String,
    ext: String,
    query: String,
    branch: Option<String>,
    sub: Option<String>,
}

impl Git {
    fn text(&self) -> String {
        let mut s = format!("{}://{}/{}{}{}", self.scheme, self.host, self.path, self.ext, self.query);
        if self.branch.is_some() || self.sub.is_some() {
            s.push('#');
        }
        s.push_str(self.branch.as_deref().unwrap_or(""));
        if let Some(sub) = &self.sub {
            s.push(':');
            s.push_str(sub);
        }
        s
    }
}

fn git() -> BoxedStrategy<Git> {
    (
        prop::sample::select(vec!["http", "https", "https", "HTTPS", "Http", "git", "ssh", "ftp"]).prop_map(String::from),
        "[a-z]{1,5}(\\.[a-z]{2,3}){1,2}(:[1-9][0-9]{0,3})?",
        "([a-z0-9_-]{1,5}/){0,2}[a-z0-9_-]{1,5}",
        prop::sample::select(vec![".git", ".git", ".git", ".GIT", ".Git", "", ".tar.gz", ".gitx", "git", ".git.zip"]).prop_map(String::from),
        prop::sample::select(vec!["", "", "", "?a=b", "?x=.git", "?q=a#"]).prop_map(String::from),
        prop::option::weighted(0.7, "[a-zA-Z0-9_./-]{1,8}"),
        prop::option::of("[a-zA-Z0-9_./-]{1,8}(:[a-z]{1,3})?"),
    )
        .prop_map(|(scheme, host, path, ext, query, branch, sub)| {
            let query = if query.contains('#') { String::new() } else { query };
            Git { scheme, host, path, ext, query, branch, sub }
        })
        .boxed()
}

fn check_git(g: &Git, cov: &mut Cov) -> Res {
    let s = g.text();
    let c = Context::parse(s.as_str());
    let Some(url) = c.as_url() else { fail!("{s:?} is not a URL: {c:?}") };
    let http = ["http", "https"].contains(&g.scheme.to_lowercase().as_str());
    let is_git = http && g.ext.to_lowercase() == ".git";
    cov.nontrivial_if(is_git);
    cov.label(if is_git { "git" } else { "other" });
    ensure_eq!(c.is_git_repo_url(), is_git, "is_git_repo_url of {s:?}");
    if !is_git {
        ensure_eq!((c.branch_or_tag(), c.subdirectory()), (None, None), "git parts of {s:?}");
    } else {
        // an empty branch before a subdirectory: no claim between None and ""
        let branch = c.branch_or_tag().filter(|b| !b.is_empty());
        ensure_eq!((branch, c.subdirectory()), (g.branch.as_deref(), g.sub.as_deref()), "branch and subdirectory of {s:?}");
    }
    ensure!(url.fragment().is_some() == (g.branch.is_some() || g.sub.is_some()), "fragment of {s:?}");
    check_context(&s, &mut Cov::default())
}

/// Additional contexts: (name, context), as a list or map.
fn check_contexts((entries, list): &(Vec<(String, Option<String>)>, bool), cov: &mut Cov) -> Res {
    const T: &str = "{services: {svc: {build: {additional_contexts: '@'}}}}";
    let mut seen = std::collections::HashSet::new();
    let entries: Vec<_> = entries.iter().filter(|e| seen.insert(e.0.clone())).collect();
    if entries.iter().filter_map(|e| Url::parse(e.1.as_deref()?).ok()).any(|u| Url::parse(u.as_str()).ok() != Some(u)) {
        return Ok(());
    }
    let ok = entries.iter().all(|e| ref_map_key(&e.0));
    let doc: YamlValue = if *list {
        entries.iter().map(|(k, v)| YamlValue::from(v.as_ref().map_or_else(|| k.clone(), |v| format!("{k}={v}")))).collect::<Vec<_>>().into()
    } else {
        YamlValue::Mapping(entries.iter().map(|(k, v)| (k.as_str().into(), v.as_deref().map_or(YamlValue::Null, YamlValue::from))).collect())
    };
    let got = tmpl::parse(&tmpl::fill(T, &doc))?;
    ensure_eq!(got.is_some(), ok, "{doc:?} accepted");
    let Some(c) = got else { return Ok(()) };
    cov.nontrivial_if(!entries.is_empty());
    cov.label(if *list { "list" } else { "map" });
    let got: Vec<(String, Context)> = long_build(&c).map(|b| b.additional_contexts.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()).unwrap_or_default();
    let want: Vec<(String, Context)> = entries.iter().map(|(k, v)| (k.clone(), v.as_deref().map_or_else(|| Context::Path(".".into()), Context::parse))).collect();
    ensure_eq!(got, want, "contexts of {doc:?}");
    let v = serde_yaml::to_value(&c).map_err(|e| e.to_string())?;
    ensure_eq!(serde_yaml::from_value::<Compose>(v).ok(), Some(c), "contexts {doc:?} as written");
    Ok(())
}

const SSH: &[Field<SshAuth>] = &[("{services: {svc: {build: {ssh: ['@']}}}}", |c| long_build(c)?.ssh.first().cloned())];

fn check_ssh(s: &String, cov: &mut Cov) -> Res {
    let s = s.as_str();
    let got: Option<SshAuth> = SshAuth::from_str(s).ok();
    ensure_eq!(serde_yaml::from_value(s.into()).ok(), got, "{s:?} by serde, against FromStr");
    let parts = s.split_once('=').filter(|(i, p)| !i.is_empty() && !p.is_empty());
    let by_id = SshAuthId::from_str(s).ok();
    ensure_eq!(by_id.as_ref().map(|i| (i.id(), i.path())), parts.map(|(i, p)| (i, Path::new(p))), "ssh id {s:?}");
    let want = if s == "default" { Some(SshAuth::Default) } else { by_id.map(SshAuth::Id) };
    ensure_eq!(got, want, "ssh {s:?}");
    in_documents(SSH, s, want.as_ref())?;
    let Some(v) = got else { return Ok(()) };
    cov.nontrivial();
    ensure_eq!((v.id(), v.path()), (parts.map(|p| p.0), parts.map(|p| Path::new(p.1))), "parts of {v:?}");
    ensure_eq!(v.as_id().is_some(), s != "default", "as_id of {v:?}");
    if let Some((i, p)) = parts {
        ensure_eq!(SshAuthId::new(i, p).ok().map(SshAuth::Id), Some(v.clone()), "made from the parts of {s:?}");
        ensure_eq!(v.as_id().map(ToString::to_string).as_deref(), Some(s), "text of the id of {v:?}");
    }
    ensure!(SshAuthId::new("", "a").is_err() && SshAuthId::new("a", "").is_err(), "empty parts");
    printed(&v, s)
}

const BUILD_NETWORK: &[Field<BuildNetwork>] = &[("{services: {svc: {build: {network: '@'}}}}", |c| long_build(c)?.network.clone())];

fn check_build_network(s: &String, cov: &mut Cov) -> Res {
    let s = s.as_str();
    let got = ways!(BuildNetwork, s;
        ("parse", BuildNetwork::parse(s).ok()),
        ("TryFrom<String>", BuildNetwork::try_from(s.to_owned()).ok()),
        ("TryFrom<Box<str>>", BuildNetwork::try_from(Box::<str>::from(s)).ok()),
        ("TryFrom<Cow>", BuildNetwork::try_from(Cow::Borrowed(s)).ok())
    );
    let want = if s == "none" { Some(BuildNetwork::None) } else { id(s).map(BuildNetwork::Identifier) };
    ensure_eq!(got, want, "build network {s:?}");
    in_documents(BUILD_NETWORK, s, want.as_ref())?;
    let Some(v) = got else { return Ok(()) };
    cov.nontrivial();
    printed(&v, s)?;
    ensure_eq!((v.as_str(), v.as_ref() as &str), (s, s), "text of {v:?}");
    ensure_eq!(String::from(v.clone()), s, "String from {v:?}");
    ensure_eq!(Cow::<'static, str>::from(v.clone()), s, "Cow from {v:?}");
    ensure_eq!(v.is_none(), s == "none", "is_none of {v:?}");
    ensure_eq!(v.clone().into_option(), if s == "none" { None } else { id(s) }, "into_option of {v:?}");
    Ok(())
}

/// Every SSH entry, cache and tag of a build, in order.
type BuildLists = (Vec<String>, Vec<String>, Vec<String>, Vec<String>, Vec<String>);

fn check_build_lists((ssh, from, to, tags, entitlements): &BuildLists, cov: &mut Cov) -> Res {
    const T: &str = "{services: {svc: {build: '@'}}}";
    let mut seen = std::collections::HashSet::new();
    // Equal paths (`.` and `./`) are equal entries.
    let ssh: Vec<String> = ssh.iter().filter(|s| seen.insert(s.split_once('=').map_or((s.as_str(), Path::new("")), |(i, p)| (i, Path::new(p))))).cloned().collect();
    let list = |v: &[String]| -> YamlValue { v.iter().map(|s| YamlValue::from(s.as_str())).collect::<Vec<_>>().into() };
    let doc = YamlValue::Mapping(
        [("ssh", &ssh), ("cache_from", from), ("cache_to", to), ("tags", tags), ("entitlements", entitlements)]
            .into_iter()
            .map(|(k, v)| (k.into(), list(v)))
            .collect(),
    );
    let Some(c) = tmpl::parse(&tmpl::fill(T, &doc))? else { fail!("{doc:?} rejected") };
    cov.nontrivial_if(from.len() > 1 || to.len() > 1 || ssh.len() > 1 || tags.len() > 1);
    let Some(b) = long_build(&c) else { fail!("no build") };
    let texts = |v: &mut dyn Iterator<Item = String>| v.collect::<Vec<_>>();
    ensure_eq!(texts(&mut b.ssh.iter().map(ToString::to_string)), ssh, "ssh");
    ensure_eq!(texts(&mut b.cache_from.iter().map(ToString::to_string)), *from, "cache_from");
    ensure_eq!(texts(&mut b.cache_to.iter().map(ToString::to_string)), *to, "cache_to");
    ensure_eq!(texts(&mut b.tags.iter().map(ToString::to_string)), *tags, "tags");
    ensure_eq!(b.entitlements, *entitlements, "entitlements");
    let v = serde_yaml::to_value(&c).map_err(|e| e.to_string())?;
    ensure_eq!(serde_yaml::from_value::<Compose>(v).ok(), Some(c.clone()), "build {doc:?} as written");
    Ok(())
}

pub fn c23() -> Property {
    let ssh = || prop_oneof![1 => Just("default".to_owned()), 4 => ("[a-zA-Z0-9_.-]{1,6}", prop_oneof![2 => gen::host_path(), 1 => "[^\\n\\r\\x00]{1,6}"]).prop_map(|(i, p)| format!("{i}={p}"))].boxed();
    let canonical = || cache_text().prop_filter_map("canonical", |s| {
        let c = Cache::parse(s.as_str()).ok()?;
        Some(c.to_string())
    });
    let subs: Vec<Sub> = vec![
        sub("cache", "cache entries with and without random edits; non-trivial: accepted", 30_000, || gen::mixed(cache_text()), check_cache),
        sub(
            "context",
            "paths, URLs, and both with random edits; non-trivial: not empty",
            20_000,
            || prop_oneof![path_text(), url_text(), gen::mixed(path_text()), gen::near(url_text())],
            check_context,
        ),
        sub("git", "URLs with branch and subdirectory; non-trivial: URLs of git repositories", 10_000, git, check_git),
        sub(
            "additional contexts",
            "lists and maps of contexts; non-trivial: at least one",
            10_000,
            || (
                prop::collection::vec(
                    (
                        prop_oneof![12 => "[a-zA-Z0-9_.-]{1,6}".boxed(), 1 => gen::env_key().prop_map(|k| k.replace('=', "")).boxed()],
                        prop::option::weighted(0.8, prop_oneof![2 => path_text(), 1 => url_text()].prop_map(|s| if s.is_empty() { "a".to_owned() } else { s })),
                    ),
                    0..4,
                ),
                any::<bool>(),
            ),
            check_contexts,
        ),
        sub("ssh", "SSH entries with and without random edits; non-trivial: accepted", 20_000, move || gen::mixed(ssh()), check_ssh),
        sub("build network", "build networks with and without random edits; non-trivial: accepted", 15_000, || gen::mixed(prop_oneof![4 => gen::ident(), 1 => Just("none".to_owned())].boxed()), check_build_network),
        sub(
            "build lists",
            "builds with several SSH entries, caches and tags; non-trivial: more than one in some list",
            4_000,
            move || {
                let caches = move || prop::collection::vec(canonical(), 0..3);
                (prop::collection::vec(ssh(), 0..3), caches(), caches(), prop::collection::vec(gen::image(), 0..3), prop::collection::vec(gen::ident(), 0..3))
            },
            check_build_lists,
        ),
    ];
    Property {
        id: "C23",
        subs,
        known: vec![],
        assumptions: &[
            "no claim on repeated cache options or an option called `type`, an empty git branch, and an empty additional context",
            "the grammar of URLs is the one of the url crate",
        ],
    }
}
