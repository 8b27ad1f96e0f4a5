//! C34 errors: what an error says of the input is true of it, and reaches whoever reads a document.

use std::{
    borrow::Cow,
    error::Error,
    fmt::{Debug, Display},
    net::IpAddr,
    num::ParseIntError,
    path::PathBuf,
    str::FromStr,
    time::Duration,
};

use compose_spec::{
    duration::{self, ParseDurationError},
    service::{
        blkio_config::Weight,
        build::{Cache, CacheOption, InvalidCacheOptionError, Network as BuildNetwork, ParseCacheError, SshAuth, SshAuthId, SshAuthIdError},
        deploy::resources::{Count, Cpus, InvalidCpusError},
        device::{CgroupRule, Kind as DeviceKind, MajorMinorNumber, ParseCgroupRuleError, ParseDeviceError, Permissions},
        image::{Digest, Image, InvalidDigestError, InvalidImageError, InvalidNamePartError, InvalidTagError, Name as ImageName, Tag},
        network_config::{MacAddress, NetworkMode, ParseMacAddressError},
        platform::{Arch, Os},
        ports::{ParseRangeError, ParseShortPortError, ParseShortRangesError, Range, ShortPort, ShortRanges},
        user::{self, IdOrName, User},
        volumes::{AbsolutePath, HostPath, ParseShortVolumeError, ParseSourceError, ShortVolume, Source},
        ByteValue, CpuSet, Device, Expose, Hostname, InvalidHostnameError, InvalidResourceError, Ipc, Limit, Link, OomScoreAdj, ParseByteValueError, Percent, Platform, Resource as UlimitResource, VolumesFrom, VolumesFromSource,
    },
    Compose, ExtensionKey, Identifier, InvalidExtensionKeyError, InvalidIdentifierError, InvalidMapKeyError, InvalidNameError, MapKey, Name, Number, ParseNumberError, TryFromNumberError, TryFromValueError, Value,
    YamlValue,
};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};

use crate::{
    docs, ensure, ensure_eq, fail,
    fw::{sub, Cov, Property, Res},
    gen,
    panics::wide,
    tmpl,
    whole::shown,
};

// ---------------------------------------------------------------------------------------------
// what is true of which text

fn alnum(c: char) -> bool {
    c.is_ascii_alphanumeric()
}

fn lower(c: char) -> bool {
    c.is_ascii_lowercase() || c.is_ascii_digit()
}

fn identifier(e: &InvalidIdentifierError, s: &str) -> bool {
    match *e {
        InvalidIdentifierError::Empty => s.is_empty(),
        InvalidIdentifierError::Start(c) => s.starts_with(c) && !alnum(c),
        InvalidIdentifierError::Character(c) => s.contains(c) && !alnum(c) && !"._-".contains(c),
    }
}

fn map_key(e: &InvalidMapKeyError, s: &str) -> bool {
    match e {
        InvalidMapKeyError::Empty => s.is_empty(),
        InvalidMapKeyError::MultipleLines => s.contains('\n'),
    }
}

fn extension_key(e: &InvalidExtensionKeyError, s: &str) -> bool {
    match e {
        InvalidExtensionKeyError::MissingPrefix(k) => **k == *s && !s.starts_with("x-"),
        InvalidExtensionKeyError::MultipleLines => s.contains('\n'),
    }
}

fn name(e: &InvalidNameError, s: &str) -> bool {
    match *e {
        InvalidNameError::Empty => s.is_empty(),
        InvalidNameError::Start(c) => s.starts_with(c) && !lower(c),
        InvalidNameError::Character(c) => s.contains(c) && !lower(c) && !"_-".contains(c),
    }
}

fn hostname(e: &InvalidHostnameError, s: &str) -> bool {
    match *e {
        InvalidHostnameError::LabelEmpty => s.split('.').any(str::is_empty),
        InvalidHostnameError::Character(c) => s.contains(c) && !alnum(c) && !".-".contains(c),
        InvalidHostnameError::LabelStartEnd => s.split('.').any(|l| l.starts_with('-') || l.ends_with('-')),
    }
}

fn ulimit_resource(e: &InvalidResourceError, s: &str) -> bool {
    match *e {
        InvalidResourceError::Empty => s.is_empty(),
        InvalidResourceError::Character(c) => s.contains(c) && !c.is_ascii_lowercase(),
    }
}

fn user_name(e: &user::InvalidNameError, s: &str) -> bool {
    match *e {
        user::InvalidNameError::Empty => s.is_empty(),
        user::InvalidNameError::Character(c) => s.contains(c) && !alnum(c) && !"_-$".contains(c),
        user::InvalidNameError::DollarSign => s.chars().rev().skip(1).any(|c| c == '$'),
        user::InvalidNameError::Numeric => !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()),
        user::InvalidNameError::Start => s.starts_with('-'),
        user::InvalidNameError::Length => s.chars().count() > 32,
    }
}

fn id_or_name(e: &user::InvalidNameError, s: &str) -> bool {
    s.parse::<u32>().is_err() && user_name(e, s)
}

fn user(e: &user::InvalidNameError, s: &str) -> bool {
    match s.split_once(':') {
        Some((user, group)) => id_or_name(e, user) || id_or_name(e, group),
        None => id_or_name(e, s),
    }
}

fn terms(s: &str) -> Vec<(String, String)> {
    let mut all: Vec<(String, String)> = Vec::new();
    for c in s.chars() {
        match all.last_mut() {
            Some((digits, unit)) if c.is_ascii_digit() && unit.is_empty() => digits.push(c),
            Some((_, unit)) if !c.is_ascii_digit() => unit.push(c),
            _ if c.is_ascii_digit() => all.push((c.into(), String::new())),
            _ => all.push((String::new(), c.into())),
        }
    }
    all
}

fn span(e: &ParseDurationError, s: &str) -> bool {
    const UNITS: [(&str, u128); 5] = [("h", 3_600_000_000), ("m", 60_000_000), ("s", 1_000_000), ("ms", 1_000), ("us", 1)];
    let terms = terms(s);
    match e {
        ParseDurationError::Empty => s.is_empty(),
        ParseDurationError::MissingUnit(d) => terms.last().is_some_and(|(digits, unit)| digits == d && unit.is_empty()),
        ParseDurationError::NoDigits(d) => !d.is_empty() && s.ends_with(d.as_str()) && !d.starts_with(|c: char| c.is_ascii_digit()) && terms.iter().any(|(digits, _)| digits.is_empty()),
        ParseDurationError::InvalidUnit(u) => terms.iter().any(|(_, unit)| unit == u) && !u.is_empty() && UNITS.iter().all(|(known, _)| known != u),
        ParseDurationError::Overflow => {
            let most = Duration::MAX.as_micros();
            let mut sum = 0u128;
            // a number of no more than 64 bits is the most that is read of one term
            terms.iter().any(|(digits, unit)| {
                let of_unit = UNITS.iter().find(|(known, _)| known == unit).map_or(0, |(_, n)| *n);
                sum = sum.saturating_add(digits.parse::<u128>().unwrap_or(u128::MAX).saturating_mul(of_unit));
                digits.parse::<u64>().is_err() && !digits.is_empty() || sum > most
            })
        }
    }
}

fn size(e: &ParseByteValueError, s: &str) -> bool {
    let unit = |u: &str| matches!(u, "b" | "k" | "kb" | "m" | "mb" | "g" | "gb" | "B" | "K" | "M" | "G");
    match e {
        ParseByteValueError::Empty => s.is_empty(),
        ParseByteValueError::UnknownUnit(of) => of == s && !s.is_empty() && s.parse::<u64>().is_err() && !s.char_indices().any(|(i, _)| unit(&s[i..])),
        ParseByteValueError::ParseInt { source, value } => s.strip_prefix(value.as_str()).is_some_and(unit) && value.parse::<u64>().as_ref() == Err(source),
    }
}

fn mac(e: &ParseMacAddressError, s: &str) -> bool {
    match e {
        ParseMacAddressError::Length => s.split(':').count() != 6,
        ParseMacAddressError::Int { source, value } => s.split(':').any(|p| p == value) && u8::from_str_radix(value, 16).as_ref() == Err(source),
    }
}

/// The reason for the error, if it is one of `E`.
fn source<E: Error + 'static>(e: &dyn Error) -> Option<&E> {
    e.source()?.downcast_ref()
}

fn prefixed(e: &dyn Error, s: &str, prefixes: &[&str]) -> bool {
    source(e).is_some_and(|e| prefixes.iter().any(|p| s.strip_prefix(p).is_some_and(|s| identifier(e, s))))
}

fn quoted(e: &impl Display, part: impl Display) -> bool {
    e.to_string().contains(&format!("`{part}`"))
}

fn range(e: &ParseRangeError, s: &str) -> bool {
    let (start, end) = s.split_once('-').map_or((s, None), |(a, b)| (a, Some(b)));
    match e {
        ParseRangeError::Range(e) => match (start.parse::<u16>(), end.map(str::parse::<u16>)) {
            (Ok(a), Some(Ok(b))) => a > b && quoted(e, a) && quoted(e, b),
            _ => false,
        },
        ParseRangeError::Int { source, value } => (value == start || end == Some(value)) && value.parse::<u16>().as_ref() == Err(source) && quoted(e, value),
    }
}

fn ranges(e: &ParseShortRangesError, s: &str) -> bool {
    let parts: Vec<&str> = s.split(':').collect();
    match e {
        ParseShortRangesError::Range(e) => parts.iter().any(|p| range(e, p)) || s.split_once(':').is_some_and(|(a, b)| range(e, a) || range(e, b)) || s.rsplit_once(':').is_some_and(|(a, b)| range(e, a) || range(e, b)),
        ParseShortRangesError::ShortRanges(e) => {
            let size = |p: &str| {
                let (a, b) = p.split_once('-').unwrap_or((p, p));
                Some(i32::from(b.parse::<u16>().ok()?) - i32::from(a.parse::<u16>().ok()?) + 1)
            };
            let [host, container] = parts[..] else { return false };
            let (Some(host), Some(container)) = (size(host), size(container)) else { return false };
            // no more than 16 bits are shown of a size
            host != container && quoted(e, host.min(65_535)) && quoted(e, container.min(65_535))
        }
    }
}

fn port(e: &ParseShortPortError, s: &str) -> bool {
    let s = s.split('/').next().unwrap_or_default();
    let (ip, rest) = match s.match_indices(':').rev().nth(1) {
        Some((i, _)) => (Some(&s[..i]), &s[i + 1..]),
        None => (None, s),
    };
    match e {
        ParseShortPortError::IpAddr { source, value } => {
            let bare = value.strip_prefix('[').and_then(|v| v.strip_suffix(']')).unwrap_or(value);
            ip == Some(value) && bare.parse::<IpAddr>().as_ref() == Err(source)
        }
        ParseShortPortError::ShortRanges(e) => ranges(e, rest),
    }
}

fn tag(e: &InvalidTagError, s: &str) -> bool {
    match e {
        InvalidTagError::Character(c) => s.contains(*c) && !alnum(*c) && !"._-".contains(*c),
        InvalidTagError::Empty => s.is_empty(),
        InvalidTagError::Length => s.chars().count() > 128,
        _ => true,
    }
}

fn digest(e: &InvalidDigestError, s: &str) -> bool {
    let (algorithm, encoded) = s.split_once(':').unwrap_or_default();
    let separator = |c: char| "+._-".contains(c);
    match e {
        InvalidDigestError::MissingAlgorithm => algorithm.is_empty(),
        InvalidDigestError::AlgorithmSeparators => algorithm.chars().zip(algorithm.chars().skip(1)).any(|(a, b)| separator(a) && separator(b)),
        InvalidDigestError::AlgorithmCharacter(c) => algorithm.contains(*c) && !lower(*c) && !separator(*c),
        InvalidDigestError::EncodeCharacter(c) => encoded.contains(*c) && !alnum(*c) && !"=_-".contains(*c),
        InvalidDigestError::AlgorithmStart => !algorithm.starts_with(lower),
        InvalidDigestError::AlgorithmEnd => !algorithm.ends_with(lower),
        InvalidDigestError::EncodeEmpty => encoded.is_empty(),
        _ => true,
    }
}

fn image_name(e: &InvalidNamePartError, s: &str) -> bool {
    let (first, rest) = s.split_once('/').map_or((s, None), |(a, b)| (a, Some(b)));
    let (host, port) = match first.split_once(':') {
        Some((host, port)) if first.contains('.') => (host, Some(port)),
        _ => (first, None),
    };
    let mut parts = std::iter::once(host).chain(rest.into_iter().flat_map(|r| r.split('/')));
    match e {
        InvalidNamePartError::MultipleSeparators => parts.any(|p| {
            p.split(|c| !"._-".contains(c)).any(|run| !matches!(run, "" | "." | "_" | "__") && run.chars().any(|c| c != '-'))
        }),
        InvalidNamePartError::Character(c) => parts.any(|p| p.contains(*c)) && !lower(*c) && !"._-".contains(*c),
        InvalidNamePartError::Empty => parts.any(str::is_empty),
        InvalidNamePartError::Start => parts.any(|p| !p.starts_with(lower)),
        InvalidNamePartError::End => parts.any(|p| !p.ends_with(lower)),
        InvalidNamePartError::RegistryPort { source, port: shown } => port == Some(shown) && shown.parse::<u16>().as_ref() == Err(source),
        _ => true,
    }
}

fn image(e: &InvalidImageError, s: &str) -> bool {
    let (rest, of_digest) = s.split_once('@').map_or((s, None), |(a, b)| (a, Some(b)));
    let (of_name, of_tag) = match rest.rsplit_once(':') {
        Some((name, tag)) if !tag.contains('/') => (name, Some(tag)),
        _ => (rest, None),
    };
    match e {
        InvalidImageError::Digest(e) => of_digest.is_some_and(|s| digest(e, s)),
        InvalidImageError::Tag(e) => of_tag.is_some_and(|s| tag(e, s)),
        InvalidImageError::TagAndDigest => of_tag.is_some() && of_digest.is_some(),
        InvalidImageError::NamePart(e) => image_name(e, of_name),
    }
}

fn volume_source(e: &ParseSourceError, s: &str) -> bool {
    match e {
        ParseSourceError::HostPath(_) => host_path(s),
        ParseSourceError::Identifier(e) => !s.starts_with(['.', '/']) && identifier(e, s),
    }
}

/// Whether it is no host path.
fn host_path(s: &str) -> bool {
    !s.starts_with('/') && !matches!(s.split('/').next(), Some("." | ".."))
}

fn short_volume(e: &ParseShortVolumeError, s: &str) -> bool {
    let mut parts = s.splitn(3, ':');
    let (first, second) = (parts.next().unwrap_or_default(), parts.next());
    let options: Vec<&str> = parts.next().into_iter().flat_map(|o| o.split(',')).collect();
    match e {
        ParseShortVolumeError::Source(e) => second.is_some() && volume_source(e, first),
        ParseShortVolumeError::AbsoluteContainerPath(path) => path == second.unwrap_or(first) && !path.starts_with('/'),
        ParseShortVolumeError::ReadWriteAndReadOnly => options.contains(&"rw") && options.contains(&"ro"),
        ParseShortVolumeError::SELinuxSharedAndPrivate => options.contains(&"z") && options.contains(&"Z"),
        ParseShortVolumeError::DuplicateOption(o) => options.iter().filter(|other| *other == o).count() > 1,
        ParseShortVolumeError::UnknownOption(o) => options.contains(&o.as_str()) && !["rw", "ro", "z", "Z"].contains(&o.as_str()),
    }
}

fn cache_option(e: &InvalidCacheOptionError, s: &str) -> bool {
    match e {
        InvalidCacheOptionError::Empty => s.is_empty(),
        InvalidCacheOptionError::Whitespace => s.contains(char::is_whitespace),
    }
}

fn cache(e: &ParseCacheError, s: &str) -> bool {
    let options = || s.split(',').skip(1).map(|o| o.split_once('=').unwrap_or((o, "")));
    let registry = s == "type=registry" || s.starts_with("type=registry,");
    match e {
        ParseCacheError::Image(e) => image(e, s) && !s.starts_with("type=") && !s.contains(',') || registry && options().any(|(k, v)| k == "ref" && image(e, v)),
        ParseCacheError::TypeFirst => s.contains(',') && !s.starts_with("type="),
        ParseCacheError::CacheOption(e) => options().any(|(k, v)| cache_option(e, k) || cache_option(e, v)) || s.split(',').next().and_then(|t| t.strip_prefix("type=")).is_some_and(|t| cache_option(e, t)),
        ParseCacheError::MissingRef => registry && options().all(|(k, _)| k != "ref"),
    }
}

fn ssh_id(e: &SshAuthIdError, s: &str) -> bool {
    match e {
        SshAuthIdError::EmptyId => s.starts_with('='),
        SshAuthIdError::MissingPath => s.split_once('=').map_or(true, |(_, path)| path.is_empty()),
    }
}

/// An error which shows the number that it found none in.
fn shown_int<T: FromStr<Err = ParseIntError>>(e: &dyn Error, part: &str) -> bool {
    source::<ParseIntError>(e).is_some_and(|source| part.parse::<T>().err().as_ref() == Some(source)) && e.to_string().contains(&format!("`{part}`"))
}

fn device(e: &ParseDeviceError, s: &str) -> bool {
    let mut parts = s.splitn(3, ':').skip(1);
    let container = parts.next();
    match e {
        ParseDeviceError::Empty => s.is_empty(),
        ParseDeviceError::ContainerPathMissing => container.is_none(),
        ParseDeviceError::ContainerPathAbsolute(_) => container.is_some_and(|p| !p.starts_with('/')),
        ParseDeviceError::Permissions(e) => parts.next().is_some_and(|p| permissions(e, p)),
    }
}

fn permissions(e: &dyn Error, s: &str) -> bool {
    s.chars().any(|c| !"rwm".contains(c) && e.to_string().contains(&format!("`{c}`")))
}

fn cgroup_rule(e: &ParseCgroupRuleError, s: &str) -> bool {
    let words: Vec<&str> = s.splitn(3, ' ').collect();
    let numbers = words.get(1).and_then(|w| w.split_once(':'));
    match e {
        ParseCgroupRuleError::Empty => s.is_empty(),
        ParseCgroupRuleError::Kind(e) => !["a", "b", "c"].contains(&words[0]) && quoted(e, words[0]),
        ParseCgroupRuleError::MajorMinorNumbersMissing => numbers.is_none(),
        ParseCgroupRuleError::MajorMinorNumber(e) => numbers.is_some_and(|(a, b)| [a, b].iter().any(|n| n.parse::<u16>().as_ref() == Err(e))),
        ParseCgroupRuleError::Permissions(e) => words.get(2).is_some_and(|w| permissions(e, w)),
    }
}

fn number(e: &ParseNumberError, s: &str) -> bool {
    match e {
        ParseNumberError::Int(e) => s.parse::<u64>().as_ref() == Err(e) || s.parse::<i64>().as_ref() == Err(e),
        ParseNumberError::Float(e) => s.parse::<f64>().as_ref() == Err(e),
    }
}

// ---------------------------------------------------------------------------------------------
// one text, read as one type

/// The error and all of its causes, as shown.
fn chain(e: &dyn Error) -> Result<Vec<String>, String> {
    let mut all = vec![e.to_string()];
    let mut next = e.source();
    while let Some(e) = next {
        all.push(e.to_string());
        next = e.source();
        ensure!(all.len() < 20, "the causes of {e:?} do not end");
    }
    ensure!(all.iter().all(|m| !m.trim().is_empty()), "an error without a message in {all:?}");
    Ok(all)
}

fn shows(message: &str, chain: &[String], what: &dyn Fn() -> String) -> Res {
    for cause in chain {
        ensure!(message.contains(cause.as_str()), "{}: the error {message:?} does not show {cause:?}, of {chain:?}", what());
    }
    Ok(())
}

fn truth<T, E: Error + 'static>(s: &str, result: Result<T, E>, is_true: impl Fn(&E, &str) -> bool) -> Result<Option<(E, Vec<String>)>, String> {
    let Err(e) = result else { return Ok(None) };
    ensure!(is_true(&e, s), "{} of {s:?} has the error {e:?} ({e}), which is not true of it", std::any::type_name::<T>());
    let chain = chain(&e)?;
    Ok(Some((e, chain)))
}

/// The same error, however it is parsed.
fn alike<E: PartialEq + Debug>(e: &E, other: Result<(), E>, s: &str, how: &str) -> Res {
    ensure_eq!(other.as_ref().err(), Some(e), "of {s:?} by {how}");
    Ok(())
}

fn of_str<T>(s: &str, is_true: impl Fn(&T::Err, &str) -> bool) -> Result<Option<(T::Err, Vec<String>)>, String>
where
    T: FromStr + for<'a> TryFrom<&'a str, Error = <T as FromStr>::Err>,
    T::Err: Error + PartialEq + 'static,
{
    let found = truth(s, T::from_str(s), is_true)?;
    if let Some((e, _)) = &found {
        alike(e, T::try_from(s).map(|_| ()), s, "TryFrom<&str>")?;
    }
    Ok(found)
}

fn of_text<T>(s: &str, is_true: impl Fn(&T::Err, &str) -> bool) -> Result<Option<(T::Err, Vec<String>)>, String>
where
    T: FromStr
        + for<'a> TryFrom<&'a str, Error = <T as FromStr>::Err>
        + for<'a> TryFrom<Cow<'a, str>, Error = <T as FromStr>::Err>
        + TryFrom<String, Error = <T as FromStr>::Err>
        + TryFrom<Box<str>, Error = <T as FromStr>::Err>,
    T::Err: Error + PartialEq + 'static,
{
    let found = of_str::<T>(s, is_true)?;
    if let Some((e, _)) = &found {
        alike(e, T::try_from(s.to_owned()).map(|_| ()), s, "TryFrom<String>")?;
        alike(e, T::try_from(Box::<str>::from(s)).map(|_| ()), s, "TryFrom<Box<str>>")?;
        alike(e, T::try_from(Cow::Borrowed(s)).map(|_| ()), s, "TryFrom<Cow<str>>")?;
    }
    Ok(found)
}

type Causes = Result<Option<Vec<String>>, String>;

fn causes<E>(found: Result<Option<(E, Vec<String>)>, String>) -> Causes {
    Ok(found?.map(|(_, chain)| chain))
}

/// The same, where the type is read from documents.
fn and_read<T: DeserializeOwned, E>(s: &str, found: Result<Option<(E, Vec<String>)>, String>) -> Causes {
    let found = causes(found)?;
    if let Some(chain) = &found {
        match serde_yaml::from_value::<T>(s.into()) {
            Ok(_) => fail!("{} reads {s:?}, which it does not parse", std::any::type_name::<T>()),
            Err(e) => shows(&e.to_string(), chain, &|| format!("{} read from {s:?}", std::any::type_name::<T>()))?,
        }
    }
    Ok(found)
}

struct Text {
    samples: &'static [&'static str],
    check: fn(&str) -> Causes,
    /// Where it stands in documents.
    places: &'static [&'static str],
}

const fn t(samples: &'static [&'static str], check: fn(&str) -> Causes, places: &'static [&'static str]) -> Text {
    Text { samples, check, places }
}

const DURATIONS: &[&str] = &["1h2m3s4ms5us", "10s", "0s", "99999999999h", "18446744073709551615s", "18446744073709551616us", "5124095576030431h1s", "1.5s", "5", "s", "1d", "10S", "1m30", "18446744073709551615s18446744073709551615s"];
const RANGES: &[&str] = &["80", "8000-9000", "9000-8000", "0-65535", "65536", "1-65536", "a", "1-", "-1", "80-80", "+80", "1-2-3"];
const KEYS: &[&str] = &["a", "a.b", "A-b_c", "-a", ".a", "a b", "a/b", "aé", "x-a", "x-\n", "0", "_", "a\nb", "x-", "X-a"];

const TEXTS: &[Text] = &[
    t(KEYS, |s| and_read::<Identifier, _>(s, of_text::<Identifier>(s, identifier)), &[
        "{services: {'@': {}}}", "{services: {}, networks: {'@': null}}", "{services: {}, volumes: {'@': null}}", "{services: {}, configs: {'@': {file: a}}}", "{services: {}, secrets: {'@': {file: a}}}",
        "{services: {a: {configs: ['@']}}}", "{services: {a: {secrets: ['@']}}}", "{services: {a: {configs: [{source: '@'}]}}}", "{services: {a: {networks: ['@']}}}", "{services: {a: {networks: {'@': null}}}}",
        "{services: {a: {depends_on: ['@']}}}", "{services: {a: {depends_on: {'@': {condition: service_started}}}}}", "{services: {a: {extends: {service: '@'}}}}", "{services: {a: {credential_spec: {config: '@'}}}}",
        "{services: {a: {build: {context: ., secrets: ['@']}}}}", "{services: {a: {container_name: '@'}}}", "{services: {a: {volumes: [{type: volume, source: '@', target: /a}]}}}",
    ]),
    t(KEYS, |s| and_read::<MapKey, _>(s, of_text::<MapKey>(s, map_key)), &["{services: {a: {environment: {'@': a}}}}", "{services: {a: {labels: {'@': a}}}}", "{services: {a: {sysctls: {'@': 1}}}}", "{services: {a: {build: {context: ., args: {'@': 1}}}}}"]),
    t(KEYS, |s| and_read::<ExtensionKey, _>(s, of_text::<ExtensionKey>(s, extension_key)), &[]),
    t(&["a", "a-b", "0_a", "A", "aB", "-a", "a.b", "é"], |s| and_read::<Name, _>(s, of_str::<Name>(s, name)), &["{services: {}, name: '@'}"]),
    t(&["a", "a.b", "A-b.c", "a..b", "-a.b", "a.b-", "a_b", ".a", "a.", "é"], |s| and_read::<Hostname, _>(s, of_text::<Hostname>(s, hostname)), &["{services: {a: {hostname: '@'}}}", "{services: {a: {domainname: '@'}}}", "{services: {a: {extra_hosts: {'@': 1.1.1.1}}}}", "{services: {a: {build: {context: ., extra_hosts: {'@': 1.1.1.1}}}}}"]),
    t(DURATIONS, |s| causes(truth(s, duration::parse(s), span)), &["{services: {a: {stop_grace_period: '@'}}}", "{services: {a: {healthcheck: {interval: '@'}}}}", "{services: {a: {healthcheck: {test: [CMD, a], timeout: '@'}}}}", "{services: {a: {blkio_config: {}, healthcheck: {start_period: '@'}}}}", "{services: {a: {deploy: {update_config: {delay: '@'}}}}}", "{services: {a: {deploy: {restart_policy: {window: '@'}}}}}"]),
    t(&["1", "1b", "2kb", "3mb", "4gb", "5k", "6M", "-1", "1t", "1KB", "kb", "1.5gb", "18446744073709551616", "18446744073709551616k", "1 b", "+1k"], |s| and_read::<ByteValue, _>(s, truth(s, s.parse::<ByteValue>(), size)), &["{services: {a: {mem_limit: '@'}}}", "{services: {a: {shm_size: '@'}}}", "{services: {a: {build: {context: ., shm_size: '@'}}}}", "{services: {a: {blkio_config: {device_read_bps: [{path: /a, rate: '@'}]}}}}", "{services: {a: {volumes: [{type: tmpfs, target: /a, tmpfs: {size: '@'}}]}}}", "{services: {a: {deploy: {resources: {limits: {memory: '@'}}}}}}"]),
    t(&["92:d0:c6:0a:29:33", "0:0:0:0:0:0", "1:2:3:4:5", "1:2:3:4:5:6:7", "100:1:2:3:4:5", "gg:1:2:3:4:5", "1:2:3:4:5:", ""], |s| and_read::<MacAddress, _>(s, of_str::<MacAddress>(s, mac)), &["{services: {a: {mac_address: '@'}}}", "{services: {a: {networks: {b: {mac_address: '@'}}}}}"]),
    t(&["none", "host", "service:a", "container:a", "service:", "container:-a", "service:a b", "bridge"], |s| and_read::<NetworkMode, _>(s, of_text::<NetworkMode>(s, |e, s| prefixed(e, s, &["service:", "container:"]))), &["{services: {a: {network_mode: '@'}}}"]),
    t(&["shareable", "service:a", "service:", "service:.a", "service:a b", "host"], |s| and_read::<Ipc, _>(s, of_text::<Ipc>(s, |e, s| prefixed(e, s, &["service:"]))), &["{services: {a: {ipc: '@'}}}"]),
    t(RANGES, |s| and_read::<Range, _>(s, of_str::<Range>(s, range)), &[]),
    t(&["80", "80:90", "80-81:90-91", "80-82:90-91", "9-8:1-2", ":80", "a:80", "80:a", "1:2:3", "0-65535:0-65534", "80:90-"], |s| and_read::<ShortRanges, _>(s, truth(s, s.parse::<ShortRanges>(), ranges)), &[]),
    t(&["80", "80:90", "127.0.0.1:80:90", "[::1]:80:90", "::1:80:90", "127.0.0:80:90", "[::1:80:90", "::1]:80:90", "127.0.0.1::80", "127.0.0.1:80", "80-82:90-91/tcp", "9-8/udp", "a:b:80:80", "80/", "a/b"], |s| and_read::<ShortPort, _>(s, of_str::<ShortPort>(s, port)), &["{services: {a: {ports: ['@']}}}", "{services: {a: {ports: [80, '@']}}}"]),
    t(&["80", "80-90", "80/tcp", "90-80/udp", "a", "80-", "65536", "/tcp"], |s| and_read::<Expose, _>(s, of_str::<Expose>(s, |e, s| range(e, s.split('/').next().unwrap_or_default()))), &["{services: {a: {expose: ['@']}}}"]),
    t(&["nofile", "cpu", "A", "a-b", "a1", "é"], |s| and_read::<UlimitResource, _>(s, of_text::<UlimitResource>(s, ulimit_resource)), &["{services: {a: {ulimits: {'@': 1}}}}", "{services: {a: {build: {context: ., ulimits: {'@': 1}}}}}"]),
    t(&["latest", "v1.0-a_b", ".a", "a:b", "a b", "é"], |s| causes(truth(s, Tag::new(s), tag)), &[]),
    t(&["sha256:abc", "sha256+b64:a=", "a..b:c", ":c", "a:", "-a:c", "a-:c", "A:c", "a:é", "abc", "a:b:c", "+:"], |s| causes(truth(s, Digest::new(s), digest)), &[]),
    t(&["a", "a/b", "a.b:80/c", "a.b:x/c", "a..b", "a___b", "a--b", "-a", "a-", "a//b", "A", "a.b:65536", "a_.b", "", "a/.b", "a/b."], |s| causes(truth(s, ImageName::new(s), image_name)), &[]),
    t(&["a", "a:b", "a.b/c:d", "a.b:80/c:d", "a@sha256:abc", "a:b@sha256:abc", "a:", "a@b", "A", "a b", "a.b:x/c", "a:.@sha256:a", "a@a:@b:c", "@"], |s| and_read::<Image, _>(s, of_text::<Image>(s, image)), &["{services: {a: {image: '@'}}}"]),
    t(&["/a", "/a/../b", "a", "./a", "", "~"], |s| and_read::<AbsolutePath, _>(s, truth(s, s.parse::<AbsolutePath>(), |_, s| !s.starts_with('/'))), &["{services: {a: {working_dir: '@'}}}", "{services: {a: {tmpfs: '@'}}}", "{services: {a: {tmpfs: ['@']}}}", "{services: {a: {volumes: [{type: bind, source: /a, target: '@'}]}}}", "{services: {a: {volumes: [{type: tmpfs, target: '@'}]}}}"]),
    t(&["/a", "./a", "../a", "a", "", "...", ".a", "~/a", "..a/b"], |s| and_read::<HostPath, _>(s, truth(s, s.parse::<HostPath>(), |_, s| host_path(s))), &["{services: {a: {volumes: [{type: bind, source: '@', target: /a}]}}}"]),
    t(&["/a", "./a", "a", ".a", "...", "a b", "-a", "", "a/b", "~/a"], |s| causes(of_str::<Source>(s, volume_source)), &[]),
    t(&["/a", "a:/b", "./a:/b:ro", "a:/b:rw,z", "a:/b:ro,rw", "a:/b:z,Z", "a:/b:ro,ro", "a:/b:x", "a:b", "b", ".a:/b", "-a:/b", "a:/b:", "a:/b:ro:rw", ":/b", "a:/b:Z,ro,Z", "a:/b:rw,,z"], |s| and_read::<ShortVolume, _>(s, truth(s, s.parse::<ShortVolume>(), short_volume)), &["{services: {a: {volumes: ['@']}}}"]),
    t(&["a", "a$", "a$b", "-a", "1000", "a-b_c", "aé", "a b", "", "$", "99999999999999999999999999999999999"], |s| and_read::<user::Name, _>(s, of_text::<user::Name>(s, user_name)), &[]),
    t(&["a", "0", "4294967295", "4294967296", "-a", "a$b", "+5", "-1", "é"], |s| and_read::<IdOrName, _>(s, of_text::<IdOrName>(s, id_or_name)), &["{services: {a: {group_add: ['@']}}}"]),
    t(&["a", "a:b", "0:0", "a:", ":a", "a:b:c", "a$b:c", "a:-c", "4294967296:0", "0:4294967296"], |s| and_read::<User, _>(s, of_text::<User>(s, user)), &["{services: {a: {user: '@'}}}"]),
    t(&["a", "a:b", "type=local,src=a", "type=registry,ref=a", "type=registry", "type=registry,ref=A", "type=registry,refs=a", "type=", "type=a,", "type=a,b=c d", "a,b", "src=a,type=local", "A", "type=a b", "type=local,=a", "type=registry,ref=a,ref=B", "type=registry,ref"], |s| and_read::<Cache, _>(s, of_text::<Cache>(s, cache)), &["{services: {a: {build: {context: ., cache_from: ['@']}}}}", "{services: {a: {build: {context: ., cache_to: ['@']}}}}"]),
    t(&["a", "a b", "", "\u{a0}", "\t"], |s| and_read::<CacheOption, _>(s, of_text::<CacheOption>(s, cache_option)), &[]),
    t(&["a=b", "a=", "=b", "a", "=", "a=b=c", ""], |s| causes(truth(s, s.parse::<SshAuthId>(), ssh_id)), &[]),
    t(&["default", "a=b", "a=", "=b", "a", "Default", ""], |s| causes(truth(s, s.parse::<SshAuth>(), ssh_id)), &[]),
    t(&["0", "0-3", "0,2-3", "a", "0-", "-1", "1,,2", "3-1", "0-a", "18446744073709551616", "1-2-3", " 1"], |s| if wide(s) { Ok(None) } else { and_read::<CpuSet, _>(s, of_str::<CpuSet>(s, |e, s| s.split(',').flat_map(|r| r.split_once('-').map_or(vec![r], |(a, b)| vec![a, b])).any(|p| shown_int::<u64>(e, p)))) }, &["{services: {a: {cpuset: '@'}}}"]),
    t(&["linux/amd64", "linux", "linux/arm/v7", "linux/arm64/v8", "linux/arm/v9", "windows/s390x", "Linux", "linux/", "linux/amd64/v5", "a/b/c", "linux/arm/v7/x", "darwin/arm64"], |s| and_read::<Platform, _>(s, of_str::<Platform>(s, |e, s| platform(e, s))), &["{services: {a: {platform: '@'}}}", "{services: {a: {build: {context: ., platforms: ['@']}}}}"]),
    t(&["linux", "darwin", "Linux", "", "linu"], |s| causes(of_str::<Os>(s, |e, s| quoted(e, s))), &[]),
    t(&["amd64", "arm64", "arm", "x86_64", "AMD64", ""], |s| causes(of_str::<Arch>(s, |e, s| quoted(e, s))), &[]),
    t(&["/a:/b", "/a:/b:rwm", "/a", "/a:b", "/a:/b:x", "/a:/b:rwx", "", "a:/b:r:w", ":"], |s| and_read::<Device, _>(s, of_str::<Device>(s, device)), &["{services: {a: {devices: ['@']}}}"]),
    t(&["", "r", "rwm", "rx", "R", "é", "mm`"], |s| causes(of_str::<Permissions>(s, |e, s| permissions(e, s))), &[]),
    t(&["a *:* rwm", "c 1:2 r", "b 1:65536", "d 1:2", "c 1", "c", "", "c 1:2 x", "c a:1 r", "c 1:-1", "c  1:2", "c 1:2  r"], |s| and_read::<CgroupRule, _>(s, of_str::<CgroupRule>(s, cgroup_rule)), &["{services: {a: {device_cgroup_rules: ['@']}}}"]),
    t(&["a", "b", "c", "d", "", "ab", "A"], |s| causes(of_str::<DeviceKind>(s, |e, s| !["a", "b", "c"].contains(&s) && quoted(e, s))), &[]),
    t(&["*", "1", "65535", "65536", "-1", "a"], |s| causes(of_str::<MajorMinorNumber>(s, |e, s| s.parse::<u16>().as_ref() == Err(e))), &[]),
    t(&["1", "-1", "1.5", "18446744073709551616", "-9223372036854775809", "a", "", "-", "1e5", "inf", "+", "1_0"], |s| causes(of_str::<Number>(s, number)), &[]),
    t(&["a", "a:b", ":b", "-a:b", "a b:c", "a:-"], |s| and_read::<Link, _>(s, of_text::<Link>(s, |e, s| identifier(e, s.split(':').next().unwrap_or_default()))), &["{services: {a: {links: ['@']}}}"]),
    t(&["a", "a:ro", "container:a", "container:a:rw", "container:", "a:x", ":ro", "-a", "a:ro:rw"], |s| and_read::<VolumesFrom, _>(s, of_text::<VolumesFrom>(s, volumes_from)), &["{services: {a: {volumes_from: ['@']}}}"]),
    t(&["a", "container:a", "container:", "-a", "a:ro"], |s| causes(of_text::<VolumesFromSource>(s, |e, s| identifier(e, s.strip_prefix("container:").unwrap_or(s)))), &[]),
    t(&["none", "host", "a", "-a", "a b", ""], |s| and_read::<BuildNetwork, _>(s, of_text::<BuildNetwork>(s, identifier)), &["{services: {a: {build: {context: ., network: '@'}}}}"]),
    t(&["all", "1", "-1", "a", "", "ALL", "18446744073709551616"], |s| causes(truth(s, s.parse::<Count>(), |e, s| s.parse::<u64>().as_ref() == Err(e))), &[]),
    t(&["-1", "1", "-2", "a", "", "18446744073709551616", "1kb"], |s| causes(truth(s, s.parse::<Limit<u64>>(), |e, s| s.parse::<u64>().as_ref() == Err(e))), &[]),
    t(&["-1", "1kb", "-2", "a", "", "18446744073709551616", "1KB"], |s| causes(truth(s, s.parse::<Limit<ByteValue>>(), size)), &["{services: {a: {memswap_limit: '@'}}}"]),
];

fn volumes_from(e: &InvalidIdentifierError, s: &str) -> bool {
    let s = s.strip_suffix(":ro").or_else(|| s.strip_suffix(":rw")).unwrap_or(s);
    identifier(e, s.strip_prefix("container:").unwrap_or(s)) || identifier(e, s)
}

fn platform(e: &dyn Error, s: &str) -> bool {
    quoted(&e, s) || s.splitn(3, '/').chain(s.split('/')).any(|p| quoted(&e, p))
}

type TextCase = (u8, String);

fn texts() -> BoxedStrategy<TextCase> {
    (0..TEXTS.len())
        .prop_flat_map(|i| {
            let sample = prop::sample::select(TEXTS[i].samples).prop_map(str::to_owned);
            (Just(i as u8), prop_oneof![2 => sample.clone(), 8 => gen::near(sample), 1 => gen::wide_at(), 1 => gen::text()])
        })
        .boxed()
}

fn check_text((i, s): &TextCase, cov: &mut Cov) -> Res {
    let text = &TEXTS[usize::from(*i) % TEXTS.len()];
    let Some(chain) = (text.check)(s)? else { return Ok(()) };
    cov.nontrivial();
    if chain.len() > 1 {
        cov.label("with causes");
    }
    for place in text.places {
        // the keys of these are read as map keys first
        if place.contains("extra_hosts") && MapKey::new(s.as_str()).is_err() {
            continue;
        }
        let doc = tmpl::fill(place, &s.as_str().into());
        let Err(e) = serde_yaml::from_value::<Compose>(doc.clone()) else { continue };
        let message = e.to_string();
        shows(&message, &chain, &|| format!("the document\n{}", shown(&doc)))?;
        let written = shown(&doc);
        if serde_yaml::from_str::<YamlValue>(&written).ok().as_ref() == Some(&doc) {
            match Compose::options().from_yaml_str(&written) {
                Err(e) => shows(&e.to_string(), &chain, &|| format!("the document as text {written:?}"))?,
                Ok(_) => fail!("rejected as a value ({message}), but not as the text {written:?}"),
            }
        }
        cov.label("in a document");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// numbers

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Num {
    U(u64),
    I(i64),
    /// The bits.
    F(u64),
    B(bool),
    S(String),
}

impl Num {
    fn value(&self) -> Value {
        match self {
            Self::U(n) => (*n).into(),
            Self::I(n) => (*n).into(),
            Self::F(n) => f64::from_bits(*n).into(),
            Self::B(n) => (*n).into(),
            Self::S(n) => n.as_str().into(),
        }
    }
}

fn num() -> BoxedStrategy<Num> {
    let near = prop_oneof![-1010i64..-990, -5i64..15, 95i64..105, 250i64..260, 990i64..1010, 65_530i64..65_540];
    prop_oneof![
        near.clone().prop_map(Num::I),
        near.prop_map(|n| u64::try_from(n).map_or(Num::I(n), Num::U)),
        gen::edge_u64().prop_map(Num::U),
        gen::edge_i64().prop_map(Num::I),
        gen::edge_f64().prop_map(|n| Num::F(n.to_bits())),
        any::<bool>().prop_map(Num::B),
        gen::near(gen::scalar_text()).prop_map(Num::S),
        gen::near(prop::sample::select(&["1", "-1", "1.5", "18446744073709551616", "-9223372036854775809", "", "-", "1e5", "inf"][..]).prop_map(str::to_owned)).prop_map(Num::S),
    ]
    .boxed()
}

/// What it says of the number which the value is.
fn not_number(e: &TryFromNumberError, n: Option<Number>, fits: bool) -> bool {
    match e {
        TryFromNumberError::FloatToInt => matches!(n, Some(Number::Float(_))),
        TryFromNumberError::TryFromInt(_) => matches!(n, Some(Number::SignedInt(_) | Number::UnsignedInt(_))) && !fits,
    }
}

fn not_value(e: &TryFromValueError, v: &Value, into_int: bool, fits: bool) -> bool {
    let n = match v {
        Value::String(s) => s.parse().ok(),
        Value::Number(n) => Some(*n),
        Value::Bool(b) => Some(u64::from(*b).into()),
    };
    match e {
        TryFromValueError::ParseNumber(e) => v.as_string().is_some_and(|s| number(e, s)),
        TryFromValueError::TryFromNumber(e) => into_int && not_number(e, n, fits),
        TryFromValueError::TryFromInt(_) => matches!(n, Some(Number::SignedInt(_) | Number::UnsignedInt(_))) && !fits,
        TryFromValueError::IntoBool => !v.is_bool(),
    }
}

fn has_number(message: &str, n: impl Display) -> bool {
    let n = n.to_string();
    message.match_indices(&n).any(|(i, _)| {
        let around = |c: Option<char>| c.is_some_and(|c| c.is_ascii_digit() || c == '-');
        !around(message[..i].chars().next_back()) && !message[i + n.len()..].starts_with(|c: char| c.is_ascii_digit())
    })
}

/// The error of a number out of a range must show the number and the range.
fn out_of_range(message: &str, n: impl Display + Copy, start: i64, end: i64, what: &str) -> Res {
    ensure!(has_number(message, n) && has_number(message, start) && has_number(message, end), "the error of {n} as {what}, not from {start} to {end}: {message:?}");
    Ok(())
}

fn check_number(n: &Num, cov: &mut Cov) -> Res {
    let v = n.value();
    let int = match n {
        Num::U(n) => Some(i128::from(*n)),
        Num::I(n) => Some(i128::from(*n)),
        Num::S(s) => s.parse::<Number>().ok().and_then(|n| match n {
            Number::UnsignedInt(n) => Some(n.into()),
            Number::SignedInt(n) => Some(n.into()),
            Number::Float(_) => None,
        }),
        Num::B(b) => Some((*b).into()),
        Num::F(_) => None,
    };
    let fits = |from: i128, to: i128| int.is_some_and(|n| (from..=to).contains(&n));
    let mut seen = 0;
    let mut errors = |e: Option<TryFromValueError>, what: &str, into_int: bool, fits: bool| -> Res {
        let Some(e) = e else { return Ok(()) };
        ensure!(what == "bool" || e != TryFromValueError::IntoBool, "{v:?} as {what}: {e}");
        ensure!(not_value(&e, &v, into_int, fits), "{v:?} as {what} has the error {e:?} ({e}), which is not true of it");
        chain(&e)?;
        seen += 1;
        Ok(())
    };
    errors(u64::try_from(v.clone()).err(), "u64", true, fits(0, u64::MAX.into()))?;
    errors(i64::try_from(v.clone()).err(), "i64", true, fits(i64::MIN.into(), i64::MAX.into()))?;
    errors(f64::try_from(v.clone()).err(), "f64", false, false)?;
    errors(bool::try_from(v.clone()).err(), "bool", true, false)?;
    if let Err(e) = Number::try_from(v.clone()) {
        ensure!(v.as_string().is_some_and(|s| number(&e, s)), "{v:?} as a number: {e:?}");
    }
    if let Some(n) = v.as_number() {
        for (what, e, fits) in [("u64", u64::try_from(*n).err(), fits(0, u64::MAX.into())), ("i64", i64::try_from(*n).err(), fits(i64::MIN.into(), i64::MAX.into()))] {
            ensure!(e.map_or(true, |e| not_number(&e, Some(*n), fits)), "{n:?} as {what}: {e:?}");
        }
    }

    if let (Num::U(_) | Num::I(_), Some(int)) = (n, int) {
        if let Ok(n) = u8::try_from(int) {
            for e in [Percent::new(n).err(), Percent::try_from(n).err()].into_iter().flatten() {
                out_of_range(&e.to_string(), n, 0, 100, "a percentage")?;
                ensure!(n > 100, "{n} as a percentage: {e}");
                cov.label("percentage");
            }
        }
        if let Ok(n) = i16::try_from(int) {
            for e in [OomScoreAdj::new(n).err(), OomScoreAdj::try_from(n).err()].into_iter().flatten() {
                out_of_range(&e.to_string(), n, -1000, 1000, "an OOM score adjustment")?;
                ensure!(!(-1000..=1000).contains(&n), "{n} as an OOM score adjustment: {e}");
                cov.label("OOM score adjustment");
            }
        }
        if let Ok(n) = u16::try_from(int) {
            if let Err(e) = Weight::new(n) {
                ensure!(!(10..=1000).contains(&n) && e.source().is_some() == (n == 0), "{n} as a weight: {e:?}");
                let message = e.to_string();
                ensure!(has_number(&message, 10) && has_number(&message, 1000), "{n} as a weight: {e}");
                cov.label("weight");
            }
        }
        let written = |place: &str| {
            let doc = tmpl::fill(place, &serde_yaml::to_value(&v).expect("harness: number"));
            serde_yaml::from_value::<Compose>(doc).err().map(|e| e.to_string())
        };
        for (place, start, end, most) in [("oom_score_adj", -1000, 1000, i16::MIN.into()..=i16::MAX.into()), ("mem_swappiness", 0, 100, 0..=255), ("cpu_percent", 0, 100, 0..=255i128)] {
            if let Some(message) = written(&format!("{{services: {{a: {{{place}: '@'}}}}}}")) {
                if most.contains(&int) {
                    out_of_range(&message, int, start, end, place)?;
                    cov.label("in a document");
                }
            }
        }
        if let Some(message) = written("{services: {a: {blkio_config: {weight: '@'}}}}") {
            if (0..=65_535).contains(&int) {
                ensure!(has_number(&message, 10) && has_number(&message, 1000), "{int} as a weight: {message}");
            }
        }
    }
    if let Num::F(bits) = n {
        let f = f64::from_bits(*bits);
        for e in [Cpus::new(f).err(), Cpus::try_from(f).err()].into_iter().flatten() {
            let true_of_it = match e {
                InvalidCpusError::Negative => f.is_sign_negative(),
                InvalidCpusError::Infinite => !f.is_finite(),
            };
            ensure!(true_of_it, "{f:?} as a number of CPUs: {e:?}");
            let doc = tmpl::fill("{services: {a: {deploy: {resources: {limits: {cpus: '@'}}}}}}", &f.into());
            if let Err(in_document) = serde_yaml::from_value::<Compose>(doc) {
                shows(&in_document.to_string(), &chain(&e)?, &|| format!("{f:?} CPUs"))?;
            }
            cov.label("CPUs");
        }
    }
    cov.nontrivial_if(seen > 0);
    Ok(())
}

type Ports = (u16, u16, u16, u16);

fn ports() -> impl Strategy<Value = Ports> {
    let close = || (gen::port(), -3i32..4).prop_map(|(n, by)| (n, u16::try_from(i32::from(n) + by).unwrap_or(n)));
    prop_oneof![
        (gen::port(), gen::port(), gen::port(), gen::port()),
        (close(), close()).prop_map(|((a, b), (c, d))| (a, b, c, d)),
    ]
}

fn check_ports(&(a, b, c, d): &Ports, cov: &mut Cov) -> Res {
    let mut made = Vec::new();
    for (start, end) in [(a, b), (c, d)] {
        match Range::new(start, Some(end)) {
            Ok(range) => made.push((range, i32::from(end) - i32::from(start) + 1)),
            Err(e) => {
                ensure!(start > end, "the range {start} to {end}: {e}");
                let message = e.to_string();
                ensure!(message.find(&format!("start `{start}`")).is_some() && message.contains(&format!("end `{end}`")), "the range {start} to {end}: {message:?}");
                cov.nontrivial();
                cov.label("range");
            }
        }
    }
    if let [(host, host_size), (container, container_size)] = made[..] {
        if let Err(e) = ShortRanges::new(Some(host), container) {
            ensure!(host_size != container_size, "{host} and {container}: {e}");
            let message = e.to_string();
            let at = |n: i32| has_number(&message, n.min(65_535));
            ensure!(at(host_size) && at(container_size), "{host} ({host_size}) and {container} ({container_size}): {message:?}");
            // each by its name
            let number = |after: &str| {
                let rest = &message[message.find(after)? + after.len()..];
                let digits = rest.trim_start_matches(|c: char| !c.is_ascii_digit());
                digits.split(|c: char| !c.is_ascii_digit()).next()?.parse::<i32>().ok()
            };
            for (name, size) in [("host port range", host_size), ("container port range", container_size)] {
                ensure!(number(name).map_or(true, |n| n == size.min(65_535)), "the {name} of {host} and {container} has the size {size}: {message:?}");
            }
            cov.nontrivial();
            cov.label("ranges");
        }
    }
    Ok(())
}

pub fn c34() -> Property {
    let mut subs = vec![
        sub("texts", "texts near samples of every text type, read as that type and, if rejected, in documents; non-trivial: rejected", 60_000, texts, check_text),
    ];
    subs.push(sub("numbers", "numbers, also as texts and booleans, as every type of number; non-trivial: it is not all of them", 60_000, num, check_number));
    subs.push(sub("ranges", "the ends of two port ranges; non-trivial: no ranges that go together", 20_000, ports, check_ports));
    subs.extend(docs::naming());
    Property {
        id: "C34",
        subs,
        known: vec![],
        assumptions: &["an error is to be true of the text; which of several true ones is reported is left open"],
    }
}
