//! C08: grammars of validated text types. C09: string-like types behave as their text.

use std::{
    borrow::{Borrow, Cow},
    cmp::Ordering,
    collections::{hash_map::DefaultHasher, BTreeMap, HashMap},
    fmt::Debug,
    hash::{Hash, Hasher},
};

use compose_spec::{
    service::{
        build::CacheOption,
        image::{Digest, Name as ImageName, Tag},
        user, Hostname, Image, Resource as UlimitResource,
    },
    Compose, ExtensionKey, Identifier, MapKey, Name, YamlValue,
};
use indexmap::IndexMap;
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};

use crate::{
    ensure, ensure_eq,
    fw::{sub, Cov, Property, Res, Sub},
    gen,
};

// ---- reference recognisers ----

fn alnum(c: char) -> bool {
    c.is_ascii_alphanumeric()
}
fn lower_digit(c: char) -> bool {
    c.is_ascii_lowercase() || c.is_ascii_digit()
}

pub fn ref_identifier(s: &str) -> bool {
    s.chars().next().is_some_and(alnum) && s.chars().all(|c| alnum(c) || ".-_".contains(c))
}

pub fn ref_map_key(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c != '\n')
}

pub fn ref_extension_key(s: &str) -> bool {
    let mut c = s.chars();
    c.next() == Some('x') && c.next() == Some('-') && c.all(|c| c != '\n')
}

pub fn ref_name(s: &str) -> bool {
    s.chars().next().is_some_and(lower_digit) && s.chars().all(|c| lower_digit(c) || c == '_' || c == '-')
}

pub fn ref_hostname(s: &str) -> bool {
    s.split('.').all(|label| {
        let cs: Vec<char> = label.chars().collect();
        !cs.is_empty() && cs.iter().all(|&c| alnum(c) || c == '-') && cs[0] != '-' && cs[cs.len() - 1] != '-'
    })
}

pub fn ref_ulimit_resource(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_lowercase())
}

pub fn ref_cache_option(s: &str) -> bool {
    !s.is_empty() && !s.chars().any(char::is_whitespace)
}

/// `None`: the documentation does not settle it.
pub fn ref_user_name(s: &str) -> Option<bool> {
    if s == "$" {
        return None;
    }
    let body = s.strip_suffix('$').unwrap_or(s);
    let ok = !s.is_empty()
        && s.chars().count() <= 32
        && body.chars().all(|c| alnum(c) || c == '_' || c == '-')
        && !s.starts_with('-')
        && !s.chars().all(|c| c.is_ascii_digit());
    if ok && body.chars().all(|c| c.is_ascii_digit()) {
        return None; // digits and a dollar sign
    }
    Some(ok)
}

/// The first character rule of the OCI grammar is not documented for this type: no claim.
pub fn ref_tag(s: &str) -> Option<bool> {
    let ok = !s.is_empty() && s.len() <= 128 && s.chars().all(|c| alnum(c) || "._-".contains(c));
    if ok && s.starts_with(['.', '-']) {
        return None;
    }
    Some(ok)
}

pub fn ref_digest(s: &str) -> bool {
    let Some(colon) = s.find(':') else { return false };
    let (algorithm, encoded) = (&s[..colon], &s[colon + 1..]);
    let parts: Vec<&str> = algorithm.split(['+', '.', '_', '-']).collect();
    parts.iter().all(|p| !p.is_empty() && p.chars().all(lower_digit))
        && !encoded.is_empty()
        && encoded.chars().all(|c| alnum(c) || "=_-".contains(c))
}

pub fn ref_image_part(s: &str) -> bool {
    // alnum+ (sep alnum+)* where sep is '.', '_', '__' or dashes
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    loop {
        let start = i;
        while i < cs.len() && lower_digit(cs[i]) {
            i += 1;
        }
        if i == start {
            return false;
        }
        if i == cs.len() {
            return true;
        }
        match cs[i] {
            '.' => i += 1,
            '_' => i += if cs.get(i + 1) == Some(&'_') { 2 } else { 1 },
            '-' => {
                while cs.get(i) == Some(&'-') {
                    i += 1;
                }
            }
            _ => return false,
        }
    }
}

/// Whether `s` is a valid image name, and the length of its registry part. `Err`: no claim.
pub fn ref_image_name(s: &str) -> Result<Option<Option<usize>>, ()> {
    let parts: Vec<&str> = s.split('/').collect();
    let mut registry = None;
    let mut ok = true;
    let mut first = parts[0];
    if first.contains('.') {
        registry = Some(first.len());
        if let Some((host, port)) = first.split_once(':') {
            if port.starts_with('+') {
                return Err(());
            }
            if !host.contains('.') {
                return Err(()); // dot only after the colon
            }
            ok &= !port.is_empty()
                && port.chars().all(|c| c.is_ascii_digit())
                && port.trim_start_matches('0').len() <= 5
                && port.parse::<u64>().is_ok_and(|p| p <= 65535);
            first = host;
        }
    }
    ok &= ref_image_part(first) && parts[1..].iter().all(|p| ref_image_part(p));
    Ok(ok.then_some(registry))
}

// ---- C08 ----

type Decision = Vec<(&'static str, Option<String>)>;

macro_rules! key_decisions {
    ($Ty:ty, $s:expr) => {{
        let s: &str = $s;
        let boxed: Box<str> = s.into();
        let mut out: Decision = vec![
            ("new(&str)", <$Ty>::new(s).ok().map(String::from)),
            ("new(String)", <$Ty>::new(s.to_owned()).ok().map(String::from)),
            ("new(Box<str>)", <$Ty>::new(boxed.clone()).ok().map(String::from)),
            ("FromStr", s.parse::<$Ty>().ok().map(String::from)),
            ("TryFrom<&str>", <$Ty>::try_from(s).ok().map(String::from)),
            ("TryFrom<String>", <$Ty>::try_from(s.to_owned()).ok().map(String::from)),
            ("TryFrom<Box<str>>", <$Ty>::try_from(boxed).ok().map(String::from)),
        ];
        out.extend(serde_decisions::<$Ty>(s, |v| String::from(v)));
        out
    }};
}

fn serde_decisions<T: DeserializeOwned>(s: &str, back: impl Fn(T) -> String) -> Decision {
    let value = YamlValue::String(s.to_owned());
    vec![
        ("deserialize (owned)", serde_yaml::from_value::<T>(value.clone()).ok().map(&back)),
        ("deserialize (borrowed)", T::deserialize(&value).ok().map(&back)),
    ]
}

fn map_key_decision<T: DeserializeOwned + Hash + Eq>(s: &str, back: impl Fn(T) -> String) -> (&'static str, Option<String>) {
    let mut m = serde_yaml::Mapping::new();
    m.insert(s.into(), 1.into());
    let got = serde_yaml::from_value::<IndexMap<T, u8>>(m.into())
        .ok()
        .and_then(|m| m.into_iter().next().map(|(k, _)| back(k)));
    ("map key", got)
}

pub fn doc(path: &[&str], leaf: YamlValue) -> YamlValue {
    let mut v = leaf;
    for key in path.iter().rev() {
        let mut m = serde_yaml::Mapping::new();
        m.insert((*key).into(), v);
        v = m.into();
    }
    v
}

pub fn compose(v: YamlValue) -> Option<Compose> {
    serde_yaml::from_value(v).ok()
}

/// Check a decision table against the reference and verbatim storage.
fn agree(s: &str, expected: Option<bool>, got: Decision) -> Res {
    let Some(expected) = expected else {
        // no claim on the decision itself, but all ways of constructing must agree
        let first = got[0].1.is_some();
        for (how, g) in &got {
            ensure!(g.is_some() == first, "{how} decides differently from {} on {s:?}", got[0].0);
        }
        return Ok(());
    };
    for (how, g) in got {
        match (expected, g) {
            (true, Some(text)) => ensure_eq!(text, s.to_owned(), "{how} does not keep {s:?}"),
            (true, None) => return Err(format!("{how} rejects {s:?}, which satisfies the documented rules")),
            (false, None) => {}
            (false, Some(_)) => return Err(format!("{how} accepts {s:?}, which breaks the documented rules")),
        }
    }
    Ok(())
}

fn grammar(
    name: &'static str,
    cases: u64,
    strategy: fn() -> BoxedStrategy<String>,
    check: fn(&str) -> (Option<bool>, Decision),
) -> Sub {
    sub(
        name,
        "valid strings, strings 1-3 edits away from valid ones and arbitrary text; non-trivial: not empty",
        cases,
        strategy,
        move |s: &String, cov: &mut Cov| {
            let (expected, got) = check(s);
            cov.nontrivial_if(!s.is_empty());
            cov.label(match expected {
                Some(true) => "valid",
                Some(false) => "invalid",
                None => "no claim",
            });
            agree(s, expected, got)
        },
    )
}

pub fn c08() -> Property {
    Property {
        id: "C08",
        subs: vec![
            grammar("identifier", 40_000, || gen::mixed(gen::ident()), |s| {
                let mut d = key_decisions!(Identifier, s);
                d.push(map_key_decision::<Identifier>(s, String::from));
                d.push((
                    "service name",
                    compose(doc(&["services", s], YamlValue::Mapping(Default::default())))
                        .and_then(|c| c.services.into_iter().next().map(|(k, _)| k.into())),
                ));
                (Some(ref_identifier(s)), d)
            }),
            grammar("map_key", 30_000, || gen::mixed(gen::one_line_nonempty()), |s| {
                let mut d = key_decisions!(MapKey, s);
                d.push(map_key_decision::<MapKey>(s, String::from));
                (Some(ref_map_key(s)), d)
            }),
            grammar(
                "extension_key",
                30_000,
                || gen::mixed(gen::one_line_nonempty().prop_map(|s| format!("x-{s}"))),
                |s| {
                    let mut d = key_decisions!(ExtensionKey, s);
                    d.push(map_key_decision::<ExtensionKey>(s, String::from));
                    d.push((
                        "strip_prefix",
                        ExtensionKey::new(s).ok().map(|k| format!("x-{}", k.strip_prefix())),
                    ));
                    (Some(ref_extension_key(s)), d)
                },
            ),
            grammar("project_name", 30_000, || gen::mixed(gen::name()), |s| {
                let mut d = key_decisions!(Name, s);
                let mut v = doc(&["name"], s.into());
                v["services"] = YamlValue::Mapping(Default::default());
                d.push(("document", compose(v).and_then(|c| c.name).map(String::from)));
                (Some(ref_name(s)), d)
            }),
            grammar("hostname", 40_000, || gen::mixed(gen::hostname()), |s| {
                let mut d = key_decisions!(Hostname, s);
                d.push((
                    "document",
                    compose(doc(&["services", "a", "hostname"], s.into()))
                        .and_then(|c| c.services["a"].hostname.clone())
                        .map(String::from),
                ));
                (Some(ref_hostname(s)), d)
            }),
            grammar("ulimit_resource", 20_000, || gen::mixed(gen::ulimit_resource()), |s| {
                let mut d = key_decisions!(UlimitResource, s);
                d.push(map_key_decision::<UlimitResource>(s, String::from));
                d.push((
                    "document",
                    compose(doc(&["services", "a", "ulimits", s], 1.into())).and_then(|c| {
                        c.services["a"].ulimits.keys().next().cloned().map(String::from)
                    }),
                ));
                (Some(ref_ulimit_resource(s)), d)
            }),
            grammar("cache_option", 20_000, || gen::mixed("[a-z]{1,5}(=[a-z0-9]{1,4})?".boxed()), |s| {
                let mut d = key_decisions!(CacheOption, s);
                d.push(map_key_decision::<CacheOption>(s, String::from));
                (Some(ref_cache_option(s)), d)
            }),
            grammar("user_name", 40_000, || gen::mixed(gen::user_name()), |s| {
                let mut d = key_decisions!(user::Name, s);
                d.push(map_key_decision::<user::Name>(s, String::from));
                (ref_user_name(s), d)
            }),
            grammar("image_tag", 30_000, || gen::mixed(prop_oneof![3 => gen::tag(), 1 => "[a-zA-Z0-9._-]{126,130}"].boxed()), |s| {
                let d = vec![
                    ("new", Tag::new(s).ok().map(|t| t.into_inner().to_owned())),
                    ("TryFrom", Tag::try_from(s).ok().map(|t| t.to_string())),
                    (
                        "image",
                        Image::parse(format!("img:{s}")).ok().and_then(|i| i.tag().map(str::to_owned)),
                    ),
                ];
                // `img:` + text with '/', '@' or ':' has other readings
                let d = if s.contains(['/', '@', ':']) { d[..2].to_vec() } else { d };
                (ref_tag(s), d)
            }),
            grammar("image_digest", 30_000, || gen::mixed(gen::digest()), |s| {
                (
                    Some(ref_digest(s)),
                    vec![
                        ("new", Digest::new(s).ok().map(|t| t.into_inner().to_owned())),
                        ("TryFrom", Digest::try_from(s).ok().map(|t| t.to_string())),
                        (
                            "image",
                            Image::parse(format!("img@{s}")).ok().and_then(|i| i.digest().map(str::to_owned)),
                        ),
                    ],
                )
            }),
            grammar("image_name", 40_000, || gen::mixed(gen::image_name()), |s| {
                let expected = ref_image_name(s).ok().map(|r| r.is_some());
                let mut d = vec![
                    ("new", ImageName::new(s).ok().map(|t| t.into_inner().to_owned())),
                    ("TryFrom", ImageName::try_from(s).ok().map(|t| t.to_string())),
                ];
                // an image reference has other readings when the text contains ':' or '@'
                if !s.contains([':', '@']) {
                    d.push(("image", Image::parse(s).ok().map(|i| i.name().to_owned())));
                }
                (expected, d)
            }),
        ],
        known: vec![],
        assumptions: &[
            "no claim on: a leading '.' or '-' of an image tag, a user name made of '$' or digits and '$', ports with a leading '+'",
        ],
    }
}

// ---- C09 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pair {
    a: String,
    b: String,
    others: Vec<String>,
}

/// Pairs which are equal, prefix related, case related or unrelated.
fn pairs(base: fn() -> BoxedStrategy<String>) -> BoxedStrategy<Pair> {
    (base(), base(), base(), 0..6u8, prop::collection::vec(base(), 0..5))
        .prop_map(|(a, b, c, how, others)| {
            let b = match how {
                0 | 1 => a.clone(),
                2 => format!("{a}{}", c.chars().next().unwrap_or('a')),
                3 => a.to_ascii_lowercase(),
                4 => a.chars().take(a.chars().count().saturating_sub(1)).collect(),
                _ => b,
            };
            Pair { a, b, others }
        })
        .boxed()
}

fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

fn text_laws<'a, K>(a: &'a str, b: &'a str, ka: &K, kb: &K, cov: &mut Cov) -> Res
where
    K: PartialEq + Eq + PartialOrd + Ord + Debug + ToString + AsRef<str> + PartialEq<str> + PartialEq<&'a str> + Clone,
{
    cov.label(if a == b { "equal" } else { "different" });
    ensure_eq!(ka.to_string(), a.to_owned(), "Display of {a:?}");
    ensure_eq!(ka.as_ref(), a, "AsRef of {a:?}");
    ensure!(
        format!("{ka:?}").contains(&format!("{a:?}")),
        "Debug of {a:?} does not show its text"
    );
    ensure_eq!(ka == kb, a == b, "== of {a:?} and {b:?}");
    ensure_eq!(ka != kb, a != b, "!= of {a:?} and {b:?}");
    ensure_eq!(ka.cmp(kb), a.cmp(b), "cmp of {a:?} and {b:?}");
    ensure_eq!(ka.partial_cmp(kb), Some(a.cmp(b)), "partial_cmp of {a:?} and {b:?}");
    ensure_eq!(ka < kb, a.cmp(b) == Ordering::Less, "< of {a:?} and {b:?}");
    ensure_eq!(PartialEq::<str>::eq(ka, b), a == b, "== with str of {a:?} and {b:?}");
    ensure_eq!(PartialEq::<&str>::eq(ka, &b), a == b, "== with &str of {a:?} and {b:?}");
    ensure!(ka.clone() == *ka, "clone of {a:?}");
    Ok(())
}

fn hash_laws<K: Hash + Borrow<str> + Eq>(a: &str, b: &str, ka: &K, kb: &K) -> Res {
    ensure_eq!(h(ka), h(a), "hash of {a:?} and of its text");
    ensure_eq!(h(ka) == h(kb), a == b, "hashes of {a:?} and {b:?}");
    let borrowed: &str = ka.borrow();
    ensure_eq!(borrowed, a, "Borrow<str> of {a:?}");
    Ok(())
}

fn map_laws<K>(p: &Pair, keys: Vec<K>) -> Res
where
    K: Hash + Eq + Ord + Borrow<str> + Clone + Debug,
{
    // keys are those of [a, others...]; look up by text
    let texts: Vec<&str> = std::iter::once(&p.a).chain(&p.others).map(String::as_str).collect();
    let hm: HashMap<K, usize> = keys.iter().cloned().zip(0..).collect();
    let im: IndexMap<K, usize> = keys.iter().cloned().zip(0..).collect();
    let bm: BTreeMap<K, usize> = keys.iter().cloned().zip(0..).collect();
    let model: HashMap<&str, usize> = texts.iter().copied().zip(0..).collect();
    for t in texts.iter().copied().chain([p.b.as_str(), "", "zz"]) {
        let want = model.get(t);
        ensure_eq!(hm.get(t), want, "HashMap lookup of {t:?} in {texts:?}");
        ensure_eq!(im.get(t), want, "IndexMap lookup of {t:?} in {texts:?}");
        ensure_eq!(bm.get(t), want, "BTreeMap lookup of {t:?} in {texts:?}");
    }
    ensure_eq!(hm.len(), model.len(), "number of distinct keys in {texts:?}");
    let order: Vec<&str> = bm.keys().map(|k| k.borrow()).collect();
    let mut sorted: Vec<&str> = model.keys().copied().collect();
    sorted.sort_unstable();
    ensure_eq!(order, sorted, "BTreeMap order");
    Ok(())
}

macro_rules! text_check {
    ($name:expr, $Ty:ty, $base:expr, $map:tt) => {
        sub(
            $name,
            "pairs of valid texts (equal, one extending the other, case variants, unrelated) and a set of further texts; non-trivial: both texts valid",
            12_000,
            || pairs(|| $base),
            |p: &Pair, cov: &mut Cov| {
                let (a, b) = (p.a.as_str(), p.b.as_str());
                let (Ok(ka), Ok(kb)) = (<$Ty>::try_from(a), <$Ty>::try_from(b)) else {
                    cov.label("not valid");
                    return Ok(());
                };
                cov.nontrivial();
                text_laws(a, b, &ka, &kb, cov)?;
                ensure_eq!(ka.as_str(), a, "as_str");
                ensure_eq!(String::from(ka.clone()), a.to_owned(), "String::from");
                let value = serde_yaml::to_value(&ka).map_err(|e| format!("serialize {a:?}: {e}"))?;
                ensure_eq!(value, YamlValue::String(a.to_owned()), "serialized form");
                let back: $Ty = serde_yaml::from_value(value).map_err(|e| format!("deserialize {a:?}: {e}"))?;
                ensure!(back == ka, "deserialized {back:?} differs from {ka:?}");
                let cow: Cow<str> = Cow::Borrowed(a);
                ensure!(text_check!(@cow $map, $Ty, cow, ka), "TryFrom<Cow>");
                text_check!(@map $map, $Ty, p, a, b, ka, kb);
                Ok(())
            },
        )
    };
    (@map hash, $Ty:ty, $p:ident, $a:ident, $b:ident, $ka:ident, $kb:ident) => {
        hash_laws($a, $b, &$ka, &$kb)?;
        if let Ok(keys) = std::iter::once(&$p.a)
            .chain(&$p.others)
            .map(|s| <$Ty>::try_from(s.as_str()))
            .collect::<Result<Vec<_>, _>>()
        {
            map_laws($p, keys)?;
        }
    };
    (@map nohash, $Ty:ty, $p:ident, $a:ident, $b:ident, $ka:ident, $kb:ident) => {
        let boxed: Box<str> = $ka.clone().into();
        ensure_eq!(&*boxed, $a, "Box<str>::from");
    };
    (@cow hash, $Ty:ty, $cow:ident, $ka:ident) => {
        <$Ty>::try_from($cow).is_ok_and(|k| k == $ka)
    };
    (@cow nohash, $Ty:ty, $cow:ident, $ka:ident) => {{ let _ = $cow; true }};
}

/// Wrapper so that the project name (which has fewer traits) goes through the same laws.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct PName(Name);
impl AsRef<str> for PName {
    fn as_ref(&self) -> &str {
        self.0.as_ref()
    }
}
impl std::fmt::Display for PName {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        std::fmt::Display::fmt(&self.0, f)
    }
}
impl PartialEq<str> for PName {
    fn eq(&self, o: &str) -> bool {
        self.0.as_str() == o
    }
}
impl PartialEq<&str> for PName {
    fn eq(&self, o: &&str) -> bool {
        self.0.as_str() == *o
    }
}

macro_rules! part_check {
    ($name:expr, $Ty:ident, $base:expr) => {
        sub(
            $name,
            "pairs of valid texts (equal, one extending the other, case variants, unrelated); non-trivial: both texts valid",
            12_000,
            || pairs(|| $base),
            |p: &Pair, cov: &mut Cov| {
                let (a, b) = (p.a.as_str(), p.b.as_str());
                let (Ok(ka), Ok(kb)) = ($Ty::new(a), $Ty::new(b)) else {
                    cov.label("not valid");
                    return Ok(());
                };
                cov.nontrivial();
                text_laws(a, b, &ka, &kb, cov)?;
                hash_laws(a, b, &ka, &kb)?;
                ensure_eq!(ka.into_inner(), a, "into_inner");
                Ok(())
            },
        )
    };
}

pub fn c09() -> Property {
    Property {
        id: "C09",
        subs: vec![
            text_check!("identifier", Identifier, gen::ident(), hash),
            text_check!("map_key", MapKey, gen::one_line_nonempty(), hash),
            text_check!("extension_key", ExtensionKey, gen::one_line_nonempty().prop_map(|s| format!("x-{s}")).boxed(), hash),
            text_check!("hostname", Hostname, gen::hostname(), hash),
            text_check!("ulimit_resource", UlimitResource, gen::ulimit_resource(), hash),
            text_check!("user_name", user::Name, gen::user_name(), hash),
            text_check!("cache_option", CacheOption, "[a-zA-Z0-9=/:]{1,6}".boxed(), hash),
            text_check!("image", Image, gen::image(), hash),
            sub(
                "project_name",
                "pairs of valid project names; non-trivial: both texts valid",
                12_000,
                || pairs(gen::name),
                |p: &Pair, cov: &mut Cov| {
                    let (Ok(ka), Ok(kb)) = (Name::try_from(p.a.as_str()), Name::try_from(p.b.as_str())) else {
                        return Ok(());
                    };
                    cov.nontrivial();
                    ensure_eq!(ka.as_str(), p.a, "as_str");
                    ensure_eq!(String::from(ka.clone()), p.a, "String::from");
                    let boxed: Box<str> = ka.clone().into();
                    ensure_eq!(&*boxed, p.a.as_str(), "Box<str>::from");
                    let value = serde_yaml::to_value(&ka).map_err(|e| e.to_string())?;
                    ensure_eq!(value, YamlValue::String(p.a.clone()), "serialized form");
                    text_laws(&p.a, &p.b, &PName(ka), &PName(kb), cov)
                },
            ),
            part_check!("image_tag", Tag, gen::tag()),
            part_check!("image_digest", Digest, gen::digest()),
            part_check!("image_name", ImageName, gen::image_name()),
        ],
        known: vec![],
        assumptions: &[],
    }
}
