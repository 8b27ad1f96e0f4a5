//! Equality, hashing and ordering of values: C31.

use std::{
    cmp::Ordering,
    collections::{BTreeSet, HashSet},
    fmt::Debug,
    hash::{DefaultHasher, Hash, Hasher},
    path::{Path, PathBuf},
};

use compose_spec::{
    service::{self, volumes::{mount, HostPath}, AbsolutePath, Limit},
    Compose, Identifier, Service, ShortOrLong, YamlValue,
};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Serialize};

use crate::{
    docgen::{self, choices, extra, Choices, Extra, Kind, Node, Src},
    ensure, ensure_eq,
    fw::{sub, Cov, Property, Res},
    whole::must,
};

/// The same for values which differ in the order of mappings or lists only, or in the writing of
/// paths or zero.
fn unordered(v: &YamlValue) -> String {
    match v {
        YamlValue::Sequence(s) => {
            let mut items: Vec<String> = s.iter().map(unordered).collect();
            items.sort();
            format!("[{}]", items.join(","))
        }
        YamlValue::Mapping(m) => {
            let mut items: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", unordered(k), unordered(v))).collect();
            items.sort();
            format!("{{{}}}", items.join(","))
        }
        // paths are equal if their components are
        YamlValue::String(s) => format!("{:?}", s.split(':').map(|p| Path::new(p).components().collect()).collect::<Vec<PathBuf>>()),
        YamlValue::Number(n) if n.as_f64() == Some(0.0) && n.is_f64() => "0.0".to_owned(),
        v => format!("{v:?}"),
    }
}

fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// Whether the values are equal, which must agree with how they are written.
fn equality<T: PartialEq + Serialize + Clone + Debug>(a: &T, b: &T, empty: bool) -> Result<bool, String> {
    let write = |v: &T| serde_yaml::to_value(v).map_err(|e| format!("cannot serialise {v:?}: {e}"));
    let (va, vb) = (write(a)?, write(b)?);
    let equal = a == b;
    ensure_eq!(b == a, equal, "equality in the other direction of {a:?} and {b:?}");
    #[allow(clippy::partialeq_ne_impl, clippy::nonminimal_bool)]
    {
        ensure_eq!(!(a != b), equal, "!= of {a:?} and {b:?}");
    }
    ensure!(a.clone() == *a, "{a:?} differs from its clone");
    if equal {
        ensure_eq!(unordered(&va), unordered(&vb), "written, of equal {a:?} and {b:?}");
    } else if !empty {
        // equal in all, also in the order
        ensure!(format!("{va:?}") != format!("{vb:?}"), "{a:?} and {b:?} differ but are written as the same {va:?}");
    }
    Ok(equal)
}

fn hashing<T: Eq + Hash + Serialize + Clone + Debug>(a: &T, b: &T) -> Res {
    let equal = equality(a, b, false)?;
    ensure_eq!(hash(&a.clone()), hash(a), "hash of the clone of {a:?}");
    if equal {
        ensure_eq!(hash(a), hash(b), "hashes of equal {a:?} and {b:?}");
    }
    let set: HashSet<T> = [a.clone()].into();
    ensure_eq!(set.contains(b), equal, "{b:?} is in a set of {a:?}");
    Ok(())
}

fn ordering<T: Ord + Clone + Debug>(a: &T, b: &T, c: &T) -> Res {
    let o = a.cmp(b);
    ensure_eq!(o == Ordering::Equal, a == b, "order {o:?} of {a:?} and {b:?}, equal");
    ensure_eq!(b.cmp(a), o.reverse(), "order of {b:?} and {a:?}");
    ensure_eq!(a.partial_cmp(b), Some(o), "partial order of {a:?} and {b:?}");
    ensure_eq!(a.cmp(a), Ordering::Equal, "order of {a:?} and itself");
    if o != Ordering::Greater && b.cmp(c) != Ordering::Greater {
        ensure!(a.cmp(c) != Ordering::Greater, "{a:?} <= {b:?} <= {c:?} but not {a:?} <= {c:?}");
    }
    let set: BTreeSet<T> = [a.clone(), b.clone(), c.clone()].into();
    let n = 1 + usize::from(b != a) + usize::from(c != a && c != b);
    ensure_eq!(set.len(), n, "set of {a:?}, {b:?} and {c:?}");
    Ok(())
}

/// Change one choice.
fn near(data: &[u32], e: &mut Src) -> Vec<u32> {
    let mut data = data.to_vec();
    let end = 1 + e.n(data.len());
    let i = e.n(end);
    let to = e.u64() as u32;
    if let Some(v) = data.get_mut(i) {
        *v = to;
    }
    data
}

fn empties(doc: &Node) -> bool {
    let mut empty = false;
    doc.walk(&mut Vec::new(), &mut |_, n| empty |= n.omit && matches!(&n.kind, Kind::Map(e) if e.is_empty()));
    empty
}

fn check_documents((c, e): &(Choices, Extra), cov: &mut Cov) -> Res {
    let mut s = Src::new(e);
    let a = docgen::document(&mut Src::new(&c.0));
    let b = if s.chance(10) { a.clone() } else { docgen::document(&mut Src::new(&near(&c.0, &mut s))) };
    let empty = empties(&a) || empties(&b);
    let (a, b) = (must(&a.input())?, must(&b.input())?);
    cov.nontrivial();
    let equal = equality::<Compose>(&a, &b, empty)?;
    cov.label(if equal { "equal" } else { "different" });
    // and of the parts
    for (a, b) in a.services.values().zip(b.services.values()) {
        equality::<Service>(a, b, empty)?;
    }
    Ok(())
}

fn pairs<'a, T: 'a>(a: impl IntoIterator<Item = &'a T>, b: impl IntoIterator<Item = &'a T>, check: fn(&T, &T) -> Res) -> Res {
    let all: Vec<&T> = a.into_iter().chain(b).collect();
    all.iter().try_for_each(|a| all.iter().try_for_each(|b| check(a, b)))
}

/// Service settings whose values can be compared, and hashed.
const FIELDS: &[&str] = &[
    "ports", "ports", "ports", "volumes", "volumes", "volumes", "volumes", "devices", "device_cgroup_rules", "expose", "links", "external_links", "volumes_from", "group_add",
    "user", "build", "blkio_config", "healthcheck", "deploy", "tmpfs", "profiles", "image", "mac_address", "networks", "ulimits", "oom_score_adj", "configs", "depends_on", "env_file",
    "extra_hosts", "logging", "develop", "credential_spec", "cpuset", "mem_limit", "memswap_limit", "restart", "network_mode", "command",
];

fn check_settings(e: &Extra, cov: &mut Cov) -> Res {
    let mut s = Src::new(e);
    let key = s.pick(FIELDS);
    let (choice, own) = e.split_at(e.len() / 4);
    let mut s = Src::new(choice);
    s.n(1);
    let make = |data: &[u32]| docgen::one_service(vec![(key.to_owned(), docgen::service_field(&mut Src::new(data), key))]);
    let parse = |data: &[u32]| -> Result<(Service, bool), String> {
        let doc = make(data);
        let mut compose = must(&doc.input())?;
        Ok((compose.services.shift_remove("svc").expect("harness: service"), empties(&doc)))
    };
    let (a, empty_a) = parse(own)?;
    let other = near(own, &mut s);
    let (b, empty_b) = parse(&other)?;
    let equal = equality(&a, &b, empty_a || empty_b)?;
    cov.nontrivial();
    cov.label(if equal { "equal" } else { "different" });
    pairs(&a.ports, &b.ports, hashing)?;
    pairs(&a.volumes, &b.volumes, hashing)?;
    pairs(a.ports.iter().filter_map(ShortOrLong::as_long), b.ports.iter().filter_map(ShortOrLong::as_long), hashing)?;
    pairs(a.volumes.iter().filter_map(ShortOrLong::as_long), b.volumes.iter().filter_map(ShortOrLong::as_long), mounts)?;
    pairs(&a.devices, &b.devices, hashing)?;
    pairs(&a.device_cgroup_rules, &b.device_cgroup_rules, hashing)?;
    pairs(&a.expose, &b.expose, hashing)?;
    pairs(&a.links, &b.links, hashing)?;
    pairs(&a.external_links, &b.external_links, hashing)?;
    pairs(&a.volumes_from, &b.volumes_from, hashing)?;
    pairs(&a.group_add, &b.group_add, hashing)?;
    pairs(&a.user, &b.user, hashing)?;
    pairs(&a.image, &b.image, hashing)?;
    pairs(&a.profiles, &b.profiles, hashing)?;
    pairs(&a.configs, &b.configs, |a, b| equality(a, b, false).map(drop))?;
    pairs(&a.secrets, &b.secrets, |a, b| equality(a, b, false).map(drop))?;
    Ok(())
}

/// The mounts and their options.
fn mounts(a: &mount::Mount, b: &mount::Mount) -> Res {
    use mount::Mount as M;
    hashing(a, b)?;
    match (a, b) {
        (M::Volume(a), M::Volume(b)) => {
            hashing(a, b)?;
            pairs(&a.volume, &b.volume, hashing)
        }
        (M::Bind(a), M::Bind(b)) => {
            hashing(a, b)?;
            pairs(&a.bind, &b.bind, hashing)
        }
        (M::Tmpfs(a), M::Tmpfs(b)) => {
            hashing(a, b)?;
            pairs(&a.tmpfs, &b.tmpfs, hashing)
        }
        (M::NamedPipe(a), M::NamedPipe(b)) => hashing(a, b),
        (M::Cluster(a), M::Cluster(b)) => hashing(a, b),
        _ => Ok(()),
    }
}

/// Texts of values with an order: parsed as `T`, compared in threes.
fn ordered<T: Ord + Hash + Clone + Debug + Serialize + DeserializeOwned>(texts: &[YamlValue], cov: &mut Cov) -> Res {
    let values: Vec<T> = texts.iter().filter_map(|v| serde_yaml::from_value(v.clone()).ok()).collect();
    for a in &values {
        for b in &values {
            hashing(a, b)?;
            values.iter().try_for_each(|c| ordering(a, b, c))?;
        }
    }
    if values.len() > 1 {
        cov.nontrivial();
    }
    Ok(())
}

fn check_ordered(e: &Extra, cov: &mut Cov) -> Res {
    let mut s = Src::new(e);
    let word = |s: &mut Src, chars: &[&str], max: usize| -> String { (0..1 + s.n(max)).map(|_| s.pick(chars)).collect() };
    let kind = s.n(8);
    let texts: Vec<YamlValue> = (0..3)
        .map(|_| match kind {
            0 => (0..6).map(|_| s.pick(&["00", "01", "0a", "0A", "10", "ff", "FF", "9f"])).collect::<Vec<_>>().join(s.pick(&[":", "-"])).into(),
            1 => s.n(102).into(),
            2 => YamlValue::from(i64::try_from(s.n(2010)).unwrap_or(0) - 1005),
            3 => (s.n(1010)).into(),
            4 => format!("/{}", word(&mut s, &["a", "b", "/", "//", "..", ".", "A", "/."], 4)).into(),
            5 => format!("{}{}", s.pick(&["/", ".", "./", "..", "../"]), word(&mut s, &["a", "b", "/", "//", "..", ".", "A", "/."], 4)).into(),
            6 => docgen::ident_text(&mut s).into(),
            _ => if s.chance(20) { YamlValue::from(-1) } else { YamlValue::from(s.u64()) },
        })
        .collect();
    match kind {
        0 => ordered::<service::MacAddress>(&texts, cov),
        1 => {
            cov.label("numbers");
            same_order::<service::Percent>(&texts)?;
            ordered::<service::Percent>(&texts, cov)
        }
        2 => {
            same_order::<service::OomScoreAdj>(&texts)?;
            ordered::<service::OomScoreAdj>(&texts, cov)
        }
        3 => {
            same_order::<service::blkio_config::Weight>(&texts)?;
            ordered::<service::blkio_config::Weight>(&texts, cov)
        }
        4 => ordered::<AbsolutePath>(&texts, cov),
        5 => ordered::<HostPath>(&texts, cov),
        6 => ordered::<Identifier>(&texts, cov),
        _ => {
            let values: Vec<Limit<u64>> = texts.iter().filter_map(|v| serde_yaml::from_value(v.clone()).ok()).collect();
            for a in &values {
                for b in &values {
                    equality(a, b, false)?;
                    // -1, no limit, is above all
                    let key = |v: &Limit<u64>| match v {
                        Limit::Value(n) => u128::from(*n),
                        Limit::Unlimited => u128::MAX,
                    };
                    ensure_eq!(a.cmp(b), key(a).cmp(&key(b)), "order of {a:?} and {b:?}");
                    values.iter().try_for_each(|c| ordering(a, b, c))?;
                }
            }
            cov.nontrivial();
            Ok(())
        }
    }
}

/// Numbers are ordered as such.
fn same_order<T: Ord + Debug + DeserializeOwned>(numbers: &[YamlValue]) -> Res {
    for a in numbers {
        for b in numbers {
            if let (Ok(va), Ok(vb)) = (serde_yaml::from_value::<T>(a.clone()), serde_yaml::from_value::<T>(b.clone())) {
                ensure_eq!(va.cmp(&vb), a.as_i64().cmp(&b.as_i64()), "order of {va:?} and {vb:?}");
            }
        }
    }
    Ok(())
}

/// Comparing with a plain value is the same as comparing with the value made of it.
fn plain<T: PartialEq<P> + PartialEq + Debug, P: Debug + ?Sized>(values: &[T], plains: &[&P], make: impl Fn(&P) -> Option<T>) -> Res {
    for v in values {
        for p in plains {
            let equal = make(p).is_some_and(|w| w == *v);
            ensure_eq!(*v == **p, equal, "equality of {v:?} and the plain {p:?}");
            #[allow(clippy::partialeq_ne_impl, clippy::nonminimal_bool)]
            {
                ensure_eq!(!(*v != **p), equal, "!= of {v:?} and the plain {p:?}");
            }
        }
    }
    Ok(())
}

fn check_plain(e: &Extra, cov: &mut Cov) -> Res {
    use service::{
        blkio_config::Weight,
        deploy::resources::{Count, Cpus},
        device::MajorMinorNumber,
        image::{self, Image},
        ports::Range,
        OomScoreAdj, Percent,
    };
    let mut s = Src::new(e);
    let numbers: Vec<u64> = (0..4)
        .map(|_| match s.n(4) {
            0 => s.pick(&[0, 1, 10, 99, 100, 101, 255, 256, 500, 1000, 1001, 65_534, 65_535, 65_536, u64::MAX]),
            1 => s.u64(),
            _ => s.n(1200) as u64,
        })
        .collect();
    fn small<P: TryFrom<u64>>(numbers: &[u64]) -> Vec<P> {
        numbers.iter().filter_map(|n| (*n).try_into().ok()).collect()
    }
    cov.nontrivial();
    match s.n(6) {
        0 => {
            let n = small::<u8>(&numbers);
            let v: Vec<Percent> = n.iter().filter_map(|n| Percent::new(*n).ok()).collect();
            plain(&v, &n.iter().collect::<Vec<_>>(), |p| Percent::new(*p).ok())?;
            let n: Vec<i16> = small::<u16>(&numbers).iter().flat_map(|n| [n.cast_signed(), n.cast_signed().wrapping_neg()]).collect();
            let v: Vec<OomScoreAdj> = n.iter().filter_map(|n| OomScoreAdj::new(*n).ok()).collect();
            plain(&v, &n.iter().collect::<Vec<_>>(), |p| OomScoreAdj::new(*p).ok())
        }
        1 => {
            let n = small::<u16>(&numbers);
            let v: Vec<Weight> = n.iter().filter_map(|n| Weight::new(*n).ok()).collect();
            plain(&v, &n.iter().collect::<Vec<_>>(), |p| Weight::new(*p).ok())?;
            let n: Vec<_> = n.iter().filter_map(|n| std::num::NonZeroU16::new(*n)).collect();
            plain(&v, &n.iter().collect::<Vec<_>>(), |p| Weight::new(*p).ok())
        }
        2 => {
            let n = small::<u16>(&numbers);
            let mut v: Vec<MajorMinorNumber> = n.iter().map(|n| (*n).into()).collect();
            v.push(MajorMinorNumber::All);
            let n: Vec<u16> = n.into_iter().chain([0, u16::MAX]).collect();
            plain(&v, &n.iter().collect::<Vec<_>>(), |p| Some((*p).into()))?;
            let mut v: Vec<Count> = numbers.iter().map(|n| (*n).into()).collect();
            v.push(Count::All);
            let n: Vec<u64> = numbers.into_iter().chain([0, 1, u64::MAX]).collect();
            plain(&v, &n.iter().collect::<Vec<_>>(), |p| Some((*p).into()))
        }
        3 => {
            let n = small::<u16>(&numbers);
            let mut v: Vec<Range> = n.iter().map(|n| (*n).into()).collect();
            v.extend(n.iter().flat_map(|a| n.iter().filter_map(|b| Range::new(*a, Some(*b)).ok())));
            plain(&v, &n.iter().collect::<Vec<_>>(), |p| Some((*p).into()))?;
            let ranges: Vec<_> = n.iter().flat_map(|a| n.iter().map(move |b| *a..=*b)).collect();
            plain(&v, &ranges.iter().collect::<Vec<_>>(), |p| Range::new(*p.start(), Some(*p.end())).ok())
        }
        4 => {
            let n: Vec<f64> = numbers.iter().map(|n| *n as f64 / 8.0).chain([0.0, -1.0, 0.5, f64::INFINITY, f64::NAN]).collect();
            // Neighbours of numbers, and numbers of any size.
            let n: Vec<f64> = n
                .into_iter()
                .flat_map(|n| [n, n.next_up(), n.next_up().next_up()])
                .chain((0..3).map(|_| f64::from_bits(s.u64() >> 1)))
                .filter(|n| n.to_bits() != (-0.0f64).to_bits())
                .collect();
            let v: Vec<Cpus> = n.iter().filter_map(|n| Cpus::new(*n).ok()).collect();
            plain(&v, &n.iter().collect::<Vec<_>>(), |p| Cpus::new(*p).ok())?;
            for v in &v {
                for p in &n {
                    ensure_eq!(v.partial_cmp(p), v.into_inner().partial_cmp(p), "order of {v:?} and the plain {p:?}");
                }
            }
            Ok(())
        }
        _ => {
            let word = |s: &mut Src| -> String { (0..1 + s.n(3)).map(|_| s.pick(&["a", "A", "b", "0", ".", "/", ":", "//", "/."])).collect() };
            let texts: Vec<String> = (0..4).map(|_| word(&mut s)).flat_map(|w| [format!("/{w}"), format!("./{w}"), w.to_ascii_lowercase(), w]).collect();
            let t: Vec<&str> = texts.iter().map(String::as_str).collect();
            let paths: Vec<&Path> = t.iter().map(Path::new).collect();
            let v: Vec<AbsolutePath> = t.iter().filter_map(|t| t.parse().ok()).collect();
            plain(&v, &paths, |p| AbsolutePath::new(p).ok())?;
            let v: Vec<HostPath> = t.iter().filter_map(|t| t.parse().ok()).collect();
            plain(&v, &paths, |p| HostPath::new(p).ok())?;
            let v: Vec<Identifier> = t.iter().filter_map(|t| t.parse().ok()).collect();
            plain(&v, &t, |p| Identifier::new(p).ok())?;
            plain(&v, &t.iter().collect::<Vec<_>>(), |p| Identifier::new(*p).ok())?;
            let v: Vec<Image> = t.iter().filter_map(|t| Image::parse(*t).ok()).collect();
            plain(&v, &t, |p| Image::parse(p).ok())?;
            plain(&v, &t.iter().collect::<Vec<_>>(), |p| Image::parse(*p).ok())?;
            for v in t.iter().filter_map(|t| image::Name::new(t).ok()) {
                for p in &t {
                    ensure_eq!((v == **p, v == *p), (v.as_ref() == *p, v.as_ref() == *p), "equality of {v:?} and {p:?}");
                }
            }
            for v in t.iter().filter_map(|t| image::Tag::new(t).ok()) {
                for p in &t {
                    ensure_eq!((v == **p, v == *p), (v.as_ref() == *p, v.as_ref() == *p), "equality of {v:?} and {p:?}");
                }
            }
            Ok(())
        }
    }
}

pub fn c31() -> Property {
    Property {
        id: "C31",
        subs: vec![
            sub("documents", "two generated documents that differ in one choice", 5_000, || (choices(200), extra(8)).boxed(), check_documents),
            sub("settings", "two values of one service setting that differ in one choice, and the items of their lists in pairs", 20_000, || extra(48), check_settings),
            sub("ordered values", "three values of a type with an order; non-trivial: more than one is valid", 10_000, || extra(40), check_ordered),
            sub("plain values", "values compared with plain numbers, ranges, texts and paths", 5_000, || extra(40), check_plain),
        ],
        known: vec![],
        assumptions: &[],
    }
}
