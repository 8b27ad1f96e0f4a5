//! C16 short and long syntax, C17 lists, maps and scalars, C18 platforms.

use std::{collections::BTreeMap, fmt::Debug, path::PathBuf};

use compose_spec::{
    service::{
        build::{Build, Context},
        env_file,
        network_config::{Network, Networks},
        platform::{self, Arch, Os, Platform},
        ConfigOrSecret, DependsOn, Dependency, EnvFile, Limit, NetworkConfig, Ulimit,
    },
    AsShort, AsShortIter, Compose, Identifier, Include, ItemOrList, ListOrMap, Map, Number, ShortOrLong,
    StringOrNumber, Value, YamlValue,
};
use indexmap::{IndexMap, IndexSet};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};

use crate::{
    ensure, ensure_eq, fail,
    fw::{all, sub, Cov, Property, Res},
    gen,
    keys::ref_map_key,
    tmpl,
};

fn to_value<T: Serialize>(v: &T) -> Result<YamlValue, String> {
    serde_yaml::to_value(v).map_err(|e| format!("cannot serialise: {e}"))
}

fn yaml(s: &str) -> YamlValue {
    serde_yaml::from_str(s).expect("yaml")
}

/// The whole document with the hole filled.
fn compose(template: &str, leaf: &YamlValue) -> Result<Option<Compose>, String> {
    tmpl::parse(&tmpl::fill(template, leaf))
}

fn must(template: &str, leaf: &YamlValue) -> Result<Compose, String> {
    compose(template, leaf)?.ok_or_else(|| format!("rejected: {leaf:?} in {template:?}"))
}

// ---- C16 ----

/// One kind of setting with a short and a long syntax.
struct Kind {
    name: &'static str,
    short_key: &'static str,
    /// Document templates, with `@` standing for the setting.
    docs: &'static [&'static str],
    /// Settings which the short syntax lacks: (key, YAML value, is it the default).
    extras: &'static [(&'static str, &'static str, bool)],
    check: fn(&Pair, &Kind) -> Res,
}

const SIMPLE: &[Kind] = &[
    Kind {
        name: "include",
        short_key: "path",
        docs: &["{services: {}, include: ['@']}"],
        extras: &[
            ("project_directory", "p", false),
            ("env_file", "e", false),
            ("env_file", "[e, f]", false),
            ("env_file", "[]", false),
            ("env_file", "[e]", false),
            ("env_file", "''", false),
            ("project_directory", "''", false),
        ],
        check: |p, k| laws::<PathBuf, Include>(p, k, |c, _| c.include.first().cloned()),
    },
    Kind {
        name: "build",
        short_key: "context",
        docs: &["{services: {svc: {build: '@'}}}"],
        extras: &[
            ("dockerfile", "D", false),
            ("dockerfile_inline", "FROM a", false),
            ("args", "[A=1]", false),
            ("args", "{A: 1}", false),
            ("args", "[]", true),
            ("ssh", "[default]", false),
            ("ssh", "[]", true),
            ("cache_from", "[a]", false),
            ("cache_from", "[]", true),
            ("cache_to", "['type=registry,ref=a']", false),
            ("cache_to", "[]", true),
            ("additional_contexts", "{a: .}", false),
            ("additional_contexts", "{}", true),
            ("entitlements", "[e]", false),
            ("entitlements", "[]", true),
            ("extra_hosts", "{a: 1.2.3.4}", false),
            ("extra_hosts", "[]", true),
            ("isolation", "x", false),
            ("privileged", "true", false),
            ("privileged", "false", true),
            ("labels", "[a]", false),
            ("labels", "{a: 1}", false),
            ("labels", "[]", true),
            ("no_cache", "true", false),
            ("no_cache", "false", true),
            ("pull", "true", false),
            ("pull", "false", true),
            ("network", "host", false),
            ("shm_size", "1b", false),
            ("target", "t", false),
            ("target", "''", false),
            ("isolation", "''", false),
            ("shm_size", "0", false),
            ("network", "none", false),
            ("dockerfile", "''", false),
            ("dockerfile_inline", "''", false),
            ("secrets", "[s]", false),
            ("secrets", "[]", true),
            ("tags", "[t]", false),
            ("tags", "[]", true),
            ("ulimits", "{nofile: 1}", false),
            ("ulimits", "{}", true),
            ("platforms", "[linux/amd64]", false),
            ("platforms", "[]", true),
            ("x-a", "1", false),
            ("x-b", "{a: b}", false),
        ],
        check: |p, k| {
            laws::<Context, Build>(p, k, |c, _| c.services["svc"].build.clone())?;
            let l: Build = serde_yaml::from_value(p.long.clone()).map_err(|e| e.to_string())?;
            ensure!(!l.is_empty(), "a build with a context is empty: {l:?}");
            let mut l = l;
            l.context = None;
            ensure_eq!(l.is_empty(), p.plain, "is_empty without context of {l:?}");
            Ok(())
        },
    },
    Kind {
        name: "env_file",
        short_key: "path",
        docs: &["{services: {svc: {env_file: ['@']}}}"],
        extras: &[("required", "false", false), ("required", "true", true)],
        check: |p, k| {
            laws::<PathBuf, env_file::Config>(p, k, |c, _| match c.services["svc"].env_file.clone()? {
                EnvFile::List(l) => l.into_iter().next(),
                EnvFile::Single(s) => Some(s.into()),
            })
        },
    },
    Kind {
        name: "config or secret",
        short_key: "source",
        docs: &[
            "{services: {svc: {configs: ['@']}}}",
            "{services: {svc: {secrets: ['@']}}}",
            "{services: {svc: {build: {secrets: ['@']}}}}",
        ],
        extras: &[
            ("target", "/t", false),
            ("uid", "'10'", false),
            ("gid", "'0'", false),
            ("mode", "292", false),
            ("mode", "0", false),
            ("target", "''", false),
            ("uid", "'0'", false),
            ("x-a", "null", false),
            ("x-b", "[1]", false),
        ],
        check: |p, k| {
            laws::<Identifier, ConfigOrSecret>(p, k, |c, i| {
                let s = &c.services["svc"];
                match i {
                    0 => s.configs.first().cloned(),
                    1 => s.secrets.first().cloned(),
                    _ => match s.build.as_ref()? {
                        ShortOrLong::Long(b) => b.secrets.first().cloned(),
                        ShortOrLong::Short(_) => None,
                    },
                }
            })
        },
    },
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    kind: usize,
    short: YamlValue,
    long: YamlValue,
    /// Nothing but the short value is set in the long value.
    plain: bool,
}

fn laws<S, L>(p: &Pair, k: &Kind, get: impl Fn(Compose, usize) -> Option<ShortOrLong<S, L>>) -> Res
where
    S: Clone + Debug + PartialEq + Serialize + DeserializeOwned + Into<L>,
    L: Clone + Debug + PartialEq + Serialize + DeserializeOwned + AsShort<Short = S> + From<ShortOrLong<S, L>> + From<S>,
{
    let mut plain_map = serde_yaml::Mapping::new();
    plain_map.insert(k.short_key.into(), p.short.clone());
    let plain_long = YamlValue::Mapping(plain_map);
    for (i, doc) in k.docs.iter().enumerate() {
        let at = |v: &YamlValue| -> Result<ShortOrLong<S, L>, String> {
            get(must(doc, v)?, i).ok_or_else(|| format!("no {} in the document with {v:?}", k.name))
        };
        let short = at(&p.short)?;
        let plain = at(&plain_long)?;
        let long = at(&p.long)?;
        let ShortOrLong::Short(s) = &short else { fail!("{:?} is not short", p.short) };
        let (ShortOrLong::Long(pl), ShortOrLong::Long(l)) = (&plain, &long) else {
            fail!("{plain_long:?} or {:?} is not long", p.long)
        };
        ensure!(short.is_short() && !short.is_long() && !long.is_short() && long.is_long(), "is_short / is_long");
        ensure_eq!(short.as_long(), None, "as_long of a short value");
        ensure_eq!(long.as_long(), Some(l), "as_long of a long value");
        // short to long
        let made: L = s.clone().into();
        ensure_eq!(&made, pl, "long form of {s:?}, against the one written out");
        ensure_eq!(&short.clone().into_long(), pl, "into_long of {short:?}");
        ensure_eq!(&L::from(short.clone()), pl, "From<ShortOrLong> of {short:?}");
        ensure_eq!(&long.clone().into_long(), l, "into_long of a long value");
        ensure_eq!(&L::from(long.clone()), l, "From<ShortOrLong> of a long value");
        // long to short
        ensure_eq!(made.as_short(), Some(s), "short form of the long form of {s:?}");
        ensure_eq!(short.as_short(), Some(s), "short form of a short value");
        ensure_eq!(<&L as AsShort>::as_short(&&made), Some(s), "short form through a reference");
        ensure_eq!(<&ShortOrLong<S, L> as AsShort>::as_short(&&long), p.plain.then_some(s), "short form of {long:?} through a reference");
        ensure_eq!(l.as_short(), p.plain.then_some(s), "short form of {l:?}");
        ensure_eq!(long.as_short(), p.plain.then_some(s), "short form of {long:?}");
        // written
        ensure_eq!(to_value(&short)?, p.short, "written short {}", k.name);
        ensure_eq!(to_value(&plain)?, plain_long, "written plain long {}", k.name);
        let again: ShortOrLong<S, L> = serde_yaml::from_value(to_value(&long)?).map_err(|e| format!("{long:?} as written: {e}"))?;
        ensure_eq!(again, long, "{} as written", k.name);
        // the long form of the short value in a document
        ensure_eq!(at(&to_value(&made)?)?, plain, "document with the long form of {s:?}");
    }
    Ok(())
}

fn short_value(kind: usize) -> BoxedStrategy<YamlValue> {
    match kind {
        1 => prop_oneof![
            3 => gen::host_path(),
            2 => "[a-z0-9]{1,5}(/[a-z]{1,3}){0,2}",
            1 => prop::sample::select(vec!["https://example.com/a.git", "https://example.com/a.git#b:c", "git://a/b", "docker-image://a", "http://a/"]).prop_map(String::from),
        ]
        .prop_map(YamlValue::from)
        .boxed(),
        3 => gen::ident().prop_map(YamlValue::from).boxed(),
        _ => prop_oneof![gen::host_path(), "[a-zA-Z0-9_.-]{1,8}", gen::scalar_text()].prop_map(YamlValue::from).boxed(),
    }
}

fn pair(kind: usize) -> BoxedStrategy<Pair> {
    let k = &SIMPLE[kind];
    (
        short_value(kind),
        prop_oneof![
            1 => Just(vec![]),
            4 => prop::collection::vec(0..k.extras.len(), 1..3),
            2 => prop::collection::vec(0..k.extras.len(), 0..12),
            2 => prop::collection::vec(prop::sample::select(
                (0..k.extras.len()).filter(|i| k.extras[*i].2).chain([usize::MAX]).collect::<Vec<_>>()
            ), 1..6).prop_map(|v| v.into_iter().filter(|i| *i != usize::MAX).collect()),
        ],
        0..8usize,
    )
        .prop_map(move |(short, extras, pos)| {
            let mut list: Vec<(&str, YamlValue)> = Vec::new();
            let mut plain = true;
            for i in extras {
                let (key, v, default) = SIMPLE[kind].extras[i];
                let clash = |a: &str| list.iter().any(|(k, _)| *k == a);
                if clash(key) || (key.starts_with("dockerfile") && (clash("dockerfile") || clash("dockerfile_inline"))) {
                    continue;
                }
                list.push((key, yaml(v)));
                plain &= default;
            }
            list.insert(pos.min(list.len()), (SIMPLE[kind].short_key, short.clone()));
            let long = YamlValue::Mapping(list.into_iter().map(|(k, v)| (k.into(), v)).collect());
            Pair { kind, short, long, plain }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DependsCase {
    /// (service, condition, restart, required, written)
    deps: Vec<(String, u8, Option<bool>, Option<bool>)>,
}

const CONDITIONS: [&str; 3] = ["service_started", "service_healthy", "service_completed_successfully"];

fn unique<T>(v: Vec<T>, key: impl Fn(&T) -> String) -> Vec<T> {
    let mut seen = std::collections::HashSet::new();
    v.into_iter().filter(|x| seen.insert(key(x))).collect()
}

fn check_depends(c: &DependsCase, cov: &mut Cov) -> Res {
    const T: &str = "{services: {svc: {depends_on: '@'}}}";
    let deps = unique(c.deps.clone(), |d| d.0.clone());
    let names: Vec<&str> = deps.iter().map(|d| d.0.as_str()).collect();
    let list = YamlValue::Sequence(names.iter().map(|n| (*n).into()).collect());
    let long = |full: bool| -> YamlValue {
        YamlValue::Mapping(
            deps.iter()
                .map(|(n, c, r, q)| {
                    let mut m = serde_yaml::Mapping::new();
                    if !full {
                        m.insert("condition".into(), CONDITIONS[0].into());
                    } else {
                        if let Some(q) = q {
                            m.insert("required".into(), (*q).into());
                        }
                        m.insert("condition".into(), CONDITIONS[usize::from(*c)].into());
                        if let Some(r) = r {
                            m.insert("restart".into(), (*r).into());
                        }
                    }
                    (n.as_str().into(), YamlValue::Mapping(m))
                })
                .collect(),
        )
    };
    let at = |v: &YamlValue| -> Result<DependsOn, String> { Ok(must(T, v)?.services["svc"].depends_on.clone()) };
    let short = at(&list)?;
    let plain = at(&long(false))?;
    let full = at(&long(true))?;
    cov.nontrivial_if(!deps.is_empty());
    let ShortOrLong::Short(set) = &short else { fail!("{list:?} is not short") };
    ensure_eq!(set.iter().map(Identifier::as_str).collect::<Vec<_>>(), names, "services of the list");
    let (ShortOrLong::Long(p), ShortOrLong::Long(f)) = (&plain, &full) else { fail!("the map is not long") };
    ensure_eq!(&short.clone().into_long(), p, "long form of the list");
    let as_map: IndexMap<Identifier, Dependency> = short.clone().into();
    ensure_eq!(as_map.keys().map(Identifier::as_str).collect::<Vec<_>>(), names, "order of the long form of the list");
    let default = Dependency::default();
    ensure!(p.values().all(|d| *d == default), "{p:?} has something else than the default");
    let shape = |d: &Dependency| (d.condition.as_str(), d.restart, d.required);
    ensure_eq!(shape(&default), ("service_started", false, true), "default dependency");
    ensure_eq!(
        f.iter().map(|(k, d)| (k.as_str(), shape(d))).collect::<Vec<_>>(),
        deps.iter()
            .map(|(n, c, r, q)| (n.as_str(), (CONDITIONS[usize::from(*c)], r.unwrap_or(false), q.unwrap_or(true))))
            .collect::<Vec<_>>(),
        "dependencies of the map"
    );
    let is_plain = deps.iter().all(|(_, c, r, q)| *c == 0 && !r.unwrap_or(false) && q.unwrap_or(true));
    cov.label(if is_plain { "plain" } else { "with options" });
    let names_of = |it: Option<Vec<&Identifier>>| it.map(|v| v.into_iter().map(|i| i.as_str().to_owned()).collect::<Vec<_>>());
    let all_names: Vec<String> = names.iter().map(|n| (*n).to_owned()).collect();
    ensure_eq!(names_of(short.as_short_iter().map(Iterator::collect)), Some(all_names.clone()), "short form of the list");
    ensure_eq!(names_of(plain.as_short_iter().map(Iterator::collect)), Some(all_names.clone()), "short form of the plain map");
    ensure_eq!(
        names_of(full.as_short_iter().map(Iterator::collect)),
        is_plain.then_some(all_names),
        "short form of {f:?}"
    );
    for d in [&short, &plain, &full] {
        let w = to_value(d)?;
        ensure_eq!(serde_yaml::from_value::<DependsOn>(w.clone()).ok().as_ref(), Some(d), "{w:?}, as written");
    }
    ensure_eq!(to_value(&short)?, list, "written list");
    Ok(())
}

const NETWORK_OPTIONS: &[(&str, &str, bool)] = &[
    ("aliases", "[a, b.c]", false),
    ("aliases", "[]", true),
    ("ipv4_address", "1.2.3.4", false),
    ("ipv6_address", "'::1'", false),
    ("link_local_ips", "[1.2.3.4]", false),
    ("link_local_ips", "[]", true),
    ("mac_address", "'01:02:03:04:05:06'", false),
    ("driver_opts", "{a: 1}", false),
    ("driver_opts", "{}", true),
    ("priority", "0", false),
    ("priority", "7", false),
    ("x-a", "null", false),
];

type NetworksCase = Vec<(String, Option<Vec<usize>>)>;

fn check_networks(c: &NetworksCase, cov: &mut Cov) -> Res {
    const T: &str = "{services: {svc: {networks: '@'}}}";
    let nets = unique(c.clone(), |n| n.0.clone());
    let names: Vec<String> = nets.iter().map(|n| n.0.clone()).collect();
    let list = YamlValue::Sequence(names.iter().map(|n| n.as_str().into()).collect());
    let mut is_plain = true;
    let mut empties = Vec::new();
    let full = YamlValue::Mapping(
        nets.iter()
            .map(|(n, o)| {
                let v = match o {
                    None => YamlValue::Null,
                    Some(o) => {
                        let mut empty = true;
                        let mut m = serde_yaml::Mapping::new();
                        for i in o {
                            let (k, v, default) = NETWORK_OPTIONS[*i];
                            if !m.contains_key(k) {
                                m.insert(k.into(), yaml(v));
                                empty &= default;
                            }
                        }
                        is_plain &= empty;
                        empties.push(empty);
                        YamlValue::Mapping(m)
                    }
                };
                (n.as_str().into(), v)
            })
            .collect(),
    );
    let at = |v: &YamlValue| -> Result<Networks, String> {
        match must(T, v)?.services["svc"].network_config.clone() {
            Some(NetworkConfig::Networks(n)) => Ok(n),
            other => Err(format!("networks {v:?} gives {other:?}")),
        }
    };
    let short = at(&list)?;
    let long = at(&full)?;
    cov.nontrivial_if(!nets.is_empty());
    cov.label(if is_plain { "plain" } else { "with options" });
    let ShortOrLong::Long(l) = &long else { fail!("the map is not long") };
    ensure_eq!(l.values().flatten().map(Network::is_empty).collect::<Vec<_>>(), empties, "is_empty of {l:?}");
    ensure!(Network::default().is_empty(), "the default network is not empty");
    let made: IndexMap<Identifier, Option<Network>> = short.clone().into_long();
    ensure_eq!(made.keys().map(|k| k.as_str().to_owned()).collect::<Vec<_>>(), names, "long form of the list");
    ensure!(made.values().all(Option::is_none), "the long form of the list has options: {made:?}");
    let names_of = |n: &Networks| n.as_short_iter().map(|it| it.map(|i| i.as_str().to_owned()).collect::<Vec<_>>());
    ensure_eq!(names_of(&short), Some(names.clone()), "short form of the list");
    ensure_eq!(names_of(&ShortOrLong::Long(made)), Some(names.clone()), "short form of the long form of the list");
    ensure_eq!(names_of(&long), is_plain.then_some(names), "short form of {l:?}");
    ensure_eq!(to_value(&short)?, list, "written list");
    let w = to_value(&long)?;
    ensure_eq!(serde_yaml::from_value::<Networks>(w).ok(), Some(long), "networks as written");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct UlimitPair {
    soft: i64,
    hard: i64,
    ext: bool,
}

fn check_ulimit(c: &UlimitPair, cov: &mut Cov) -> Res {
    let (soft, hard) = (c.soft.max(-1), c.hard.max(-1));
    cov.nontrivial();
    let num = |n: i64| -> YamlValue { n.into() };
    let limit = |n: i64| if n < 0 { Limit::Unlimited } else { Limit::Value(n.unsigned_abs()) };
    let mut m = serde_yaml::Mapping::new();
    m.insert("hard".into(), num(hard));
    m.insert("soft".into(), num(soft));
    if c.ext {
        m.insert("x-a".into(), 1.into());
    }
    for t in ["{services: {svc: {ulimits: {nofile: '@'}}}}", "{services: {svc: {build: {ulimits: {nofile: '@'}}}}}"] {
        let at = |v: &YamlValue| -> Result<ShortOrLong<Limit<u64>, Ulimit>, String> {
            let s = &must(t, v)?.services["svc"];
            let u = match &s.build {
                Some(ShortOrLong::Long(b)) => &b.ulimits,
                _ => &s.ulimits,
            };
            u.get("nofile").cloned().ok_or_else(|| "no ulimit".to_owned())
        };
        let short = at(&num(soft))?;
        ensure_eq!(short, ShortOrLong::Short(limit(soft)), "short ulimit {soft}");
        let long = at(&YamlValue::Mapping(m.clone()))?;
        let ShortOrLong::Long(l) = &long else { fail!("not long") };
        ensure_eq!((l.soft, l.hard, l.extensions.len()), (limit(soft), limit(hard), usize::from(c.ext)), "long ulimit");
        let made = short.clone().into_long();
        ensure_eq!(
            (made.soft, made.hard, made.extensions.len()),
            (limit(soft), limit(soft), 0),
            "long form of {short:?}"
        );
        ensure_eq!(Ulimit::from(limit(soft)), made, "From<Limit>");
        if let Limit::Value(v) = limit(soft) {
            ensure_eq!(Ulimit::from(v), made, "From<u64>");
            ensure_eq!(ShortOrLong::<Limit<u64>, Ulimit>::from(v), short, "From<u64> of the short value");
        }
        ensure_eq!(made.as_short(), Some(&limit(soft)), "short form of {made:?}");
        let want = limit(soft);
        let plain = soft == hard && !c.ext;
        cov.label(if plain { "plain" } else { "with options" });
        ensure_eq!(l.as_short(), plain.then_some(&want), "short form of {l:?}");
        ensure_eq!(long.as_short(), plain.then_some(&want), "short form of {long:?}");
    }
    Ok(())
}

/// `env_file` and `include` collections.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Files {
    items: Vec<(String, Option<bool>)>,
    single: bool,
}

fn check_env_files(c: &Files, cov: &mut Cov) -> Res {
    const T: &str = "{services: {svc: {env_file: '@'}}}";
    let item = |(p, r): &(String, Option<bool>)| -> YamlValue {
        match r {
            None => p.as_str().into(),
            Some(r) => {
                let mut m = serde_yaml::Mapping::new();
                m.insert("path".into(), p.as_str().into());
                m.insert("required".into(), (*r).into());
                YamlValue::Mapping(m)
            }
        }
    };
    let single = c.single && c.items.first().is_some_and(|i| i.1.is_none());
    let doc = if single { item(&c.items[0]) } else { YamlValue::Sequence(c.items.iter().map(item).collect()) };
    let items = if single { &c.items[..1] } else { &c.items[..] };
    cov.nontrivial_if(!items.is_empty());
    let Some(env) = must(T, &doc)?.services["svc"].env_file.clone() else { fail!("no env_file for {doc:?}") };
    ensure_eq!(matches!(env, EnvFile::Single(_)), single, "{env:?} is a single file");
    let want_single = match items {
        [(p, r)] if r.unwrap_or(true) => Some(PathBuf::from(p)),
        _ => None,
    };
    ensure_eq!(env.as_single(), want_single.as_ref(), "as_single of {env:?}");
    let list: Vec<_> = env.clone().into_list().into_iter().map(|i| i.into_long()).map(|c| (c.path, c.required)).collect();
    let want: Vec<_> = items.iter().map(|(p, r)| (PathBuf::from(p), r.unwrap_or(true))).collect();
    ensure_eq!(list, want, "files of {env:?}");
    let w = to_value(&env)?;
    ensure_eq!(serde_yaml::from_value::<EnvFile>(w).ok(), Some(env.clone()), "env_file as written");
    let plain: EnvFile = items.iter().map(|(p, _)| ShortOrLong::<PathBuf, env_file::Config>::from(PathBuf::from(p))).collect();
    ensure_eq!(plain.into_list().len(), items.len(), "collected env_file");
    Ok(())
}

pub fn c16() -> Property {
    let mut subs = vec![];
    macro_rules! simple {
        ($i:literal, $name:literal, $cases:literal) => {
            subs.push(sub(
                $name,
                "a short value and a long value with a subset of further options; non-trivial: all",
                $cases,
                || pair($i),
                |p: &Pair, cov: &mut Cov| {
                    cov.nontrivial();
                    cov.label(if p.plain { "plain" } else { "with options" });
                    (SIMPLE[p.kind].check)(p, &SIMPLE[p.kind])
                },
            ));
        };
    }
    simple!(0, "include", 2_000);
    simple!(1, "build", 4_000);
    simple!(2, "env_file item", 2_000);
    simple!(3, "config or secret", 2_000);
    subs.push(all(
        "every option alone",
        "each further option of each setting on its own; non-trivial: all",
        || {
            let mut out = Vec::new();
            for (kind, k) in SIMPLE.iter().enumerate() {
                for (key, v, default) in k.extras {
                    for first in [true, false] {
                        let mut m = serde_yaml::Mapping::new();
                        if first {
                            m.insert((*key).into(), yaml(v));
                        }
                        m.insert(k.short_key.into(), "a".into());
                        m.insert((*key).into(), yaml(v));
                        out.push(Pair { kind, short: "a".into(), long: YamlValue::Mapping(m), plain: *default });
                    }
                }
            }
            out
        },
        |p: &Pair, cov: &mut Cov| {
            cov.nontrivial();
            (SIMPLE[p.kind].check)(p, &SIMPLE[p.kind])
        },
    ));
    subs.push(sub(
        "include paths",
        "long includes with a single path or a list of paths; non-trivial: all",
        2_000,
        || (prop::collection::vec("[a-z.]{1,6}", 0..4), any::<bool>(), any::<bool>()),
        |(paths, single, extra), cov| {
            cov.nontrivial();
            let paths = unique(paths.clone(), String::clone);
            let single = *single && !paths.is_empty();
            let path = if single { paths[0].as_str().into() } else { YamlValue::Sequence(paths.iter().map(|p| p.as_str().into()).collect()) };
            let mut m = serde_yaml::Mapping::new();
            m.insert("path".into(), path);
            if *extra {
                m.insert("project_directory".into(), "p".into());
            }
            let v = YamlValue::Mapping(m);
            let c = must("{services: {}, include: ['@']}", &v)?;
            let Some(ShortOrLong::Long(i)) = c.include.first() else { fail!("{v:?} is not long") };
            let want = (!extra && (single || paths.len() == 1)).then(|| PathBuf::from(&paths[0]));
            ensure_eq!(i.as_short(), want.as_ref(), "short form of {i:?}");
            ensure_eq!(to_value(i)?, v, "written include");
            Ok(())
        },
    ));
    subs.push(sub(
        "depends_on",
        "dependencies as a list and as a map with every subset of options; non-trivial: at least one dependency",
        5_000,
        || {
            let b = || prop_oneof![2 => Just(None), 1 => Just(Some(false)), 1 => Just(Some(true))];
            prop_oneof![
                1 => prop::collection::vec((gen::ident(), Just(0u8), prop::sample::select(vec![None, Some(false)]), prop::sample::select(vec![None, Some(true)])), 0..5),
                2 => prop::collection::vec((gen::ident(), 0..3u8, b(), b()), 0..3),
            ]
            .prop_map(|deps| DependsCase { deps })
        },
        check_depends,
    ));
    subs.push(sub(
        "networks",
        "networks as a list and as a map with every subset of options; non-trivial: at least one network",
        5_000,
        || {
            let options = prop_oneof![
                2 => Just(None),
                1 => Just(Some(vec![])),
                1 => prop::collection::vec(prop::sample::select(vec![1usize, 5, 8]), 1..3).prop_map(Some),
                3 => prop::collection::vec(0..NETWORK_OPTIONS.len(), 1..4).prop_map(Some),
            ];
            prop::collection::vec((gen::ident(), options), 0..4)
        },
        check_networks,
    ));
    subs.push(sub(
        "ulimits",
        "short limits and long limits with equal or different values; non-trivial: all",
        3_000,
        || (gen::edge_i64(), gen::edge_i64(), any::<bool>(), prop::bool::weighted(0.3))
            .prop_map(|(soft, hard, same, ext)| UlimitPair { soft, hard: if same { soft } else { hard }, ext }),
        check_ulimit,
    ));
    subs.push(sub(
        "env_file lists",
        "single files and lists mixing short and long files; non-trivial: not empty",
        3_000,
        || (prop::collection::vec(("[a-z./]{1,6}", prop::sample::select(vec![None, Some(true), Some(false)])), 0..4), any::<bool>())
            .prop_map(|(items, single)| Files { items, single }),
        check_env_files,
    ));
    Property {
        id: "C16",
        subs,
        known: vec![],
        assumptions: &["ports and volumes have their own conversions, checked by C14 and C15"],
    }
}

// ---- C17 ----

#[derive(Clone, Debug, PartialEq)]
enum RefNumber {
    U(u64),
    I(i64),
    F(u64),
}

fn bits(f: f64) -> u64 {
    if f.is_nan() {
        f64::NAN.to_bits()
    } else {
        f.to_bits()
    }
}

fn of_number(n: Number) -> RefNumber {
    match n {
        Number::UnsignedInt(u) => RefNumber::U(u),
        Number::SignedInt(i) => RefNumber::I(i),
        Number::Float(f) => RefNumber::F(bits(f)),
    }
}

/// Integers without a sign are unsigned, those with a minus are signed, other numbers are floats.
fn ref_number(s: &str) -> Option<RefNumber> {
    let digits = s.strip_prefix(['+', '-']).unwrap_or(s);
    if digits.bytes().all(|b| b.is_ascii_digit()) {
        if digits.is_empty() {
            return None;
        }
        let mut v: u128 = 0;
        for b in digits.bytes() {
            v = (v * 10 + u128::from(b - b'0')).min(1 << 70);
        }
        if s.starts_with('-') {
            let v = -i128::try_from(v).ok()?;
            i64::try_from(v).ok().map(RefNumber::I)
        } else {
            u64::try_from(v).ok().map(RefNumber::U)
        }
    } else {
        s.parse::<f64>().ok().map(|f| RefNumber::F(bits(f)))
    }
}

#[derive(Clone, Debug, PartialEq)]
enum RefScalar {
    Text(String),
    Number(RefNumber),
    Bool(bool),
}

fn of_value(v: &Value) -> RefScalar {
    match v {
        Value::String(s) => RefScalar::Text(s.clone()),
        Value::Number(n) => RefScalar::Number(of_number(*n)),
        Value::Bool(b) => RefScalar::Bool(*b),
    }
}

fn ref_scalar(s: &str) -> RefScalar {
    match s {
        "true" => RefScalar::Bool(true),
        "false" => RefScalar::Bool(false),
        s => ref_number(s).map_or_else(|| RefScalar::Text(s.to_owned()), RefScalar::Number),
    }
}

fn ref_text(v: &RefScalar) -> String {
    match v {
        RefScalar::Text(s) => s.clone(),
        RefScalar::Bool(b) => b.to_string(),
        RefScalar::Number(RefNumber::U(u)) => u.to_string(),
        RefScalar::Number(RefNumber::I(i)) => i.to_string(),
        RefScalar::Number(RefNumber::F(f)) => f64::from_bits(*f).to_string(),
    }
}

fn number_text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => gen::edge_u64().prop_map(|v| v.to_string()),
        3 => gen::edge_i64().prop_map(|v| v.to_string()),
        1 => gen::edge_u64().prop_map(|v| format!("-{v}")),
        1 => gen::edge_u64().prop_map(|v| format!("+{v}")),
        1 => gen::edge_u64().prop_map(|v| format!("{v}0")),
        3 => gen::edge_f64().prop_map(|v| v.to_string()),
        1 => gen::edge_f64().prop_map(|v| format!("{v:e}")),
        2 => prop::sample::select(vec!["-", "+", "", "--1", "+-1", "-+1", "0", "-0", "+0", "00", "-00", "1.", ".5", ".", "-.", "1e5", "1E5", "e5", "inf", "-inf", "+inf", "infinity", "nan", "NaN", "-nan", "INF", "1_000", "0x10", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "9223372036854775808", "1 ", " 1", "１"]).prop_map(String::from),
    ]
    .boxed()
}

fn scalar() -> BoxedStrategy<String> {
    prop_oneof![
        4 => number_text(),
        2 => gen::near(number_text()),
        2 => prop::sample::select(vec!["true", "false", "True", "TRUE", "yes", "no", "on", "t", "tru", "true ", "null", "~", ""]).prop_map(String::from),
        3 => gen::scalar_text(),
        1 => gen::text(),
    ]
    .boxed()
}

fn check_scalar(s: &String, cov: &mut Cov) -> Res {
    cov.nontrivial();
    let want = ref_scalar(s);
    cov.label(match want {
        RefScalar::Bool(_) => "bool",
        RefScalar::Text(_) => "text",
        RefScalar::Number(RefNumber::U(_)) => "unsigned",
        RefScalar::Number(RefNumber::I(_)) => "signed",
        RefScalar::Number(RefNumber::F(_)) => "float",
    });
    let v = Value::parse(s.as_str());
    ensure_eq!(of_value(&v), want, "Value::parse({s:?})");
    ensure_eq!(of_value(&Value::parse(s.clone())), want, "Value::parse(String {s:?})");
    ensure_eq!(
        (v.is_string(), v.is_number(), v.is_bool()),
        (matches!(want, RefScalar::Text(_)), matches!(want, RefScalar::Number(_)), matches!(want, RefScalar::Bool(_))),
        "is_* of {v:?}"
    );
    ensure_eq!(v.as_string().cloned(), if let RefScalar::Text(t) = &want { Some(t.clone()) } else { None }, "as_string");
    ensure_eq!(v.as_bool(), if let RefScalar::Bool(b) = want { Some(b) } else { None }, "as_bool");
    let text = ref_text(&want);
    ensure_eq!(v.to_string(), text, "Display of {v:?}");
    ensure_eq!(String::from(v.clone()), text, "String from {v:?}");
    // number parsing
    let n = s.parse::<Number>().ok();
    let want_n = ref_number(s);
    ensure_eq!(n.map(of_number), want_n, "Number from {s:?}");
    ensure_eq!(Number::try_from(s.as_str()).ok().map(of_number), want_n, "Number TryFrom {s:?}");
    // string or number
    let son = StringOrNumber::parse(s.as_str());
    match &want_n {
        Some(n) => {
            ensure_eq!(son.as_number().map(of_number).as_ref(), Some(n), "StringOrNumber::parse({s:?})");
            ensure!(son.is_number() && !son.is_string() && son.as_string().is_none(), "StringOrNumber kind of {s:?}");
        }
        None => {
            ensure_eq!(son.as_string(), Some(s), "StringOrNumber::parse({s:?})");
            ensure!(!son.is_number() && son.is_string() && son.as_number().is_none(), "StringOrNumber kind of {s:?}");
        }
    }
    let son_text = want_n.clone().map_or_else(|| s.clone(), |n| ref_text(&RefScalar::Number(n)));
    ensure_eq!(son.to_string(), son_text, "Display of {son:?}");
    ensure_eq!(String::from(son.clone()), son_text, "String from {son:?}");
    // conversions of the parsed value and of the plain string
    check_convert(&v)?;
    check_convert(&Value::from(s.as_str()))?;
    ensure_eq!(of_value(&Value::from(s.clone())), RefScalar::Text(s.clone()), "Value from String");
    ensure_eq!(of_value(&Value::from(s.clone().into_boxed_str())), RefScalar::Text(s.clone()), "Value from Box<str>");
    ensure_eq!(StringOrNumber::from(s.as_str()).as_string(), Some(s), "StringOrNumber from &str");
    ensure_eq!(
        Number::try_from(StringOrNumber::from(s.clone())).ok().map(of_number),
        want_n,
        "Number from StringOrNumber {s:?}"
    );
    Ok(())
}

/// Number, integer and float conversions of a value against exact arithmetic.
fn check_convert(v: &Value) -> Res {
    let number = match of_value(v) {
        RefScalar::Number(n) => Some(n),
        RefScalar::Text(s) => ref_number(&s),
        RefScalar::Bool(b) => Some(RefNumber::U(b.into())),
    };
    ensure_eq!(Number::try_from(v.clone()).ok().map(of_number), number, "Number from {v:?}");
    let exact: Option<i128> = match &number {
        Some(RefNumber::U(u)) => Some((*u).into()),
        Some(RefNumber::I(i)) => Some((*i).into()),
        _ => None,
    };
    let as_u64 = exact.and_then(|e| u64::try_from(e).ok());
    let as_i64 = exact.and_then(|e| i64::try_from(e).ok());
    ensure_eq!(u64::try_from(v.clone()).ok(), as_u64, "u64 from {v:?}");
    ensure_eq!(i64::try_from(v.clone()).ok(), as_i64, "i64 from {v:?}");
    let f = f64::try_from(v.clone()).ok();
    match number {
        None => ensure_eq!(f.map(f64::to_bits), None, "f64 from {v:?}"),
        Some(RefNumber::F(b)) => ensure_eq!(f.map(bits), Some(b), "f64 from {v:?}"),
        Some(RefNumber::U(_) | RefNumber::I(_)) => {
            // never lossy, and always possible for 32-bit integers
            let e = exact.unwrap();
            if let Some(f) = f {
                #[allow(clippy::cast_possible_truncation)]
                let back = f as i128;
                ensure_eq!(back, e, "f64 from {v:?}");
            } else {
                let small = matches!(number, Some(RefNumber::U(u)) if u32::try_from(u).is_ok())
                    || matches!(number, Some(RefNumber::I(i)) if i32::try_from(i).is_ok());
                ensure!(!small, "no f64 from {v:?}");
            }
        }
    }
    let b = match of_value(v) {
        RefScalar::Bool(b) => Some(b),
        _ => None,
    };
    ensure_eq!(bool::try_from(v.clone()).ok(), b, "bool from {v:?}");
    if let Value::Number(n) = v {
        ensure_eq!(u64::try_from(*n).ok(), as_u64, "u64 from {n:?}");
        ensure_eq!(i64::try_from(*n).ok(), as_i64, "i64 from {n:?}");
        ensure_eq!(f64::try_from(*n).ok().map(bits), f.map(bits), "f64 from {n:?}");
        ensure_eq!(
            (n.as_unsigned_int(), n.as_signed_int(), n.as_float().map(bits)),
            match of_number(*n) {
                RefNumber::U(u) => (Some(u), None, None),
                RefNumber::I(i) => (None, Some(i), None),
                RefNumber::F(f) => (None, None, Some(f)),
            },
            "parts of {n:?}"
        );
        ensure_eq!(
            (n.is_unsigned_int(), n.is_signed_int(), n.is_float()),
            (n.as_unsigned_int().is_some(), n.as_signed_int().is_some(), n.as_float().is_some()),
            "is_* of {n:?}"
        );
    }
    Ok(())
}

/// A scalar of YAML.
fn yaml_scalar() -> BoxedStrategy<YamlValue> {
    prop_oneof![
        3 => gen::edge_u64().prop_map(YamlValue::from),
        3 => gen::edge_i64().prop_map(YamlValue::from),
        3 => gen::edge_f64().prop_filter("nan", |f| !f.is_nan()).prop_map(YamlValue::from),
        1 => any::<bool>().prop_map(YamlValue::from),
        3 => scalar().prop_map(YamlValue::from),
        1 => Just(YamlValue::Null),
        1 => gen::yaml(),
    ]
    .boxed()
}

fn ref_yaml(v: &YamlValue) -> Option<RefScalar> {
    Some(match v {
        YamlValue::String(s) => RefScalar::Text(s.clone()),
        YamlValue::Bool(b) => RefScalar::Bool(*b),
        YamlValue::Number(n) => RefScalar::Number(match (n.as_u64(), n.as_i64()) {
            (Some(u), _) => RefNumber::U(u),
            (None, Some(i)) => RefNumber::I(i),
            _ => RefNumber::F(bits(n.as_f64()?)),
        }),
        _ => return None,
    })
}

fn check_yaml_scalar(y: &YamlValue, cov: &mut Cov) -> Res {
    let want = ref_yaml(y);
    cov.nontrivial_if(want.is_some());
    let v = serde_yaml::from_value::<Value>(y.clone()).ok();
    ensure_eq!(v.as_ref().map(of_value), want, "Value from {y:?}");
    if let Some(v) = &v {
        ensure_eq!(&to_value(v)?, y, "{v:?} as written");
        check_convert(v)?;
    }
    let n = serde_yaml::from_value::<Number>(y.clone()).ok();
    let want_n = match &want {
        Some(RefScalar::Number(n)) => Some(n.clone()),
        _ => None,
    };
    ensure_eq!(n.map(of_number), want_n, "Number from {y:?}");
    let son = serde_yaml::from_value::<StringOrNumber>(y.clone()).ok();
    match (&want, &son) {
        (Some(RefScalar::Number(n)), Some(s)) => ensure_eq!(s.as_number().map(of_number).as_ref(), Some(n), "StringOrNumber from {y:?}"),
        (Some(RefScalar::Text(t)), Some(s)) => ensure_eq!(s.as_string(), Some(t), "StringOrNumber from {y:?}"),
        (_, None) if !matches!(want, Some(RefScalar::Number(_) | RefScalar::Text(_))) => {}
        _ => fail!("StringOrNumber from {y:?} is {son:?}"),
    }
    if let Some(s) = &son {
        ensure_eq!(&to_value(s)?, y, "{s:?} as written");
    }
    Ok(())
}

fn list_item() -> BoxedStrategy<String> {
    let key = || prop_oneof![4 => "[A-Za-z_][A-Za-z0-9_.-]{0,5}", 1 => gen::one_line_nonempty(), 1 => Just(String::new())];
    prop_oneof![
        1 => key(),
        5 => (key(), prop::sample::select(vec!["=", "=", "=", ":", "==", "=:", ":=", " = "]), scalar()).prop_map(|(k, d, v)| format!("{k}{d}{v}")),
        1 => gen::text(),
    ]
    .boxed()
}

/// Items without the known defects of map keys: what `MapKey` accepts is C08's business.
fn ref_into_map(items: &IndexSet<String>, delimiters: &[char]) -> Option<Vec<(String, Option<RefScalar>)>> {
    let mut out: Vec<(String, Option<RefScalar>)> = Vec::new();
    for item in items {
        let (k, v) = match item.find(|c| delimiters.contains(&c)) {
            Some(i) => {
                let c = item[i..].chars().next().unwrap();
                (&item[..i], Some(&item[i + c.len_utf8()..]))
            }
            None => (item.as_str(), None),
        };
        if !ref_map_key(k) {
            return None;
        }
        let v = v.filter(|v| !v.is_empty()).map(ref_scalar);
        match out.iter_mut().find(|(o, _)| o == k) {
            // the last one wins
            Some(o) => o.1 = v,
            None => out.push((k.to_owned(), v)),
        }
    }
    Some(out)
}

fn map_shape(m: &Map) -> Vec<(String, Option<RefScalar>)> {
    m.iter().map(|(k, v)| (k.to_string(), v.as_ref().map(of_value))).collect()
}

const DELIMS: &[&[char]] = &[&['='], &['=', ':'], &[':'], &[], &[' ', '='], &['é', ',']];

fn check_list(&(ref items, d): &(Vec<String>, usize), cov: &mut Cov) -> Res {
    let set: IndexSet<String> = items.iter().cloned().collect();
    cov.nontrivial_if(!set.is_empty());
    let list = ListOrMap::List(set.clone());
    ensure_eq!(list.is_empty(), set.is_empty(), "is_empty");
    ensure_eq!(list.as_list(), Some(&set), "as_list");
    ensure!(list.as_map().is_none(), "as_map of a list");
    ensure_eq!(list.clone().into_list(), set, "into_list of a list");
    let want = ref_into_map(&set, &['=']);
    cov.label(if want.is_some() { "map" } else { "no map" });
    let map = list.clone().into_map().ok();
    ensure_eq!(map.as_ref().map(map_shape), want, "into_map of {set:?}");
    let delims = DELIMS[d];
    let split = list.clone().into_map_split_on(delims).ok();
    ensure_eq!(split.as_ref().map(map_shape), ref_into_map(&set, delims), "into_map_split_on({delims:?}) of {set:?}");
    // as a document, lists stay lists
    let y = YamlValue::Sequence(set.iter().map(|s| s.as_str().into()).collect());
    let parsed = serde_yaml::from_value::<ListOrMap>(y.clone()).map_err(|e| format!("{y:?}: {e}"))?;
    ensure_eq!(parsed.as_list(), Some(&set), "list from {y:?}");
    ensure_eq!(parsed.as_list().map(|s| s.iter().collect::<Vec<_>>()), Some(set.iter().collect()), "order of {y:?}");
    ensure_eq!(to_value(&parsed)?, y, "list as written");
    // map form and back: the same text, except that an empty value is no value and the last duplicate wins
    if let (Some(map), Some(want)) = (map, want) {
        let back = ListOrMap::Map(map).into_list();
        let texts: IndexSet<String> = want
            .iter()
            .map(|(k, v)| v.as_ref().map_or_else(|| k.clone(), |v| format!("{k}={}", ref_text(v))))
            .collect();
        ensure_eq!(back.iter().collect::<Vec<_>>(), texts.iter().collect::<Vec<_>>(), "list form of the map form of {set:?}");
    }
    Ok(())
}

fn check_map(entries: &Vec<(String, YamlValue)>, cov: &mut Cov) -> Res {
    let entries = unique(entries.clone(), |e| e.0.clone());
    let y = YamlValue::Mapping(entries.iter().map(|(k, v)| (YamlValue::from(k.as_str()), v.clone())).collect());
    let want: Option<Vec<(String, Option<RefScalar>)>> = entries
        .iter()
        .map(|(k, v)| {
            if !ref_map_key(k) {
                return None;
            }
            Some((k.clone(), if *v == YamlValue::Null { None } else { Some(ref_yaml(v)?) }))
        })
        .collect();
    cov.nontrivial_if(!entries.is_empty());
    cov.label(if want.is_some() { "valid" } else { "invalid" });
    let got = serde_yaml::from_value::<ListOrMap>(y.clone()).ok();
    ensure_eq!(got.as_ref().and_then(|g| g.as_map()).map(map_shape), want, "map from {y:?}");
    let Some(got) = got else { return Ok(()) };
    let want = want.unwrap();
    ensure!(got.as_list().is_none(), "as_list of a map");
    ensure_eq!(got.is_empty(), want.is_empty(), "is_empty");
    ensure_eq!(to_value(&got)?, y, "map as written");
    ensure_eq!(got.clone().into_map().ok().as_ref().map(map_shape), Some(want.clone()), "into_map of a map");
    ensure_eq!(got.clone().into_map_split_on(&[':']).ok().as_ref().map(map_shape), Some(want.clone()), "into_map_split_on of a map");
    let list = got.into_list();
    let texts: IndexSet<String> = want
        .iter()
        .map(|(k, v)| v.as_ref().map_or_else(|| k.clone(), |v| format!("{k}={}", ref_text(v))))
        .collect();
    ensure_eq!(list.iter().collect::<Vec<_>>(), texts.iter().collect::<Vec<_>>(), "list form of {y:?}");
    // and back: the same keys, and the values of the same text
    if want.iter().all(|(k, _)| !k.contains('=')) {
        cov.label("back");
        let back = ListOrMap::List(list).into_map().map_err(|e| format!("map form of the list form of {y:?}: {e}"))?;
        let shape: Vec<_> = want
            .iter()
            .map(|(k, v)| (k.clone(), v.as_ref().map(ref_text).filter(|t| !t.is_empty()).map(|t| ref_scalar(&t))))
            .collect();
        ensure_eq!(map_shape(&back), shape, "map form of the list form of {y:?}");
    }
    Ok(())
}

const MAP_FIELDS: &[(&str, fn(&Compose) -> Option<&ListOrMap>)] = &[
    ("{services: {svc: {environment: '@'}}}", |c| Some(&c.services["svc"].environment)),
    ("{services: {svc: {labels: '@'}}}", |c| Some(&c.services["svc"].labels)),
    ("{services: {svc: {annotations: '@'}}}", |c| Some(&c.services["svc"].annotations)),
    ("{services: {svc: {sysctls: '@'}}}", |c| Some(&c.services["svc"].sysctls)),
    ("{services: {svc: {build: {args: '@'}}}}", |c| Some(&c.services["svc"].build.as_ref()?.as_long()?.args)),
    ("{services: {svc: {build: {labels: '@'}}}}", |c| Some(&c.services["svc"].build.as_ref()?.as_long()?.labels)),
    ("{services: {svc: {deploy: {labels: '@'}}}}", |c| Some(&c.services["svc"].deploy.as_ref()?.labels)),
    ("{services: {}, networks: {n: {labels: '@'}}}", |c| Some(&c.networks["n"].as_ref()?.as_compose()?.labels)),
    ("{services: {}, volumes: {n: {labels: '@'}}}", |c| Some(&c.volumes["n"].as_ref()?.as_compose()?.labels)),
    ("{services: {}, configs: {n: {file: a, labels: '@'}}}", |c| Some(&c.configs["n"].as_compose()?.labels)),
    ("{services: {}, secrets: {n: {file: a, labels: '@'}}}", |c| Some(&c.secrets["n"].as_compose()?.labels)),
];

fn check_map_field((i, entries, as_list): &(usize, Vec<(String, YamlValue)>, bool), cov: &mut Cov) -> Res {
    let (t, get) = MAP_FIELDS[*i];
    let entries = unique(entries.clone(), |e| e.0.clone());
    let ok = entries.iter().all(|(k, v)| ref_map_key(k) && (*v == YamlValue::Null || ref_yaml(v).is_some()));
    let items: IndexSet<String> = entries
        .iter()
        .map(|(k, v)| match v {
            YamlValue::Null => k.clone(),
            v => format!("{k}={}", ref_yaml(v).map_or_else(String::new, |v| ref_text(&v))),
        })
        .collect();
    let doc = if *as_list {
        YamlValue::Sequence(items.iter().map(|s| s.as_str().into()).collect())
    } else {
        YamlValue::Mapping(entries.iter().map(|(k, v)| (YamlValue::from(k.as_str()), v.clone())).collect())
    };
    cov.nontrivial_if(!entries.is_empty());
    let got = compose(t, &doc)?;
    ensure_eq!(got.is_some(), ok || *as_list, "{doc:?} in {t:?} accepted");
    let Some(got) = got else { return Ok(()) };
    let Some(field) = get(&got) else { fail!("no field for {t:?}") };
    if entries.is_empty() {
        ensure!(field.is_empty(), "{doc:?} gives {field:?}");
        return Ok(());
    }
    if *as_list {
        ensure_eq!(field.as_list().map(|l| l.iter().collect::<Vec<_>>()), Some(items.iter().collect()), "list in {t:?}");
    } else {
        let want: Vec<_> = entries.iter().map(|(k, v)| (k.clone(), ref_yaml(v))).collect();
        ensure_eq!(field.as_map().map(map_shape), Some(want), "map in {t:?}");
    }
    let w = to_value(&got)?;
    ensure_eq!(tmpl::hole(t, &w), Some(&doc), "{t:?} as written");
    Ok(())
}

fn check_item_or_list((items, single): &(Vec<String>, bool), cov: &mut Cov) -> Res {
    let single = *single && !items.is_empty();
    let set: IndexSet<String> = if single { items[..1].iter().cloned().collect() } else { items.iter().cloned().collect() };
    cov.nontrivial_if(!set.is_empty());
    let y: YamlValue = if single { items[0].as_str().into() } else { YamlValue::Sequence(set.iter().map(|s| s.as_str().into()).collect()) };
    let v: ItemOrList<String> = serde_yaml::from_value(y.clone()).map_err(|e| format!("{y:?}: {e}"))?;
    ensure_eq!(matches!(v, ItemOrList::Item(_)), single, "{y:?} is an item");
    ensure_eq!(v.as_item(), if set.len() == 1 { set.first() } else { None }, "as_item of {v:?}");
    ensure_eq!(v.as_list(), if single { None } else { Some(&set) }, "as_list of {v:?}");
    ensure_eq!(v.clone().into_list().iter().collect::<Vec<_>>(), set.iter().collect::<Vec<_>>(), "into_list of {v:?}");
    ensure_eq!(IndexSet::from(v.clone()), set, "IndexSet from {v:?}");
    ensure_eq!(to_value(&v)?, y, "as written");
    if single {
        ensure_eq!(ItemOrList::from(items[0].clone()), v, "From item");
    } else {
        ensure_eq!(ItemOrList::from(set.clone()), v, "From set");
    }
    for (t, get) in [
        ("{services: {svc: {dns_search: '@'}}}", 0),
        ("{services: {svc: {tmpfs: '@'}}}", 1),
        ("{services: {svc: {dns: '@'}}}", 2),
    ] {
        // the items of the other fields have a format of their own
        let leaf = |i: usize| -> String {
            match get {
                0 => format!("a{i}.b"),
                1 => format!("/{i}"),
                _ => format!("10.0.0.{i}"),
            }
        };
        let texts: Vec<String> = (0..set.len()).map(leaf).collect();
        let y: YamlValue = if single { texts[0].as_str().into() } else { YamlValue::Sequence(texts.iter().map(|s| s.as_str().into()).collect()) };
        let c = must(t, &y)?;
        let s = &c.services["svc"];
        let got: Option<Vec<String>> = match get {
            0 => s.dns_search.clone().map(|d| d.into_list().iter().map(ToString::to_string).collect()),
            1 => s.tmpfs.clone().map(|d| d.into_list().iter().map(|p| p.as_path().display().to_string()).collect()),
            _ => s.dns.clone().map(|d| d.into_list().iter().map(ToString::to_string).collect()),
        };
        ensure_eq!(got, Some(texts), "{y:?} in {t:?}");
        let w = to_value(&c)?;
        ensure_eq!(tmpl::hole(t, &w), Some(&y), "{t:?} as written");
    }
    Ok(())
}

pub fn c17() -> Property {
    let entries = || {
        let key = prop_oneof![6 => "[A-Za-z_][A-Za-z0-9_.-]{0,5}", 1 => gen::one_line_nonempty(), 1 => "[a-z]=[a-z]", 1 => Just(String::new())];
        let val = prop_oneof![12 => yaml_scalar().prop_filter("scalar", |v| !matches!(v, YamlValue::Sequence(_) | YamlValue::Mapping(_) | YamlValue::Tagged(_))), 1 => yaml_scalar()];
        prop::collection::vec((key, val), 0..5)
    };
    Property {
        id: "C17",
        subs: vec![
            sub("scalar text", "numbers, booleans and text with and without random edits; non-trivial: all", 30_000, scalar, check_scalar),
            sub("scalar values", "YAML values as Value, Number and StringOrNumber; non-trivial: scalars", 20_000, yaml_scalar, check_yaml_scalar),
            sub(
                "lists to maps",
                "lists of key=value items with odd delimiters; non-trivial: not empty",
                15_000,
                || (prop::collection::vec(list_item(), 0..5), 0..DELIMS.len()),
                check_list,
            ),
            sub("maps to lists", "maps of scalars; non-trivial: not empty", 15_000, entries, check_map),
            sub(
                "list or map fields",
                "the fields of a document which are lists or maps; non-trivial: not empty",
                6_000,
                move || (0..MAP_FIELDS.len(), entries(), any::<bool>()),
                check_map_field,
            ),
            sub(
                "item or list",
                "single items and lists; non-trivial: not empty",
                3_000,
                || (prop::collection::vec(gen::scalar_text(), 0..4), any::<bool>()),
                check_item_or_list,
            ),
        ],
        known: vec![],
        assumptions: &[
            "std's f64 parser and printer decide the text of floats",
            "integers are only required to convert to f64 when they have at most 32 bits, and may then not lose anything",
        ],
    }
}

// ---- C18 ----

const PLATFORMS: &[(&str, &[&str])] = &[
    ("aix", &["ppc64"]),
    ("android", &["386", "amd64", "arm", "arm64"]),
    ("darwin", &["amd64", "arm64"]),
    ("dragonfly", &["amd64"]),
    ("freebsd", &["386", "amd64", "arm"]),
    ("illumos", &["amd64"]),
    ("ios", &["arm64"]),
    ("js", &["wasm"]),
    ("linux", &["386", "amd64", "arm", "arm64", "loong64", "mips", "mipsle", "mips64", "mips64le", "ppc64", "ppc64le", "riscv64", "s390x"]),
    ("netbsd", &["386", "amd64", "arm"]),
    ("openbsd", &["386", "amd64", "arm", "arm64"]),
    ("plan9", &["386", "amd64", "arm"]),
    ("solaris", &["amd64"]),
    ("wasip1", &["wasm"]),
    ("windows", &["386", "amd64", "arm", "arm64"]),
];

const VARIANTS: &[(&str, &[&str])] = &[("arm", &["v6", "v7", "v8"]), ("arm64", &["v8"])];

fn variants(arch: &str) -> &'static [&'static str] {
    VARIANTS.iter().find(|(a, _)| *a == arch).map_or(&[], |(_, v)| v)
}

fn arch_names() -> Vec<String> {
    let mut archs: Vec<&str> = PLATFORMS.iter().flat_map(|(_, a)| a.iter().copied()).collect();
    archs.sort_unstable();
    archs.dedup();
    archs
        .into_iter()
        .flat_map(|a| std::iter::once(a.to_owned()).chain(variants(a).iter().map(move |v| format!("{a}/{v}"))))
        .collect()
}

fn ref_arch(s: &str) -> bool {
    arch_names().iter().any(|a| a == s)
}

fn ref_platform(s: &str) -> Option<(&str, Option<&str>)> {
    let (os, arch) = s.split_once('/').map_or((s, None), |(o, a)| (o, Some(a)));
    let (_, archs) = PLATFORMS.iter().find(|(o, _)| *o == os)?;
    if let Some(a) = arch {
        let base = a.split('/').next().unwrap();
        if !ref_arch(a) || !archs.contains(&base) {
            return None;
        }
    }
    Some((os, arch))
}

/// Every view of a keyword-like type agrees with the text.
fn views<T>(name: &str, s: &str, valid: bool, as_str: fn(&T) -> &'static str) -> Result<Option<T>, String>
where
    T: std::str::FromStr + for<'a> TryFrom<&'a str> + AsRef<str> + std::fmt::Display + Debug + Copy + PartialEq + Serialize + DeserializeOwned,
{
    let v = s.parse::<T>().ok();
    ensure_eq!(v.is_some(), valid, "{name} from {s:?} accepted");
    ensure_eq!(T::try_from(s).ok(), v, "{name} TryFrom {s:?}");
    ensure_eq!(serde_yaml::from_value::<T>(s.into()).ok(), v, "{name} deserialised from {s:?}");
    if let Some(v) = v {
        ensure_eq!(as_str(&v), s, "{name} as_str");
        ensure_eq!(v.as_ref(), s, "{name} as_ref");
        ensure_eq!(v.to_string(), s, "{name} Display");
        ensure_eq!(to_value(&v)?, YamlValue::from(s), "{name} serialised");
    }
    Ok(v)
}

macro_rules! os_archs {
    ($($os:literal => $Variant:ident($OsArch:ident)),* $(,)?) => {
        /// The typed architecture of an operating system from its text, from an `Arch` and back.
        fn os_arch(os: &str, arch: &str, valid: bool) -> Result<Option<Platform>, String> {
            match os {
                $($os => {
                    let typed = views::<platform::$OsArch>(stringify!($OsArch), arch, valid, |v| v.as_str())?;
                    ensure_eq!(platform::$OsArch::OS.as_str(), os, "OS of {}", stringify!($OsArch));
                    if let Ok(a) = arch.parse::<Arch>() {
                        let from_arch = platform::$OsArch::try_from(a);
                        ensure_eq!(from_arch.ok(), typed, "{} from {a:?}", stringify!($OsArch));
                        if let Err(e) = from_arch {
                            ensure_eq!((e.arch, e.os.as_str()), (a, os), "error of the conversion");
                        }
                        if let Some(t) = typed {
                            ensure_eq!(Arch::from(t), a, "Arch from {t:?}");
                        }
                    }
                    Ok(typed.map(|t| Platform::$Variant(Some(t))))
                })*
                _ => Ok(None),
            }
        }
        fn bare(os: Os) -> Platform {
            match os {
                $(Os::$Variant => Platform::$Variant(None),)*
            }
        }
    };
}

os_archs! {
    "aix" => Aix(AixArch),
    "android" => Android(AndroidArch),
    "darwin" => Darwin(DarwinArch),
    "dragonfly" => DragonFly(DragonFlyArch),
    "freebsd" => FreeBsd(FreeBsdArch),
    "illumos" => Illumos(IllumosArch),
    "ios" => IOs(IOsArch),
    "js" => Js(JsArch),
    "linux" => Linux(LinuxArch),
    "netbsd" => NetBsd(NetBsdArch),
    "openbsd" => OpenBsd(OpenBsdArch),
    "plan9" => Plan9(Plan9Arch),
    "solaris" => Solaris(SolarisArch),
    "wasip1" => WasiP1(WasiP1Arch),
    "windows" => Windows(WindowsArch),
}

fn check_platform(s: &String, cov: &mut Cov) -> Res {
    let want = ref_platform(s);
    cov.label(if want.is_some() { "valid" } else { "invalid" });
    let got = views::<Platform>("Platform", s, want.is_some(), |v| v.as_str())?;
    let os_text = s.split('/').next().unwrap_or("");
    let arch_text = s.split_once('/').map(|(_, a)| a);
    let os = views::<Os>("Os", os_text, PLATFORMS.iter().any(|(o, _)| *o == os_text), |v| v.as_str())?;
    if let Some(o) = os {
        ensure_eq!(Platform::from(o), bare(o), "Platform from {o:?}");
        ensure_eq!(Platform::from(o).as_str(), os_text, "text of the platform of {o:?}");
        ensure_eq!(Platform::from(o).arch(), None, "arch of the platform of {o:?}");
    }
    if let Some(a) = arch_text {
        let arch = views::<Arch>("Arch", a, ref_arch(a), |v| v.as_str())?;
        let typed = os_arch(os_text, a, want.is_some())?;
        if want.is_some() {
            ensure_eq!(got, typed, "platform made from its typed parts");
            ensure_eq!(got.and_then(|g| g.arch()), arch, "arch of {got:?}");
        }
        let variant = a.split_once('/').map(|(_, v)| v);
        let valid = |arch: &str| variant.is_some_and(|v| variants(arch).contains(&v));
        if let Some(v) = variant {
            let arm = views::<platform::ArmVariant>("ArmVariant", v, valid("arm"), |v| v.as_str())?;
            let arm64 = views::<platform::Arm64Variant>("Arm64Variant", v, valid("arm64"), |v| v.as_str())?;
            match arch {
                Some(Arch::Arm(v)) => ensure_eq!(v, arm, "variant of {arch:?}"),
                Some(Arch::Arm64(v)) => ensure_eq!(v, arm64, "variant of {arch:?}"),
                _ => {}
            }
        }
    }
    if let Some((o, a)) = want {
        cov.nontrivial();
        let g = got.expect("accepted");
        ensure_eq!(g.os().as_str(), o, "os of {g:?}");
        ensure_eq!(g.arch().map(|a| a.as_str()), a, "arch of {g:?}");
    }
    Ok(())
}

fn check_platform_doc(s: &String, cov: &mut Cov) -> Res {
    let want = ref_platform(s).is_some();
    cov.nontrivial_if(want);
    for t in ["platform: '@'", "build: {platforms: ['@']}"] {
        let got = tmpl::service(t, &s.as_str().into())?;
        ensure_eq!(got.is_some(), want, "{s:?} in {t:?} accepted");
        if let Some(svc) = got {
            let p = match &svc.build {
                Some(ShortOrLong::Long(b)) => b.platforms.first().copied(),
                _ => svc.platform,
            };
            ensure_eq!(p.map(|p| p.as_str()), Some(s.as_str()), "platform in {t:?}");
            ensure_eq!(tmpl::written(t, &svc)?, Some(s.as_str().into()), "written platform");
        }
    }
    Ok(())
}

fn every_platform() -> Vec<String> {
    let mut out = Vec::new();
    let mut archs: Vec<String> = arch_names();
    // architectures with variants they do not have
    archs.extend(arch_names().iter().flat_map(|a| ["v5", "v6", "v7", "v8", "v9"].map(|v| format!("{a}/{v}"))));
    archs.extend(["", "x86", "x86_64", "aarch64", "AMD64", "arm/", "arm/v", "arm64/v8/", "i386"].map(String::from));
    for os in PLATFORMS.iter().map(|(o, _)| *o).chain(["", "Linux", "linux ", "macos", "wasi", "unix"]) {
        out.push(os.to_owned());
        for a in &archs {
            out.push(format!("{os}/{a}"));
        }
    }
    let mut seen = BTreeMap::new();
    out.retain(|s| seen.insert(s.clone(), ()).is_none());
    out
}

pub fn c18() -> Property {
    Property {
        id: "C18",
        subs: vec![
            all("every platform", "the full product of systems, architectures and variants, and near misses; non-trivial: supported", every_platform, check_platform),
            all("every platform in documents", "the same in the fields of a document; non-trivial: supported", every_platform, check_platform_doc),
            sub(
                "near misses",
                "supported platforms with random edits; non-trivial: supported",
                15_000,
                || gen::near(prop::sample::select(every_platform())),
                check_platform,
            ),
        ],
        known: vec![],
        assumptions: &["the table of supported combinations is the documented one of Go's GOOS and GOARCH, as in the crate's documentation"],
    }
}

