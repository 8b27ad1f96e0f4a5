//! Groups of settings on their own: C24 (resources), C25 (health checks), C26 (emptiness and
//! defaults).

use std::{
    fmt::{self, Debug, Formatter},
    time::Duration,
};

use compose_spec::{
    service::{
        deploy::{
            resources::{Device, DiscreteResourceSpec, GenericResource, Limits, Reservations},
            Placement, Preference, Resources, RestartPolicy, UpdateOrRollbackConfig,
        },
        blkio_config::Weight,
        build::{Context, SshAuth},
        deploy,
        develop::Develop,
        healthcheck::{Command, Test},
        network_config,
        ports,
        volumes::mount::{BindOptions, BindPropagation, TmpfsOptions, VolumeOptions},
        BlkioConfig, Build, ByteValue, Condition, Cpus, CpuSet, Dependency, Deploy, Healthcheck, Limit, Logging, PullPolicy, Restart, Uts,
    },
    network::{Ipam, IpamConfig},
    Compose, Config, ExtensionKey, Identifier, ListOrMap, Network, Resource, Secret, Service, Volume, YamlValue,
};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_yaml::Mapping;

use crate::{
    docgen::{self, yaml, Choices, Kind, Node, Obj, Src},
    ensure, ensure_eq, fail,
    fw::{all, sub, Cov, Property, Res},
    gen,
    views,
    whole::{must, shown},
};

/// Reproducible choices shown as what they make.
#[derive(Clone, Serialize, Deserialize)]
pub struct Made {
    pub kind: usize,
    pub data: Vec<u32>,
}

fn made(kinds: usize, max: usize) -> BoxedStrategy<Made> {
    (0..kinds, prop::collection::vec(any::<u32>(), 0..max)).prop_map(|(kind, data)| Made { kind, data }).boxed()
}

impl Debug for Made {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "{} {:?}", self.kind, self.data)
    }
}

fn shuffled(s: &mut Src, mut of: Vec<(YamlValue, YamlValue)>) -> YamlValue {
    for i in (1..of.len()).rev() {
        of.swap(i, s.n(i + 1));
    }
    YamlValue::Mapping(of.into_iter().collect::<Mapping>())
}

fn parse<T: DeserializeOwned + PartialEq + Debug>(v: &YamlValue) -> Result<Option<T>, String> {
    let by_value: Option<T> = serde_yaml::from_value(v.clone()).ok();
    let text = serde_yaml::to_string(v).map_err(|e| format!("harness: {e}"))?;
    if serde_yaml::from_str::<YamlValue>(&text).ok().as_ref() == Some(v) {
        let by_text: Option<T> = serde_yaml::from_str(&text).ok();
        ensure!(by_text == by_value, "as text {by_text:?}, as value {by_value:?} for {text:?}");
    }
    Ok(by_value)
}

// ---------------------------------------------------------------------------------------------
// C24

type View<T> = fn(&Resource<T>, &Node, &str) -> Res;

fn in_document(key: &str, v: &YamlValue) -> YamlValue {
    let mut top = Mapping::new();
    top.insert("services".into(), YamlValue::Mapping(Mapping::new()));
    let mut map = Mapping::new();
    map.insert("one".into(), v.clone());
    map.insert("two".into(), v.clone());
    top.insert(key.into(), YamlValue::Mapping(map));
    YamlValue::Mapping(top)
}

/// The resource as parsed on its own, checked against what a document makes of it.
fn resource<T>(key: &str, v: &YamlValue) -> Result<Option<Resource<T>>, String>
where
    T: DeserializeOwned + Serialize + PartialEq + Debug + Clone + 'static,
{
    let alone = parse::<Resource<T>>(v)?;
    let doc = crate::tmpl::parse(&in_document(key, v))?;
    ensure_eq!(doc.is_some(), alone.is_some(), "accepted in a document, for {}", shown(v));
    if let (Some(doc), Some(alone)) = (&doc, &alone) {
        let name = Identifier::new("two").map_err(|e| e.to_string())?;
        let same = match key {
            "networks" => serde_yaml::to_value(&doc.networks[&name]),
            "volumes" => serde_yaml::to_value(&doc.volumes[&name]),
            "configs" => serde_yaml::to_value(&doc.configs[&name]),
            _ => serde_yaml::to_value(&doc.secrets[&name]),
        };
        ensure_eq!(same.ok(), serde_yaml::to_value(alone).ok(), "in the document");
    }
    Ok(alone)
}

fn back<T>(r: &Resource<T>) -> Result<YamlValue, String>
where
    T: DeserializeOwned + Serialize + PartialEq + Debug,
{
    let v = serde_yaml::to_value(r).map_err(|e| format!("cannot serialise {r:?}: {e}"))?;
    match serde_yaml::from_value::<Resource<T>>(v.clone()) {
        Err(e) => fail!("{} (from {r:?}) does not parse: {e}", shown(&v)),
        Ok(again) => ensure!(again == *r, "{} parses to {again:?}, expected {r:?}", shown(&v)),
    }
    Ok(v)
}

fn check_kind<T>(s: &mut Src, cov: &mut Cov, key: &str, make: fn(&mut Src) -> Node, view: View<T>) -> Res
where
    T: DeserializeOwned + Serialize + PartialEq + Debug + Clone + 'static,
{
    let node = make(s);
    let Some(o) = node.as_obj() else { fail!("harness: not a group") };
    let pairs = |o: &Obj| o.fields.iter().map(|(k, n)| (YamlValue::from(k.as_str()), n.input())).collect::<Vec<_>>();
    let name = s.chance(50).then(|| docgen::string(s));
    let mut external = vec![("external".into(), true.into())];
    if let Some(name) = &name {
        external.push(("name".into(), name.as_str().into()));
    }

    // external
    let v = shuffled(s, external.clone());
    let Some(r) = resource::<T>(key, &v)? else { fail!("{} is rejected", shown(&v)) };
    let want = Resource::<T>::External { name: name.clone() };
    ensure_eq!(r, want, "{}", shown(&v));
    ensure_eq!(Resource::<T>::external(name.clone()), r, "Resource::external");
    ensure!(r.is_external() && !r.is_compose() && r.as_compose().is_none(), "accessors of {r:?}");
    let written = back(&r)?;
    let want: YamlValue = YamlValue::Mapping(external.iter().cloned().collect());
    ensure_eq!(written, want, "written");

    // external with other settings
    let extra: Vec<_> = pairs(o).into_iter().filter(|(k, _)| *k != "name").collect();
    if !extra.is_empty() {
        cov.nontrivial();
        cov.label("external with other settings");
        let mut some: Vec<_> = extra.iter().filter(|_| s.chance(50)).cloned().collect();
        if some.is_empty() {
            some.push(extra[s.n(extra.len())].clone());
        }
        let v = shuffled(s, external.iter().cloned().chain(some).collect());
        ensure!(resource::<T>(key, &v)?.is_none(), "accepted: {}", shown(&v));
    }
    let unknown = s.pick(&["x-a", "x-", "drivers", "External", "names", "external_name", "NAME", "zz"]);
    let value = YamlValue::from(s.pick(&["a", "", "true"]));
    let v = shuffled(s, external.iter().cloned().chain([(unknown.into(), value)]).collect());
    ensure!(resource::<T>(key, &v)?.is_none(), "accepted: {}", shown(&v));
    let null = s.pick(&["driver", "labels", "file", "driver_opts", "ipam", "environment", "x-a"]);
    let v = shuffled(s, external.iter().cloned().chain([(null.into(), YamlValue::Null)]).collect());
    ensure!(resource::<T>(key, &v)?.is_none(), "accepted: {}", shown(&v));
    for bad in ["5", "abc", "'true'", "[]", "{}", "1", "[true]", "yes"] {
        let v = shuffled(s, vec![("external".into(), yaml(bad))]);
        ensure!(serde_yaml::from_value::<Resource<T>>(v.clone()).is_err(), "accepted: {}", shown(&v));
    }
    for bad in ["[]", "{}", "[a]", "{a: b}"] {
        let v = shuffled(s, vec![("external".into(), true.into()), ("name".into(), yaml(bad))]);
        ensure!(resource::<T>(key, &v)?.is_none(), "accepted: {}", shown(&v));
    }

    // ordinary, with `external` absent or false
    let v = shuffled(s, pairs(o));
    let Some(r) = resource::<T>(key, &v)? else { fail!("{} is rejected", shown(&v)) };
    let order = Node { kind: Kind::Obj(Obj { what: o.what, ext: o.ext, fields: vec![] }), bad: docgen::NONE, omit: false };
    let mut node = order;
    if let (Kind::Obj(new), Some(m)) = (&mut node.kind, v.as_mapping()) {
        // the fields in the order written
        let mut old: Vec<Option<(String, Node)>> = Vec::new();
        let Kind::Obj(from) = make_again(s, make).kind else { fail!("harness: not a group") };
        old.extend(from.fields.into_iter().map(Some));
        for k in m.keys() {
            let i = old.iter().position(|f| f.as_ref().is_some_and(|(f, _)| *k == f.as_str()));
            let Some(f) = i.and_then(|i| old[i].take()) else { fail!("harness: field {k:?}") };
            new.fields.push(f);
        }
    }
    view(&r, &node, key)?;
    ensure!(!r.is_external() && r.is_compose(), "accessors of {r:?}");
    let Some(inner) = r.as_compose() else { fail!("as_compose of {r:?}") };
    ensure!(Resource::Compose(inner.clone()) == r, "Resource::Compose of {inner:?}");
    ensure_eq!(serde_yaml::to_value(inner).ok(), serde_yaml::to_value(&r).ok(), "written without the wrapper");
    ensure_eq!(parse::<T>(&v)?.as_ref(), Some(inner), "parsed without the wrapper");
    let written = serde_yaml::to_value(&r).map_err(|e| e.to_string())?;
    node.matches(Some(&written), key)?;
    let mut strict = true;
    node.walk(&mut Vec::new(), &mut |_, n| strict &= !(n.omit && matches!(&n.kind, Kind::Map(e) if e.is_empty())));
    if strict {
        back(&r)?;
    }
    let with_false = shuffled(s, vec![("external".into(), false.into())]);
    let mut m = with_false.as_mapping().cloned().unwrap_or_default();
    let at = s.n(pairs_of(&v).len() + 1);
    let mut fields = pairs_of(&v);
    fields.insert(at, ("external".into(), false.into()));
    m.clear();
    m.extend(fields);
    let v = YamlValue::Mapping(m);
    ensure_eq!(resource::<T>(key, &v)?, Some(r), "with external: false, {}", shown(&v));
    Ok(())
}

fn pairs_of(v: &YamlValue) -> Vec<(YamlValue, YamlValue)> {
    v.as_mapping().map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()).unwrap_or_default()
}

/// The node made from the first choices once more (nodes cannot be copied).
fn make_again(s: &Src, make: fn(&mut Src) -> Node) -> Node {
    make(&mut s.again())
}

fn check_resource(m: &Made, cov: &mut Cov) -> Res {
    let s = &mut Src::new(&m.data);
    match m.kind {
        0 => check_kind::<Network>(s, cov, "networks", docgen::network, views::network_view),
        1 => check_kind::<Volume>(s, cov, "volumes", docgen::top_volume, views::volume_view),
        2 => check_kind::<Config>(s, cov, "configs", docgen::config, views::config_view),
        _ => check_kind::<Secret>(s, cov, "secrets", docgen::secret, views::secret_view),
    }
}

fn check_null(m: &usize, cov: &mut Cov) -> Res {
    cov.nontrivial();
    let keys = ["networks", "volumes", "configs", "secrets"];
    let doc = in_document(keys[*m], &YamlValue::Null);
    let c = crate::tmpl::parse(&doc)?;
    if *m > 1 {
        ensure!(c.is_none(), "accepted: {}", shown(&doc));
        return Ok(());
    }
    let Some(c) = c else { fail!("rejected: {}", shown(&doc)) };
    ensure!(c.networks.values().all(Option::is_none) && c.volumes.values().all(Option::is_none), "{c:?}");
    let v = serde_yaml::to_value(&c).map_err(|e| e.to_string())?;
    ensure_eq!(v, doc, "written");
    Ok(())
}

pub fn c24() -> Property {
    Property {
        id: "C24",
        subs: vec![
            sub("resources", "a generated resource of one of the four kinds, also made external; non-trivial: with settings besides the name", 6_000, || made(4, 60), check_resource),
            all("null resources", "resources without any setting", || (0..4).collect(), check_null),
        ],
        known: vec![],
        assumptions: &[],
    }
}

// ---------------------------------------------------------------------------------------------
// C25

#[derive(Clone, Debug, Serialize, Deserialize)]
enum T {
    Absent,
    Text(String),
    Cmd(Vec<String>),
    Shell(String),
    None,
    /// A malformed test, as YAML text.
    Malformed(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hc {
    test: T,
    /// interval, timeout, start_period, start_interval in microseconds
    times: [Option<u64>; 4],
    retries: Option<u64>,
    disable: Option<bool>,
    extensions: Vec<(String, u8)>,
    order: Vec<u32>,
}

const TIMES: [&str; 4] = ["interval", "timeout", "start_period", "start_interval"];

fn argument() -> BoxedStrategy<String> {
    prop_oneof![
        2 => "[a-z]{1,6}",
        2 => prop::sample::select(vec!["CMD", "CMD-SHELL", "NONE", "", "null", "true", "1", "curl -f http://localhost || exit 1", "$VAR", "a\nb", "~", "none", "cmd", "-", "é"]).prop_map(String::from),
        1 => gen::text(),
    ]
    .boxed()
}

const MALFORMED: &[&str] = &[
    "[]", "5", "true", "{}", "{a: b}", "1.5", "[a]", "[cmd, a]", "[Cmd, a]", "['CMD ', a]", "[CMD-SHELL]", "[CMD-SHELL, a, b]", "[CMD-SHELL, a, '']", "[NONE, a]", "[NONE, NONE]", "[none]", "[5]", "[[]]", "[[CMD]]",
    "[CMD, 5]", "[CMD, []]", "[CMD, a, {}]", "[CMD, null]", "[CMD-SHELL, 5]", "[CMD-SHELL, []]", "[CMD_SHELL, a]", "[cmd-shell, a]", "[CMDSHELL, a]", "['', a]", "[EXEC, a]", "[Disable]", "[disable]", "[null]", "[true]", "[SHELL, a]",
    "[-CMD, a]", "[CMD-, a]", "[NONE, null]",
];

fn hc() -> BoxedStrategy<Hc> {
    let test = prop_oneof![
        2 => Just(T::Absent),
        3 => argument().prop_map(T::Text),
        3 => prop::collection::vec(argument(), 0..5).prop_map(T::Cmd),
        3 => argument().prop_map(T::Shell),
        2 => Just(T::None),
        2 => prop::sample::select(MALFORMED).prop_map(|s| T::Malformed(s.to_owned())),
    ];
    let micros = prop_oneof![
        3 => 0..10_000_000_u64,
        2 => (1..100_000_u64, prop::sample::select(vec![1, 1_000, 1_000_000, 60_000_000, 3_600_000_000])).prop_map(|(n, u)| n * u),
        1 => any::<u64>(),
    ];
    let retries = prop_oneof![0..5_u64, any::<u64>(), Just(u64::MAX)];
    let times = [(); 4].map(|()| prop::option::weighted(0.35, micros.clone()));
    let extensions = prop::collection::vec((prop::sample::select(vec!["x-a", "x-b", "x-", "x-test", "x-disable", "x-é"]).prop_map(String::from), any::<u8>()), 0..3).prop_map(|v| {
        let mut out: Vec<(String, u8)> = Vec::new();
        for (k, n) in v {
            if !out.iter().any(|(o, _)| *o == k) {
                out.push((k, n));
            }
        }
        out
    });
    (
        (test, times, prop::option::weighted(0.35, retries), prop::option::weighted(0.3, any::<bool>()), extensions, prop::collection::vec(any::<u32>(), 8)),
        any::<bool>(),
    )
        .prop_map(|((test, times, retries, disable, extensions, order), bare)| {
            let mut h = Hc { test, times, retries, disable, extensions, order };
            // a disabled check has no options in half of the cases
            if bare && (h.disable == Some(true) || matches!(h.test, T::None)) {
                h.times = [None; 4];
                h.retries = None;
                h.extensions.clear();
                if h.disable == Some(true) && !matches!(h.test, T::None) {
                    h.test = T::Absent;
                }
            }
            h
        })
        .boxed()
}

fn strings(first: &[&str], rest: &[String]) -> YamlValue {
    first.iter().copied().chain(rest.iter().map(String::as_str)).map(YamlValue::from).collect::<Vec<_>>().into()
}

impl Hc {
    fn test_yaml(&self) -> Option<YamlValue> {
        Some(match &self.test {
            T::Absent => return None,
            T::Text(t) => t.as_str().into(),
            T::Cmd(args) => strings(&["CMD"], args),
            T::Shell(t) => strings(&["CMD-SHELL"], std::slice::from_ref(t)),
            T::None => strings(&["NONE"], &[]),
            T::Malformed(y) => yaml(y),
        })
    }

    fn options(&self) -> usize {
        self.times.iter().flatten().count() + usize::from(self.retries.is_some()) + self.extensions.len()
    }

    fn input(&self, test: Option<YamlValue>) -> YamlValue {
        let mut f: Vec<(YamlValue, YamlValue)> = Vec::new();
        f.extend(test.map(|t| ("test".into(), t)));
        for (k, t) in TIMES.iter().zip(&self.times) {
            f.extend(t.map(|t| ((*k).into(), docgen::show_duration(t).into())));
        }
        f.extend(self.retries.map(|n| ("retries".into(), n.into())));
        f.extend(self.disable.map(|b| ("disable".into(), b.into())));
        f.extend(self.extensions.iter().map(|(k, n)| (k.as_str().into(), YamlValue::from(*n))));
        shuffled(&mut Src::new(&self.order), f)
    }

    /// What the check must parse to; [`None`] if it is to be rejected.
    fn model(&self, input: &YamlValue) -> Result<Option<Healthcheck>, String> {
        if matches!(self.test, T::Malformed(_)) {
            return Ok(None);
        }
        let none = matches!(self.test, T::None);
        if none || self.disable == Some(true) {
            // disabled in one way only
            let plain = !(none && self.disable == Some(true)) && self.options() == 0 && matches!(self.test, T::Absent | T::None);
            return Ok(plain.then_some(Healthcheck::Disable));
        }
        let mut c = Command {
            test: match &self.test {
                T::Absent | T::None | T::Malformed(_) => None,
                T::Text(t) | T::Shell(t) => Some(Test::ShellCommand(t.clone())),
                T::Cmd(args) => Some(Test::Command(args.clone())),
            },
            interval: self.times[0].map(Duration::from_micros),
            timeout: self.times[1].map(Duration::from_micros),
            start_period: self.times[2].map(Duration::from_micros),
            start_interval: self.times[3].map(Duration::from_micros),
            retries: self.retries,
            ..Command::default()
        };
        for (k, v) in input.as_mapping().into_iter().flatten() {
            if let Some(k) = k.as_str().filter(|k| k.starts_with("x-")) {
                c.extensions.insert(ExtensionKey::new(k).map_err(|e| e.to_string())?, v.clone());
            }
        }
        Ok(Some(Healthcheck::Command(c)))
    }
}

fn check_health(h: &Hc, cov: &mut Cov) -> Res {
    let input = h.input(h.test_yaml());
    let want = h.model(&input)?;
    // as text a plain number or null can stand for a string
    let plain = matches!(&h.test, T::Malformed(y) if y.contains(['5', 'n', 't']));
    let got = if plain { serde_yaml::from_value(input.clone()).ok() } else { parse::<Healthcheck>(&input)? };
    ensure_eq!(got.is_some(), want.is_some(), "accepted, for {}", shown(&input));
    let Some(want) = want else {
        cov.nontrivial();
        cov.label("rejected");
        return Ok(());
    };
    ensure_eq!(got.as_ref(), Some(&want), "{}", shown(&input));
    // extensions in the order written (equality of maps does not look at it)
    if let (Some(Healthcheck::Command(got)), Healthcheck::Command(want)) = (&got, &want) {
        cov.nontrivial_if(got.test.is_some() && h.options() > 1);
        ensure!(got.extensions.iter().eq(&want.extensions), "extensions of {got:?}, expected {want:?}");
        let empty = h.options() == 0 && want.test.is_none();
        ensure_eq!(got.is_empty(), empty, "is_empty of {got:?}");
        ensure_eq!(*got == Command::default(), empty, "{got:?} is the default");
        ensure!(Healthcheck::from(got.clone()) == Healthcheck::Command(want.clone()), "Healthcheck::from");
    } else {
        cov.label("disabled");
        cov.nontrivial();
    }
    // written
    let v = serde_yaml::to_value(&want).map_err(|e| format!("cannot serialise {want:?}: {e}"))?;
    let mut written: Vec<(YamlValue, YamlValue)> = pairs_of(&input).into_iter().filter(|(k, _)| k != "disable").collect();
    match &h.test {
        T::Shell(t) => written.iter_mut().filter(|(k, _)| k == "test").for_each(|(_, v)| *v = t.as_str().into()),
        T::None => written.clear(),
        _ => {}
    }
    if matches!(h.test, T::None) && h.disable.is_some() {
        cov.label("disabled by NONE with disable: false");
    }
    if want == Healthcheck::Disable {
        written.push(("disable".into(), true.into()));
    }
    ensure_eq!(v, YamlValue::Mapping(written.into_iter().collect()), "written");
    ensure_eq!(parse::<Healthcheck>(&v)?.as_ref(), Some(&want), "parsed again");
    // the other forms of the same test
    match &h.test {
        T::Text(t) | T::Shell(t) => {
            for other in [YamlValue::from(t.as_str()), strings(&["CMD-SHELL"], std::slice::from_ref(t))] {
                let input = h.input(Some(other));
                ensure_eq!(parse::<Healthcheck>(&input)?.as_ref(), Some(&want), "the same shell command, {}", shown(&input));
            }
            ensure!(Test::from(t.clone()) == Test::ShellCommand(t.clone()), "Test::from");
        }
        T::Cmd(args) => ensure!(Test::from(args.clone()) == Test::Command(args.clone()), "Test::from"),
        _ => {}
    }
    // in a service
    let mut svc = Mapping::new();
    svc.insert("healthcheck".into(), input.clone());
    let svc: Service = serde_yaml::from_value(YamlValue::Mapping(svc)).map_err(|e| format!("in a service: {e}"))?;
    ensure_eq!(svc.healthcheck, Some(want), "in a service");
    Ok(())
}

pub fn c25() -> Property {
    Property {
        id: "C25",
        subs: vec![sub("health checks", "a health check from its parts in any order; non-trivial: rejected, disabled or a test with more than one option", 20_000, hc, check_health)],
        known: vec![],
        assumptions: &[],
    }
}

// ---------------------------------------------------------------------------------------------
// C26

/// Whether something in the group is set.
fn any_set(n: &Node) -> bool {
    match &n.kind {
        Kind::Leaf { shown, .. } => shown.is_some(),
        Kind::Alt(_, n) => any_set(n),
        // lists of groups
        Kind::Seq(items) if items.iter().all(|n| n.as_obj().is_some_and(|o| NESTED.contains(&o.what))) => items.iter().any(any_set),
        Kind::Seq(items) => !items.is_empty(),
        Kind::Map(e) => !e.is_empty(),
        Kind::Obj(o) => o.fields.iter().any(|(k, n)| k.starts_with("x-") || any_set(n)),
    }
}

/// Groups in lists, which do not count when they are empty.
const NESTED: &[&str] = &["preference", "generic resource", "reserved device", "ipam config"];

struct Facts {
    is_empty: bool,
    is_default: bool,
    default_empty: bool,
    default_written: YamlValue,
    default_again: bool,
    written: YamlValue,
    again: bool,
}

fn facts<T>(v: &YamlValue, is_empty: fn(&T) -> bool) -> Result<Facts, String>
where
    T: DeserializeOwned + Serialize + PartialEq + Default + Debug,
{
    let t: T = serde_yaml::from_value(v.clone()).map_err(|e| format!("{} is rejected: {e}", shown(v)))?;
    let d = T::default();
    let write = |t: &T| serde_yaml::to_value(t).map_err(|e| format!("cannot serialise {t:?}: {e}"));
    let default_written = write(&d)?;
    let written = write(&t)?;
    Ok(Facts {
        is_empty: is_empty(&t),
        is_default: t == d,
        default_empty: is_empty(&d),
        default_again: serde_yaml::from_value(default_written.clone()).is_ok_and(|again: T| again == d),
        default_written,
        again: serde_yaml::from_value(written.clone()).is_ok_and(|again: T| again == t),
        written,
    })
}

fn facts_of(what: &str, v: &YamlValue) -> Result<Option<Facts>, String> {
    let f = match what {
        "build" => facts(v, Build::is_empty),
        "blkio_config" => facts(v, BlkioConfig::is_empty),
        "update_config" => facts(v, UpdateOrRollbackConfig::is_empty),
        "reserved device" => {
            // capabilities are required, so the default is not a valid one
            return facts(v, Device::is_empty).map(|f| Some(Facts { default_again: true, default_written: yaml("{}"), ..f }));
        }
        "resources" => facts(v, Resources::is_empty),
        "limits" => facts(v, Limits::is_empty),
        "reservations" => facts(v, Reservations::is_empty),
        "generic resource" => facts(v, GenericResource::is_empty),
        "discrete_resource_spec" => facts(v, DiscreteResourceSpec::is_empty),
        "preference" => facts(v, Preference::is_empty),
        "placement" => facts(v, Placement::is_empty),
        "restart_policy" => facts(v, RestartPolicy::is_empty),
        "deploy" => facts(v, Deploy::is_empty),
        "endpoint" => facts(v, network_config::Network::is_empty),
        "healthcheck" => facts(v, |h: &Healthcheck| matches!(h, Healthcheck::Command(c) if c.is_empty())),
        "logging" => facts(v, Logging::is_empty),
        "volume options" => facts(v, VolumeOptions::is_empty),
        "bind options" => facts(v, BindOptions::is_empty),
        "tmpfs options" => facts(v, TmpfsOptions::is_empty),
        "network" => facts(v, Network::is_empty),
        "ipam" => facts(v, Ipam::is_empty),
        "ipam config" => facts(v, IpamConfig::is_empty),
        "volume" => facts(v, Volume::is_empty),
        _ => return Ok(None),
    };
    f.map(Some)
}

const ROOTS: &[fn(&mut Src) -> Node] = &[
    docgen::deploy,
    docgen::resources,
    docgen::network,
    docgen::top_volume,
    docgen::healthcheck,
    |s| docgen::service_field(s, "build"),
    |s| docgen::service_field(s, "blkio_config"),
    |s| docgen::service_field(s, "networks"),
    |s| docgen::service_field(s, "logging"),
    |s| docgen::service_field(s, "volumes"),
];

fn check_group(m: &Made, cov: &mut Cov) -> Res {
    let root = ROOTS[m.kind](&mut Src::new(&m.data));
    let mut res = Ok(());
    root.walk(&mut Vec::new(), &mut |_, n| {
        if let (true, Some(o)) = (res.is_ok(), n.as_obj()) {
            res = one_group(n, o, cov);
        }
    });
    res
}

fn one_group(n: &Node, o: &Obj, cov: &mut Cov) -> Res {
    let input = n.input();
    let Some(f) = facts_of(o.what, &input)? else { return Ok(()) };
    let what = o.what;
    let set = any_set(n);
    cov.nontrivial_if(set || !o.fields.is_empty());
    if !set && !o.fields.is_empty() {
        cov.label("only defaults written");
    }
    if o.fields.len() == 1 && set {
        cov.label("a single setting");
    }
    ensure_eq!(f.is_empty, !set, "is_empty of {what} {}", shown(&input));
    ensure!(f.default_empty, "the default of {what} is not empty");
    ensure_eq!(f.default_written, yaml("{}"), "the default of {what} written");
    ensure!(f.default_again, "the default of {what} does not parse back");
    // written: everything set and nothing else
    n.matches(Some(&f.written), what)?;
    if n.expected() == Some(yaml("{}")) {
        ensure!(f.is_empty, "{what} {} is written as empty but is not", shown(&input));
    }
    let mut strict = true;
    n.walk(&mut Vec::new(), &mut |_, n| strict &= !(n.omit && matches!(&n.kind, Kind::Map(e) if e.is_empty())));
    if strict {
        ensure!(f.again, "{what} {} written as {} does not parse back", shown(&input), shown(&f.written));
        if o.fields.iter().all(|(_, n)| n.expected().is_none()) {
            ensure!(f.is_default, "{what} {} is not the default", shown(&input));
        }
        ensure!(!f.is_default || n.expected() == Some(yaml("{}")) || what == "reserved device", "{what} {} is the default", shown(&input));
    }
    Ok(())
}

/// Documented defaults of settings, as YAML text.
const DEFAULTS: &[(&str, &[(&str, &str)])] = &[
    (
        "service",
        &[
            ("attach", "true"),
            ("init", "false"),
            ("oom_kill_disable", "false"),
            ("privileged", "false"),
            ("read_only", "false"),
            ("stdin_open", "false"),
            ("tty", "false"),
            ("cap_add", "[]"),
            ("cap_drop", "[]"),
            ("configs", "[]"),
            ("secrets", "[]"),
            ("device_cgroup_rules", "[]"),
            ("devices", "[]"),
            ("dns_opt", "[]"),
            ("expose", "[]"),
            ("external_links", "[]"),
            ("extra_hosts", "{}"),
            ("group_add", "[]"),
            ("links", "[]"),
            ("ports", "[]"),
            ("profiles", "[]"),
            ("security_opt", "[]"),
            ("volumes", "[]"),
            ("volumes_from", "[]"),
            ("storage_opt", "{}"),
            ("ulimits", "{}"),
            ("depends_on", "[]"),
            ("environment", "[]"),
            ("annotations", "[]"),
            ("labels", "[]"),
            ("sysctls", "[]"),
        ],
    ),
    (
        "build",
        &[
            ("privileged", "false"),
            ("no_cache", "false"),
            ("pull", "false"),
            ("args", "[]"),
            ("labels", "[]"),
            ("ssh", "[]"),
            ("cache_from", "[]"),
            ("cache_to", "[]"),
            ("additional_contexts", "{}"),
            ("entitlements", "[]"),
            ("extra_hosts", "{}"),
            ("secrets", "[]"),
            ("tags", "[]"),
            ("ulimits", "{}"),
            ("platforms", "[]"),
        ],
    ),
    ("blkio_config", &[("device_read_bps", "[]"), ("device_read_iops", "[]"), ("device_write_bps", "[]"), ("device_write_iops", "[]"), ("weight_device", "[]")]),
    ("dependency", &[("restart", "false"), ("required", "true")]),
    ("env_file", &[("required", "true")]),
    ("healthcheck", &[("disable", "false")]),
    ("endpoint", &[("aliases", "[]"), ("link_local_ips", "[]"), ("driver_opts", "{}")]),
    ("logging", &[("options", "{}")]),
    ("deploy", &[("labels", "[]")]),
    ("placement", &[("constraints", "[]"), ("preferences", "[]")]),
    ("reservations", &[("devices", "[]"), ("generic_resources", "[]")]),
    ("reserved device", &[("device_ids", "[]"), ("options", "[]")]),
    ("watch rule", &[("ignore", "[]")]),
    ("develop", &[("watch", "[]")]),
    ("volume options", &[("nocopy", "false")]),
    ("bind options", &[("create_host_path", "false")]),
    ("volume mount", &[("read_only", "false")]),
    ("bind mount", &[("read_only", "false")]),
    ("tmpfs mount", &[("read_only", "false")]),
    ("npipe mount", &[("read_only", "false")]),
    ("cluster mount", &[("read_only", "false")]),
    ("network", &[("external", "false"), ("attachable", "false"), ("enable_ipv6", "false"), ("internal", "false"), ("labels", "[]"), ("driver_opts", "{}")]),
    ("ipam", &[("config", "[]"), ("options", "{}")]),
    ("ipam config", &[("aux_addresses", "{}")]),
    ("volume", &[("external", "false"), ("labels", "[]"), ("driver_opts", "{}")]),
    ("config", &[("external", "false"), ("labels", "[]")]),
    ("secret", &[("external", "false"), ("labels", "[]"), ("driver_opts", "{}")]),
    ("document", &[("include", "[]"), ("networks", "{}"), ("volumes", "{}"), ("configs", "{}"), ("secrets", "{}")]),
];

/// Settings that come as list or map, the default being the empty list.
const LIST_OR_MAP: &[&str] = &["environment", "annotations", "labels", "sysctls", "args", "options", "depends_on"];

/// `node` with settings at their default left out (`add` false) or written (`add` true).
fn with_defaults(n: &Node, s: &mut Src, add: bool, changes: &mut usize) -> YamlValue {
    match &n.kind {
        Kind::Leaf { .. } | Kind::Alt(..) => n.input(),
        Kind::Seq(items) => items.iter().map(|n| with_defaults(n, s, add, changes)).collect::<Vec<_>>().into(),
        Kind::Map(e) => YamlValue::Mapping(e.iter().map(|(k, n)| (k.as_str().into(), with_defaults(n, s, add, changes))).collect()),
        Kind::Obj(o) => {
            let mut fields: Vec<(YamlValue, YamlValue)> = Vec::new();
            for (k, n) in &o.fields {
                let empty_map = matches!(&n.kind, Kind::Map(e) if e.is_empty()) && LIST_OR_MAP.contains(&k.as_str());
                if !add && n.expected().is_none() && !empty_map && !k.starts_with("x-") && s.chance(80) {
                    *changes += 1;
                } else {
                    fields.push((k.as_str().into(), with_defaults(n, s, add, changes)));
                }
            }
            let table = DEFAULTS.iter().find(|(w, _)| *w == o.what).map_or(&[] as &[_], |(_, t)| *t);
            for (k, v) in table {
                if add && !o.fields.iter().any(|(f, _)| f == k) && s.chance(30) {
                    *changes += 1;
                    fields.insert(s.n(fields.len() + 1), ((*k).into(), yaml(v)));
                }
            }
            YamlValue::Mapping(fields.into_iter().collect())
        }
    }
}

fn check_defaults((c, extra): &(Choices, Vec<u32>), cov: &mut Cov) -> Res {
    let doc = docgen::document(&mut Src::new(&c.0));
    let input = doc.input();
    let want = must(&input)?;
    let mut s = Src::new(extra);
    for add in [true, false] {
        let mut changes = 0;
        let v = with_defaults(&doc, &mut s, add, &mut changes);
        cov.nontrivial_if(changes > 0);
        cov.label(match (add, changes > 0) {
            (true, true) => "defaults written",
            (false, true) => "defaults left out",
            _ => "nothing to change",
        });
        let got = must(&v)?;
        ensure!(got == want, "{}parses to {got:?}, but {}to {want:?}", shown(&v), shown(&input));
        let same = serde_yaml::to_value(&got).ok() == serde_yaml::to_value(&want).ok();
        ensure!(same, "{}and {}are written differently", shown(&v), shown(&input));
    }
    Ok(())
}

/// Every default of the table on its own: writing it changes nothing, another value is written out.
fn check_single(&(g, f): &(usize, usize), cov: &mut Cov) -> Res {
    let (what, table) = DEFAULTS[g];
    let (field, default) = table[f];
    let (template, at): (&str, &[&str]) = match what {
        "service" => ("services: {s: '@'}", &[]),
        "build" => ("services: {s: {build: '@'}}", &[]),
        "blkio_config" => ("services: {s: {blkio_config: '@'}}", &[]),
        "dependency" => ("services: {s: {depends_on: {a: '@'}}, a: {}}", &["condition: service_started"]),
        "env_file" => ("services: {s: {env_file: ['@']}}", &["path: a"]),
        "healthcheck" => ("services: {s: {healthcheck: '@'}}", &[]),
        "endpoint" => ("services: {s: {networks: {a: '@'}}}", &[]),
        "logging" => ("services: {s: {logging: '@'}}", &[]),
        "deploy" => ("services: {s: {deploy: '@'}}", &[]),
        "placement" => ("services: {s: {deploy: {placement: '@'}}}", &[]),
        "reservations" => ("services: {s: {deploy: {resources: {reservations: '@'}}}}", &[]),
        "reserved device" => ("services: {s: {deploy: {resources: {reservations: {devices: ['@']}}}}}", &["capabilities: [gpu]"]),
        "develop" => ("services: {s: {develop: '@'}}", &[]),
        "watch rule" => ("services: {s: {develop: {watch: ['@']}}}", &["action: sync", "path: a"]),
        "volume options" => ("services: {s: {volumes: [{type: volume, target: /a, volume: '@'}]}}", &[]),
        "bind options" => ("services: {s: {volumes: [{type: bind, source: /a, target: /a, bind: '@'}]}}", &[]),
        "volume mount" => ("services: {s: {volumes: ['@']}}", &["type: volume", "target: /a"]),
        "bind mount" => ("services: {s: {volumes: ['@']}}", &["type: bind", "source: /a", "target: /a"]),
        "tmpfs mount" => ("services: {s: {volumes: ['@']}}", &["type: tmpfs", "target: /a"]),
        "npipe mount" => ("services: {s: {volumes: ['@']}}", &["type: npipe", "source: /a", "target: /a"]),
        "cluster mount" => ("services: {s: {volumes: ['@']}}", &["type: cluster", "source: a", "target: /a"]),
        "network" => ("{services: {}, networks: {a: '@'}}", &[]),
        "ipam" => ("{services: {}, networks: {a: {ipam: '@'}}}", &[]),
        "ipam config" => ("{services: {}, networks: {a: {ipam: {config: ['@']}}}}", &[]),
        "volume" => ("{services: {}, volumes: {a: '@'}}", &[]),
        "config" => ("{services: {}, configs: {a: '@'}}", &["file: a"]),
        "secret" => ("{services: {}, secrets: {a: '@'}}", &["file: a"]),
        "document" => ("@", &["services: {}"]),
        _ => fail!("harness: no place for {what}"),
    };
    let build = |v: Option<&str>| {
        let mut m = Mapping::new();
        for f in at {
            m.extend(yaml(f).as_mapping().cloned().unwrap_or_default());
        }
        if let Some(v) = v {
            m.insert(field.into(), yaml(v));
        }
        let group = YamlValue::Mapping(m);
        if template == "@" { group } else { crate::tmpl::fill(template, &group) }
    };
    cov.nontrivial();
    let without = must(&build(None))?;
    let with = must(&build(Some(default)))?;
    ensure!(with == without, "{what}: {field}: {default} is not the default");
    let plain = |c: &Compose| serde_yaml::to_value(c).map_err(|e| e.to_string());
    ensure_eq!(plain(&with)?, build(None), "{what}: {field}: {default} written");
    let other = match default {
        "true" => "false",
        "false" => "true",
        _ => return Ok(()),
    };
    // these are not the same kind of group any more
    if field == "external" || field == "disable" {
        return Ok(());
    }
    let other_doc = build(Some(other));
    let c = must(&other_doc)?;
    ensure!(c != without, "{what}: {field}: {other} makes no difference");
    ensure_eq!(plain(&c)?, other_doc, "{what}: {field}: {other} written");
    Ok(())
}

type DefaultFacts = (YamlValue, bool, bool);

fn default_of<T>() -> Result<DefaultFacts, String>
where
    T: DeserializeOwned + Serialize + PartialEq + Default + Debug,
{
    let d = T::default();
    let written = serde_yaml::to_value(&d).map_err(|e| e.to_string())?;
    let text = serde_yaml::to_string(&d).map_err(|e| e.to_string())?;
    let again = serde_yaml::from_value::<T>(written.clone()).is_ok_and(|t| t == d);
    let again_text = serde_yaml::from_str::<T>(&text).is_ok_and(|t| t == d);
    Ok((written, again, again_text))
}

/// The default of every type which has one, as it is documented.
const TYPE_DEFAULTS: &[(&str, &str, fn() -> Result<DefaultFacts, String>)] = &[
    ("Service", "{}", default_of::<Service>),
    ("Compose", "{services: {}}", default_of::<Compose>),
    ("Dependency", "{condition: service_started}", default_of::<Dependency>),
    ("Condition", "service_started", default_of::<Condition>),
    ("Build", "{}", default_of::<Build>),
    ("Context", "'.'", default_of::<Context>),
    ("SshAuth", "default", default_of::<SshAuth>),
    ("BlkioConfig", "{}", default_of::<BlkioConfig>),
    ("Weight", "500", default_of::<Weight>),
    ("Deploy", "{}", default_of::<Deploy>),
    ("deploy Mode", "replicated", default_of::<deploy::Mode>),
    ("Placement", "{}", default_of::<Placement>),
    ("Preference", "{}", default_of::<Preference>),
    ("Resources", "{}", default_of::<Resources>),
    ("Limits", "{}", default_of::<Limits>),
    ("Reservations", "{}", default_of::<Reservations>),
    ("GenericResource", "{}", default_of::<GenericResource>),
    ("DiscreteResourceSpec", "{}", default_of::<DiscreteResourceSpec>),
    ("Count", "all", default_of::<deploy::resources::Count>),
    ("Cpus", "0.0", default_of::<Cpus>),
    ("RestartPolicy", "{}", default_of::<RestartPolicy>),
    ("RestartCondition", "any", default_of::<deploy::RestartCondition>),
    ("UpdateOrRollbackConfig", "{}", default_of::<UpdateOrRollbackConfig>),
    ("FailureAction", "pause", default_of::<deploy::FailureAction>),
    ("Order", "stop-first", default_of::<deploy::Order>),
    ("Develop", "{}", default_of::<Develop>),
    ("Healthcheck", "{}", default_of::<Healthcheck>),
    ("Limit", "-1", default_of::<Limit<u32>>),
    ("Limit of bytes", "-1", default_of::<Limit<ByteValue>>),
    ("CpuSet", "''", default_of::<CpuSet>),
    ("Logging", "{}", default_of::<Logging>),
    ("endpoint", "{}", default_of::<network_config::Network>),
    ("PullPolicy", "missing", default_of::<PullPolicy>),
    ("Restart", "'no'", default_of::<Restart>),
    ("Uts", "host", default_of::<Uts>),
    ("port Mode", "ingress", default_of::<ports::Mode>),
    ("Protocol", "tcp", default_of::<ports::Protocol>),
    ("VolumeOptions", "{}", default_of::<VolumeOptions>),
    ("BindOptions", "{}", default_of::<BindOptions>),
    ("BindPropagation", "rprivate", default_of::<BindPropagation>),
    ("TmpfsOptions", "{}", default_of::<TmpfsOptions>),
    ("Network", "{}", default_of::<Network>),
    ("Ipam", "{}", default_of::<Ipam>),
    ("IpamConfig", "{}", default_of::<IpamConfig>),
    ("Volume", "{}", default_of::<Volume>),
    ("ListOrMap", "[]", default_of::<ListOrMap>),
];

fn check_type_default(&i: &usize, cov: &mut Cov) -> Res {
    let (what, want, facts) = TYPE_DEFAULTS[i];
    cov.nontrivial();
    let (written, again, again_text) = facts().map_err(|e| format!("{what}: {e}"))?;
    ensure_eq!(written, yaml(want), "the default {what} written");
    ensure!(again, "the default {what}, written as {}, does not parse back from a value", shown(&written));
    ensure!(again_text, "the default {what}, written as {}, does not parse back from text", shown(&written));
    Ok(())
}

fn check_list_or_map(l: &(bool, Vec<(String, u8)>), cov: &mut Cov) -> Res {
    cov.nontrivial_if(!l.1.is_empty());
    let v: YamlValue = if l.0 {
        let mut items: Vec<String> = l.1.iter().map(|(k, n)| format!("{k}={n}")).collect();
        items.dedup();
        items.into_iter().map(YamlValue::from).collect::<Vec<_>>().into()
    } else {
        YamlValue::Mapping(l.1.iter().map(|(k, n)| (k.as_str().into(), YamlValue::from(*n))).collect())
    };
    let Some(lm) = parse::<ListOrMap>(&v)? else { fail!("{} is rejected", shown(&v)) };
    ensure_eq!(lm.is_empty(), l.1.is_empty(), "is_empty of {lm:?}");
    ensure_eq!(lm.as_list().is_some(), l.0, "as_list of {lm:?}");
    ensure_eq!(lm.as_map().is_some(), !l.0, "as_map of {lm:?}");
    ensure!(ListOrMap::default().is_empty(), "the default is not empty");
    Ok(())
}

pub fn c26() -> Property {
    Property {
        id: "C26",
        subs: vec![
            sub("groups", "every group of a generated setting; non-trivial: some field is written", 60_000, || made(ROOTS.len(), 80), check_group),
            sub(
                "defaults in documents",
                "a generated document with defaults written or left out; non-trivial: something changed",
                8_000,
                || (docgen::choices(250), docgen::extra(200)),
                check_defaults,
            ),
            all(
                "single defaults",
                "every setting with a documented default",
                || DEFAULTS.iter().enumerate().flat_map(|(g, (_, t))| (0..t.len()).map(move |f| (g, f))).collect(),
                check_single,
            ),
            all("default values of types", "every type with a default value", || (0..TYPE_DEFAULTS.len()).collect(), check_type_default),
            sub(
                "lists or maps",
                "a list or map; non-trivial: not empty",
                500,
                || (any::<bool>(), prop::collection::vec(("[a-z]{1,3}", any::<u8>()), 0..4)),
                check_list_or_map,
            ),
        ],
        known: vec![],
        assumptions: &["empty groups inside of a group, also in a list, count as nothing set; an empty map where a list is also possible is not claimed to equal the omitted setting"],
    }
}
