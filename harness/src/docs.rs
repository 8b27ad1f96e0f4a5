//! Mutated documents: C03, C04, C05.

use compose_spec::{
    service::{build::Dockerfile, NetworkConfig},
    Compose, YamlValue,
};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_yaml::Mapping;

use crate::{
    docgen::{self, at, choices, extra, free, show_path, yaml, Choices, Extra, Kind, Node, Obj, Src, Step},
    ensure, fail,
    fw::{sub, Cov, Property, Res, Sub},
    whole::{must, shown},
};

type Case = (Choices, Extra);

fn cases(max: usize) -> impl Strategy<Value = Case> {
    (choices(max), extra(24))
}

/// A part of the document which `wanted` accepts, the kinds of parts (by the key they are under)
/// being chosen evenly.
fn choose<'a>(doc: &'a Node, s: &mut Src, wanted: impl Fn(&Node) -> bool) -> Option<(Vec<Step>, &'a Node)> {
    let mut found: Vec<(String, Vec<(Vec<Step>, &'a Node)>)> = Vec::new();
    doc.walk(&mut Vec::new(), &mut |path, n| {
        if wanted(n) {
            let what = n.as_obj().map_or("", |o| o.what);
            let key = path.iter().rev().find_map(|s| if let Step::Key(k) = s { Some(k.as_str()) } else { None }).unwrap_or_default();
            let group = format!("{what}/{key}");
            match found.iter_mut().find(|(g, _)| *g == group) {
                Some((_, all)) => all.push((path.to_vec(), n)),
                None => found.push((group, vec![(path.to_vec(), n)])),
            }
        }
    });
    if found.is_empty() {
        return None;
    }
    let i = s.n(found.len());
    let mut group = found.swap_remove(i).1;
    let i = s.n(group.len());
    Some(group.swap_remove(i))
}

/// The errors of the document, given as a value and as text, as far as it is rejected.
fn errors(doc: &YamlValue) -> Vec<String> {
    let mut all = Vec::new();
    all.extend(serde_yaml::from_value::<Compose>(doc.clone()).err().map(|e| e.to_string()));
    let text = shown(doc);
    if serde_yaml::from_str::<YamlValue>(&text).ok().as_ref() == Some(doc) {
        all.extend(Compose::options().from_yaml_str(&text).err().map(|e| e.to_string()));
    }
    all
}

/// Whether the error has one of the keys in quotes, or the keys together.
fn names(e: &str, keys: &[&str]) -> bool {
    let quoted = |k: &str| e.contains(&format!("`{k}`")) || e.contains(&format!("\"{k}\""));
    keys.iter().any(|k| quoted(k) || k.contains(' ') && e.contains(k) || e.split('`').skip(1).step_by(2).any(|q| q.split([',', ' ']).any(|w| w == *k)))
}

/// Where the document is rejected, the error must name one of the keys.
fn named(doc: &YamlValue, why: &dyn Fn() -> String, keys: &[&str]) -> Res {
    for e in errors(doc) {
        ensure!(names(&e, keys), "as {}, it is rejected without naming any of {keys:?}: {e:?}\n{}", why(), shown(doc));
    }
    Ok(())
}

/// The document must be rejected, however it is given.
fn rejected(doc: &YamlValue, why: &dyn Fn() -> String, by_text: bool) -> Res {
    if let Ok(c) = serde_yaml::from_value::<Compose>(doc.clone()) {
        fail!("accepted although {}:\n{}as {:?}", why(), shown(doc), c);
    }
    if by_text {
        let text = shown(doc);
        if serde_yaml::from_str::<YamlValue>(&text).ok().as_ref() == Some(doc) {
            if let Ok(c) = Compose::options().from_yaml_str(&text) {
                fail!("the text is accepted although {}:\n{text}as {c:?}", why());
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C04

/// Whether all scalars are strings or null: in text other plain scalars are also taken as strings.
fn texts_only(v: &YamlValue) -> bool {
    match v {
        YamlValue::String(_) | YamlValue::Null => true,
        YamlValue::Sequence(s) => s.iter().all(texts_only),
        YamlValue::Mapping(m) => m.iter().all(|(k, v)| texts_only(k) && texts_only(v)),
        _ => false,
    }
}

/// A value which cannot stand where `bad` cannot: one of `bad`, or another one of a kind of which no
/// value can stand there, going by the plainest ones of the kind.
pub fn bad_value(s: &mut Src, bad: &[&'static str]) -> YamlValue {
    let listed = yaml(s.pick(bad));
    if s.chance(60) {
        return listed;
    }
    let scalar = |s: &mut Src| yaml(s.pick(&["null", "zz", "1", "-1.5", "true", "''"]));
    let kinds: Vec<&str> = ["[]", "{}", "true", "abc", "bogus", "1.5", "5"].into_iter().filter(|k| bad.contains(k)).collect();
    if kinds.is_empty() {
        return listed;
    }
    match s.pick(&kinds) {
        "[]" => (0..s.n(4)).map(|_| scalar(s)).collect::<Vec<_>>().into(),
        "{}" => YamlValue::Mapping((0..1 + s.n(2)).map(|i| (YamlValue::from(format!("zz{i}")), scalar(s))).collect()),
        "true" => false.into(),
        "1.5" => s.pick(&[0.5, -2.5, 0.001, 1e300, f64::INFINITY, f64::NAN, 3.000_000_1, -1e-9, 255.5, 65_535.5, 0.0, 1.0, 80.0, 1000.0, -1.0, 2e9]).into(),
        "5" => s.pick(&[0i64, 1, 10, 255, 80, -1, -5, 65_536, i64::MAX, i64::MIN]).into(),
        _ => {
            let rest: String = (0..s.n(6)).map(|_| s.pick(&['a', 's', 'm', 'b', 'k', '5', '0', '-', 'q'])).collect();
            format!("zq{rest}").into()
        }
    }
}

fn check_bad((c, e): &Case, cov: &mut Cov) -> Res {
    let doc = docgen::document(&mut Src::new(&c.0));
    let mut s = Src::new(e);
    let Some((path, node)) = choose(&doc, &mut s, |n| !n.bad.is_empty()) else { return Ok(()) };
    let bad_value = bad_value(&mut s, node.bad);
    let mut v = doc.input();
    ensure!(serde_yaml::from_value::<Compose>(v.clone()).is_ok(), "rejected before the change:\n{}", shown(&v));
    *at(&mut v, &path) = bad_value.clone();
    cov.nontrivial();
    cov.label(match bad_value {
        YamlValue::String(_) => "malformed text",
        YamlValue::Number(_) => "number",
        YamlValue::Bool(_) => "boolean",
        YamlValue::Sequence(_) => "list",
        _ => "mapping",
    });
    rejected(&v, &|| format!("{} cannot be {bad_value:?}", show_path(&path)), texts_only(&bad_value))
}

pub fn c04() -> Property {
    Property {
        id: "C04",
        subs: vec![
            sub("wrong value", "a valid document with one value replaced by one that cannot stand there; non-trivial: there was a value to replace", 25_000, || cases(300), check_bad),
            sub("wrong value in one setting", "a valid service setting with one value in it replaced; non-trivial: there was a value to replace", 25_000, || (any::<u16>(), prop::collection::vec(any::<u32>(), 0..60), extra(8)), check_bad_setting),
        ],
        known: vec![],
        assumptions: &["only the values listed per place in harness/src/docgen.rs, and others of the kinds they rule out, count as ones that cannot stand there"],
    }
}

/// A document with one service with one setting.
fn one_setting(n: u16, choices: &[u32]) -> Node {
    of_setting(docgen::SERVICE[n as usize % docgen::SERVICE.len()].0, choices)
}

fn one_setting_with_groups(n: u16, choices: &[u32]) -> Node {
    const KEYS: &[&str] = &["build", "configs", "credential_spec", "deploy", "deploy", "deploy", "develop", "healthcheck", "logging", "networks", "ports", "secrets", "ulimits", "volumes", "volumes"];
    let n = n as usize % (KEYS.len() + 2);
    if n < KEYS.len() {
        return of_setting(KEYS[n], choices);
    }
    let resources = docgen::resources(&mut Src::new(choices));
    in_service("deploy", object("deploy", vec![("resources".to_owned(), resources)]))
}

fn of_setting(key: &str, choices: &[u32]) -> Node {
    in_service(key, docgen::service_field(&mut Src::new(choices), key))
}

fn object(what: &'static str, fields: Vec<(String, Node)>) -> Node {
    Node { kind: Kind::Obj(Obj { what, ext: true, fields }), bad: docgen::NONE, omit: false }
}

fn in_service(key: &str, node: Node) -> Node {
    let service = object("service", vec![(key.to_owned(), node)]);
    let services = Node { kind: Kind::Map(vec![("svc".to_owned(), service)]), bad: docgen::NONE, omit: false };
    object("document", vec![("services".to_owned(), services)])
}

fn check_bad_setting((n, c, e): &(u16, Vec<u32>, Extra), cov: &mut Cov) -> Res {
    let doc = one_setting(*n, c);
    let mut s = Src::new(e);
    let Some((path, node)) = choose(&doc, &mut s, |n| !n.bad.is_empty()) else { return Ok(()) };
    let bad_value = bad_value(&mut s, node.bad);
    let mut v = doc.input();
    must(&v)?;
    *at(&mut v, &path) = bad_value.clone();
    cov.nontrivial();
    rejected(&v, &|| format!("{} cannot be {bad_value:?}", show_path(&path)), texts_only(&bad_value))
}

// ---------------------------------------------------------------------------------------------
// C03

/// The settings of each group which takes extension fields.
const FIELDS: &[(&str, &[&str])] = &[
    ("document", &["version", "name", "include", "services", "networks", "volumes", "configs", "secrets"]),
    ("config or secret", &["source", "target", "uid", "gid", "mode"]),
    ("ulimit", &["soft", "hard"]),
    ("credential_spec", &["config", "file", "registry"]),
    ("update_config", &["parallelism", "delay", "failure_action", "monitor", "max_failure_ratio", "order"]),
    ("limits", &["cpus", "memory", "pids"]),
    ("reservations", &["cpus", "memory", "devices", "generic_resources"]),
    ("resources", &["limits", "reservations"]),
    ("discrete_resource_spec", &["kind", "value"]),
    ("generic resource", &["discrete_resource_spec"]),
    ("reserved device", &["capabilities", "driver", "count", "device_ids", "options"]),
    ("preference", &["spread"]),
    ("placement", &["constraints", "preferences", "max_replicas_per_node"]),
    ("restart_policy", &["condition", "delay", "max_attempts", "window"]),
    ("deploy", &["endpoint_mode", "labels", "mode", "placement", "replicas", "resources", "restart_policy", "rollback_config", "update_config"]),
    ("watch rule", &["action", "path", "ignore", "target"]),
    ("healthcheck", &["disable", "test", "interval", "timeout", "retries", "start_period", "start_interval"]),
    ("logging", &["driver", "options"]),
    ("endpoint", &["aliases", "ipv4_address", "ipv6_address", "link_local_ips", "mac_address", "driver_opts", "priority"]),
    ("port", &["name", "target", "published", "host_ip", "protocol", "app_protocol", "mode"]),
    ("volume options", &["nocopy", "subpath"]),
    ("bind options", &["propagation", "create_host_path", "selinux"]),
    ("tmpfs options", &["size", "mode"]),
    ("volume mount", &["type", "source", "target", "read_only", "consistency", "volume"]),
    ("bind mount", &["type", "source", "target", "read_only", "consistency", "bind"]),
    ("tmpfs mount", &["type", "target", "read_only", "consistency", "tmpfs"]),
    ("npipe mount", &["type", "source", "target", "read_only", "consistency"]),
    ("cluster mount", &["type", "source", "target", "read_only", "consistency"]),
    ("ipam config", &["subnet", "ip_range", "gateway", "aux_addresses"]),
    ("ipam", &["driver", "config", "options"]),
    ("network", &["driver", "driver_opts", "attachable", "enable_ipv6", "external", "ipam", "internal", "labels", "name"]),
    ("volume", &["driver", "driver_opts", "external", "labels", "name"]),
    ("config", &["file", "environment", "content", "external", "name", "labels"]),
    ("secret", &["file", "environment", "external", "name", "labels", "driver", "driver_opts", "template_driver"]),
];

fn known(what: &str) -> Vec<&'static str> {
    match what {
        "service" => docgen::SERVICE.iter().map(|(k, _)| *k).collect(),
        "build" => docgen::BUILD.iter().map(|(k, _)| *k).chain(["dockerfile", "dockerfile_inline"]).collect(),
        _ => FIELDS.iter().find(|(w, _)| *w == what).map(|(_, f)| f.to_vec()).unwrap_or_else(|| panic!("harness: no fields of {what}")),
    }
}

/// A key that is neither a field of the group nor an extension key.
fn unknown_key(what: &str, s: &mut Src) -> YamlValue {
    let known = known(what);
    let key = match s.n(6) {
        0 => s.pick(&["zz", "", "X-a", "x", "x_a", " x-a", "é", "-x-a", "null", "x\u{2010}a", "<<", "$ref", "x.a", "xx-a"]).to_owned(),
        1 => {
            let k = s.pick(&known);
            match s.n(6) {
                0 => format!("{k}s"),
                1 => k.to_uppercase(),
                2 => k.replace('_', "-"),
                3 => k[..k.len() - 1].to_owned(),
                4 => format!("{k} "),
                _ => format!("_{k}"),
            }
        }
        2 => return yaml(s.pick(&["5", "true", "null", "1.5"])),
        // a field of another group
        3 | 4 => docgen::SERVICE[s.n(docgen::SERVICE.len())].0.to_owned(),
        _ => {
            let (_, fields) = s.pick(FIELDS);
            s.pick(fields).to_owned()
        }
    };
    if known.contains(&key.as_str()) || key.starts_with("x-") { "zz".into() } else { key.into() }
}

fn insert_at(m: &mut Mapping, i: usize, k: YamlValue, v: YamlValue) {
    let mut entries: Vec<_> = std::mem::take(m).into_iter().collect();
    entries.insert(i.min(entries.len()), (k, v));
    *m = entries.into_iter().collect();
}

fn is_group(n: &Node) -> bool {
    n.as_obj().is_some_and(|o| o.ext)
}

fn is_inner_group(n: &Node) -> bool {
    n.as_obj().is_some_and(|o| o.ext && o.what != "document" && o.what != "service")
}

/// What is asked of a document that is to be rejected.
#[derive(Clone, Copy, PartialEq)]
enum Asked {
    Rejected,
    /// The error of its rejection names what is wrong.
    Named,
}

fn unknown_key_rejected(doc: &Node, s: &mut Src, cov: &mut Cov, wanted: fn(&Node) -> bool, asked: Asked) -> Res {
    let Some((path, node)) = choose(doc, s, wanted) else { return Ok(()) };
    let o = node.as_obj().expect("harness: group");
    let mut v = doc.input();
    must(&v)?;
    let key = unknown_key(o.what, s);
    let value = match s.n(3) {
        0 => YamlValue::Null,
        1 => free(s, 1),
        _ => "a".into(),
    };
    let i = s.n(o.fields.len() + 1);
    insert_at(at(&mut v, &path).as_mapping_mut().expect("harness: mapping"), i, key.clone(), value);
    cov.nontrivial();
    cov.label(o.what);
    let why = || format!("{key:?} is not a setting of {} ({})", show_path(&path), o.what);
    match (asked, key.as_str()) {
        (Asked::Rejected, _) => rejected(&v, &why, true),
        (Asked::Named, Some(key)) => named(&v, &why, &[key]),
        (Asked::Named, None) => Ok(()),
    }
}

fn check_unknown((c, e): &Case, cov: &mut Cov) -> Res {
    unknown_key_rejected(&docgen::document(&mut Src::new(&c.0)), &mut Src::new(e), cov, is_group, Asked::Rejected)
}

fn check_unknown_in_setting((n, c, e): &(u16, Vec<u32>, Extra), cov: &mut Cov) -> Res {
    unknown_key_rejected(&one_setting_with_groups(*n, c), &mut Src::new(e), cov, is_inner_group, Asked::Rejected)
}

fn node_mut<'a>(node: &'a mut Node, path: &[Step]) -> &'a mut Node {
    path.iter().fold(node, |n, step| match (&mut n.kind, step) {
        (Kind::Map(e) | Kind::Obj(Obj { fields: e, .. }), Step::Key(k)) => &mut e.iter_mut().find(|(o, _)| o == k).expect("harness: path").1,
        (Kind::Seq(items), Step::Index(i)) => &mut items[*i],
        _ => panic!("harness: path"),
    })
}

fn extension_kept(mut doc: Node, s: &mut Src, cov: &mut Cov, wanted: fn(&Node) -> bool) -> Res {
    let Some((path, node)) = choose(&doc, s, wanted) else { return Ok(()) };
    let what = node.as_obj().expect("harness: group").what;
    cov.label(what);
    cov.nontrivial();
    let Kind::Obj(o) = &mut node_mut(&mut doc, &path).kind else { panic!("harness: group") };
    let known = known(what);
    let n = 1 + s.n(4);
    for _ in 0..n {
        let key = match s.n(4) {
            0 => "x-".to_owned(),
            1 => format!("x-{}", s.pick(&known)),
            // keys are single lines
            2 => format!("x-{}", docgen::string(s).replace('\n', "")),
            _ => format!("x-{}", s.fresh()),
        };
        if o.fields.iter().all(|(k, _)| *k != key) {
            let i = s.n(o.fields.len() + 1);
            o.fields.insert(i, (key, Node::leaf(free(s, 3), docgen::NONE)));
        }
    }
    crate::whole::check_document(&doc)
}

fn check_extension((c, e): &Case, cov: &mut Cov) -> Res {
    extension_kept(docgen::document(&mut Src::new(&c.0)), &mut Src::new(e), cov, is_group)
}

fn check_extension_in_setting((n, c, e): &(u16, Vec<u32>, Extra), cov: &mut Cov) -> Res {
    extension_kept(one_setting_with_groups(*n, c), &mut Src::new(e), cov, is_inner_group)
}

pub fn c03() -> Property {
    fn setting() -> impl Strategy<Value = (u16, Vec<u32>, Extra)> {
        (any::<u16>(), prop::collection::vec(any::<u32>(), 0..60), extra(40))
    }
    Property {
        id: "C03",
        subs: vec![
            sub("unknown key", "a key which is no setting put into a group of a valid document; non-trivial: always", 15_000, || cases(300), check_unknown),
            sub("unknown key in one setting", "a key which is no setting put into a group of a valid service setting; non-trivial: always", 10_000, setting, check_unknown_in_setting),
            sub("extension keys", "extension keys put into a group of a valid document; non-trivial: always", 10_000, || cases(300), check_extension),
            sub("extension keys in one setting", "extension keys put into a group of a valid service setting; non-trivial: always", 10_000, setting, check_extension_in_setting),
        ],
        known: vec![],
        assumptions: &[],
    }
}

// ---------------------------------------------------------------------------------------------
// C05

/// The settings each group must have.
const REQUIRED: &[(&str, &[&str])] = &[
    ("document", &["services"]),
    ("config or secret", &["source"]),
    ("ulimit", &["soft", "hard"]),
    ("rate limit", &["path", "rate"]),
    ("device weight", &["path", "weight"]),
    ("dependency", &["condition"]),
    ("reserved device", &["capabilities"]),
    ("watch rule", &["action", "path"]),
    ("env_file", &["path"]),
    ("extends", &["service"]),
    ("port", &["target"]),
    ("volume mount", &["type", "target"]),
    ("bind mount", &["type", "source", "target"]),
    ("tmpfs mount", &["type", "target"]),
    ("npipe mount", &["type", "source", "target"]),
    ("cluster mount", &["type", "source", "target"]),
    ("include", &["path"]),
    ("credential_spec", &["config", "file", "registry"]),
    ("config", &["file", "environment", "content"]),
    ("secret", &["file", "environment"]),
];

fn required(o: &Obj) -> Vec<&str> {
    let of = REQUIRED.iter().find(|(w, _)| *w == o.what).map_or(&[] as &[_], |(_, f)| f);
    o.fields.iter().map(|(k, _)| k.as_str()).filter(|k| of.contains(k)).collect()
}

fn missing_rejected(doc: &Node, s: &mut Src, cov: &mut Cov, asked: Asked) -> Res {
    let Some((path, node)) = choose(doc, s, |n| n.as_obj().is_some_and(|o| !required(o).is_empty())) else { return Ok(()) };
    let o = node.as_obj().expect("harness: group");
    let mut v = doc.input();
    must(&v)?;
    let key = s.pick(&required(o));
    at(&mut v, &path).as_mapping_mut().expect("harness: mapping").shift_remove(key);
    cov.nontrivial();
    cov.label(o.what);
    let why = || format!("{} ({}) lacks {key}", show_path(&path), o.what);
    match asked {
        Asked::Rejected => rejected(&v, &why, true),
        Asked::Named => named(&v, &why, &[key]),
    }
}

/// A setting the group cannot have next to those it has, and those it could stand in for.
fn second(o: &Obj, s: &mut Src) -> Option<(&'static str, Node, Vec<&'static str>)> {
    use docgen::NONE;
    let has = |k: &str| o.fields.iter().any(|(f, _)| f == k);
    let text = |s: &mut Src| Node::leaf(s.pick(&["a", "b/c", "other"]), NONE);
    let one_of = |s: &mut Src, keys: &[&'static str]| {
        let there: Vec<&'static str> = keys.iter().copied().filter(|k| has(k)).collect();
        let others: Vec<&'static str> = keys.iter().copied().filter(|k| !has(k)).collect();
        if there.is_empty() || others.is_empty() { None } else { Some((s.pick(&others), there)) }
    };
    match o.what {
        "service" if has("networks") => Some(("network_mode", docgen::service_field(s, "network_mode"), vec!["networks"])),
        "service" if has("network_mode") => Some(("networks", docgen::service_field(s, "networks"), vec!["network_mode"])),
        "build" => {
            let (k, there) = one_of(s, &["dockerfile", "dockerfile_inline"])?;
            Some((k, text(s), there))
        }
        "credential_spec" => {
            let (k, there) = one_of(s, &["config", "file", "registry"])?;
            Some((k, Node::leaf("a", NONE), there))
        }
        "config" => {
            let (k, there) = one_of(s, &["file", "environment", "content"])?;
            Some((k, text(s), there))
        }
        "secret" => {
            let (k, there) = one_of(s, &["file", "environment"])?;
            Some((k, text(s), there))
        }
        "disabled healthcheck" => {
            let (k, v) = s.pick(&[
                ("test", "a"), ("test", "[CMD, a]"), ("test", "[CMD-SHELL, a]"), ("interval", "1s"), ("timeout", "2m"), ("retries", "0"), ("start_period", "1s"), ("start_interval", "1s"), ("x-a", "1"),
            ]);
            Some((k, Node::leaf(yaml(v), NONE), vec!["disable"]))
        }
        "healthcheck" if !o.fields.is_empty() => {
            if has("test") || s.chance(50) {
                Some(("disable", Node::leaf(true, NONE), vec![]))
            } else {
                Some(("test", Node::leaf(yaml("[NONE]"), NONE), vec![]))
            }
        }
        "volume mount" | "bind mount" | "tmpfs mount" | "npipe mount" | "cluster mount" => {
            let kind = o.what.trim_end_matches(" mount");
            let k = s.pick(&["volume", "bind", "tmpfs", "source"]);
            if k == kind || k == "source" && kind != "tmpfs" {
                return None;
            }
            let v = match k {
                "source" => s.pick(&["a", "./a", "/a"]),
                "volume" => s.pick(&["{}", "{nocopy: true}"]),
                "bind" => s.pick(&["{}", "{propagation: shared}"]),
                _ => s.pick(&["{}", "{mode: 1}"]),
            };
            Some((k, Node::leaf(yaml(v), NONE), vec![]))
        }
        "external" => {
            let (k, v) = s.pick(&[
                ("driver", "a"), ("labels", "{a: b}"), ("labels", "{}"), ("driver_opts", "{a: b}"), ("file", "a"), ("environment", "A"), ("content", "a"), ("internal", "true"), ("ipam", "{}"),
                ("attachable", "true"), ("x-a", "1"), ("zz", "1"), ("driver", "null"), ("enable_ipv6", "true"),
            ]);
            Some((k, Node::leaf(yaml(v), NONE), vec![]))
        }
        _ => None,
    }
}

fn excludes(n: &Node) -> bool {
    n.as_obj().is_some_and(|o| {
        let has = |k: &str| o.fields.iter().any(|(f, _)| f == k);
        match o.what {
            "service" => has("networks") || has("network_mode"),
            "build" => has("dockerfile") || has("dockerfile_inline"),
            "healthcheck" => !o.fields.is_empty(),
            what => matches!(what, "credential_spec" | "config" | "secret" | "disabled healthcheck" | "external") || what.ends_with("mount"),
        }
    })
}

fn both_rejected(doc: &Node, s: &mut Src, cov: &mut Cov, asked: Asked) -> Res {
    let Some((path, node)) = choose(doc, s, excludes) else { return Ok(()) };
    let o = node.as_obj().expect("harness: group");
    let Some((key, other, replaces)) = second(o, s) else { return Ok(()) };
    let mut v = doc.input();
    must(&v)?;
    cov.nontrivial();
    cov.label(o.what);
    let i = s.n(o.fields.len() + 1);
    let other = other.input();
    let set = |v: &mut YamlValue| insert_at(at(v, &path).as_mapping_mut().expect("harness: mapping"), i, key.into(), other.clone());
    let mut both = v.clone();
    set(&mut both);
    let why = || format!("{} ({}) cannot have {key} {other:?} as well", show_path(&path), o.what);
    if asked == Asked::Named {
        // or the one which excludes the others
        let other = match o.what {
            "external" => "external",
            "healthcheck" | "disabled healthcheck" => "disabled healthcheck",
            _ => key,
        };
        return named(&both, &why, &[key, other]);
    }
    rejected(&both, &why, true)?;
    // instead of what it excludes it is fine
    if let ["networks" | "network_mode" | "dockerfile" | "dockerfile_inline" | "config" | "file" | "registry" | "environment" | "content"] = replaces[..] {
        at(&mut v, &path).as_mapping_mut().expect("harness: mapping").shift_remove(replaces[0]);
        set(&mut v);
        must(&v)?;
    }
    Ok(())
}

const REQUIRING: &[&str] = &["blkio_config", "configs", "credential_spec", "depends_on", "develop", "env_file", "extends", "ports", "secrets", "ulimits", "volumes", "volumes", "build"];
const EXCLUDING: &[&str] = &["build", "build", "credential_spec", "healthcheck", "healthcheck", "networks", "network_mode", "volumes", "volumes"];

type Setting = (u16, Vec<u32>, Extra);

fn setting() -> impl Strategy<Value = Setting> {
    (any::<u16>(), prop::collection::vec(any::<u32>(), 0..60), extra(20))
}

fn of_keys(keys: &[&str], n: u16, choices: &[u32]) -> Node {
    of_setting(keys[n as usize % keys.len()], choices)
}

fn check_missing((c, e): &Case, cov: &mut Cov) -> Res {
    missing_rejected(&docgen::document(&mut Src::new(&c.0)), &mut Src::new(e), cov, Asked::Rejected)
}

fn check_missing_in_setting((n, c, e): &Setting, cov: &mut Cov) -> Res {
    missing_rejected(&of_keys(REQUIRING, *n, c), &mut Src::new(e), cov, Asked::Rejected)
}

fn check_both((c, e): &Case, cov: &mut Cov) -> Res {
    both_rejected(&docgen::document(&mut Src::new(&c.0)), &mut Src::new(e), cov, Asked::Rejected)
}

fn check_both_in_setting((n, c, e): &Setting, cov: &mut Cov) -> Res {
    both_rejected(&of_keys(EXCLUDING, *n, c), &mut Src::new(e), cov, Asked::Rejected)
}

/// One of two settings, read on its own: [`service::NetworkConfig`] or [`service::build::Dockerfile`].
fn check_alone(data: &Vec<u32>, cov: &mut Cov) -> Res {
    fn read<T: DeserializeOwned + Serialize + PartialEq + std::fmt::Debug>(v: &YamlValue, given: usize, what: &str) -> Res {
        let made = serde_yaml::from_value::<T>(v.clone());
        let text = serde_yaml::from_str::<T>(&shown(v));
        ensure!(made.is_ok() == text.is_ok(), "the {what} of {} is {made:?}, of its text {text:?}", shown(v));
        match made {
            Ok(made) => {
                ensure!(given == 1, "the {what} of {} is {made:?}, with {given} given", shown(v));
                let written = serde_yaml::to_value(&made).map_err(|e| format!("the {what} {made:?}: {e}"))?;
                ensure!(serde_yaml::from_value::<T>(written.clone()).is_ok_and(|again| again == made), "the {what} {made:?} as written: {}", shown(&written));
                ensure!(written.as_mapping().is_some_and(|m| m.keys().eq(v.as_mapping().into_iter().flat_map(Mapping::keys))), "the {what} of {} is written as {}", shown(v), shown(&written));
            }
            Err(e) => ensure!(given != 1, "the {what} of {} is rejected: {e}", shown(v)),
        }
        Ok(())
    }
    let s = &mut Src::new(data);
    let dockerfile = s.chance(50);
    let sides: [(&str, &[&str]); 2] = if dockerfile {
        [("dockerfile", &["a", "./a/b", "''", "/a b"]), ("dockerfile_inline", &["a", "''", "\"FROM a\\n\"", "' '"])]
    } else {
        [("network_mode", &["none", "host", "bridge", "service:a", "container:a"]), ("networks", &["[]", "{}", "[a]", "[a, b]", "{a: }", "{a: {priority: 1}, b: {aliases: [c]}}"])]
    };
    let mut m = Mapping::new();
    let first = s.n(2);
    for i in [first, 1 - first] {
        if s.chance(65) {
            m.insert(sides[i].0.into(), yaml(s.pick(sides[i].1)));
        }
    }
    let given = m.len();
    let v = YamlValue::Mapping(m);
    cov.nontrivial();
    cov.label(["none", "one", "both"][given]);
    if dockerfile {
        read::<Dockerfile>(&v, given, "dockerfile")
    } else {
        read::<NetworkConfig>(&v, given, "network configuration")
    }
}

pub fn c05() -> Property {
    Property {
        id: "C05",
        subs: vec![
            sub("missing", "a required setting taken out of a valid document; non-trivial: there was one", 15_000, || cases(300), check_missing),
            sub("missing in one setting", "a required setting taken out of a valid service setting; non-trivial: there was one", 15_000, setting, check_missing_in_setting),
            sub("both", "a setting added to a valid document which excludes one it has; non-trivial: there was one", 15_000, || cases(300), check_both),
            sub("both in one setting", "a setting added to a valid service setting which excludes one it has; non-trivial: there was one", 15_000, setting, check_both_in_setting),
            sub("alone", "none, one or both of network_mode and networks, or of dockerfile and dockerfile_inline, as a value of its own; non-trivial: always", 4_000, || prop::collection::vec(any::<u32>(), 0..8), check_alone),
        ],
        known: vec![],
        assumptions: &[],
    }
}

// ---------------------------------------------------------------------------------------------
// C34

fn name_unknown((n, c, e): &(u16, Vec<u32>, Extra), cov: &mut Cov) -> Res {
    let s = &mut Src::new(e);
    if s.chance(10) {
        return unknown_key_rejected(&docgen::document(&mut Src::new(c)), s, cov, is_group, Asked::Named);
    }
    unknown_key_rejected(&one_setting_with_groups(*n, c), s, cov, is_inner_group, Asked::Named)
}

fn name_missing((n, c, e): &Setting, cov: &mut Cov) -> Res {
    let s = &mut Src::new(e);
    let doc = if s.chance(30) { docgen::document(&mut Src::new(c)) } else { of_keys(REQUIRING, *n, c) };
    missing_rejected(&doc, s, cov, Asked::Named)
}

fn name_both((n, c, e): &Setting, cov: &mut Cov) -> Res {
    let s = &mut Src::new(e);
    let doc = if s.chance(30) { docgen::document(&mut Src::new(c)) } else { of_keys(EXCLUDING, *n, c) };
    both_rejected(&doc, s, cov, Asked::Named)
}

/// Those of the subs of C34 which are about whole documents.
pub fn naming() -> Vec<Sub> {
    let setting = || (any::<u16>(), prop::collection::vec(any::<u32>(), 0..150), extra(20));
    vec![
        sub("unknown keys", "a key which is no setting put into a group of a valid document, and the error of its rejection; non-trivial: always", 10_000, setting, name_unknown),
        sub("missing settings", "a required setting taken out of a valid document, and the error of its rejection; non-trivial: there was one", 10_000, setting, name_missing),
        sub("excluded settings", "a setting added to a valid document which excludes one it has, and the error of its rejection; non-trivial: there was one", 10_000, setting, name_both),
    ]
}
