//! Lists and the order of settings: C29, C30.

use compose_spec::{Compose, YamlValue};
use proptest::prelude::*;
use serde_yaml::Mapping;

use crate::{
    docgen::{self, at, choices, extra, yaml, Choices, Extra, Kind, Node, Src, Step},
    ensure_eq, fail,
    fw::{sub, Cov, Property, Res},
    whole::{self, must, shown},
};

/// Choices shown as the document with repeated list items they make.
#[derive(Clone, serde::Serialize, serde::Deserialize)]
struct Repeating(Vec<u32>);

impl std::fmt::Debug for Repeating {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&shown(&docgen::document(&mut Src::repeating(&self.0)).input()))
    }
}

fn count(doc: &Node, cov: &mut Cov) {
    let mut dropped = false;
    let mut kept = false;
    doc.walk(&mut Vec::new(), &mut |_, n| {
        if let Kind::Seq(items) = &n.kind {
            dropped |= items.iter().any(Node::traceless);
            let kept_items: Vec<YamlValue> = items.iter().filter(|n| !n.traceless()).map(Node::input).collect();
            kept |= kept_items.iter().enumerate().any(|(i, v)| kept_items[..i].contains(v));
        }
    });
    cov.nontrivial_if(dropped || kept);
    if dropped {
        cov.label("a repeated item of a set");
    }
    if kept {
        cov.label("a repeated item of a list");
    }
}

fn check_lists(c: &Repeating, cov: &mut Cov) -> Res {
    let doc = docgen::document(&mut Src::repeating(&c.0));
    count(&doc, cov);
    whole::check_document(&doc)
}

/// Service settings that are lists, or have some.
const LISTS: &[&str] = &[
    "annotations", "build", "blkio_config", "cap_add", "cap_drop", "command", "configs", "depends_on", "deploy", "device_cgroup_rules", "devices", "dns",
    "dns_opt", "dns_search", "env_file", "environment", "expose", "external_links", "group_add", "labels", "links", "networks", "ports", "profiles", "secrets",
    "security_opt", "sysctls", "tmpfs", "volumes", "volumes_from",
];

fn check_one_list(e: &Extra, cov: &mut Cov) -> Res {
    let mut s = Src::repeating(e);
    let key = s.pick(LISTS);
    let field = docgen::service_field(&mut s, key);
    let doc = docgen::one_service(vec![(key.to_owned(), field)]);
    count(&doc, cov);
    cov.label(key);
    whole::check_document(&doc)
}


// ---------------------------------------------------------------------------------------------
// C30

/// The same with the entries of every mapping in another order.
fn reordered(v: &YamlValue, s: &mut Src) -> YamlValue {
    match v {
        YamlValue::Sequence(items) => items.iter().map(|v| reordered(v, s)).collect::<Vec<_>>().into(),
        YamlValue::Mapping(m) => {
            let mut e: Vec<(YamlValue, YamlValue)> = m.iter().map(|(k, v)| (k.clone(), reordered(v, s))).collect();
            for i in (1..e.len()).rev() {
                let j = s.n(i + 1);
                e.swap(i, j);
            }
            YamlValue::Mapping(e.into_iter().collect::<Mapping>())
        }
        v => v.clone(),
    }
}

/// Settings that contradict or complete others.
const SETTINGS: &[&str] = &[
    "network_mode: host", "networks: [a]", "networks: {a: {}}", "disable: true", "disable: false", "test: [NONE]", "test: [CMD, a]", "test: a", "interval: 5s",
    "external: true", "external: false", "name: a", "x-a: 1", "driver: a", "type: bind", "type: volume", "type: tmpfs", "type: npipe", "type: cluster", "source: a", "source: /a",
    "source: ./a", "target: /a", "target: 80", "published: 80-81", "published: 80", "bind: {}", "volume: {}", "tmpfs: {}", "volume: {nocopy: true}", "bind: {selinux: z}",
    "read_only: true", "dockerfile: a", "dockerfile_inline: a", "context: .", "file: a", "environment: a", "content: a", "config: a", "registry: a", "path: /a", "weight: 10",
    "rate: 1", "soft: 1", "hard: 2", "condition: service_started", "restart: true", "count: 1", "count: all", "device_ids: [a]", "capabilities: [gpu]", "zz_unknown: 1",
    "services: {}", "labels: {}", "labels: [a]", "<<: {}", "<<: {x-a: 1}", "action: sync", "uid: 1", "mode: 1", "image: a", "build: a", "required: false", "protocol: udp",
];

/// The least values of every kind, which settings may be mistaken to be absent for.
const LEAST: &[&str] = &["0", "''", "false", "~", "[]", "{}", "0s", "'0'", "0.0", "-1", "1", "true", "a"];

/// Sometimes give the settings other values.
fn plainer(m: &mut Mapping, s: &mut Src) {
    for (_, v) in m.iter_mut() {
        if s.chance(30) {
            *v = yaml(s.pick(LEAST));
        }
    }
}

fn mappings(v: &YamlValue, path: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    match v {
        YamlValue::Sequence(s) => {
            for (i, v) in s.iter().enumerate() {
                path.push(Step::Index(i));
                mappings(v, path, out);
                path.pop();
            }
        }
        YamlValue::Mapping(m) => {
            out.push(path.clone());
            for (k, v) in m {
                if let Some(k) = k.as_str() {
                    path.push(Step::Key(k.to_owned()));
                    mappings(v, path, out);
                    path.pop();
                }
            }
        }
        _ => {}
    }
}

fn present(v: &YamlValue, path: &[Step]) -> bool {
    path.iter()
        .try_fold(v, |v, step| match step {
            Step::Key(k) => v.as_mapping()?.get(k.as_str()),
            Step::Index(i) => v.as_sequence()?.get(*i),
        })
        .is_some()
}

/// Add, drop, move and replace some settings.
pub fn disturb(v: &mut YamlValue, doc: &Node, s: &mut Src) {
    for _ in 0..1 + s.n(3) {
        let mut maps = Vec::new();
        mappings(v, &mut Vec::new(), &mut maps);
        let pick = |s: &mut Src| maps.get(s.n(maps.len())).cloned();
        let Some(path) = pick(s) else { return };
        match s.n(6) {
            0 => {
                // a value that cannot be there
                let mut places: Vec<(Vec<Step>, &Node)> = Vec::new();
                doc.walk(&mut Vec::new(), &mut |path, n| {
                    if !n.bad.is_empty() {
                        places.push((path.to_vec(), n));
                    }
                });
                if let Some((path, n)) = places.get(s.n(places.len())) {
                    if present(v, path) {
                        *at(v, path) = yaml(s.pick(n.bad));
                    }
                }
            }
            1 => {
                // drop one
                if let Some(m) = at(v, &path).as_mapping_mut() {
                    let k = m.keys().nth(s.n(m.len())).cloned();
                    k.and_then(|k| m.shift_remove(&k));
                }
            }
            2 => {
                // copy one from elsewhere
                let Some(from) = pick(s) else { return };
                let entry = at(v, &from).as_mapping().and_then(|m| m.iter().nth(s.n(m.len()))).map(|(k, v)| (k.clone(), v.clone()));
                if let (Some((k, new)), Some(m)) = (entry, at(v, &path).as_mapping_mut()) {
                    m.insert(k, new);
                }
            }
            _ => {
                let YamlValue::Mapping(mut new) = yaml(s.pick(SETTINGS)) else { return };
                plainer(&mut new, s);
                if let Some(m) = at(v, &path).as_mapping_mut() {
                    m.extend(new);
                }
            }
        }
    }
}

/// Settings whose keys are up to the user.
const USER_KEYED: &[&str] = &[
    "services", "networks", "volumes", "configs", "secrets", "labels", "annotations", "environment", "args", "additional_contexts", "depends_on", "driver_opts", "options", "extra_hosts",
    "storage_opt", "sysctls", "ulimits", "aux_addresses",
];

/// User-keyed entries and extensions are in the order read; the path of what is not.
fn follows(read: &YamlValue, written: &YamlValue, keyed: bool) -> Result<(), String> {
    match (read, written) {
        (YamlValue::Mapping(r), YamlValue::Mapping(w)) => {
            let kept = |k: &YamlValue| keyed || k.as_str().is_some_and(|k| k.starts_with("x-"));
            let keys = |a: &Mapping, b: &Mapping| a.keys().filter(|&k| kept(k) && b.contains_key(k)).cloned().collect::<Vec<_>>();
            if keys(r, w) != keys(w, r) {
                return Err(String::new());
            }
            for (k, r) in r {
                let name = k.as_str().unwrap_or_default();
                let Some(w) = w.get(k) else { continue };
                let below = if !keyed && name.starts_with("x-") { verbatim(r, w) } else { follows(r, w, !keyed && USER_KEYED.contains(&name)) };
                below.map_err(|path| format!("/{name}{path}"))?;
            }
        }
        (YamlValue::Sequence(r), YamlValue::Sequence(w)) if r.len() == w.len() => {
            for (i, (r, w)) in r.iter().zip(w).enumerate() {
                follows(r, w, false).map_err(|path| format!("/{i}{path}"))?;
            }
        }
        _ => {}
    }
    Ok(())
}

/// Everything in the value of an extension is in the order read.
fn verbatim(read: &YamlValue, written: &YamlValue) -> Result<(), String> {
    match (serde_yaml::to_string(read), serde_yaml::to_string(written)) {
        (Ok(r), Ok(w)) if r != w => Err(String::new()),
        _ => Ok(()),
    }
}

/// Both orders are accepted or rejected alike and give values that are written alike, but for order.
fn same_in_any_order(v: &YamlValue, s: &mut Src, cov: &mut Cov) -> Res {
    let other = reordered(v, s);
    let parse = |v: &YamlValue| serde_yaml::from_value::<Compose>(v.clone());
    same("", parse(v), parse(&other), v, &other)?;
    if let Some(written) = parse(&other).ok().and_then(|c| serde_yaml::to_value(c).ok()) {
        follows(&other, &written, false).map_err(|path| format!("{path} is written in another order than the one it was read in:\n{}", shown(&other)))?;
    }
    let parse = |v: &YamlValue| Compose::options().apply_merge(true).from_yaml_value(v.clone());
    same(" with merging", parse(v), parse(&other), v, &other)?;
    let (text, other_text) = (shown(v), shown(&other));
    // serde_yaml itself does not read back every text it writes
    let reads = |text: &str, v: &YamlValue| serde_yaml::from_str::<YamlValue>(text).ok().as_ref() == Some(v);
    if reads(&text, v) && reads(&other_text, &other) {
        let parse = |text: &str| Compose::options().from_yaml_str(text);
        same(" as text", parse(&text), parse(&other_text), v, &other)?;
    }
    if text != other_text {
        cov.nontrivial();
    }
    Ok(())
}

fn same(how: &str, a: serde_yaml::Result<Compose>, b: serde_yaml::Result<Compose>, v: &YamlValue, other: &YamlValue) -> Res {
    match (a, b) {
        (Err(_), Err(_)) => Ok(()),
        (Ok(a), Ok(b)) => {
            let (a, b) = (serde_yaml::to_value(&a), serde_yaml::to_value(&b));
            ensure_eq!(a.ok(), b.ok(), "written, parsed{how} from\n{}and\n{}", shown(v), shown(other));
            Ok(())
        }
        (Ok(_), Err(e)) => fail!("accepted{how}\n{}rejected ({e})\n{}", shown(v), shown(other)),
        (Err(e), Ok(_)) => fail!("accepted{how}\n{}rejected ({e})\n{}", shown(other), shown(v)),
    }
}

fn check_order((c, e): &(Choices, Extra), cov: &mut Cov) -> Res {
    let doc = docgen::document(&mut Src::new(&c.0));
    let v = doc.input();
    must(&v)?;
    same_in_any_order(&v, &mut Src::new(e), cov)
}

fn check_disturbed((c, e): &(Choices, Extra), cov: &mut Cov) -> Res {
    let doc = docgen::document(&mut Src::new(&c.0));
    let mut v = doc.input();
    let mut s = Src::new(e);
    disturb(&mut v, &doc, &mut s);
    cov.label(if serde_yaml::from_value::<Compose>(v.clone()).is_ok() { "valid" } else { "invalid" });
    same_in_any_order(&v, &mut s, cov)
}

/// One group with some settings that may contradict each other.
const GROUPS: &[(&[&str], &[&str])] = &[
    (&["services", "a"], &["network_mode: host", "networks: [a]", "networks: {}", "image: a", "build: {}", "x-a: 1", "zz: 1", "restart: always", "ports: []", "x-b: 1", "x-c: ~", "labels: {b: 1, a: 2, c: ~}", "ulimits: {nofile: 1, as: 2}"]),
    (&["services", "a", "healthcheck"], &["disable: true", "disable: false", "test: [NONE]", "test: [CMD, a]", "test: a", "test: []", "interval: 5s", "interval: ~", "timeout: 1s", "retries: 1", "retries: ~", "start_period: 1s", "start_interval: 1s", "x-a: 1", "zz: 1"]),
    (&["services", "a", "build"], &["context: .", "dockerfile: a", "dockerfile_inline: a", "dockerfile: ~", "dockerfile_inline: ~", "args: {}", "args: []", "x-a: 1", "zz: 1", "no_cache: false"]),
    (&["services", "a", "credential_spec"], &["config: a", "file: a", "registry: a", "config: ~", "file: ~", "x-a: 1", "zz: 1"]),
    (&["services", "a", "volumes", "-"], &["type: bind", "type: volume", "type: tmpfs", "type: npipe", "type: cluster", "type: x", "source: a", "source: /a", "source: ~", "target: /a", "target: a", "bind: {}", "volume: {}", "tmpfs: {}", "bind: ~", "volume: {nocopy: true}", "read_only: true", "read_only: false", "consistency: a", "x-a: 1", "zz: 1"]),
    (&["services", "a", "ports", "-"], &["target: 80", "target: a", "published: 80", "published: 80-81", "published: '80'", "host_ip: 127.0.0.1", "protocol: udp", "app_protocol: a", "mode: host", "mode: x", "name: a", "x-a: 1", "zz: 1"]),
    (&["services", "a", "deploy", "resources", "reservations", "devices", "-"], &["capabilities: [a]", "capabilities: []", "count: 1", "count: all", "device_ids: [a]", "device_ids: []", "driver: a", "options: {}", "x-a: 1", "zz: 1"]),
    (&["services", "a", "ulimits", "a"], &["soft: 1", "hard: 2", "soft: -1", "hard: ~", "x-a: 1", "zz: 1"]),
    (&["services", "a", "depends_on", "b"], &["condition: service_started", "condition: service_healthy", "condition: x", "restart: true", "required: false", "required: ~", "x-a: 1", "zz: 1"]),
    (&["services", "a", "develop", "watch", "-"], &["path: a", "action: sync", "action: rebuild", "action: sync+restart", "target: /a", "ignore: []", "ignore: [a]", "x-a: 1", "zz: 1"]),
    (&["services", "a", "configs", "-"], &["source: a", "target: a", "uid: 1", "uid: '1'", "gid: 1", "mode: 1", "mode: ~", "x-a: 1", "zz: 1"]),
    (&["services", "a", "networks", "b"], &["aliases: [a]", "ipv4_address: 127.0.0.1", "ipv4_address: ~", "ipv6_address: '::1'", "mac_address: '00:00:00:00:00:00'", "priority: 1", "link_local_ips: []", "x-a: 1", "zz: 1"]),
    (&["services", "a", "blkio_config", "weight_device", "-"], &["path: /a", "weight: 10", "weight: 1", "zz: 1"]),
    (&["services", "a", "env_file", "-"], &["path: a", "required: false", "required: true", "required: ~", "zz: 1"]),
    (&["services", "a", "extends"], &["service: a", "file: a", "file: ~", "zz: 1"]),
    (&["services", "a", "logging"], &["driver: a", "options: {}", "options: {a: 1}", "x-a: 1", "zz: 1"]),
    (&["services", "a", "deploy"], &["mode: global", "replicas: 1", "labels: []", "labels: {}", "placement: {}", "placement: {constraints: []}", "endpoint_mode: vip", "x-a: 1", "zz: 1"]),
    (&["networks", "a"], &["external: true", "external: false", "external: ~", "name: a", "driver: a", "labels: {}", "attachable: true", "internal: false", "ipam: {}", "x-a: 1", "x-b: {d: 1, c: 2}", "x-c: ~", "zz: 1", "driver_opts: {}"]),
    (&["volumes", "a"], &["external: true", "external: false", "external: ~", "name: a", "driver: a", "labels: []", "driver_opts: {}", "driver_opts: {b: 1, a: 2}", "x-a: 1", "x-b: 1", "x-c: ~", "zz: 1"]),
    (&["configs", "a"], &["external: true", "external: false", "name: a", "file: a", "environment: a", "content: a", "file: ~", "labels: []", "x-a: 1", "x-b: 1", "x-c: ~", "zz: 1"]),
    (&["secrets", "a"], &["external: true", "external: false", "name: a", "file: a", "environment: a", "content: a", "file: ~", "labels: {}", "driver: a", "x-a: 1", "x-b: 1", "x-c: ~", "zz: 1"]),
    (&["include", "-"], &["path: a", "path: [a]", "path: []", "project_directory: a", "env_file: a", "env_file: []", "zz: 1"]),
    (&[], &["name: a", "name: A", "version: a", "services: {}", "services: {a: {}}", "networks: {}", "include: []", "x-a: 1", "x-a: ~", "zz: 1"]),
];

fn check_group(e: &Extra, cov: &mut Cov) -> Res {
    let mut s = Src::new(e);
    let (path, settings) = s.pick(GROUPS);
    let mut group = Mapping::new();
    for _ in 0..1 + s.n(5) {
        if let YamlValue::Mapping(mut m) = yaml(s.pick(settings)) {
            plainer(&mut m, &mut s);
            group.extend(m);
        }
    }
    check_grouped(group, path, &mut s, cov)
}

/// Two settings, one of which may have the least value of some kind, and sometimes a third.
fn check_pair(e: &Extra, cov: &mut Cov) -> Res {
    let mut s = Src::new(e);
    let (path, settings) = s.pick(GROUPS);
    let mut group = Mapping::new();
    for i in 0..if s.chance(20) { 3 } else { 2 } {
        if let YamlValue::Mapping(mut m) = yaml(s.pick(settings)) {
            if i == 0 && s.chance(70) {
                for (_, v) in m.iter_mut() {
                    *v = yaml(s.pick(LEAST));
                }
            }
            group.extend(m);
        }
    }
    check_grouped(group, path, &mut s, cov)
}

fn check_grouped(group: Mapping, path: &[&str], s: &mut Src, cov: &mut Cov) -> Res {
    let mut v = YamlValue::Mapping(group);
    for key in path.iter().rev() {
        v = if *key == "-" { vec![v].into() } else { YamlValue::Mapping([((*key).into(), v)].into_iter().collect()) };
    }
    if let (false, Some(m)) = (path.is_empty(), v.as_mapping_mut()) {
        m.entry("services".into()).or_insert_with(|| Mapping::new().into());
    }
    cov.label(if serde_yaml::from_value::<Compose>(v.clone()).is_ok() { "valid" } else { "invalid" });
    same_in_any_order(&v, s, cov)
}

pub fn c29() -> Property {
    Property {
        id: "C29",
        subs: vec![
            sub("documents", "generated documents whose lists repeat items; non-trivial: some item is repeated", 10_000, || prop::collection::vec(any::<u32>(), 0..300).prop_map(Repeating).boxed(), check_lists),
            sub("one list", "a service with one list setting that repeats items; non-trivial: some item is repeated", 20_000, || extra(60), check_one_list),
        ],
        known: vec![],
        assumptions: &[],
    }
}

pub fn c30() -> Property {
    Property {
        id: "C30",
        subs: vec![
            sub("documents", "valid documents in two orders; non-trivial: the orders differ", 4_000, || (choices(300), extra(120)).boxed(), check_order),
            sub("disturbed documents", "documents with settings added, dropped, copied or replaced, in two orders; non-trivial: the orders differ", 8_000, || (choices(200), extra(120)).boxed(), check_disturbed),
            sub("one group", "up to five settings of one group, some contradicting, in two orders; non-trivial: the orders differ", 20_000, || extra(20), check_group),
            sub("pairs", "two settings of one group, one of which may have a least value, in two orders; non-trivial: the orders differ", 60_000, || extra(10), check_pair),
        ],
        known: vec![],
        assumptions: &[],
    }
}
