//! Reference validation: C07.

use compose_spec::Compose;
use serde_yaml::Mapping;

use crate::{
    docgen::{self, yaml, Src},
    ensure, fail,
    fw::{sub, Cov, Property, Res},
    whole::{must, shown},
};
use compose_spec::YamlValue;
use proptest::prelude::*;

/// What one service uses, in order.
#[derive(Default, Debug)]
struct Uses {
    name: String,
    networks: Vec<String>,
    volumes: Vec<String>,
    configs: Vec<String>,
    secrets: Vec<String>,
}

struct Doc {
    yaml: YamlValue,
    services: Vec<Uses>,
    /// Defined networks, volumes, configs, secrets.
    defined: [Vec<String>; 4],
}

const KINDS: [&str; 4] = ["network", "volume", "config", "secret"];

/// Names which are in no other name, as the name of kind `kind` number `i`.
fn name(kind: &str, i: usize) -> String {
    match (kind, i) {
        ("network", 3) => "default".to_owned(),
        ("network", 4) => "host".to_owned(),
        ("volume", 4) => "data.v1-x".to_owned(),
        ("config", 4) => "http.conf".to_owned(),
        ("secret", 4) => "db_password".to_owned(),
        // the same in all kinds
        (_, 2) => "SHARED".to_owned(),
        _ => format!("{}{i}", kind.to_uppercase()),
    }
}

fn some_names(s: &mut Src, kind: &str, max: usize) -> Vec<String> {
    let n = s.n(max + 1);
    let mut out = Vec::new();
    for _ in 0..n {
        let name = name(kind, s.n(5));
        if !out.contains(&name) {
            out.push(name);
        }
    }
    out
}

fn map(entries: Vec<(String, YamlValue)>) -> YamlValue {
    YamlValue::Mapping(entries.into_iter().map(|(k, v)| (k.into(), v)).collect::<Mapping>())
}

fn grants(s: &mut Src, names: &[String]) -> YamlValue {
    names
        .iter()
        .map(|n| match s.n(3) {
            0 => n.as_str().into(),
            1 => map(vec![("source".into(), n.as_str().into())]),
            // the target is no reference
            _ => map(vec![("source".into(), n.as_str().into()), ("target".into(), s.pick(&["CONFIG9", "SECRET9", "/a"]).into())]),
        })
        .collect::<Vec<_>>()
        .into()
}

fn volumes(s: &mut Src, names: &mut Vec<String>) -> YamlValue {
    let mut out: Vec<YamlValue> = Vec::new();
    let mut used = Vec::new();
    for n in names.iter() {
        // a volume may be mounted more than once
        for _ in 0..=s.n(4) / 3 {
            let target = format!("/t{}", s.fresh());
            out.push(match s.n(4) {
                0 => format!("{n}:{target}").into(),
                1 => format!("{n}:{target}:{}", s.pick(&["ro", "rw", "z"])).into(),
                2 => yaml(&format!("{{type: volume, source: {n}, target: {target}}}")),
                _ => yaml(&format!("{{type: volume, source: {n}, target: {target}, read_only: true, volume: {{nocopy: true}}}}")),
            });
            used.push(n.clone());
        }
        // things that are no named volumes
        if s.chance(30) {
            let target = format!("/t{}", s.fresh());
            out.push(match s.n(7) {
                0 => target.into(),
                1 => format!("./VOLUME0:{target}").into(),
                2 => format!("/VOLUME1:{target}").into(),
                3 => yaml(&format!("{{type: volume, target: {target}}}")),
                4 => yaml(&format!("{{type: bind, source: ./VOLUME2, target: {target}}}")),
                5 => yaml(&format!("{{type: tmpfs, target: {target}}}")),
                _ => yaml(&format!("{{type: cluster, source: VOLUME3, target: {target}}}")),
            });
        }
    }
    *names = used;
    if s.chance(10) {
        out.push(format!("/t{}", s.fresh()).into());
    }
    out.into()
}

fn document(s: &mut Src) -> Doc {
    let n = s.n(5);
    let mut services: Vec<Uses> = Vec::new();
    let mut entries = Vec::new();
    for i in 0..n {
        // not in the order of the names
        let mut u = Uses { name: format!("svc-{}-", (i * 7 + 3) % 10), ..Uses::default() };
        let mut fields: Vec<(String, YamlValue)> = Vec::new();
        match s.n(4) {
            0 => {}
            1 => fields.push(("network_mode".into(), s.pick(&["host", "none", "service:NETWORK0", "container:NETWORK1", "NETWORK2"]).into())),
            2 => {
                u.networks = some_names(s, "network", 3);
                fields.push(("networks".into(), u.networks.iter().map(|n| YamlValue::from(n.as_str())).collect::<Vec<_>>().into()));
            }
            _ => {
                u.networks = some_names(s, "network", 3);
                let networks = u.networks.iter().map(|n| (n.clone(), yaml(s.pick(&["null", "{}", "{aliases: [NETWORK9]}", "{priority: 1}"])))).collect();
                fields.push(("networks".into(), map(networks)));
            }
        }
        if s.chance(60) {
            u.volumes = some_names(s, "volume", 3);
            fields.push(("volumes".into(), volumes(s, &mut u.volumes)));
        }
        if s.chance(50) {
            u.configs = some_names(s, "config", 3);
            fields.push(("configs".into(), grants(s, &u.configs)));
        }
        if s.chance(50) {
            u.secrets = some_names(s, "secret", 3);
            fields.push(("secrets".into(), grants(s, &u.secrets)));
        }
        if s.chance(10) {
            fields.push(("build".into(), yaml("{context: ., secrets: [SECRET9]}")));
        }
        entries.push((u.name.clone(), map(fields)));
        services.push(u);
    }
    let mut top = vec![("services".to_owned(), map(entries))];
    // mostly all are defined, so that one that is not stands out
    let defined = KINDS.map(|kind| {
        let missing = match s.n(3) {
            0 => vec![],
            1 => vec![name(kind, s.n(5))],
            _ => some_names(s, kind, 5),
        };
        let defined: Vec<String> = (0..5).map(|i| name(kind, i)).filter(|n| !missing.contains(n)).collect();
        let resources = defined
            .iter()
            .map(|n| {
                let value = match kind {
                    "network" | "volume" => yaml(s.pick(&["null", "{}", "{external: true}", "{external: true, name: a}", "{name: NETWORK0}", "{driver: a}"])),
                    _ => yaml(s.pick(&["{file: a}", "{external: true}", "{environment: A}", "{external: true, name: SECRET9}"])),
                };
                (n.clone(), value)
            })
            .collect();
        top.push((format!("{kind}s"), map(resources)));
        defined
    });
    Doc { yaml: map(top), services, defined }
}

/// The service and resource to be reported.
type Expected = Option<(Option<String>, String)>;

fn first_undefined(doc: &Doc, kind: usize) -> Expected {
    if KINDS[kind] == "volume" {
        let mut seen: Vec<&String> = Vec::new();
        for service in &doc.services {
            for v in &service.volumes {
                if seen.contains(&v) && !doc.defined[kind].contains(v) {
                    return Some((None, v.clone()));
                }
            }
            seen.extend(&service.volumes);
        }
        return None;
    }
    doc.services.iter().find_map(|service| {
        let uses = match kind {
            0 => &service.networks,
            2 => &service.configs,
            _ => &service.secrets,
        };
        let undefined = uses.iter().find(|n| !doc.defined[kind].contains(n))?;
        Some((Some(service.name.clone()), undefined.clone()))
    })
}

fn check_result(what: &str, doc: &Doc, got: Result<(), compose_spec::ValidationError>, kind: usize, want: &Expected) -> Res {
    match (got, want) {
        (Ok(()), None) => Ok(()),
        (Ok(()), Some(want)) => fail!("{what} finds nothing wrong, but {want:?} is undefined in\n{}", shown(&doc.yaml)),
        (Err(e), None) => fail!("{what} reports `{e}`, but nothing is undefined in\n{}", shown(&doc.yaml)),
        (Err(e), Some((service, resource))) => {
            let text = e.to_string();
            ensure!(text.contains(resource.as_str()), "{what} reports `{e}`, expected {resource} in\n{}", shown(&doc.yaml));
            ensure!(text.to_lowercase().contains(KINDS[kind]), "{what} reports `{e}`, expected a {} in\n{}", KINDS[kind], shown(&doc.yaml));
            if let Some(service) = service {
                ensure!(text.contains(service.as_str()), "{what} reports `{e}`, expected it for {service} in\n{}", shown(&doc.yaml));
            }
            for other in KINDS.iter().flat_map(|k| (0..5).map(move |i| name(k, i))) {
                ensure!(other == *resource || !text.contains(&other), "{what} reports `{e}`, expected only {resource} in\n{}", shown(&doc.yaml));
            }
            for other in &doc.services {
                ensure!(Some(&other.name) == service.as_ref() || !text.contains(&other.name), "{what} reports `{e}`, expected {service:?} in\n{}", shown(&doc.yaml));
            }
            Ok(())
        }
    }
}

fn check(choices: &Vec<u32>, cov: &mut Cov) -> Res {
    let doc = document(&mut Src::new(choices));
    let compose: Compose = must(&doc.yaml)?;
    let want: Vec<Expected> = (0..4).map(|k| first_undefined(&doc, k)).collect();
    cov.nontrivial_if(want.iter().any(Option::is_some));
    for (w, label) in want.iter().zip(["undefined network", "undefined volume", "undefined config", "undefined secret"]) {
        if w.is_some() {
            cov.label(label);
        }
    }
    check_result("validate_networks", &doc, compose.validate_networks(), 0, &want[0])?;
    check_result("validate_volumes", &doc, compose.validate_volumes(), 1, &want[1])?;
    check_result("validate_configs", &doc, compose.validate_configs(), 2, &want[2])?;
    check_result("validate_secrets", &doc, compose.validate_secrets(), 3, &want[3])?;
    let first = (0..4).find(|k| want[*k].is_some());
    check_result("validate_all", &doc, compose.validate_all(), first.unwrap_or(0), &first.and_then(|k| want[k].clone()))
}

/// Generated whole documents: what is undefined is read off the parsed value's YAML.
fn check_document(c: &docgen::Choices, cov: &mut Cov) -> Res {
    let doc = docgen::document(&mut Src::new(&c.0));
    let compose = must(&doc.input())?;
    for (kind, got) in [("network", compose.validate_networks()), ("config", compose.validate_configs()), ("secret", compose.validate_secrets())] {
        let key = format!("{kind}s");
        let top: Vec<&str> = doc.get(&key).map_or(vec![], |n| n.entries().iter().map(|(k, _)| k.as_str()).collect());
        let mut undefined = false;
        for (_, service) in doc.get("services").map_or(&[] as &[_], |n| n.entries()) {
            let Some(uses) = service.get(&key).and_then(docgen::Node::expected) else { continue };
            let names: Vec<String> = match uses {
                YamlValue::Mapping(m) => m.keys().filter_map(|k| k.as_str().map(str::to_owned)).collect(),
                YamlValue::Sequence(s) => s.iter().filter_map(|v| v.as_str().or_else(|| v.get("source")?.as_str()).map(str::to_owned)).collect(),
                _ => vec![],
            };
            undefined |= names.iter().any(|n| !top.contains(&n.as_str()));
        }
        cov.nontrivial_if(undefined);
        ensure!(got.is_err() == undefined, "{kind}s: {got:?}, expected an error: {undefined}\n{}", shown(&doc.input()));
    }
    let top: Vec<&str> = doc.get("volumes").map_or(vec![], |n| n.entries().iter().map(|(k, _)| k.as_str()).collect());
    let mut seen: Vec<String> = Vec::new();
    let mut undefined = None;
    for (_, service) in doc.get("services").map_or(&[] as &[_], |n| n.entries()) {
        let Some(YamlValue::Sequence(volumes)) = service.get("volumes").and_then(docgen::Node::expected) else { continue };
        let names: Vec<String> = volumes.iter().filter_map(named_volume).collect();
        for n in &names {
            if undefined.is_none() && seen.contains(n) && !top.contains(&n.as_str()) {
                undefined = Some(n.clone());
            }
        }
        seen.extend(names);
    }
    if undefined.is_some() {
        cov.label("undefined volume");
        cov.nontrivial();
    }
    match (compose.validate_volumes(), &undefined) {
        (Ok(()), None) => {}
        (Err(e), Some(n)) if e.to_string().contains(n.as_str()) => {}
        (got, _) => fail!("volumes: {got:?}, expected as undefined: {undefined:?}\n{}", shown(&doc.input())),
    }
    Ok(())
}

/// The volume which an entry of `volumes` names.
fn named_volume(v: &YamlValue) -> Option<String> {
    match v {
        YamlValue::String(s) => {
            let (source, _) = s.split_once(':')?;
            source.starts_with(|c: char| c.is_ascii_alphanumeric()).then(|| source.to_owned())
        }
        _ if v.get("type")?.as_str() == Some("volume") => Some(v.get("source")?.as_str()?.to_owned()),
        _ => None,
    }
}

pub fn c07() -> Property {
    Property {
        id: "C07",
        subs: vec![
            sub("references", "services using and top-level fields defining networks, volumes, configs and secrets; non-trivial: something is undefined", 40_000, || prop::collection::vec(any::<u32>(), 0..150), check),
            sub("documents", "generated documents; non-trivial: something is undefined", 10_000, || docgen::choices(300), check_document),
        ],
        known: vec![],
        assumptions: &[],
    }
}
