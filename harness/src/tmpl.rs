//! Documents made from one-service templates with a hole (`'@'`) for a value.

use compose_spec::{Compose, Service, YamlValue};

use crate::fw::Res;

/// The template with its hole filled.
pub fn fill(template: &str, leaf: &YamlValue) -> YamlValue {
    fn walk(v: &mut YamlValue, leaf: &YamlValue) {
        match v {
            YamlValue::String(s) if s == "@" => *v = leaf.clone(),
            YamlValue::Sequence(s) => s.iter_mut().for_each(|v| walk(v, leaf)),
            YamlValue::Mapping(m) => {
                // a hole may also be a key
                if m.contains_key("@") {
                    let entries: Vec<_> = std::mem::take(m).into_iter().collect();
                    for (k, v) in entries {
                        let k = if k == "@" { leaf.clone() } else { k };
                        m.insert(k, v);
                    }
                }
                m.iter_mut().for_each(|(_, v)| walk(v, leaf));
            }
            _ => {}
        }
    }
    let mut v: YamlValue = serde_yaml::from_str(template).expect("template");
    walk(&mut v, leaf);
    v
}

/// What stands at the place of the hole in `v`.
pub fn hole<'a>(template: &str, v: &'a YamlValue) -> Option<&'a YamlValue> {
    fn find<'a>(t: &YamlValue, v: &'a YamlValue) -> Option<&'a YamlValue> {
        match t {
            YamlValue::String(s) if s == "@" => Some(v),
            YamlValue::Sequence(s) => s.iter().enumerate().find_map(|(i, t)| find(t, v.get(i)?)),
            YamlValue::Mapping(m) => m.iter().find_map(|(k, t)| find(t, v.get(k)?)),
            _ => None,
        }
    }
    let t: YamlValue = serde_yaml::from_str(template).expect("template");
    find(&t, v)
}

/// The document with one service `svc` made from the template.
pub fn document(template: &str, leaf: &YamlValue) -> YamlValue {
    crate::keys::doc(&["services", "svc"], fill(template, leaf))
}

/// Parse a document as a value and as text; both must decide alike and give equal results.
pub fn parse(doc: &YamlValue) -> Result<Option<Compose>, String> {
    let by_value: Option<Compose> = serde_yaml::from_value(doc.clone()).ok();
    let text = serde_yaml::to_string(doc).map_err(|e| format!("harness: {e}"))?;
    // serde_yaml itself does not round-trip every text (e.g. some control characters)
    if serde_yaml::from_str::<YamlValue>(&text).ok().as_ref() == Some(doc) {
        let by_text = Compose::options().from_yaml_str(&text).ok();
        if by_text != by_value {
            return Err(format!(
                "text and value disagree on {text:?}: {} / {}",
                by_text.is_some(),
                by_value.is_some()
            ));
        }
    }
    Ok(by_value)
}

/// The service parsed from the filled template.
pub fn service(template: &str, leaf: &YamlValue) -> Result<Option<Service>, String> {
    Ok(parse(&document(template, leaf))?.map(|mut c| c.services.shift_remove("svc").expect("service")))
}

/// What the service serialises to at the place of the hole.
pub fn written(template: &str, service: &Service) -> Result<Option<YamlValue>, String> {
    let v = serde_yaml::to_value(service).map_err(|e| format!("cannot serialise the service: {e}"))?;
    Ok(hole(template, &v).cloned())
}

/// A service must parse back from its serialised form to an equal one.
pub fn stable(service: &Service) -> Res {
    let v = serde_yaml::to_value(service).map_err(|e| format!("cannot serialise the service: {e}"))?;
    match serde_yaml::from_value::<Service>(v.clone()) {
        Err(e) => Err(format!("the serialised service {v:?} does not parse: {e}")),
        Ok(s) if s == *service => Ok(()),
        Ok(s) => Err(format!("the serialised service {v:?} parses to {s:?}, expected {service:?}")),
    }
}
