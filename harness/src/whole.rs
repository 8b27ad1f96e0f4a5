//! Whole documents: C01.

use compose_spec::{Compose, YamlValue};

use crate::{
    docgen::{self, Choices, Kind, Node, Src},
    ensure, ensure_eq, fail,
    fw::{sub, Cov, Property, Res},
    tmpl, views,
};

pub fn shown(v: &YamlValue) -> String {
    serde_yaml::to_string(v).unwrap_or_else(|e| e.to_string())
}

/// Parse a document which must be accepted.
pub fn must(input: &YamlValue) -> Result<Compose, String> {
    match tmpl::parse(input)? {
        Some(c) => Ok(c),
        None => {
            let e = serde_yaml::from_value::<Compose>(input.clone()).map(|_| ()).unwrap_err();
            Err(format!("rejected: {e}\n{}", shown(input)))
        }
    }
}

fn round_trip(doc: &Node) -> Result<Compose, String> {
    let input = doc.input();
    let compose = must(&input)?;
    let v = serde_yaml::to_value(&compose).map_err(|e| format!("cannot serialise: {e}\n{}", shown(&input)))?;
    doc.matches(Some(&v), "").map_err(|e| format!("{e}\nin {}", shown(&input)))?;
    Ok(compose)
}

fn check_round_trip(c: &Choices, cov: &mut Cov) -> Res {
    let doc = docgen::document(&mut Src::new(&c.0));
    let n = doc.get("services").map_or(0, |s| s.entries().iter().map(|(_, s)| s.entries().len()).sum());
    cov.nontrivial_if(n > 1);
    check_document(&doc)
}

/// Everything C01 says about one document.
pub fn check_document(doc: &Node) -> Res {
    let compose = round_trip(doc)?;
    views::compose_view(&compose, doc).map_err(|e| format!("{e}\nin {}", shown(&doc.input())))?;
    let v = serde_yaml::to_value(&compose).map_err(|e| e.to_string())?;
    // an empty map of a setting that can also be a list is omitted and so comes back as an empty list
    let mut strict = true;
    doc.walk(&mut Vec::new(), &mut |_, n| strict &= !(n.omit && matches!(&n.kind, Kind::Map(e) if e.is_empty())));
    match serde_yaml::from_value::<Compose>(v.clone()) {
        Err(e) => fail!("the serialised document does not parse: {e}\n{}", shown(&v)),
        Ok(again) => {
            ensure!(!strict || again == compose, "the serialised document parses to {again:?}, expected {compose:?}");
            ensure_eq!(serde_yaml::to_value(&again).ok(), Some(v.clone()), "serialised again");
        }
    }
    let text = serde_yaml::to_string(&compose).map_err(|e| format!("cannot write: {e}"))?;
    ensure_eq!(serde_yaml::to_string(&compose).ok(), Some(text.clone()), "written twice");
    // serde_yaml itself does not read back every text it writes
    if serde_yaml::to_string(&v).ok().and_then(|t| serde_yaml::from_str::<YamlValue>(&t).ok()) == Some(v) {
        match Compose::options().from_yaml_str(&text) {
            Err(e) => fail!("the written document does not parse: {e}\n{text}"),
            Ok(again) => {
                ensure!(!strict || again == compose, "the written document parses to {again:?}, expected {compose:?}\n{text}");
                ensure_eq!(serde_yaml::to_string(&again).ok(), Some(text), "written again");
            }
        }
    }
    Ok(())
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        subs: vec![
            sub("documents", "generated documents; non-trivial: more than one service setting", 20_000, || docgen::choices(300), check_round_trip),
            sub("large documents", "generated documents; non-trivial: more than one service setting", 3_000, || docgen::choices(2000), check_round_trip),
        ],
        known: vec![],
        assumptions: &[],
    }
}
