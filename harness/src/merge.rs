//! Entry points and merge keys: C06.

use std::io::{self, Read};

use compose_spec::{Compose, YamlValue};
use proptest::prelude::*;
use serde_yaml::Mapping;

use crate::{
    docgen::{self, at, choices, extra, free, yaml, Choices, Extra, Node, Src, Step},
    ensure, ensure_eq, fail, gen,
    fw::{sub, Cov, Property, Res},
    whole::{must, shown},
};

type Case = (Choices, Extra);

/// Hands out a few bytes at a time and then ends or fails.
struct Slow<'a> {
    rest: &'a [u8],
    step: usize,
    fail: bool,
    interrupted: bool,
}

impl Read for Slow<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.interrupted = !self.interrupted;
        if self.interrupted {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = self.step.min(buf.len()).min(self.rest.len());
        if n == 0 && self.fail {
            return Err(io::Error::other("broken"));
        }
        buf[..n].copy_from_slice(&self.rest[..n]);
        self.rest = &self.rest[n..];
        Ok(n)
    }
}

/// Equal but for the order of mappings: merging does not keep it, and the equality of some parts
/// depends on it.
fn equal(a: &Compose, b: &Compose) -> bool {
    a == b || serde_yaml::to_value(a).ok() == serde_yaml::to_value(b).ok()
}

fn same(what: &str, got: serde_yaml::Result<Compose>, want: Option<&Compose>, text: &str) -> Res {
    match (got, want) {
        (Ok(got), Some(want)) => ensure!(equal(&got, want), "{what} gives {got:?}, expected {want:?} from\n{text}"),
        (Err(_), None) => {}
        (Ok(got), None) => fail!("{what} accepts as {got:?}\n{text}"),
        (Err(e), Some(_)) => fail!("{what} rejects ({e})\n{text}"),
    }
    Ok(())
}

/// All ways to give a text agree.
fn texts_agree(bytes: &[u8], step: usize) -> Res {
    let text = String::from_utf8_lossy(bytes);
    let is_text = std::str::from_utf8(bytes).is_ok();
    let plain = serde_yaml::from_slice::<Compose>(bytes).ok();
    if is_text {
        same("serde_yaml::from_str", serde_yaml::from_str::<Compose>(&text), plain.as_ref(), &text)?;
    }
    let value = serde_yaml::from_slice::<YamlValue>(bytes).ok();
    let merged = value.and_then(|v| Compose::options().apply_merge(true).from_yaml_value(v).ok());
    for (merge, want) in [(false, plain.as_ref()), (true, merged.as_ref())] {
        let mut options = Compose::options();
        // the last word counts
        options.apply_merge(!merge).apply_merge(merge);
        if is_text {
            same(&format!("from_yaml_str with merging {merge}"), options.from_yaml_str(&text), want, &text)?;
        }
        same(&format!("from_yaml_slice with merging {merge}"), options.from_yaml_slice(bytes), want, &text)?;
        same(&format!("from_yaml_reader with merging {merge}"), options.from_yaml_reader(bytes), want, &text)?;
        let slow = |fail| Slow { rest: bytes, step, fail, interrupted: false };
        same(&format!("from_yaml_reader in parts with merging {merge}"), options.from_yaml_reader(slow(false)), want, &text)?;
        same(&format!("from_yaml_reader, failing, with merging {merge}"), options.from_yaml_reader(slow(true)), None, &text)?;
    }
    let default = Compose::options();
    same("from_yaml_slice with default options", default.from_yaml_slice(bytes), plain.as_ref(), &text)
}

fn check_entry((c, e): &Case, cov: &mut Cov) -> Res {
    let doc = docgen::document(&mut Src::new(&c.0));
    let mut s = Src::new(e);
    let v = doc.input();
    let compose = must(&v)?;
    cov.nontrivial();
    let text = shown(&v);
    for merge in [false, true] {
        let got = Compose::options().apply_merge(merge).from_yaml_value(v.clone());
        same(&format!("from_yaml_value with merging {merge}"), got, Some(&compose), &text)?;
    }
    let step = 1 + s.n(40);
    // serde_yaml itself does not read back every text it writes
    if serde_yaml::from_str::<YamlValue>(&text).ok().as_ref() == Some(&v) {
        same("from_yaml_str", Compose::options().from_yaml_str(&text), Some(&compose), &text)?;
        texts_agree(text.as_bytes(), step)?;
        if s.n(64) == 0 {
            // a long document: nothing may be lost beyond the size of some buffer
            let size = s.pick(&[4_096, 8_192, 16_384, 32_768, 65_536, 131_072, 262_144]) + s.n(64);
            let long = format!("{}\n{text}", "# long line\n".repeat(size / 12));
            cov.label("long");
            texts_agree(long.as_bytes(), 1_000 + step)?;
        }
    }
    // one wrong value
    let mut places: Vec<(Vec<Step>, &Node)> = Vec::new();
    doc.walk(&mut Vec::new(), &mut |path, n| {
        if !n.bad.is_empty() {
            places.push((path.to_vec(), n));
        }
    });
    if !places.is_empty() {
        let (path, node) = places.swap_remove(s.n(places.len()));
        let mut v = v.clone();
        *at(&mut v, &path) = yaml(s.pick(node.bad));
        for merge in [false, true] {
            let got = Compose::options().apply_merge(merge).from_yaml_value(v.clone());
            same(&format!("from_yaml_value with merging {merge}"), got, None, &shown(&v))?;
        }
        texts_agree(shown(&v).as_bytes(), step)?;
    }
    Ok(())
}

fn check_edited((c, e, noise): &(Choices, Extra, Vec<u8>), cov: &mut Cov) -> Res {
    let mut s = Src::new(e);
    let mut bytes = shown(&docgen::document(&mut Src::new(&c.0)).input()).into_bytes();
    for chunk in noise.chunks(3) {
        let i = s.n(bytes.len() + 1);
        match s.n(6) {
            0 => bytes.truncate(i),
            1 => drop(bytes.splice(i..i, chunk.iter().copied())),
            2 => drop(bytes.splice(i..i, *b"<<: ")),
            3 => drop(bytes.splice(i..i, s.pick(&["&a ", "*a ", "!t ", "- ", "? ", "\n", "\n---\n", "{", "]", "#", "\"", "'", "|\n", "  ", "\t", "\u{feff}", "null", "%YAML 1.1\n"]).bytes())),
            4 => {
                let j = (i + s.n(8)).min(bytes.len());
                bytes.drain(i..j);
            }
            _ => {
                let j = (i + s.n(60)).min(bytes.len());
                let copy = bytes[i..j].to_vec();
                let k = s.n(bytes.len() + 1);
                drop(bytes.splice(k..k, copy));
            }
        }
    }
    cov.nontrivial();
    if serde_yaml::from_slice::<Compose>(&bytes).is_ok() {
        cov.label("still a document");
    }
    texts_agree(&bytes, 1 + s.n(40))
}

// ---------------------------------------------------------------------------------------------

/// Write the merges of `v` out by hand: a key of the mapping itself wins over merged ones, earlier
/// merged mappings over later ones.
fn merged(v: &YamlValue) -> YamlValue {
    match v {
        YamlValue::Sequence(s) => s.iter().map(merged).collect::<Vec<_>>().into(),
        YamlValue::Mapping(m) => {
            let mut out = Mapping::new();
            for (k, v) in m {
                if k != "<<" {
                    out.insert(k.clone(), merged(v));
                }
            }
            let sources = match m.get("<<").map(merged) {
                Some(YamlValue::Sequence(sources)) => sources,
                Some(source) => vec![source],
                None => vec![],
            };
            for source in sources {
                for (k, v) in source.as_mapping().expect("harness: merge") {
                    if !out.contains_key(k) {
                        out.insert(k.clone(), v.clone());
                    }
                }
            }
            out.into()
        }
        v => v.clone(),
    }
}

/// Mappings that have no merge key.
fn mappings(v: &YamlValue, path: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    match v {
        YamlValue::Sequence(s) => {
            for (i, v) in s.iter().enumerate() {
                path.push(Step::Index(i));
                mappings(v, path, out);
                path.pop();
            }
        }
        YamlValue::Mapping(m) => {
            if !m.contains_key("<<") && !m.is_empty() {
                out.push(path.clone());
            }
            for (k, v) in m {
                if let Some(k) = k.as_str() {
                    path.push(Step::Key(k.to_owned()));
                    mappings(v, path, out);
                    path.pop();
                }
            }
        }
        _ => {}
    }
}

/// Put some of the entries of a mapping into merged mappings.
fn split(m: &mut Mapping, s: &mut Src, anchors: &mut Vec<YamlValue>) {
    let parts = 1 + s.n(3);
    let mut own: Vec<(YamlValue, YamlValue)> = Vec::new();
    let mut sources = vec![Vec::new(); parts];
    for (k, v) in std::mem::take(m) {
        let to = s.n(parts + 1);
        let junk = |s: &mut Src| if s.chance(50) { free(s, 1) } else { yaml(s.pick(&["null", "5", "[]", "{}", "a", "true"])) };
        // later sources may have other values for it
        for source in sources.iter_mut().skip(to) {
            if s.chance(30) {
                let v = junk(s);
                source.push((k.clone(), v));
            }
        }
        if to == 0 {
            own.push((k, v));
        } else {
            let source = &mut sources[to - 1];
            source.retain(|(o, _)| *o != k);
            source.push((k, v));
        }
    }
    let mut sources: Vec<YamlValue> = sources.into_iter().map(|e| YamlValue::Mapping(e.into_iter().collect())).collect();
    // the last sources may be merged into the ones before
    while sources.len() > 1 && s.chance(40) {
        let last = sources.pop().expect("harness: source");
        sources.last_mut().and_then(YamlValue::as_mapping_mut).expect("harness: source").insert("<<".into(), last);
    }
    for source in &mut sources {
        if s.chance(40) {
            let alias = format!("{ALIAS}{}", anchors.len());
            anchors.push(std::mem::replace(source, alias.into()));
        }
    }
    let merge = if sources.len() == 1 && s.chance(70) { sources.remove(0) } else { sources.into() };
    let i = s.n(own.len() + 1);
    own.insert(i, ("<<".into(), merge));
    *m = own.into_iter().collect();
}

const ALIAS: &str = "\u{1}alias ";

fn alias(v: &YamlValue) -> Option<usize> {
    v.as_str()?.strip_prefix(ALIAS)?.parse().ok()
}

/// Replace aliases by what they stand for.
fn resolved(v: &YamlValue, anchors: &[YamlValue]) -> YamlValue {
    match v {
        YamlValue::Sequence(s) => s.iter().map(|v| resolved(v, anchors)).collect::<Vec<_>>().into(),
        YamlValue::Mapping(m) => YamlValue::Mapping(m.iter().map(|(k, v)| (k.clone(), resolved(v, anchors))).collect()),
        v => alias(v).map_or_else(|| v.clone(), |i| resolved(&anchors[i], anchors)),
    }
}

fn write(v: &YamlValue, anchors: &[YamlValue], defined: &mut Vec<usize>, out: &mut String) {
    if let Some(i) = alias(v) {
        if defined.contains(&i) {
            out.push_str(&format!("*a{i} "));
        } else {
            out.push_str(&format!("&a{i} "));
            write(&anchors[i], anchors, defined, out);
            defined.push(i);
        }
        return;
    }
    match v {
        YamlValue::Sequence(s) => {
            out.push('[');
            for v in s {
                write(v, anchors, defined, out);
                out.push_str(", ");
            }
            out.push(']');
        }
        YamlValue::Mapping(m) => {
            out.push('{');
            for (k, v) in m {
                write(k, anchors, defined, out);
                out.push_str(" : ");
                write(v, anchors, defined, out);
                out.push_str(", ");
            }
            out.push('}');
        }
        YamlValue::String(s) => {
            out.push('"');
            for c in s.chars() {
                match c {
                    '"' | '\\' => out.extend(['\\', c]),
                    ' '..='~' => out.push(c),
                    c => out.push_str(&format!("\\U{:08x}", u32::from(c))),
                }
            }
            out.push('"');
        }
        v => out.push_str(shown(v).trim()),
    }
}

fn check_merge((c, e): &Case, cov: &mut Cov) -> Res {
    let mut v = docgen::document(&mut Src::new(&c.0)).input();
    let mut s = Src::new(e);
    let original = must(&v)?;
    let mut anchors = Vec::new();
    let n = 1 + s.n(4);
    for _ in 0..n {
        let mut places = Vec::new();
        mappings(&v, &mut Vec::new(), &mut places);
        if places.is_empty() {
            break;
        }
        let path = places.swap_remove(s.n(places.len()));
        split(at(&mut v, &path).as_mapping_mut().expect("harness: mapping"), &mut s, &mut anchors);
    }
    // other uses of the anchors, defined before or after
    if !anchors.is_empty() && s.chance(50) {
        let i = s.n(anchors.len());
        let m = v.as_mapping_mut().expect("harness: document");
        let entry = (YamlValue::from("x-anchor"), YamlValue::from(format!("{ALIAS}{i}")));
        let mut entries: Vec<_> = std::mem::take(m).into_iter().filter(|(k, _)| *k != entry.0).collect();
        entries.insert(s.n(2) * entries.len(), entry);
        *m = entries.into_iter().collect();
    }
    let with_keys = resolved(&v, &anchors);
    let by_hand = merged(&with_keys);
    let want = must(&by_hand)?;
    let mut plain = want.clone();
    plain.extensions.retain(|k, _| k.as_str() != "x-anchor");
    let mut original = original;
    original.extensions.retain(|k, _| k.as_str() != "x-anchor");
    ensure!(equal(&plain, &original), "harness: not the same document: {plain:?}, {original:?}");
    cov.nontrivial();
    if !anchors.is_empty() {
        cov.label("anchors");
    }
    if shown(&with_keys).matches("<<").count() > 1 {
        cov.label("several merges");
    }
    let mut options = Compose::options();
    options.apply_merge(true);
    same("from_yaml_value with merging", options.from_yaml_value(with_keys.clone()), Some(&want), &shown(&with_keys))?;
    let mut text = String::new();
    write(&v, &anchors, &mut Vec::new(), &mut text);
    ensure_eq!(serde_yaml::from_str::<YamlValue>(&text).ok(), Some(with_keys), "harness: text\n{text}");
    same("from_yaml_str with merging", options.from_yaml_str(&text), Some(&want), &text)?;
    texts_agree(text.as_bytes(), 1 + s.n(40))
}

fn check_bad_merge((c, e): &Case, cov: &mut Cov) -> Res {
    let mut v = docgen::document(&mut Src::new(&c.0)).input();
    let mut s = Src::new(e);
    let mut places = Vec::new();
    mappings(&v, &mut Vec::new(), &mut places);
    let path = places.swap_remove(s.n(places.len()));
    let what = s.pick(&["5", "a", "true", "null", "[5]", "[[]]", "[[{a: b}]]", "[null]", "[{}, a]"]);
    at(&mut v, &path).as_mapping_mut().expect("harness: mapping").insert("<<".into(), yaml(what));
    cov.nontrivial();
    let got = Compose::options().apply_merge(true).from_yaml_value(v.clone());
    same(&format!("from_yaml_value with {what} merged"), got, None, &shown(&v))?;
    texts_agree(shown(&v).as_bytes(), 1 + s.n(40))
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        subs: vec![
            sub("entry points", "valid documents, and ones with a wrong value; non-trivial: always", 6_000, || (choices(300), extra(8)), check_entry),
            sub("edited texts", "texts of documents with random edits; non-trivial: always", 5_000, || (choices(200), extra(60), prop::collection::vec(any::<u8>(), 0..12)), check_edited),
            sub("any bytes", "random bytes and YAML punctuation; non-trivial: always", 3_000, || prop_oneof![prop::collection::vec(any::<u8>(), 0..40), gen::text().prop_map(String::into_bytes)], |b, cov| {
                cov.nontrivial();
                texts_agree(b, 1 + b.len() % 7)
            }),
            sub("merges", "documents with entries moved into merged mappings; non-trivial: always", 10_000, || (choices(250), extra(120)), check_merge),
            sub("malformed merges", "documents with a merge key that has no mapping; non-trivial: always", 4_000, || (choices(200), extra(8)), check_bad_merge),
        ],
        known: vec![],
        assumptions: &["YAML tags are not used", "text given where a string belongs may also be a plain number or boolean in text, but not in a value"],
    }
}
