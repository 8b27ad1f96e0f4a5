//! C10: image references split into parts. C11: editing an image.

use compose_spec::service::{
    image::{Digest, Name, Tag, TagOrDigest},
    Image,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::{
    ensure, ensure_eq,
    fw::{sub, Cov, Property, Res},
    gen,
    keys::{ref_digest, ref_image_name, ref_tag},
};

/// Expected parts of an image reference.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Parts<'a> {
    name: &'a str,
    registry: Option<&'a str>,
    tag: Option<&'a str>,
    digest: Option<&'a str>,
}

/// Reference split. `Err`: the documentation does not settle it. `Ok(None)`: invalid.
fn ref_image(s: &str) -> Result<Option<Parts<'_>>, ()> {
    let (rest, digest) = match s.find('@') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    if let Some(d) = digest {
        if !ref_digest(d) {
            return Ok(None);
        }
    }
    // a tag is what follows a ':' after the last '/'
    let last = rest.rfind('/').map_or(0, |i| i + 1);
    let (name, tag) = match rest[last..].find(':') {
        Some(i) => (&rest[..last + i], Some(&rest[last + i + 1..])),
        None => (rest, None),
    };
    if let Some(t) = tag {
        match ref_tag(t) {
            Some(true) => {}
            // a registry with a port and no path: `host.tld:port`, or `host.tld:port:tag`
            Some(false) => return if last == 0 && t.contains(':') { Err(()) } else { Ok(None) },
            None => return Err(()),
        }
        if digest.is_some() {
            return Ok(None);
        }
    }
    let registry = match ref_image_name(name)? {
        None => return Ok(None),
        Some(end) => end.map(|e| &name[..e]),
    };
    Ok(Some(Parts {
        name,
        registry,
        tag,
        digest,
    }))
}

fn parts_match(image: &Image, want: &Parts<'_>, what: &str) -> Res {
    ensure_eq!(image.name(), want.name, "{what}: name()");
    ensure_eq!(image.registry(), want.registry, "{what}: registry()");
    ensure_eq!(image.tag(), want.tag, "{what}: tag()");
    ensure_eq!(image.digest(), want.digest, "{what}: digest()");
    ensure_eq!(image.as_name().into_inner(), want.name, "{what}: as_name()");
    ensure_eq!(image.as_name().registry(), want.registry, "{what}: as_name().registry()");
    ensure_eq!(image.as_tag().map(Tag::into_inner), want.tag, "{what}: as_tag()");
    ensure_eq!(image.as_digest().map(Digest::into_inner), want.digest, "{what}: as_digest()");
    let tod = image.as_tag_or_digest();
    ensure_eq!(tod.as_ref().map(|t| t.as_ref()), want.tag.or(want.digest), "{what}: as_tag_or_digest() text");
    ensure_eq!(tod.and_then(TagOrDigest::into_tag).map(Tag::into_inner), want.tag, "{what}: as_tag_or_digest() tag");
    ensure_eq!(tod.and_then(TagOrDigest::into_digest).map(Digest::into_inner), want.digest, "{what}: as_tag_or_digest() digest");
    if let Some(t) = &tod {
        ensure_eq!(t.separator(), if want.tag.is_some() { ':' } else { '@' }, "{what}: separator()");
    }
    let (n, t) = image.as_parts();
    ensure_eq!(n.into_inner(), want.name, "{what}: as_parts() name");
    ensure_eq!(t, tod, "{what}: as_parts() tag or digest");
    let (n, t): (Name, Option<TagOrDigest>) = image.into();
    ensure_eq!(n.into_inner(), want.name, "{what}: From<&Image> name");
    ensure_eq!(t, tod, "{what}: From<&Image> tag or digest");
    let text = join(want);
    ensure_eq!(image.as_str(), text, "{what}: as_str()");
    ensure_eq!(image.to_string(), text, "{what}: Display");
    ensure_eq!(image.clone().into_inner(), text, "{what}: into_inner()");
    Ok(())
}

fn join(p: &Parts<'_>) -> String {
    let mut s = p.name.to_owned();
    if let Some(t) = p.tag {
        s = s + ":" + t;
    }
    if let Some(d) = p.digest {
        s = s + "@" + d;
    }
    s
}

/// Assemble from independently broken parts.
fn assembled() -> BoxedStrategy<String> {
    let name = prop_oneof![3 => gen::image_name(), 1 => gen::near(gen::image_name())];
    let tag = prop_oneof![3 => gen::tag(), 1 => gen::near(gen::tag())];
    let digest = prop_oneof![3 => gen::digest(), 1 => gen::near(gen::digest())];
    (name, prop::option::of(tag), prop::option::weighted(0.3, digest))
        .prop_map(|(n, t, d)| {
            let mut s = n;
            if let Some(t) = t {
                s = s + ":" + &t;
            }
            if let Some(d) = d {
                s = s + "@" + &d;
            }
            s
        })
        .boxed()
}

fn check_parse(s: &String, cov: &mut Cov) -> Res {
    let got = Image::parse(s.as_str());
    let others = [
        ("FromStr", s.parse::<Image>().ok()),
        ("parse(String)", Image::parse(s.clone()).ok()),
        ("TryFrom<String>", Image::try_from(s.clone()).ok()),
        ("deserialize", serde_yaml::from_value(s.as_str().into()).ok()),
    ];
    for (how, o) in &others {
        ensure_eq!(o.as_ref().map(Image::as_str), got.as_ref().ok().map(Image::as_str), "{how} of {s:?}");
    }
    match ref_image(s) {
        Err(()) => {
            cov.label("no claim");
            Ok(())
        }
        Ok(None) => {
            cov.label("invalid");
            cov.nontrivial_if(!s.is_empty());
            ensure!(got.is_err(), "accepts the invalid reference {s:?}");
            Ok(())
        }
        Ok(Some(parts)) => {
            cov.label("valid");
            cov.nontrivial();
            cov.label(match (parts.registry.is_some(), parts.tag, parts.digest) {
                (true, Some(_), _) => "registry+tag",
                (true, _, Some(_)) => "registry+digest",
                (true, ..) => "registry only",
                (false, Some(_), _) => "tag only",
                (false, _, Some(_)) => "digest only",
                _ => "bare name",
            });
            let image = got.map_err(|e| format!("rejects the valid reference {s:?}: {e}"))?;
            parts_match(&image, &parts, s)?;
            for (how, o) in &others {
                parts_match(o.as_ref().unwrap(), &parts, how)?;
            }
            // reassemble
            let (name, tod) = image.as_parts();
            let again = Image::from_parts(name, tod);
            parts_match(&again, &parts, "from_parts(as_parts())")?;
            ensure!(again == image, "from_parts(as_parts()) of {s:?} differs: {again:?}");
            Ok(())
        }
    }
}

// ---- C11 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    SetRegistry(Option<String>),
    SetName(Option<String>, Vec<String>),
    SetTag(Option<String>),
    SetDigest(Option<String>),
    SetTagOrDigest(Option<String>, bool),
    Rebuild,
    CloneFromParts(Option<String>, Vec<String>, Option<String>, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    registry: Option<String>,
    path: Vec<String>,
    tag: Option<String>,
    digest: Option<String>,
    ops: Vec<Op>,
}

fn path() -> BoxedStrategy<Vec<String>> {
    (gen::image_part_dotless(), prop::collection::vec(gen::image_part(), 0..3))
        .prop_map(|(f, p)| std::iter::once(f).chain(p).collect())
        .boxed()
}

/// Names which are only a registry (a single dotted component) come up as well.
fn reg_and_path() -> BoxedStrategy<(Option<String>, Vec<String>)> {
    prop_oneof![
        4 => (gen::registry(), prop::collection::vec(gen::image_part(), 1..4)).prop_map(|(r, p)| (Some(r), p)),
        4 => path().prop_map(|p| (None, p)),
        1 => "[a-z0-9]{1,4}\\.[a-z0-9]{1,4}".prop_map(|r| (Some(r), vec![])),
    ]
    .boxed()
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        3 => prop::option::of(gen::registry()).prop_map(Op::SetRegistry),
        2 => reg_and_path().prop_map(|(r, p)| Op::SetName(r, p)),
        2 => prop::option::weighted(0.7, gen::tag()).prop_map(Op::SetTag),
        2 => prop::option::weighted(0.7, gen::digest()).prop_map(Op::SetDigest),
        1 => gen::tag().prop_map(|t| Op::SetTagOrDigest(Some(t), true)),
        1 => gen::digest().prop_map(|t| Op::SetTagOrDigest(Some(t), false)),
        1 => Just(Op::SetTagOrDigest(None, false)),
        1 => Just(Op::Rebuild),
        1 => (reg_and_path(), prop_oneof![
            Just((None, true)),
            gen::tag().prop_map(|t| (Some(t), true)),
            gen::digest().prop_map(|t| (Some(t), false)),
        ]).prop_map(|((r, p), (t, is_tag))| Op::CloneFromParts(r, p, t, is_tag)),
    ]
    .boxed()
}

fn history() -> BoxedStrategy<History> {
    (
        reg_and_path(),
        prop_oneof![
            Just((None, None)),
            gen::tag().prop_map(|t| (Some(t), None)),
            gen::digest().prop_map(|d| (None, Some(d))),
        ],
        prop::collection::vec(op(), 1..10),
    )
        .prop_map(|((registry, path), (tag, digest), ops)| History {
            registry,
            path,
            tag,
            digest,
            ops,
        })
        .boxed()
}

#[derive(Clone, Debug, Default)]
struct Model {
    registry: Option<String>,
    path: Vec<String>,
    tag: Option<String>,
    digest: Option<String>,
}

impl Model {
    fn name(&self) -> String {
        self.registry.iter().chain(&self.path).cloned().collect::<Vec<_>>().join("/")
    }
    fn text(&self) -> String {
        let mut s = self.name();
        if let Some(t) = &self.tag {
            s = s + ":" + t;
        }
        if let Some(d) = &self.digest {
            s = s + "@" + d;
        }
        s
    }
    /// Whether the text parses back into the same parts (the first path component of a name without
    /// a registry reads as a registry when it has a dot; `host.tld:port` alone reads as a tag).
    fn unambiguous(&self) -> bool {
        match &self.registry {
            None => !self.path[0].contains('.'),
            Some(r) => !self.path.is_empty() || !r.contains(':'),
        }
    }
}

fn tod(text: Option<&String>, is_tag: bool) -> Result<Option<TagOrDigest<'_>>, String> {
    text.map(|t| {
        if is_tag {
            Tag::new(t).map(TagOrDigest::from).map_err(|e| format!("valid tag {t:?} rejected: {e}"))
        } else {
            Digest::new(t)
                .map(TagOrDigest::from)
                .map_err(|e| format!("valid digest {t:?} rejected: {e}"))
        }
    })
    .transpose()
}

fn check_history(h: &History, cov: &mut Cov) -> Res {
    let mut m = Model {
        registry: h.registry.clone(),
        path: h.path.clone(),
        tag: h.tag.clone(),
        digest: h.digest.clone(),
    };
    let mut image = Image::parse(m.text()).map_err(|e| format!("valid reference {:?} rejected: {e}", m.text()))?;
    cov.nontrivial_if(h.ops.len() > 1);
    for (i, op) in h.ops.iter().enumerate() {
        match op {
            Op::SetRegistry(r) => {
                let name = r
                    .as_ref()
                    .map(|r| Name::new(r).map_err(|e| format!("valid registry {r:?} rejected: {e}")))
                    .transpose()?;
                if r.as_ref().is_some_and(|r| r.contains(':')) && m.path.is_empty() {
                    continue; // would not be a name of its own
                }
                image.set_registry(name);
                if r.is_some() || !m.path.is_empty() {
                    m.registry.clone_from(r);
                } else {
                    cov.label("remove registry which is the whole name");
                }
            }
            Op::SetName(r, p) => {
                m.registry.clone_from(r);
                m.path.clone_from(p);
                let text = m.name();
                image.set_name(Name::new(&text).map_err(|e| format!("valid name {text:?} rejected: {e}"))?);
            }
            Op::SetTag(t) => {
                image.set_tag(
                    t.as_ref()
                        .map(|t| Tag::new(t).map_err(|e| format!("valid tag {t:?} rejected: {e}")))
                        .transpose()?,
                );
                m.tag.clone_from(t);
                m.digest = None;
            }
            Op::SetDigest(d) => {
                image.set_digest(
                    d.as_ref()
                        .map(|d| Digest::new(d).map_err(|e| format!("valid digest {d:?} rejected: {e}")))
                        .transpose()?,
                );
                m.digest.clone_from(d);
                m.tag = None;
            }
            Op::SetTagOrDigest(t, is_tag) => {
                image.set_tag_or_digest(tod(t.as_ref(), *is_tag)?);
                m.tag = t.clone().filter(|_| *is_tag);
                m.digest = t.clone().filter(|_| !*is_tag);
            }
            Op::Rebuild => {
                let (n, t) = image.as_parts();
                image = (n, t).into();
            }
            Op::CloneFromParts(r, p, t, is_tag) => {
                m.registry.clone_from(r);
                m.path.clone_from(p);
                m.tag = t.clone().filter(|_| *is_tag);
                m.digest = t.clone().filter(|_| !*is_tag);
                let text = m.name();
                let name = Name::new(&text).map_err(|e| format!("valid name {text:?} rejected: {e}"))?;
                image = match tod(t.as_ref(), *is_tag)? {
                    Some(t) => (name, t).into(),
                    None => name.into(),
                };
            }
        }
        let what = format!("after step {i} ({op:?})");
        let name = m.name();
        let want = Parts {
            name: &name,
            registry: m.registry.as_deref(),
            tag: m.tag.as_deref(),
            digest: m.digest.as_deref(),
        };
        parts_match(&image, &want, &what)?;
        if m.unambiguous() {
            let again = Image::parse(image.as_str()).map_err(|e| format!("{what}: {:?} does not parse: {e}", image.as_str()))?;
            ensure!(again == image, "{what}: parsed back differs");
            parts_match(&again, &want, &format!("{what}, parsed back"))?;
        } else {
            cov.label("ambiguous text");
        }
        let value = serde_yaml::to_value(&image).map_err(|e| e.to_string())?;
        ensure_eq!(value.as_str(), Some(m.text().as_str()), "{what}: serialized");
    }
    Ok(())
}

pub fn c10() -> Property {
    Property {
        id: "C10",
        subs: vec![
            sub(
                "assembled",
                "references assembled from registry, path, tag and digest parts, each valid or a few edits away; non-trivial: not empty and decided by the reference grammar",
                60_000,
                assembled,
                check_parse,
            ),
            sub(
                "mutated",
                "valid references, references 1-3 edits away and arbitrary text; non-trivial as above",
                60_000,
                || gen::mixed(gen::image()),
                check_parse,
            ),
        ],
        known: vec![],
        assumptions: &["no claim on tags starting with '.' or '-', `host.tld:port:tag` without a path, ports with a leading '+'"],
    }
}

pub fn c11() -> Property {
    Property {
        id: "C11",
        subs: vec![sub(
            "edits",
            "an image and 1-9 edits, compared with a model of its parts after every edit; non-trivial: at least two edits",
            60_000,
            history,
            check_history,
        )],
        known: vec![],
        assumptions: &["a registry given to set_registry is a single component with a dot and optional port, as Name::new treats it"],
    }
}
