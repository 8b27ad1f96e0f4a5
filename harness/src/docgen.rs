//! Generator of valid Compose documents, from a sequence of choices, as trees that know what each
//! part must come back as and which values cannot stand in its place.

use std::fmt::{self, Debug, Formatter};

use compose_spec::YamlValue;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_yaml::Mapping;

use crate::fw::Res;

/// Source of choices; all choices after the end are the simplest ones, unless it is endless.
pub struct Src<'a> {
    data: &'a [u32],
    pos: usize,
    fresh: usize,
    /// Whether lists repeat items.
    repeats: bool,
    /// Choices go on after the end, and there may be many of a thing.
    endless: u32,
}

impl<'a> Src<'a> {
    pub const fn new(data: &'a [u32]) -> Self {
        Self { data, pos: 0, fresh: 0, repeats: false, endless: 0 }
    }
    /// Make lists that repeat items.
    pub const fn repeating(data: &'a [u32]) -> Self {
        Self { data, pos: 0, fresh: 0, repeats: true, endless: 0 }
    }
    /// The same choices from the start.
    pub const fn again(&self) -> Self {
        Self { data: self.data, pos: 0, fresh: 0, repeats: self.repeats, endless: 0 }
    }
    fn raw(&mut self) -> u32 {
        let v = match self.data.get(self.pos) {
            Some(v) => *v,
            None if self.endless == 0 => 0,
            None => scrambled(self.endless, self.pos),
        };
        self.pos += 1;
        v
    }
    /// Rarely make things with many parts from here on.
    fn maybe_endless(&mut self) {
        if self.chance(4) {
            self.endless = self.raw() | 1;
        }
    }
    /// A number of parts, usually up to `max`.
    fn count(&mut self, max: usize) -> usize {
        // things in things do not get out of hand
        if self.endless != 0 && self.pos < 4_000 && self.chance(12) { 8 + self.n(60) } else { self.n(max + 1) }
    }
    pub fn n(&mut self, k: usize) -> usize {
        self.raw() as usize % k.max(1)
    }
    /// True in `pct` % of the cases.
    pub fn chance(&mut self, pct: usize) -> bool {
        self.n(100) + pct >= 100
    }
    pub fn pick<T: Copy>(&mut self, of: &[T]) -> T {
        of[self.n(of.len())]
    }
    pub fn fresh(&mut self) -> usize {
        self.fresh += 1;
        self.fresh
    }
    pub fn u64(&mut self) -> u64 {
        match self.n(6) {
            0 => self.n(10) as u64,
            1 => self.pick(&[0, 1, 2, 127, 128, 255, 256, 65535, 65536]),
            2 => self.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 53, (1 << 53) + 1, 1 << 32, (1 << 32) - 1]),
            _ => u64::from(self.raw()) >> self.n(32),
        }
    }
}

fn scrambled(seed: u32, pos: usize) -> u32 {
    let mut x = (u64::from(seed) << 32 | pos as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    (x ^ (x >> 31)) as u32
}

/// A test case: the choices, shown as the document they make.
#[derive(Clone, Serialize, Deserialize)]
pub struct Choices(pub Vec<u32>);

impl Debug for Choices {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let doc = document(&mut Src::new(&self.0));
        f.write_str(&serde_yaml::to_string(&doc.input()).unwrap_or_default())
    }
}

pub fn choices(max: usize) -> BoxedStrategy<Choices> {
    // mostly small numbers shrink faster, but the whole range is needed by `u64()`
    prop::collection::vec(any::<u32>(), 0..max).prop_map(Choices).boxed()
}

/// Extra choices of a check, shown as they are.
pub type Extra = Vec<u32>;

pub fn extra(n: usize) -> BoxedStrategy<Extra> {
    prop::collection::vec(any::<u32>(), n).boxed()
}

type Bad = &'static [&'static str];

pub const NONE: Bad = &[];
pub const NOT_TEXT: Bad = &["5", "-1", "1.5", "true", "[]", "{}", "[a]", "{a: b}"];
pub const NOT_LIST: Bad = &["5", "1.5", "true", "{}", "{a: b}", "abc"];
pub const NOT_TEXTS: Bad = &["5", "true", "{}", "{a: b}", "abc", "[[]]", "[{}]", "[[a]]", "[{a: b}]"];
pub const NOT_MAP: Bad = &["5", "1.5", "true", "[]", "[a]", "abc"];
pub const NOT_BOOL: Bad = &["5", "0", "1", "maybe", "'true'", "''", "1.5", "[]", "{}", "[true]"];
pub const NOT_U64: Bad = &["-1", "1.5", "5.0", "abc", "'1'", "''", "true", "[]", "{}", "[1]", "1e30"];
pub const NOT_U32: Bad = &["-1", "1.5", "5.0", "abc", "'1'", "''", "true", "[]", "{}", "[1]", "4294967296"];
pub const NOT_ENUM: Bad = &["bogus", "''", "5", "true", "[]", "{}", "[a]", "' '"];
pub const NOT_IDENT: Bad = &["''", "'a b'", "-a", ".a", "_a", "a/b", "a:b", "é", "5", "true", "[]", "{}", "'a '"];
pub const NOT_HOST: Bad = &["''", "'a b'", "-a", "a-", "a_b", "a/b", "5", "[]", "{}", "true"];
pub const NOT_ABS: Bad = &["''", "a", "./a", "../a", "~/a", "5", "[]", "{}", "true"];
pub const NOT_DURATION: Bad = &["abc", "''", "5x", "s", "1.5s", "-1s", "1s 2s", "-1", "1.5", "5.0", "1e3", "0.0", "'5'", "5S", "5 s", "'5s '", "true", "[]", "{}", "99999999999999999999999s"];
pub const NOT_SIZE: Bad = &["abc", "''", "5x", "kb", "1.5kb", "-1", "-5b", "1.5", "5.0", "1e3", "5Gb", "5MB", "5b5", "true", "[]", "{}", "18446744073709551616b", "5tb", "5 kb"];
pub const NOT_IP: Bad = &["abc", "''", "256.1.1.1", "1.1.1", "1.1.1.1.1", "'1::2::3'", "10.0.0.0/8", "5", "true", "{}"];
pub const NOT_SCALAR: Bad = &["[]", "{}", "[a]", "{a: b}"];

#[derive(Clone)]
pub enum Kind {
    Leaf { input: YamlValue, shown: Option<YamlValue> },
    Seq(Vec<Node>),
    Map(Vec<(String, Node)>),
    Obj(Obj),
    /// Another way to write `Node`.
    Alt(YamlValue, Box<Node>),
}

#[derive(Clone)]
pub struct Obj {
    pub what: &'static str,
    /// Whether extension fields are supported.
    pub ext: bool,
    pub fields: Vec<(String, Node)>,
}

#[derive(Clone)]
pub struct Node {
    pub kind: Kind,
    /// YAML texts of values this place cannot have.
    pub bad: Bad,
    /// Omitted when written if empty.
    pub omit: bool,
}

pub fn yaml(s: &str) -> YamlValue {
    serde_yaml::from_str(s).expect("harness: YAML literal")
}

impl Node {
    pub fn leaf(v: impl Into<YamlValue>, bad: Bad) -> Self {
        let v = v.into();
        Self { kind: Kind::Leaf { shown: Some(v.clone()), input: v }, bad, omit: false }
    }
    pub fn shown(v: impl Into<YamlValue>, shown: impl Into<YamlValue>, bad: Bad) -> Self {
        Self { kind: Kind::Leaf { input: v.into(), shown: Some(shown.into()) }, bad, omit: false }
    }
    pub fn hidden(v: impl Into<YamlValue>, bad: Bad) -> Self {
        Self { kind: Kind::Leaf { input: v.into(), shown: None }, bad, omit: false }
    }
    pub fn seq(items: Vec<Node>, bad: Bad) -> Self {
        Self { kind: Kind::Seq(items), bad, omit: true }
    }
    pub fn map(entries: Vec<(String, Node)>, bad: Bad) -> Self {
        Self { kind: Kind::Map(entries), bad, omit: true }
    }
    fn keep(mut self) -> Self {
        self.omit = false;
        self
    }
    fn with_bad(mut self, bad: Bad) -> Self {
        self.bad = bad;
        self
    }
    fn alt(input: YamlValue, node: Node, bad: Bad) -> Self {
        let omit = node.omit;
        Self { kind: Kind::Alt(input, Box::new(node)), bad, omit }
    }

    /// The value as written in the document.
    pub fn input(&self) -> YamlValue {
        match &self.kind {
            Kind::Leaf { input, .. } | Kind::Alt(input, _) => input.clone(),
            Kind::Seq(items) => items.iter().map(Node::input).collect::<Vec<_>>().into(),
            Kind::Map(e) => mapping(e.iter()),
            Kind::Obj(o) => mapping(o.fields.iter()),
        }
    }

    /// The value it must come back as, [`None`] if omitted.
    pub fn expected(&self) -> Option<YamlValue> {
        match &self.kind {
            Kind::Leaf { shown, .. } => shown.clone(),
            Kind::Alt(_, n) => n.expected(),
            Kind::Seq(items) if items.is_empty() && self.omit => None,
            Kind::Map(items) if items.is_empty() && self.omit => None,
            Kind::Seq(items) => Some(items.iter().filter_map(Node::expected).collect::<Vec<_>>().into()),
            Kind::Map(e) => Some(shown_mapping(e.iter())),
            Kind::Obj(o) => Some(shown_mapping(o.fields.iter())),
        }
    }

    /// Whether `got` is what this part must come back as: the fields of groups in any order (but
    /// extension fields in order), user-keyed maps and lists in order.
    pub fn matches(&self, got: Option<&YamlValue>, at: &str) -> Res {
        match (&self.kind, got) {
            (Kind::Alt(_, n), _) => n.matches(got, at),
            (Kind::Obj(o), Some(YamlValue::Mapping(m))) => {
                for (k, n) in &o.fields {
                    n.matches(m.get(k.as_str()), &format!("{at}.{k}"))?;
                }
                for k in m.keys() {
                    if !o.fields.iter().any(|(f, _)| k == f.as_str()) {
                        return Err(format!("{at}: {k:?} came back, which was not written"));
                    }
                }
                let xs = |keys: &mut dyn Iterator<Item = String>| keys.filter(|k| k.starts_with("x-")).collect::<Vec<_>>();
                let want = xs(&mut o.fields.iter().map(|(k, _)| k.clone()));
                let got = xs(&mut m.keys().filter_map(|k| k.as_str().map(str::to_owned)));
                if want != got {
                    return Err(format!("{at}: extensions in the order {got:?}, written as {want:?}"));
                }
                Ok(())
            }
            (Kind::Map(e), Some(YamlValue::Mapping(m))) if !(e.is_empty() && self.omit) => {
                let want: Vec<&str> = e.iter().map(|(k, _)| k.as_str()).collect();
                let got: Vec<&str> = m.keys().map(|k| k.as_str().unwrap_or("(not a string)")).collect();
                if want != got {
                    return Err(format!("{at}: keys {got:?}, expected {want:?}"));
                }
                e.iter().try_for_each(|(k, n)| n.matches(m.get(k.as_str()), &format!("{at}.{k}")))
            }
            (Kind::Seq(items), Some(YamlValue::Sequence(s))) if !(items.is_empty() && self.omit) => {
                let items: Vec<&Node> = items.iter().filter(|n| !n.traceless()).collect();
                if items.len() != s.len() {
                    return Err(format!("{at}: {s:?} came back for {:?}", self.expected()));
                }
                items.iter().zip(s).enumerate().try_for_each(|(i, (n, g))| n.matches(Some(g), &format!("{at}[{i}]")))
            }
            _ => {
                let want = self.expected();
                if want.as_ref() == got {
                    Ok(())
                } else {
                    Err(format!("{at}: {got:?} came back, expected {want:?} (written as {:?})", self.input()))
                }
            }
        }
    }

    /// Whether it is written but does not come back, such as a repeated item of a set.
    pub fn traceless(&self) -> bool {
        matches!(self.kind, Kind::Leaf { shown: None, .. })
    }

    /// Visit this node and all below it which are written as such.
    pub fn walk<'a>(&'a self, path: &mut Vec<Step>, visit: &mut dyn FnMut(&[Step], &'a Node)) {
        visit(path, self);
        match &self.kind {
            Kind::Leaf { .. } | Kind::Alt(..) => {}
            Kind::Seq(items) => {
                for (i, n) in items.iter().enumerate() {
                    path.push(Step::Index(i));
                    n.walk(path, visit);
                    path.pop();
                }
            }
            Kind::Map(e) | Kind::Obj(Obj { fields: e, .. }) => {
                for (k, n) in e {
                    path.push(Step::Key(k.clone()));
                    n.walk(path, visit);
                    path.pop();
                }
            }
        }
    }

    pub fn as_obj(&self) -> Option<&Obj> {
        if let Kind::Obj(o) = &self.kind { Some(o) } else { None }
    }

    pub fn get(&self, key: &str) -> Option<&Node> {
        match &self.kind {
            Kind::Map(e) | Kind::Obj(Obj { fields: e, .. }) => e.iter().find(|(k, _)| k == key).map(|(_, n)| n),
            _ => None,
        }
    }

    pub fn entries(&self) -> &[(String, Node)] {
        match &self.kind {
            Kind::Map(e) | Kind::Obj(Obj { fields: e, .. }) => e,
            _ => &[],
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Step {
    Key(String),
    Index(usize),
}

pub fn at<'a>(v: &'a mut YamlValue, path: &[Step]) -> &'a mut YamlValue {
    path.iter().fold(v, |v, step| match step {
        Step::Key(k) => v.as_mapping_mut().and_then(|m| m.get_mut(k.as_str())).expect("harness: path"),
        Step::Index(i) => v.as_sequence_mut().and_then(|s| s.get_mut(*i)).expect("harness: path"),
    })
}

pub fn show_path(path: &[Step]) -> String {
    let mut out = String::new();
    for s in path {
        match s {
            Step::Key(k) => {
                if !out.is_empty() {
                    out.push('.');
                }
                out.push_str(k);
            }
            Step::Index(i) => out.push_str(&format!("[{i}]")),
        }
    }
    out
}

fn mapping<'a>(e: impl Iterator<Item = &'a (String, Node)>) -> YamlValue {
    YamlValue::Mapping(e.map(|(k, n)| (k.as_str().into(), n.input())).collect::<Mapping>())
}

fn shown_mapping<'a>(e: impl Iterator<Item = &'a (String, Node)>) -> YamlValue {
    YamlValue::Mapping(e.filter_map(|(k, n)| Some((k.as_str().into(), n.expected()?))).collect::<Mapping>())
}

// ---------------------------------------------------------------------------------------------
// Leaves

pub type F = (&'static str, fn(&mut Src) -> Node);

pub fn string(s: &mut Src) -> String {
    const POOL: &[&str] = &[
        "a", "", "true", "1", "null", "~", "two\nlines", "é ü", " leading", "trailing ", "a: b", "- x", "# c", "$VAR", "${A:-b}", "0x1F", "1.0", "no",
        "{", "[", "it's", "\"q\"", "a=b", "a:b", "%", "@x", "`", "\t", "\\n", "x-y", "<<", "-", "?", "|", ">", "!t", "&a", "*a", "1e3", ".inf", "2001-01-01",
        "日本", "\u{1f600}", "..", "/", "NULL", "False", "yes", "\n", "a\n", "012", "0o7", "1_000", "+1", "-0",
    ];
    match s.n(3) {
        0 => s.pick(&["a", "b", "value", "some text"]).to_owned(),
        1 => s.pick(POOL).to_owned(),
        _ => {
            let n = s.count(7);
            let n = if n > 7 { n * s.pick(&[1, 3, 20]) } else { n };
            (0..n).map(|_| s.pick(&['a', 'b', 'Z', '0', '9', '-', '_', '.', '/', ':', ' ', '=', ',', '"', '\'', '#', 'é', '{', '\\'])).collect()
        }
    }
}

/// Keys on one line cannot be long in YAML.
fn short(s: String) -> String {
    if s.len() < 70 { s } else { s.chars().take(70).collect() }
}

fn word(s: &mut Src, first: &[char], rest: &[char], max: usize) -> String {
    let n = s.n(max);
    let mut out = String::from(s.pick(first));
    (0..n).for_each(|_| out.push(s.pick(rest)));
    out
}

/// One which may be quite long.
fn long_word(s: &mut Src, first: &[char], rest: &[char], max: usize) -> String {
    let n = s.count(max - 1);
    word(s, first, rest, 1).chars().chain((0..n).map(|_| s.pick(rest)).collect::<Vec<_>>()).collect()
}

const LOWER: &[char] = &['a', 'b', 'c', 'x', 'y', 'z'];
const ALNUM: &[char] = &['a', 'b', 'z', 'A', 'Z', '0', '1', '9'];
const IDENT: &[char] = &['a', 'b', 'z', 'A', 'Z', '0', '9', '_', '.', '-'];

pub fn ident_text(s: &mut Src) -> String {
    if s.chance(50) { long_word(s, ALNUM, IDENT, 6) } else { s.pick(&["a", "b", "web", "db", "1", "null", "true", "x-a", "default", "on-failure", "0.5", "1e5"]).to_owned() }
}

/// Distinct keys.
fn keys(s: &mut Src, max: usize, key: fn(&mut Src) -> String) -> Vec<String> {
    let n = s.count(max);
    let mut out: Vec<String> = Vec::new();
    for _ in 0..n {
        let k = key(s);
        if !out.contains(&k) {
            out.push(k);
        }
    }
    out
}

fn ident(s: &mut Src) -> Node {
    Node::leaf(ident_text(s), NOT_IDENT)
}

fn text(s: &mut Src) -> Node {
    Node::leaf(string(s), NOT_TEXT)
}

fn map_key(s: &mut Src) -> String {
    if s.chance(60) { long_word(s, ALNUM, IDENT, 6) } else { s.pick(&["a", "FOO", "com.example.a", "null", "true", "1", "x-a", "a b", "é", "a-b_c", "~"]).to_owned() }
}

fn flag(s: &mut Src) -> Node {
    if s.chance(20) { Node::hidden(false, NOT_BOOL) } else { Node::leaf(true, NOT_BOOL) }
}

/// A flag which is true by default.
fn unflag(s: &mut Src) -> Node {
    if s.chance(20) { Node::hidden(true, NOT_BOOL) } else { Node::leaf(false, NOT_BOOL) }
}

fn uint(s: &mut Src) -> Node {
    Node::leaf(s.u64(), NOT_U64)
}

fn uint32(s: &mut Src) -> Node {
    Node::leaf(s.u64() & 0xffff_ffff, NOT_U32)
}

fn percent(s: &mut Src) -> Node {
    Node::leaf(s.n(101) as u64, &["101", "-1", "256", "1.5", "50.0", "abc", "'1'", "true", "[]", "{}"])
}

const UNITS: [(&str, u64); 5] = [("us", 1), ("ms", 1_000), ("s", 1_000_000), ("m", 60_000_000), ("h", 3_600_000_000)];

/// Text of a duration of `us` microseconds in the documented form.
pub fn show_duration(mut us: u64) -> String {
    if us == 0 {
        return "0s".to_owned();
    }
    let mut out = String::new();
    for (unit, size) in UNITS.iter().rev() {
        if us >= *size {
            out.push_str(&format!("{}{unit}", us / size));
            us %= size;
        }
    }
    out
}

fn duration(s: &mut Src) -> Node {
    let n = 1 + s.n(3);
    let mut us = 0;
    let mut given = String::new();
    let start = s.n(5);
    for i in 0..n.min(5 - start) {
        let (unit, size) = UNITS[4 - start - i];
        let v = if i == 0 { 1 + s.n(2000) } else { s.n(70) } as u64;
        us += v * size;
        given.push_str(&format!("{v}{unit}"));
    }
    if us == 0 {
        given = "1s".to_owned();
        us = 1_000_000;
    }
    Node::shown(given, show_duration(us), NOT_DURATION)
}

fn micros(s: &mut Src) -> Node {
    let n = s.u64() >> s.n(40);
    Node::leaf(n, &["-1", "1.5", "5.0", "abc", "''", "true", "[]", "{}"])
}

/// Duration fields that also take microseconds.
fn size(s: &mut Src) -> Node {
    let n = s.u64();
    match s.n(4) {
        0 => Node::shown(n, format!("{n}b"), NOT_SIZE),
        1 => {
            let (unit, shown) = s.pick(&[("b", "b"), ("B", "b"), ("k", "kb"), ("kb", "kb"), ("K", "kb"), ("m", "mb"), ("mb", "mb"), ("M", "mb"), ("g", "gb"), ("gb", "gb"), ("G", "gb")]);
            Node::shown(format!("{n}{unit}"), format!("{n}{shown}"), NOT_SIZE)
        }
        2 => Node::shown(format!("{n}"), format!("{n}b"), NOT_SIZE),
        _ => Node::leaf(format!("{}{}", s.n(100), s.pick(&["b", "kb", "mb", "gb"])), NOT_SIZE),
    }
}

fn float(s: &mut Src) -> f64 {
    let f = f64::from_bits(u64::from(s.raw()) << 32 | u64::from(s.raw()));
    match s.n(3) {
        0 if f.is_finite() => f,
        #[allow(clippy::cast_precision_loss)]
        1 => s.u64() as f64 / 1000.0,
        _ => f64::from(s.raw() as i32) / f64::from(1 << s.n(20)),
    }
}

fn cpus(s: &mut Src) -> Node {
    const BAD: Bad = &["-1", "-0.5", "abc", "'abc'", "''", "true", "[]", "{}", "[1]"];
    match s.n(3) {
        0 => {
            let n = s.n(1 << 20) as u64;
            #[allow(clippy::cast_precision_loss)]
            Node::shown(n, n as f64, BAD)
        }
        1 => Node::leaf(float(s).abs(), BAD),
        _ => Node::leaf(s.pick(&[0.5, 1.5, 0.25, 2.0, 0.0, 1e-3, 12.125, 0.1]), BAD),
    }
}

fn keyword(words: &'static [&'static str], s: &mut Src) -> Node {
    Node::leaf(s.pick(words), NOT_ENUM)
}

/// The number of a port below `end`.
fn port_number(s: &mut Src, end: usize) -> usize {
    if s.chance(20) { s.pick(&[0, 1, 53, 80, 443, 1023, 1024, 8080, 9_999, 10_000, 32_767, 32_768, 65_534, 65_535]).min(end - 1) } else { s.n(end) }
}

/// First and last of a range of ports.
fn port_range(s: &mut Src) -> (usize, usize) {
    let a = port_number(s, 65_535);
    (a, if s.chance(20) { 65_535 } else { a + 1 + s.n((65_535 - a).min(5_000)) })
}

fn ip_text(s: &mut Src) -> String {
    if s.chance(40) { ipv6(s).to_string() } else { ipv4(s).to_string() }
}

fn ipv6(s: &mut Src) -> std::net::Ipv6Addr {
    let mut parts = [0; 8];
    for p in &mut parts {
        *p = s.pick(&[0, 0, 1, 0xfe80, 0xffff, 0x2001]);
    }
    parts.into()
}

fn ipv4(s: &mut Src) -> std::net::Ipv4Addr {
    let mut parts = [0; 4];
    for p in &mut parts {
        *p = if s.chance(20) { s.n(256) as u8 } else { s.pick(&[127, 10, 0, 1, 255, 192]) };
    }
    parts.into()
}

fn ip(s: &mut Src) -> Node {
    Node::leaf(ip_text(s), NOT_IP)
}

fn host_text(s: &mut Src) -> String {
    let n = 1 + s.n(3);
    (0..n).map(|_| if s.chance(50) { word(s, ALNUM, ALNUM, 4) } else { s.pick(&["a", "host", "example", "a-b", "null"]).to_owned() }).collect::<Vec<_>>().join(".")
}

fn host(s: &mut Src) -> Node {
    Node::leaf(host_text(s), NOT_HOST)
}

pub fn path_text(s: &mut Src) -> String {
    match s.n(3) {
        0 => s.pick(&["a", "./a", "../a", "a/b", "/a/b", "~/a", ".", "..", "./.env", "a.env", "a b", "é", "/", "a:b", "C:\\a", "a=b"]).to_owned(),
        _ => {
            let prefix = s.pick(&["", "./", "../", "/", "~/"]);
            format!("{prefix}{}", word(s, ALNUM, &['a', 'b', '0', '_', '.', '-', '/', ' '], 6).replace("//", "/").trim_end_matches(['/', '.', ' ']))
        }
    }
}

fn path(s: &mut Src) -> Node {
    Node::leaf(path_text(s), NOT_TEXT)
}

fn abs_text(s: &mut Src) -> String {
    let n = s.n(3);
    let tail: Vec<String> = (0..n).map(|_| word(s, ALNUM, &['a', 'b', '0', '_', '-', 'é', ' '], 4).trim_end().to_owned()).collect();
    format!("/{}", tail.join("/"))
}

fn abs(s: &mut Src) -> Node {
    Node::leaf(abs_text(s), NOT_ABS)
}

fn list(s: &mut Src, max: usize, bad: Bad, item: fn(&mut Src) -> Node) -> Node {
    let n = s.count(max);
    let mut items: Vec<Node> = (0..n).map(|_| item(s)).collect();
    while s.repeats && !items.is_empty() && s.chance(50) {
        let again = items[s.n(items.len())].clone();
        items.insert(s.n(items.len() + 1), again);
    }
    Node::seq(items, bad)
}

fn extensions(v: &YamlValue) -> usize {
    match v {
        YamlValue::Mapping(m) => m.iter().map(|(k, v)| usize::from(k.as_str().is_some_and(|k| k.starts_with("x-"))) + extensions(v)).sum(),
        _ => 0,
    }
}

/// Repeat some items of a list which keeps only the first of equal items.
fn repeat(s: &mut Src, items: &mut Vec<Node>) {
    while s.repeats && !items.is_empty() && s.chance(50) {
        let i = s.n(items.len());
        let again = Node::hidden(items[i].input(), NONE);
        items.insert(i + 1 + s.n(items.len() - i), again);
    }
}

/// A list of distinct items.
fn set(s: &mut Src, max: usize, bad: Bad, item: fn(&mut Src) -> Node) -> Node {
    let n = s.count(max);
    let mut seen = Vec::new();
    let mut items = Vec::new();
    for _ in 0..n {
        let start = s.pos;
        let mut new = vec![item(s)];
        while s.repeats && new.len() < 3 && s.chance(50) {
            // an item that differs in one choice
            let mut near: Vec<u32> = s.data.get(start.min(s.data.len())..s.pos.min(s.data.len())).unwrap_or_default().to_vec();
            let j = s.n(near.len());
            let to = s.raw();
            if let Some(v) = near.get_mut(j) {
                *v = to;
            }
            new.push(item(&mut Src::new(&near)));
        }
        for i in new {
            let shown = i.expected();
            if !seen.contains(&shown) {
                seen.push(shown);
                items.push(i);
            } else if s.repeats && extensions(&i.input()) < 2 {
                // items that differ in the order of their extensions only may both stay
                items.push(Node::hidden(i.input(), NONE));
            }
        }
    }
    repeat(s, &mut items);
    Node::seq(items, bad)
}

fn texts(s: &mut Src) -> Node {
    set(s, 4, NOT_TEXTS, text)
}

/// A list of strings which may repeat.
fn text_list(s: &mut Src) -> Node {
    list(s, 4, NOT_TEXTS, text)
}

pub fn free(s: &mut Src, depth: usize) -> YamlValue {
    match s.n(if depth == 0 { 6 } else { 8 }) {
        0 => string(s).into(),
        1 => s.u64().into(),
        2 => (-(s.n(1000) as i64)).into(),
        3 => s.chance(50).into(),
        4 => YamlValue::Null,
        5 => s.pick(&[1.5, -0.25, 1e100, 0.0, f64::INFINITY, -0.0]).into(),
        6 => {
            let n = s.n(4);
            (0..n).map(|_| free(s, depth - 1)).collect::<Vec<_>>().into()
        }
        _ => {
            let n = s.n(4);
            YamlValue::Mapping(
                (0..n)
                    .map(|_| {
                        let k = match s.n(8) {
                            0 => YamlValue::from(s.u64()),
                            1 => s.chance(50).into(),
                            _ => format!("{}k", short(string(s))).into(),
                        };
                        (k, free(s, depth - 1))
                    })
                    .collect(),
            )
        }
    }
}

/// String, number, boolean or null.
fn scalar(s: &mut Src) -> Node {
    let v: YamlValue = match s.n(6) {
        0 | 1 => string(s).into(),
        2 => s.u64().into(),
        3 if s.chance(20) => s.pick(&[i64::MIN, i64::MIN + 1, -1, -(1 << 32), -(1 << 31) - 1, -(1 << 53) - 1]).into(),
        3 => (-(s.u64() as u32 as i64)).into(),
        4 => s.chance(50).into(),
        _ if s.chance(30) => float(s).into(),
        _ => s.pick(&[1.5, -0.25, 1e100, 1e-7]).into(),
    };
    Node::leaf(v, NOT_SCALAR)
}

fn scalar_or_null(s: &mut Src) -> Node {
    if s.chance(20) { Node::leaf(YamlValue::Null, NOT_SCALAR) } else { scalar(s) }
}

fn string_or_number(s: &mut Src) -> Node {
    let v: YamlValue = match s.n(4) {
        0 => s.u64().into(),
        1 if s.chance(30) => float(s).into(),
        1 => s.pick(&[1.5, -0.25, 1e100]).into(),
        _ => string(s).into(),
    };
    Node::leaf(v, &["true", "[]", "{}", "[a]"])
}

fn map_of(s: &mut Src, max: usize, bad: Bad, key: fn(&mut Src) -> String, value: fn(&mut Src) -> Node) -> Node {
    let keys = keys(s, max, key);
    Node::map(keys.into_iter().map(|k| (k, value(s))).collect(), bad)
}

fn list_or_map(s: &mut Src) -> Node {
    const BAD: Bad = &["5", "abc", "true", "[5]", "[[]]", "[{a: b}]", "{a: []}", "{a: {}}", "{a: [b]}"];
    if s.chance(50) {
        let n = s.count(3);
        let mut items: Vec<String> = Vec::new();
        for _ in 0..n {
            let k = map_key(s);
            let item = match s.n(3) {
                0 => k,
                1 => format!("{k}={}", string(s)),
                _ => string(s),
            };
            if !items.contains(&item) {
                items.push(item);
            }
        }
        let mut items = items.into_iter().map(|i| Node::leaf(i, &["[]", "{}", "5", "true"])).collect();
        repeat(s, &mut items);
        Node::seq(items, BAD)
    } else {
        map_of(s, 4, BAD, map_key, scalar_or_null)
    }
}

fn driver_opts(s: &mut Src) -> Node {
    map_of(s, 3, &["5", "abc", "[]", "[a]", "{a: []}", "{a: {}}", "{a: true}"], map_key, string_or_number)
}

fn item_or_list(s: &mut Src, bad: Bad, item: fn(&mut Src) -> Node) -> Node {
    if s.chance(50) { item(s).with_bad(bad) } else { set(s, 3, bad, item).keep() }
}

fn image_text(s: &mut Src) -> String {
    let registry = s.pick(&["", "", "quay.io/", "example.com:443/", "localhost/", "192.168.0.1:80/", "quay.io:5000/"]);
    let n = 1 + s.n(2);
    let parts: Vec<String> = (0..n).map(|_| if s.chance(50) { word(s, LOWER, LOWER, 4) } else { s.pick(&["image", "a-b", "a_b", "a__b", "a.b", "0"]).to_owned() }).collect();
    // a first path component that looks like a registry would be one
    let path = parts.join("/");
    let first = path.split('/').next().unwrap_or_default();
    let path = if registry.is_empty() && path.contains('/') && (first.contains('.') || first == "localhost") { "image".to_owned() } else { path };
    let end = s.pick(&["", "", ":latest", ":1.0", ":V_1-a", "@sha256:0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"]);
    format!("{registry}{path}{end}")
}

fn image(s: &mut Src) -> Node {
    Node::leaf(image_text(s), &["''", "A", "a b", "a:", "a@b", "a//b", "-a", "':a'", "5", "true", "[]", "{}", "a:b:c", "a/"])
}

fn obj(s: &mut Src, what: &'static str, ext: bool, bad: Bad, always: &[F], some: &[F]) -> Node {
    let mut fields: Vec<(String, Node)> = always.iter().map(|(k, f)| ((*k).to_owned(), f(s))).collect();
    let n = if some.is_empty() { 0 } else { s.count(some.len().min(5)).min(30) };
    for _ in 0..n {
        let (k, f) = s.pick(some);
        if !fields.iter().any(|(o, _)| o == k) {
            let node = f(s);
            fields.push((k.to_owned(), node));
        }
    }
    finish(s, what, ext, bad, fields)
}

/// Add extensions and shuffle the fields a bit.
fn finish(s: &mut Src, what: &'static str, ext: bool, bad: Bad, mut fields: Vec<(String, Node)>) -> Node {
    if ext && s.chance(25) {
        for k in keys(s, 3, |s| if s.endless != 0 && s.chance(50) { format!("x-{}", short(string(s)).replace('\n', "_")) } else { format!("x-{}", s.pick(&["a", "b", "", "é", "A b", "x-", "1", "image"])) }) {
            let deep = if s.endless == 0 { 2 } else { 5 };
            let v = free(s, deep);
            fields.push((k, Node::leaf(v, NONE)));
        }
    }
    if fields.len() > 1 && s.chance(50) {
        let n = s.n(fields.len());
        fields.rotate_left(n);
    }
    if fields.len() > 1 && s.chance(30) {
        let (a, b) = (s.n(fields.len()), s.n(fields.len()));
        fields.swap(a, b);
    }
    Node { kind: Kind::Obj(Obj { what, ext, fields }), bad, omit: false }
}

// ---------------------------------------------------------------------------------------------
// Groups of settings

const NOT_OBJ: Bad = &["5", "true", "abc", "[]", "[a]", "1.5", "{zz_unknown: 1}"];
/// Of groups that ignore unknown settings.
const NOT_LAX: Bad = &["5", "true", "abc", "[a]", "1.5"];

fn extra_hosts(s: &mut Src) -> Node {
    const BAD: Bad = &["5", "true", "abc", "{a: b}", "{a: []}", "{'a b': 127.0.0.1}", "[abc]", "[a=b]", "[[]]", "['a b=127.0.0.1']"];
    let map = map_of(s, 3, BAD, host_text, ip);
    if s.chance(40) {
        let list: Vec<YamlValue> = map.entries().iter().map(|(k, n)| format!("{k}{}{}", s.pick(&["=", ":"]), n.input().as_str().unwrap_or_default()).into()).collect();
        return Node::alt(list.into(), map, BAD);
    }
    map
}

pub fn config_or_secret(s: &mut Src) -> Node {
    const BAD: Bad = &["5", "true", "[]", "''", "'a b'", "{target: a}", "{source: 'a b'}", "{source: a, zz: 1}", "{source: a, uid: b}", "{source: a, mode: b}"];
    const ID: Bad = &["abc", "''", "-1", "'-1'", "1.5", "4294967296", "'4294967296'", "[]", "{}", "true"];
    fn id(s: &mut Src) -> Node {
        Node::leaf((s.u64() & 0xffff_ffff).to_string(), ID)
    }
    if s.chance(50) {
        return Node::leaf(ident_text(s), BAD);
    }
    obj(s, "config or secret", true, BAD, &[("source", ident)], &[("target", path), ("uid", id), ("gid", id), ("mode", uint32)])
}

fn grants(s: &mut Src) -> Node {
    list(s, 3, &["5", "abc", "{}", "[5]", "[[]]", "[{}]", "['']"], config_or_secret)
}

fn platform(s: &mut Src) -> Node {
    const ALL: &[&str] = &["linux/amd64", "linux", "linux/arm", "linux/arm/v7", "linux/arm64/v8", "windows/amd64", "darwin/arm64", "freebsd/386", "linux/riscv64", "js/wasm"];
    Node::leaf(s.pick(ALL), &["bogus", "linux/bogus", "''", "linux/", "/amd64", "linux/arm/v9", "darwin/s390x", "5", "[]", "{}", "linux/amd64/v8", "Linux"])
}

fn ulimits(s: &mut Src) -> Node {
    const BAD: Bad = &["5", "abc", "[]", "[a]", "{a: b}", "{a: []}", "{a: -2}", "{A: 5}", "{'': 5}", "{a1: 5}", "{a: {soft: 1}}", "{a: {hard: 1}}", "{a: 1.5}"];
    fn limit(s: &mut Src) -> Node {
        const BAD: Bad = &["-2", "1.5", "[]", "abc", "true", "1e30"];
        if s.chance(20) { Node::leaf(-1, BAD) } else { Node::leaf(s.u64(), BAD) }
    }
    fn ulimit(s: &mut Src) -> Node {
        if s.chance(50) { limit(s) } else { obj(s, "ulimit", true, NOT_OBJ_OR_LIMIT, &[("soft", limit), ("hard", limit)], &[]) }
    }
    const NOT_OBJ_OR_LIMIT: Bad = &["-2", "true", "abc", "[]", "[a]", "{soft: 1}", "{hard: 1}", "{soft: 1, hard: 1, zz: 1}"];
    map_of(s, 3, BAD, |s| word(s, LOWER, LOWER, 6), ulimit)
}

fn context(s: &mut Src) -> Node {
    let t = match s.n(4) {
        0 => s.pick(&["https://example.com/a.git", "https://github.com/a/b.git#main:dir", "git://h.example/a.git#v1", "ssh://git@h.example/a", "docker-image://alpine:3", "service:a", "oci-layout:///a"]).to_owned(),
        _ => path_text(s).replace([':', '='], "_"),
    };
    Node::leaf(t, NOT_TEXT)
}

fn additional_contexts(s: &mut Src) -> Node {
    const BAD: Bad = &["5", "abc", "true", "{a: []}", "{a: {}}", "[[]]", "[5]", "[{}]"];
    let map = map_of(s, 3, BAD, |s| word(s, ALNUM, &['a', 'b', '0', '_', '-'], 6), |s| context(s).with_bad(NOT_SCALAR));
    if s.chance(40) {
        let list: Vec<YamlValue> = map.entries().iter().map(|(k, n)| format!("{k}={}", n.input().as_str().unwrap_or_default()).into()).collect();
        return Node::alt(list.into(), map, BAD);
    }
    map
}

fn cache(s: &mut Src) -> Node {
    const BAD: Bad = &["''", "'type='", "a b", "'type=registry'", "'type=local,'", "'type=local,a'", "'type=local,=a'", "5", "true", "[]", "{}"];
    let t = match s.n(4) {
        0 => image_text(s),
        1 => format!("type=registry,ref={}{}", image_text(s), s.pick(&["", ",a=b", ",mode=max,a=b"])),
        _ => format!("type={}{}", s.pick(&["local", "gha", "s3", "inline"]), s.pick(&["", ",src=path", ",a=b,c=d", ",dest=/a,b=1"])),
    };
    // an image is written as `type=registry,ref=` only when there are options
    let shown = t.strip_prefix("type=registry,ref=").filter(|r| !r.contains(',')).map_or_else(|| t.clone(), str::to_owned);
    Node::shown(t, shown, BAD)
}

fn caches(s: &mut Src) -> Node {
    list(s, 3, &["5", "abc", "{}", "[5]", "[[]]", "['']"], cache)
}

fn ssh(s: &mut Src) -> Node {
    const BAD: Bad = &["''", "abc", "'=a'", "'a='", "5", "true", "[]", "{}"];
    set(s, 3, &["5", "abc", "{}", "[5]", "[[]]", "['']", "[abc]"], |s| {
        if s.chance(30) { Node::leaf("default", BAD) } else { Node::leaf(format!("{}={}", word(s, ALNUM, IDENT, 4), s.pick(&["/a", "a", "~/.ssh/id", "./k"])), BAD) }
    })
}

fn build_network(s: &mut Src) -> Node {
    let t = if s.chance(30) { "none".to_owned() } else { ident_text(s) };
    Node::leaf(t, NOT_IDENT)
}

pub const BUILD: &[F] = &[
    ("context", context),
    ("args", list_or_map),
    ("ssh", ssh),
    ("cache_from", caches),
    ("cache_to", caches),
    ("additional_contexts", additional_contexts),
    ("entitlements", text_list),
    ("extra_hosts", extra_hosts),
    ("isolation", text),
    ("privileged", flag),
    ("labels", list_or_map),
    ("no_cache", flag),
    ("pull", flag),
    ("network", build_network),
    ("shm_size", size),
    ("target", text),
    ("secrets", grants),
    ("tags", |s| list(s, 3, &["5", "abc", "{}", "[5]", "[[]]", "['']", "[A]"], image)),
    ("ulimits", ulimits),
    ("platforms", |s| list(s, 3, &["5", "abc", "{}", "[5]", "[[]]", "['']", "[bogus]"], platform)),
];

fn build(s: &mut Src) -> Node {
    const BAD: Bad = &["5", "true", "[]", "[a]", "1.5", "{zz_unknown: 1}", "{dockerfile: a, dockerfile_inline: b}"];
    if s.chance(30) {
        return context(s).with_bad(BAD);
    }
    let n = s.count(5);
    let mut fields: Vec<(String, Node)> = Vec::new();
    for _ in 0..n {
        let (k, f) = s.pick(BUILD);
        if !fields.iter().any(|(o, _)| o == k) {
            let node = f(s);
            fields.push((k.to_owned(), node));
        }
    }
    match s.n(4) {
        1 => fields.push(("dockerfile".to_owned(), path(s))),
        2 => fields.push(("dockerfile_inline".to_owned(), text(s))),
        _ => {}
    }
    finish(s, "build", true, BAD, fields)
}

fn blkio(s: &mut Src) -> Node {
    fn bps(s: &mut Src) -> Node {
        list(s, 2, &["5", "abc", "{}", "[5]", "[{path: /a}]", "[{rate: 1}]", "[{path: a, rate: 1}]"], |s| obj(s, "rate limit", false, NOT_LAX, &[("path", abs), ("rate", size)], &[]))
    }
    fn iops(s: &mut Src) -> Node {
        list(s, 2, &["5", "abc", "{}", "[5]", "[{path: /a}]", "[{rate: 1}]", "[{path: a, rate: 1}]"], |s| obj(s, "rate limit", false, NOT_LAX, &[("path", abs), ("rate", uint)], &[]))
    }
    fn weight(s: &mut Src) -> Node {
        Node::leaf(10 + s.n(991) as u64, &["9", "1001", "0", "-1", "1.5", "abc", "true", "[]", "{}", "'10'", "65536"])
    }
    fn weights(s: &mut Src) -> Node {
        list(s, 2, &["5", "abc", "{}", "[5]", "[{path: /a}]", "[{weight: 10}]", "[{path: a, weight: 10}]", "[{path: /a, weight: 1}]"], |s| {
            obj(s, "device weight", false, NOT_LAX, &[("path", abs), ("weight", weight)], &[])
        })
    }
    obj(
        s,
        "blkio_config",
        false,
        NOT_LAX,
        &[],
        &[("device_read_bps", bps), ("device_read_iops", iops), ("device_write_bps", bps), ("device_write_iops", iops), ("weight", weight), ("weight_device", weights)],
    )
}

fn command(s: &mut Src) -> Node {
    const BAD: Bad = &["5", "true", "{}", "{a: b}", "[5]", "[[]]", "[{}]", "1.5"];
    if s.chance(50) { text(s).with_bad(BAD) } else { list(s, 4, BAD, text).keep() }
}

fn credential_spec(s: &mut Src) -> Node {
    let source = s.pick(&["config", "file", "registry"]);
    let node = match source {
        "config" => ident(s),
        "file" => path(s),
        _ => text(s),
    };
    finish(s, "credential_spec", true, &["5", "true", "abc", "[]", "{}", "{config: a, file: b}", "{file: a, registry: b}", "{file: a, zz: b}"], vec![(source.to_owned(), node)])
}

fn depends_on(s: &mut Src) -> Node {
    const BAD: Bad = &["5", "abc", "true", "[5]", "[[]]", "['']", "['a b']", "{a: 5}", "{a: b}", "{a: []}", "{a: {}}", "{'a b': {condition: service_started}}", "{a: {condition: bogus}}"];
    if s.chance(50) {
        set(s, 3, BAD, ident)
    } else {
        map_of(s, 3, BAD, ident_text, |s| {
            obj(
                s,
                "dependency",
                false,
                &["5", "abc", "[]", "{}", "{restart: true}", "{condition: bogus}", "{condition: 5}"],
                &[("condition", |s| keyword(&["service_started", "service_healthy", "service_completed_successfully"], s))],
                &[("restart", flag), ("required", unflag)],
            )
        })
    }
}

fn update_config(s: &mut Src) -> Node {
    obj(
        s,
        "update_config",
        true,
        NOT_OBJ,
        &[],
        &[
            ("parallelism", uint),
            ("delay", duration),
            ("failure_action", |s| keyword(&["continue", "pause"], s)),
            ("monitor", duration),
            ("max_failure_ratio", uint),
            ("order", |s| keyword(&["stop-first", "start-first"], s)),
        ],
    )
}

fn pids(s: &mut Src) -> Node {
    const BAD: Bad = &["-2", "1.5", "abc", "true", "[]", "{}", "4294967296"];
    if s.chance(20) { Node::leaf(-1, BAD) } else { Node::leaf(s.u64() & 0xffff_ffff, BAD) }
}

fn reserved_device(s: &mut Src) -> Node {
    fn capabilities(s: &mut Src) -> Node {
        set(s, 3, NOT_TEXTS, |s| Node::leaf(s.pick(&["gpu", "tpu", "nvidia-compute", "a b"]), NOT_TEXT)).keep()
    }
    fn count(s: &mut Src) -> Node {
        const BAD: Bad = &["bogus", "-1", "1.5", "true", "[]", "{}", "''"];
        if s.chance(50) { Node::leaf("all", BAD) } else { Node::leaf(s.u64(), BAD) }
    }
    obj(
        s,
        "reserved device",
        true,
        &["5", "abc", "[]", "{}", "{driver: a}", "{capabilities: a}", "{capabilities: [gpu], zz: 1}"],
        &[("capabilities", capabilities)],
        &[("driver", text), ("count", count), ("device_ids", texts), ("options", list_or_map)],
    )
}

pub fn resources(s: &mut Src) -> Node {
    fn limits(s: &mut Src) -> Node {
        obj(s, "limits", true, NOT_OBJ, &[], &[("cpus", cpus), ("memory", size), ("pids", pids)])
    }
    fn spec(s: &mut Src) -> Node {
        obj(s, "discrete_resource_spec", true, NOT_OBJ, &[], &[("kind", text), ("value", uint)])
    }
    fn generic(s: &mut Src) -> Node {
        list(s, 2, &["5", "abc", "{}", "[5]", "[{zz: 1}]"], |s| obj(s, "generic resource", true, NOT_OBJ, &[], &[("discrete_resource_spec", spec)]))
    }
    fn devices(s: &mut Src) -> Node {
        list(s, 2, &["5", "abc", "{}", "[5]", "[{}]"], reserved_device)
    }
    fn reservations(s: &mut Src) -> Node {
        obj(s, "reservations", true, NOT_OBJ, &[], &[("cpus", cpus), ("memory", size), ("devices", devices), ("generic_resources", generic)])
    }
    obj(s, "resources", true, NOT_OBJ, &[], &[("limits", limits), ("reservations", reservations)])
}

pub fn deploy(s: &mut Src) -> Node {
    fn preference(s: &mut Src) -> Node {
        obj(s, "preference", true, NOT_OBJ, &[], &[("spread", text)])
    }
    fn placement(s: &mut Src) -> Node {
        obj(
            s,
            "placement",
            true,
            NOT_OBJ,
            &[],
            &[("constraints", text_list), ("preferences", |s| list(s, 2, &["5", "abc", "{}", "[5]", "[{zz: 1}]"], preference)), ("max_replicas_per_node", uint)],
        )
    }
    fn restart_policy(s: &mut Src) -> Node {
        obj(
            s,
            "restart_policy",
            true,
            NOT_OBJ,
            &[],
            &[("condition", |s| keyword(&["none", "on-failure", "any"], s)), ("delay", duration), ("max_attempts", uint), ("window", duration)],
        )
    }
    obj(
        s,
        "deploy",
        true,
        NOT_OBJ,
        &[],
        &[
            ("endpoint_mode", |s| Node::leaf(s.pick(&["vip", "dnsrr", "other", "VIP"]), NOT_TEXT)),
            ("labels", list_or_map),
            ("mode", |s| keyword(&["global", "replicated"], s)),
            ("placement", placement),
            ("replicas", uint),
            ("resources", resources),
            ("restart_policy", restart_policy),
            ("rollback_config", update_config),
            ("update_config", update_config),
        ],
    )
}

fn develop(s: &mut Src) -> Node {
    fn rule(s: &mut Src) -> Node {
        obj(
            s,
            "watch rule",
            true,
            &["5", "abc", "[]", "{}", "{action: sync}", "{path: a}", "{action: bogus, path: a}", "{action: sync, path: a, zz: 1}"],
            &[("action", |s| keyword(&["rebuild", "sync", "sync+restart"], s)), ("path", path)],
            &[("ignore", |s| list(s, 3, NOT_TEXTS, path)), ("target", abs)],
        )
    }
    obj(s, "develop", false, NOT_LAX, &[], &[("watch", |s| list(s, 2, &["5", "abc", "{}", "[5]", "[{}]"], rule))])
}

fn permissions(s: &mut Src) -> &'static str {
    s.pick(&["", ":r", ":w", ":m", ":rw", ":rm", ":wm", ":rwm"])
}

fn devices(s: &mut Src) -> Node {
    set(s, 3, &["5", "abc", "{}", "[5]", "[abc]", "[[]]", "['']", "['/a:b']", "['/a:/b:q']"], |s| {
        Node::leaf(format!("/dev/{}:/dev/{}{}", word(s, LOWER, LOWER, 3), word(s, LOWER, LOWER, 3), permissions(s)), &["''", "abc", "'/a:b'", "'/a:/b:x'", "5", "[]", "{}"])
    })
}

fn cgroup_rules(s: &mut Src) -> Node {
    set(s, 3, &["5", "abc", "{}", "[5]", "[abc]", "[[]]", "['']"], |s| {
        let number = |s: &mut Src| if s.chance(30) { "*".to_owned() } else { s.n(300).to_string() };
        let (kind, major, minor) = (s.pick(&["a", "b", "c"]), number(s), number(s));
        Node::leaf(
            format!("{kind} {major}:{minor} {}", s.pick(&["r", "w", "m", "rw", "rm", "wm", "rwm"])),
            &["''", "abc", "d 1:1 r", "a 1 r", "a 1:1 x", "x 1:1 r", "a x:1 r", "5", "[]", "{}"],
        )
    })
}

fn env_file(s: &mut Src) -> Node {
    const BAD: Bad = &["5", "true", "{}", "{path: a}", "[5]", "[[]]", "[{}]", "[{required: true}]", "[{path: 5}]"];
    if s.chance(40) {
        return path(s).with_bad(BAD);
    }
    list(s, 3, BAD, |s| {
        if s.chance(50) {
            path(s).with_bad(&["5", "true", "[]", "{}", "{required: false}"])
        } else {
            obj(s, "env_file", false, &["5", "true", "[]", "{}", "{required: false}"], &[("path", path)], &[("required", unflag)])
        }
    })
    .keep()
}

fn expose(s: &mut Src) -> Node {
    const ITEM: Bad = &["65536", "-1", "1.5", "abc", "''", "2-1", "1-", "-1", "true", "[]", "{}", "'65536'", "1-65536"];
    set(s, 3, &["5", "abc", "{}", "[-1]", "[65536]", "[abc]", "[[]]"], |s| {
        let a = port_number(s, 65_536) as u64;
        let protocol = s.pick(&["", "", "/tcp", "/udp", "/sctp"]);
        let range = if s.chance(40) {
            let (a, b) = port_range(s);
            format!("{a}-{b}")
        } else {
            a.to_string()
        };
        if protocol.is_empty() && !range.contains('-') {
            if s.chance(50) { Node::leaf(a, ITEM) } else { Node::shown(range, a, ITEM) }
        } else {
            Node::leaf(format!("{range}{protocol}"), ITEM)
        }
    })
}

fn extends(s: &mut Src) -> Node {
    obj(s, "extends", false, &["5", "true", "abc", "[]", "{}", "{file: a}", "{service: 'a b'}"], &[("service", ident)], &[("file", path)])
}

fn links(s: &mut Src) -> Node {
    set(s, 3, &["5", "abc", "{}", "[5]", "[[]]", "['']", "['a b']"], |s| {
        let service = ident_text(s);
        let alias = if s.chance(50) { format!(":{}", word(s, ALNUM, IDENT, 4)) } else { String::new() };
        Node::leaf(format!("{service}{alias}"), &["''", "'a b'", "-a", "5", "[]", "{}"])
    })
}

fn group_add(s: &mut Src) -> Node {
    set(s, 3, &["5", "abc", "{}", "[[]]", "['']", "['a b']", "[-1]", "[1.5]"], |s| {
        const ITEM: Bad = &["''", "'a b'", "-1", "1.5", "true", "[]", "{}", "'a:b'"];
        let id = s.u64() & 0xffff_ffff;
        match s.n(3) {
            0 => Node::leaf(id, ITEM),
            1 => Node::shown(id.to_string(), id, ITEM),
            _ => Node::leaf(word(s, LOWER, &['a', 'b', '0', '_', '-'], 5), ITEM),
        }
    })
}

pub fn healthcheck(s: &mut Src) -> Node {
    const BAD: Bad = &["5", "true", "abc", "[]", "{zz: 1}", "{disable: 5}", "{disable: true, test: a}", "{disable: true, interval: 1s}", "{test: [NONE], retries: 1}", "{test: [a]}", "{test: []}"];
    fn test(s: &mut Src) -> Node {
        const BAD: Bad = &["5", "true", "{}", "[]", "[a]", "[cmd, a]", "[CMD-SHELL]", "[CMD-SHELL, a, b]", "[5]", "[[]]", "[NONE, a]", "[CMD, 5]"];
        match s.n(3) {
            0 => text(s).with_bad(BAD),
            1 => {
                let t = string(s);
                Node::shown(YamlValue::from(vec![YamlValue::from("CMD-SHELL"), t.as_str().into()]), t, BAD)
            }
            _ => {
                let n = s.n(4);
                let mut items = vec![Node::leaf("CMD", &["cmd", "''", "5", "[]", "EXEC"])];
                (0..n).for_each(|_| items.push(text(s)));
                Node::seq(items, BAD)
            }
        }
    }
    let disabled = || Node { kind: Kind::Obj(Obj { what: "disabled healthcheck", ext: false, fields: vec![("disable".to_owned(), Node::leaf(true, NOT_BOOL))] }), bad: BAD, omit: false };
    match s.n(8) {
        1 => disabled(),
        2 => Node::alt(yaml("{test: [NONE]}"), disabled(), BAD),
        _ => obj(
            s,
            "healthcheck",
            true,
            BAD,
            &[],
            &[
                ("test", test),
                ("interval", duration),
                ("timeout", duration),
                ("retries", uint),
                ("start_period", duration),
                ("start_interval", duration),
            ],
        ),
    }
}

fn service_or(s: &mut Src, words: &[&'static str], prefixes: &[&'static str]) -> String {
    if s.chance(50) { s.pick(words).to_owned() } else { format!("{}{}", s.pick(prefixes), ident_text(s)) }
}

fn logging(s: &mut Src) -> Node {
    fn options(s: &mut Src) -> Node {
        map_of(s, 3, &["5", "abc", "[]", "[a]", "{a: []}", "{a: {}}"], map_key, |s| if s.chance(20) { Node::leaf(YamlValue::Null, &["[]", "{}"]) } else { string_or_number(s) })
    }
    obj(s, "logging", true, NOT_OBJ, &[], &[("driver", text), ("options", options)])
}

fn mac(s: &mut Src) -> Node {
    let mac: Vec<String> = (0..6).map(|_| format!("{:02x}", s.n(256))).collect();
    Node::leaf(mac.join(":"), &["abc", "''", "'00:11:22:33:44'", "'00:11:22:33:44:55:66'", "'00:11:22:33:44:gg'", "'00-11-22-33-44-55'", "5", "[]", "{}"])
}

fn networks(s: &mut Src) -> Node {
    const BAD: Bad = &["5", "abc", "true", "[5]", "[[]]", "['']", "['a b']", "{a: 5}", "{a: b}", "{a: []}", "{'a b': null}", "{a: {zz: 1}}"];
    fn endpoint(s: &mut Src) -> Node {
        if s.chance(30) {
            return Node::leaf(YamlValue::Null, &["5", "abc", "[]", "{zz: 1}"]);
        }
        obj(
            s,
            "endpoint",
            true,
            NOT_OBJ,
            &[],
            &[
                ("aliases", |s| set(s, 3, &["5", "abc", "{}", "[5]", "['a b']", "[[]]"], host)),
                ("ipv4_address", |s| Node::leaf(ipv4(s).to_string(), &["abc", "'::1'", "''", "5", "[]", "{}", "1.1.1"])),
                ("ipv6_address", |s| Node::leaf(ipv6(s).to_string(), &["abc", "1.1.1.1", "''", "5", "[]", "{}", "1:2"])),
                ("link_local_ips", |s| set(s, 3, &["5", "abc", "{}", "[5]", "[abc]", "[[]]"], ip)),
                ("mac_address", mac),
                ("driver_opts", driver_opts),
                ("priority", uint),
            ],
        )
    }
    // unlike other lists an empty one is a setting
    if s.chance(50) { set(s, 3, BAD, ident).keep() } else { map_of(s, 3, BAD, ident_text, endpoint).keep() }
}

fn memswap(s: &mut Src) -> Node {
    const BAD: Bad = &["-2", "abc", "''", "5x", "1.5", "true", "[]", "{}"];
    if s.chance(30) { Node::leaf(-1, BAD) } else { size(s).with_bad(BAD) }
}

fn short_port(s: &mut Src) -> Node {
    const BAD: Bad = &[
        "65536", "-1", "1.5", "abc", "''", "'1:'", "'1-2:3'", "'2-1'", "'1:2:3:4'", "'1.1.1:1:1'", "true", "[]", "{}", "'65536:1'", "{published: 1}", "{target: a}", "{target: 1, zz: 1}",
        "{target: 65536}", "{target: 1, mode: bogus}",
    ];
    let len = if s.chance(30) { 1 + s.n(100) } else { 0 };
    let a = port_number(s, 65_536 - len);
    let range = |start: usize| if len == 0 { start.to_string() } else { format!("{start}-{}", start + len) };
    let host = if s.chance(60) { Some(range(port_number(s, 65_536 - len))) } else { None };
    let ip = if host.is_some() && s.chance(40) {
        match s.n(3) {
            0 => s.pick(&["127.0.0.1:", "0.0.0.0:", "[::1]:", "[fe80::1]:"]).to_owned(),
            1 => format!("{}:", ipv4(s)),
            _ => format!("[{}]:", ipv6(s)),
        }
    } else {
        String::new()
    };
    let protocol = s.pick(&["", "", "/tcp", "/udp", "/sctp"]);
    let container = range(a);
    let t = host.as_ref().map_or_else(|| format!("{container}{protocol}"), |h| format!("{ip}{h}:{container}{protocol}"));
    if t == a.to_string() {
        if s.chance(50) { Node::leaf(a as u64, BAD) } else { Node::shown(t, a as u64, BAD) }
    } else {
        // brackets around an IPv6 address are not written back
        let shown = t.replace(['[', ']'], "");
        Node::shown(t, shown, BAD)
    }
}

fn port(s: &mut Src) -> Node {
    if s.chance(60) {
        return short_port(s);
    }
    fn published(s: &mut Src) -> Node {
        const BAD: Bad = &["65536", "-1", "abc", "''", "2-1", "true", "[]", "{}", "1.5", "1-", "1/tcp"];
        let a = port_number(s, 65_536) as u64;
        match s.n(3) {
            0 => Node::leaf(a, BAD),
            1 => Node::shown(a.to_string(), a, BAD),
            _ => {
                let (a, b) = port_range(s);
                Node::leaf(format!("{a}-{b}"), BAD)
            }
        }
    }
    obj(
        s,
        "port",
        true,
        &["65536", "-1", "abc", "''", "true", "[]", "{}", "{published: 1}", "{target: 1, zz: 1}"],
        &[("target", |s| Node::leaf(port_number(s, 65_536) as u64, &["65536", "-1", "abc", "''", "1.5", "true", "[]", "{}"]))],
        &[
            ("name", text),
            ("published", published),
            ("host_ip", ip),
            ("protocol", |s| Node::leaf(s.pick(&["tcp", "udp", "sctp"]), NOT_TEXT)),
            ("app_protocol", text),
            ("mode", |s| keyword(&["host", "ingress"], s)),
        ],
    )
}

fn user(s: &mut Src) -> Node {
    let one = |s: &mut Src| if s.chance(50) { (s.u64() & 0xffff_ffff).to_string() } else { word(s, LOWER, &['a', 'b', '0', '_', '-'], 5) };
    let u = one(s);
    let t = if s.chance(50) { format!("{u}:{}", one(s)) } else { u };
    Node::leaf(t, &["''", "'a b'", "':'", "'a:'", "':a'", "[]", "{}", "true", "'a:b:c'", "-a"])
}

const NOT_VOLUME: Bad = &[
    "''", "a", "'a:b'", "'a:/b:q'", "5", "true", "[]", "{}", "{type: bogus, target: /a}", "{target: /a}", "{type: tmpfs}", "{type: bind, target: /a}", "{type: cluster, target: /a}",
    "{type: volume, target: a}", "{type: tmpfs, target: /a, zz: 1}", "{type: tmpfs, target: /a, source: b}", "{type: tmpfs, target: /a, bind: {}}", "{type: volume, target: /a, tmpfs: {}}",
];

fn volume(s: &mut Src) -> Node {
    fn host_path(s: &mut Src) -> Node {
        Node::leaf(s.pick(&["./a", "../a", "/a/b", ".", "/", "./a b", "/é"]), &["''", "a", "a/b", "5", "[]", "{}", "true"])
    }
    fn consistency(s: &mut Src) -> Node {
        text(s)
    }
    let target = format!("/t{}{}", s.fresh(), s.pick(&["", "/a", "/a b", "/é"]));
    if s.chance(50) {
        let options = s.pick(&["", ":ro", ":z", ":Z", ":ro,z", ":ro,Z"]);
        let source = match s.n(3) {
            0 => return Node::leaf(target, NOT_VOLUME),
            1 => ident_text(s),
            _ => s.pick(&["./a", "../a", "/a", "/a/b", ".", "..", "/"]).to_owned(),
        };
        return Node::leaf(format!("{source}:{target}{options}"), NOT_VOLUME);
    }
    let kind = s.pick(&["volume", "bind", "tmpfs", "npipe", "cluster"]);
    let mut fields = vec![("type".to_owned(), Node::leaf(kind, &["bogus", "''", "5", "[]", "{}"])), ("target".to_owned(), Node::leaf(target, NOT_ABS))];
    if s.chance(40) {
        fields.push(("read_only".to_owned(), flag(s)));
    }
    if s.chance(30) {
        fields.push(("consistency".to_owned(), consistency(s)));
    }
    let what = match kind {
        "volume" => {
            if s.chance(70) {
                fields.push(("source".to_owned(), ident(s)));
            }
            if s.chance(50) {
                fields.push(("volume".to_owned(), obj(s, "volume options", true, NOT_OBJ, &[], &[("nocopy", flag), ("subpath", path)])));
            }
            "volume mount"
        }
        "bind" => {
            fields.push(("source".to_owned(), host_path(s)));
            if s.chance(60) {
                let options = obj(
                    s,
                    "bind options",
                    true,
                    NOT_OBJ,
                    &[],
                    &[
                        ("propagation", |s| keyword(&["private", "rprivate", "shared", "rshared", "slave", "rslave"], s)),
                        ("create_host_path", flag),
                        ("selinux", |s| Node::leaf(s.pick(&["z", "Z"]), NOT_ENUM)),
                    ],
                );
                fields.push(("bind".to_owned(), options));
            }
            "bind mount"
        }
        "tmpfs" => {
            if s.chance(60) {
                fields.push(("tmpfs".to_owned(), obj(s, "tmpfs options", true, NOT_OBJ, &[], &[("size", size), ("mode", uint32)])));
            }
            "tmpfs mount"
        }
        "npipe" => {
            fields.push(("source".to_owned(), host_path(s)));
            "npipe mount"
        }
        _ => {
            fields.push(("source".to_owned(), text(s)));
            "cluster mount"
        }
    };
    finish(s, what, true, NOT_VOLUME, fields)
}

fn volumes_from(s: &mut Src) -> Node {
    set(s, 3, &["5", "abc", "{}", "[5]", "[[]]", "['']", "['a b']"], |s| {
        let source = format!("{}{}", s.pick(&["", "container:"]), ident_text(s));
        Node::leaf(format!("{source}{}", s.pick(&["", ":ro"])), &["''", "'a b'", "-a", "5", "[]", "{}"])
    })
}

fn cpuset(s: &mut Src) -> Node {
    let mut next = 0;
    let n = 1 + s.n(4);
    let parts: Vec<String> = (0..n)
        .map(|_| {
            let a = next + s.n(20);
            if s.chance(50) {
                let b = a + 2 + s.n(10);
                next = b + 2;
                format!("{a}-{b}")
            } else {
                next = a + 2;
                a.to_string()
            }
        })
        .collect();
    Node::leaf(parts.join(","), &["abc", "'1-'", "'-1'", "'1,,2'", "1-2-3", "-1", "1.5", "true", "[]", "{}", "'1,a'"])
}

pub const SERVICE: &[F] = &[
    ("image", image),
    ("attach", unflag),
    ("build", build),
    ("blkio_config", blkio),
    ("cpu_count", uint),
    ("cpu_percent", percent),
    ("cpu_shares", uint),
    ("cpu_period", micros),
    ("cpu_quota", micros),
    ("cpu_rt_runtime", |s| duration(s).with_bad(&["abc", "''", "5x", "-1", "1.5", "true", "[]", "{}"])),
    ("cpu_rt_period", |s| duration(s).with_bad(&["abc", "''", "5x", "-1", "1.5", "true", "[]", "{}"])),
    ("cpus", cpus),
    ("cpuset", cpuset),
    ("cap_add", texts),
    ("cap_drop", texts),
    ("cgroup", |s| keyword(&["host", "private"], s)),
    ("cgroup_parent", text),
    ("command", command),
    ("configs", grants),
    ("container_name", ident),
    ("credential_spec", credential_spec),
    ("depends_on", depends_on),
    ("deploy", deploy),
    ("develop", develop),
    ("device_cgroup_rules", cgroup_rules),
    ("devices", devices),
    ("dns", |s| item_or_list(s, &["5", "abc", "true", "{}", "[5]", "[abc]", "[[]]"], ip)),
    ("dns_opt", texts),
    ("dns_search", |s| item_or_list(s, &["5", "'a b'", "true", "{}", "[5]", "['a b']", "[[]]"], host)),
    ("domainname", host),
    ("entrypoint", command),
    ("env_file", env_file),
    ("environment", list_or_map),
    ("expose", expose),
    ("extends", extends),
    ("annotations", list_or_map),
    ("external_links", links),
    ("extra_hosts", extra_hosts),
    ("group_add", group_add),
    ("healthcheck", healthcheck),
    ("hostname", host),
    ("init", flag),
    ("ipc", |s| Node::leaf(service_or(s, &["shareable", "host", "private", "other"], &["service:"]), &["'service:'", "'service:a b'", "5", "true", "[]", "{}"])),
    ("uts", |s| keyword(&["host"], s)),
    ("isolation", text),
    ("labels", list_or_map),
    ("links", links),
    ("logging", logging),
    ("networks", networks),
    (
        "network_mode",
        |s| {
            let t = service_or(s, &["none", "host", "bridge", "other"], &["service:", "container:"]);
            Node::leaf(t, &["'service:'", "'service:a b'", "'container:'", "5", "true", "[]", "{}"])
        },
    ),
    ("mac_address", mac),
    ("mem_limit", size),
    ("mem_reservation", size),
    ("mem_swappiness", percent),
    ("memswap_limit", memswap),
    ("oom_kill_disable", flag),
    ("oom_score_adj", |s| Node::leaf(s.n(2001) as i64 - 1000, &["-1001", "1001", "1.5", "abc", "'1'", "true", "[]", "{}", "65536"])),
    ("pid", text),
    ("pids_limit", pids),
    ("platform", platform),
    ("ports", |s| set(s, 4, &["5", "abc", "{}", "['']", "[abc]", "[[]]", "[{}]", "[65536]", "[-1]"], port)),
    ("privileged", flag),
    ("profiles", |s| set(s, 3, &["5", "abc", "{}", "['']", "[5]", "[[]]", "['a b']"], ident)),
    ("pull_policy", |s| match s.n(5) {
        0 => Node::shown("if_not_present", "missing", NOT_ENUM),
        _ => keyword(&["always", "never", "missing", "build"], s),
    }),
    ("read_only", flag),
    ("restart", |s| keyword(&["no", "always", "on-failure", "unless-stopped"], s)),
    ("runtime", text),
    ("scale", uint),
    ("secrets", grants),
    ("security_opt", texts),
    ("shm_size", size),
    ("stdin_open", flag),
    ("stop_grace_period", |s| duration(s).with_bad(&["abc", "''", "5x", "-1", "1.5", "true", "[]", "{}"])),
    ("stop_signal", text),
    ("storage_opt", |s| map_of(s, 3, &["5", "abc", "[]", "[a]", "{a: []}", "{a: {}}"], map_key, scalar_or_null)),
    ("sysctls", list_or_map),
    ("tmpfs", |s| item_or_list(s, &["5", "a", "./a", "true", "{}", "[5]", "[a]", "[[]]"], abs)),
    ("tty", flag),
    ("ulimits", ulimits),
    ("user", user),
    ("userns_mode", text),
    ("volumes", |s| set(s, 4, &["5", "abc", "{}", "['']", "[a]", "[[]]", "[{}]", "[5]"], volume)),
    ("volumes_from", volumes_from),
    ("working_dir", abs),
];

/// Settings with parts of their own, chosen more often.
const HEAVY: &[&str] = &[
    "build", "blkio_config", "configs", "credential_spec", "depends_on", "deploy", "develop", "env_file", "environment", "healthcheck", "logging", "networks", "ports", "secrets", "ulimits", "volumes",
];

pub fn service(s: &mut Src) -> Node {
    let n = s.count(7);
    let n = if n > 7 && s.chance(40) { 200 } else { n };
    let mut fields: Vec<(String, Node)> = Vec::new();
    for _ in 0..n {
        let k = if s.chance(40) { s.pick(HEAVY) } else { SERVICE[s.n(SERVICE.len())].0 };
        add_service_field(s, &mut fields, k);
    }
    finish(s, "service", true, NOT_OBJ, fields)
}

/// The service setting `key` generated.
pub fn service_field(s: &mut Src, key: &str) -> Node {
    let (_, f) = SERVICE.iter().find(|(k, _)| *k == key).expect("harness: service field");
    f(s)
}

fn add_service_field(s: &mut Src, fields: &mut Vec<(String, Node)>, key: &str) {
    let excluded = |k: &str| k == key || matches!((k, key), ("networks", "network_mode") | ("network_mode", "networks"));
    let node = service_field(s, key);
    if !fields.iter().any(|(k, _)| excluded(k)) {
        fields.push((key.to_owned(), node));
    }
}

fn include(s: &mut Src) -> Node {
    const BAD: Bad = &["5", "true", "[]", "{}", "{env_file: a}", "{path: 5}", "{path: {}}"];
    fn paths(s: &mut Src) -> Node {
        item_or_list(s, &["5", "true", "{}", "[5]", "[[]]", "[{}]"], path)
    }
    list(s, 3, &["5", "abc", "{}", "[5]", "[[]]", "[{}]"], |s| {
        if s.chance(50) { path(s).with_bad(BAD) } else { obj(s, "include", false, BAD, &[("path", paths)], &[("project_directory", text), ("env_file", paths)]) }
    })
}

fn external(s: &mut Src) -> Node {
    obj(s, "external", false, &["5", "abc", "[]", "{external: 5}", "{external: true, driver: a}", "{external: true, x-a: 1}", "{external: true, zz: 1}"], &[("external", |_| Node::leaf(true, &["5", "abc", "[]", "{}", "'true'"]))], &[("name", text)])
}

pub fn network(s: &mut Src) -> Node {
    fn subnet(s: &mut Src) -> Node {
        let t = match s.n(3) {
            0 => s.pick(&["10.0.0.0/8", "10.0.0.1/24", "0.0.0.0/0", "fe80::/64", "::/0", "192.168.1.0/32"]).to_owned(),
            1 => format!("{}/{}", ipv4(s), s.n(33)),
            _ => format!("{}/{}", ipv6(s), s.n(129)),
        };
        Node::leaf(t, &["abc", "10.0.0.0/33", "''", "10.0.0.0/", "5", "[]", "{}", "10.0.0.1"])
    }
    fn aux(s: &mut Src) -> Node {
        map_of(s, 3, &["5", "abc", "[]", "[a]", "{a: b}", "{a: []}", "{'a b': 1.1.1.1}"], host_text, ip)
    }
    fn config(s: &mut Src) -> Node {
        obj(s, "ipam config", true, NOT_OBJ, &[], &[("subnet", subnet), ("ip_range", subnet), ("gateway", ip), ("aux_addresses", aux)])
    }
    pub fn ipam(s: &mut Src) -> Node {
        obj(
            s,
            "ipam",
            true,
            NOT_OBJ,
            &[],
            &[
                ("driver", text),
                ("config", |s| list(s, 2, &["5", "abc", "{}", "[5]", "[[]]", "[{zz: 1}]"], config)),
                ("options", |s| map_of(s, 3, &["5", "abc", "[]", "[a]", "{a: []}", "{a: 5}", "{a: true}"], map_key, text)),
            ],
        )
    }
    obj(
        s,
        "network",
        true,
        NOT_OBJ,
        &[],
        &[
            ("driver", |s| Node::leaf(s.pick(&["host", "none", "bridge", "Host", "overlay"]), NOT_TEXT)),
            ("driver_opts", driver_opts),
            ("attachable", flag),
            ("enable_ipv6", flag),
            ("ipam", ipam),
            ("internal", flag),
            ("labels", list_or_map),
            ("name", text),
        ],
    )
}

pub fn top_volume(s: &mut Src) -> Node {
    obj(s, "volume", true, NOT_OBJ, &[], &[("driver", text), ("driver_opts", driver_opts), ("labels", list_or_map), ("name", text)])
}

fn with_source(s: &mut Src, what: &'static str, sources: &[F], some: &[F]) -> Node {
    let source = s.pick(sources);
    let mut fields = vec![(source.0.to_owned(), source.1(s))];
    for (k, f) in some {
        if s.chance(30) {
            fields.push(((*k).to_owned(), f(s)));
        }
    }
    finish(s, what, true, &["5", "abc", "[]", "{}", "{labels: {}}", "{file: a, environment: b}", "{file: a, zz: 1}", "{file: 5}"], fields)
}

pub fn config(s: &mut Src) -> Node {
    with_source(s, "config", &[("file", path), ("environment", text), ("content", text)], &[("labels", list_or_map)])
}

pub fn secret(s: &mut Src) -> Node {
    with_source(s, "secret", &[("file", path), ("environment", text)], &[("labels", list_or_map), ("driver", text), ("driver_opts", driver_opts)])
}

/// A map of resources which may be external.
fn resource(s: &mut Src, ordinary: fn(&mut Src) -> Node) -> Node {
    if s.chance(25) {
        return external(s);
    }
    let mut node = ordinary(s);
    // `external: false` is the default
    if s.chance(10) {
        if let Kind::Obj(o) = &mut node.kind {
            o.fields.push(("external".to_owned(), Node::hidden(false, NOT_BOOL)));
        }
    }
    node
}

const NOT_RESOURCES: Bad = &["5", "abc", "[]", "[a]", "{'a b': {}}", "{a: 5}", "{a: []}", "{a: b}", "{'': {}}"];

fn optional_resources(s: &mut Src, ordinary: [fn(&mut Src) -> Node; 1]) -> Node {
    let keys = keys(s, 3, ident_text);
    Node::map(
        keys.into_iter()
            .map(|k| (k, if s.chance(20) { Node::leaf(YamlValue::Null, &["5", "abc", "[]", "{zz: 1}"]) } else { resource(s, ordinary[0]) }))
            .collect(),
        NOT_RESOURCES,
    )
}

fn resources_of(s: &mut Src, ordinary: [fn(&mut Src) -> Node; 1]) -> Node {
    let keys = keys(s, 3, ident_text);
    Node::map(keys.into_iter().map(|k| (k, resource(s, ordinary[0]))).collect(), NOT_RESOURCES)
}

pub const TOP: &[F] = &[
    ("networks", |s| optional_resources(s, [network])),
    ("volumes", |s| optional_resources(s, [top_volume])),
    ("configs", |s| resources_of(s, [config])),
    ("secrets", |s| resources_of(s, [secret])),
    ("include", include),
    ("version", text),
    ("name", |s| Node::leaf(word(s, &['a', 'b', '0', '9'], &['a', 'z', '0', '_', '-'], 6), &["''", "A", "a.b", "-a", "_a", "'a b'", "5", "[]", "{}"])),
];

pub fn document(s: &mut Src) -> Node {
    s.maybe_endless();
    let n = 1 + s.count(2);
    let mut services: Vec<(String, Node)> = Vec::new();
    for _ in 0..n {
        let k = ident_text(s);
        let svc = service(s);
        if !services.iter().any(|(o, _)| *o == k) {
            services.push((k, svc));
        }
    }
    let mut fields = vec![("services".to_owned(), Node::map(services, &["5", "abc", "[]", "[a]", "{'a b': {}}", "{a: 5}", "{a: []}", "{a: b}", "{'': {}}"]).keep())];
    let n = s.n(4);
    for _ in 0..n {
        let (k, f) = s.pick(TOP);
        if !fields.iter().any(|(o, _)| o == k) {
            let node = f(s);
            fields.push((k.to_owned(), node));
        }
    }
    finish(s, "document", true, &["5", "abc", "[]", "{}", "{name: a}"], fields)
}

/// A document with just one service, which has these settings.
pub fn one_service(fields: Vec<(String, Node)>) -> Node {
    let group = |what, fields| Node { kind: Kind::Obj(Obj { what, ext: true, fields }), bad: NONE, omit: false };
    let services = Node::map(vec![("svc".to_owned(), group("service", fields))], NONE).keep();
    group("document", vec![("services".to_owned(), services)])
}
