//! Generators shared by the checks.

use proptest::prelude::*;
use serde_yaml::Value;

/// Characters which sit next to some grammar's boundary.
const NASTY: &[char] = &[
    'a', 'z', 'A', 'Z', '0', '9', '-', '_', '.', ':', '/', '@', '=', ',', '+', ' ', '\t', '\n', '\r', '$', '~', '*',
    '#', '[', ']', '{', '}', '%', '&', '!', '?', '\\', '\'', '"', '`', '{', '\0', '\u{7f}', '\u{85}', '\u{a0}',
    'é', 'ß', 'İ', '٣', '０', '中', '\u{200b}', '🦀', '^', '(', ')', '<', '>', '|', ';', 'x', 'k', 'b',
];

pub fn nasty_char() -> BoxedStrategy<char> {
    prop_oneof![8 => prop::sample::select(NASTY), 1 => any::<char>()].boxed()
}

#[derive(Clone, Debug)]
pub enum Edit {
    Insert(prop::sample::Index, char),
    Delete(prop::sample::Index),
    Replace(prop::sample::Index, char),
    Double(prop::sample::Index),
    Swap(prop::sample::Index),
    Truncate(prop::sample::Index),
    Prepend(char),
    Append(char),
    /// Repeat a character until the whole is that many bytes long.
    Stretch(prop::sample::Index, usize),
    /// Repeat a piece so many times, as in a name of that many parts.
    Tile(prop::sample::Index, usize, usize),
}

/// Lengths around those at which a grammar, a buffer or a number type may end.
pub fn edge_len() -> BoxedStrategy<usize> {
    let ends = vec![4usize, 8, 10, 16, 20, 31, 32, 63, 64, 100, 127, 128, 252, 253, 255, 256];
    (prop::sample::select(ends), 0..5usize).prop_map(|(n, d)| n + 2 - d).boxed()
}

/// A plain run with one wide character in it, so that the character lies across any one length.
pub fn wide_at() -> BoxedStrategy<String> {
    (prop::sample::select(vec!['a', '0', '/', '.', '-', ':']), edge_len(), prop::sample::select(vec!['é', '中', '🦀']), prop_oneof![0..4usize, edge_len()])
        .prop_map(|(c, n, w, m)| {
            let run = |n| std::iter::repeat(c).take(n).collect::<String>();
            format!("{}{w}{}", run(n), run(m))
        })
        .boxed()
}

fn edit() -> impl Strategy<Value = Edit> {
    let ix = any::<prop::sample::Index>();
    prop_oneof![
        3 => (ix.clone(), nasty_char()).prop_map(|(i, c)| Edit::Insert(i, c)),
        2 => ix.clone().prop_map(Edit::Delete),
        3 => (ix.clone(), nasty_char()).prop_map(|(i, c)| Edit::Replace(i, c)),
        2 => ix.clone().prop_map(Edit::Double),
        1 => ix.clone().prop_map(Edit::Swap),
        1 => ix.clone().prop_map(Edit::Truncate),
        1 => (ix.clone(), edge_len()).prop_map(|(i, n)| Edit::Stretch(i, n)),
        1 => (ix, 1..5usize, edge_len()).prop_map(|(i, piece, n)| Edit::Tile(i, piece, n)),
        1 => nasty_char().prop_map(Edit::Prepend),
        1 => nasty_char().prop_map(Edit::Append),
    ]
}

fn apply(s: &str, edits: &[Edit]) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for e in edits {
        let n = v.len();
        match e {
            Edit::Insert(i, c) => v.insert(i.index(n + 1), *c),
            Edit::Prepend(c) => v.insert(0, *c),
            Edit::Append(c) => v.push(*c),
            Edit::Truncate(i) => v.truncate(i.index(n + 1)),
            _ if n == 0 => {}
            Edit::Delete(i) => {
                v.remove(i.index(n));
            }
            Edit::Replace(i, c) => v[i.index(n)] = *c,
            Edit::Double(i) => {
                let i = i.index(n);
                v.insert(i, v[i]);
            }
            Edit::Stretch(i, len) => {
                let i = i.index(n);
                let c = v[i];
                let size: usize = v.iter().map(|c| c.len_utf8()).sum();
                let more = len.saturating_sub(size) / c.len_utf8();
                v.splice(i..i, std::iter::repeat(c).take(more));
            }
            Edit::Tile(i, piece, times) => {
                let i = i.index(n);
                let piece = v[i..n.min(i + piece)].to_vec();
                // Keeps texts with several such edits short.
                let times = (*times).min(2000_usize.saturating_sub(n) / piece.len());
                v.splice(i..i, piece.repeat(times));
            }
            Edit::Swap(i) => {
                let i = i.index(n);
                let j = (i + 1) % n;
                v.swap(i, j);
            }
        }
    }
    v.into_iter().collect()
}

/// Strings a few edits away from those of `base`.
pub fn near<S: Strategy<Value = String> + 'static>(base: S) -> BoxedStrategy<String> {
    (base, prop::collection::vec(edit(), 1..4))
        .prop_map(|(s, e)| apply(&s, &e))
        .boxed()
}

/// Valid strings, near-misses and arbitrary text.
pub fn mixed<S: Strategy<Value = String> + Clone + 'static>(base: S) -> BoxedStrategy<String> {
    prop_oneof![
        4 => base.clone(),
        6 => near(base),
        1 => text(),
        1 => ".{0,20}",
    ]
    .boxed()
}

pub fn text() -> BoxedStrategy<String> {
    prop::collection::vec(nasty_char(), 0..12)
        .prop_map(|v| v.into_iter().collect())
        .boxed()
}

pub fn one_line_nonempty() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-zA-Z][a-zA-Z0-9_.-]{0,8}",
        1 => prop::collection::vec(nasty_char(), 1..8)
            .prop_map(|v| v.into_iter().filter(|c| *c != '\n').collect::<String>())
            .prop_map(|s| if s.is_empty() { "k".to_owned() } else { s }),
    ]
    .boxed()
}

pub fn ident() -> BoxedStrategy<String> {
    prop_oneof![
        6 => "[a-zA-Z0-9][a-zA-Z0-9._-]{0,10}",
        2 => prop::sample::select(vec!["a", "b", "c", "ro", "rw", "host", "none", "service", "container", "default", "0"]).prop_map(String::from),
        1 => "[0-9]{1,4}",
    ]
    .boxed()
}

pub fn name() -> BoxedStrategy<String> {
    "[a-z0-9][a-z0-9_-]{0,10}".boxed()
}

pub fn hostname() -> BoxedStrategy<String> {
    "[a-zA-Z0-9]([a-zA-Z0-9-]{0,5}[a-zA-Z0-9])?(\\.[a-zA-Z0-9]([a-zA-Z0-9-]{0,5}[a-zA-Z0-9])?){0,3}".boxed()
}

pub fn ulimit_resource() -> BoxedStrategy<String> {
    prop_oneof![2 => "[a-z]{1,10}", 1 => Just("nofile".to_owned()), 1 => Just("nproc".to_owned())].boxed()
}

pub fn user_name() -> BoxedStrategy<String> {
    prop_oneof![
        6 => "[a-zA-Z_][a-zA-Z0-9_-]{0,12}",
        2 => "[a-zA-Z0-9_][a-zA-Z0-9_-]{0,10}[a-zA-Z_]\\$?",
        1 => "[a-zA-Z_][a-zA-Z0-9_-]{28,31}",
    ]
    .boxed()
}

pub fn image_part() -> BoxedStrategy<String> {
    "[a-z0-9]{1,4}((\\.|_|__|-{1,3})[a-z0-9]{1,3}){0,2}".boxed()
}

pub fn image_part_dotless() -> BoxedStrategy<String> {
    "[a-z0-9]{1,4}((_|__|-{1,3})[a-z0-9]{1,3}){0,2}".boxed()
}

pub fn registry() -> BoxedStrategy<String> {
    ("[a-z0-9]{1,4}((_|__|-{1,2})[a-z0-9]{1,3}){0,1}\\.[a-z]{2,3}", prop::option::of(port()))
        .prop_map(|(h, p)| p.map_or(h.clone(), |p| format!("{h}:{p}")))
        .boxed()
}

pub fn port() -> BoxedStrategy<u16> {
    prop_oneof![
        6 => any::<u16>(),
        3 => 1..=9999u16,
        3 => prop::sample::select(vec![0u16, 1, 22, 80, 443, 8080, 65534, 65535]),
    ]
    .boxed()
}

pub fn tag() -> BoxedStrategy<String> {
    prop_oneof![6 => "[a-zA-Z0-9_][a-zA-Z0-9._-]{0,12}", 1 => "[a-zA-Z0-9_][a-zA-Z0-9._-]{120,127}"].boxed()
}

pub fn digest() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-z0-9]{1,4}([+._-][a-z0-9]{1,3}){0,2}:[a-zA-Z0-9=_-]{1,16}",
        1 => "sha256:[0-9a-f]{64}",
    ]
    .boxed()
}

/// Image name: registry?, path components (first one dotless when there is no registry).
pub fn image_name() -> BoxedStrategy<String> {
    prop_oneof![
        (registry(), prop::collection::vec(image_part(), 1..4)).prop_map(|(r, p)| format!("{r}/{}", p.join("/"))),
        (image_part_dotless(), prop::collection::vec(image_part(), 0..3)).prop_map(|(f, p)| {
            std::iter::once(f).chain(p).collect::<Vec<_>>().join("/")
        }),
        // single dotted component (all registry)
        image_part(),
    ]
    .boxed()
}

pub fn image() -> BoxedStrategy<String> {
    (image_name(), prop_oneof![
        Just(String::new()),
        tag().prop_map(|t| format!(":{t}")),
        digest().prop_map(|d| format!("@{d}")),
    ])
        .prop_map(|(n, t)| format!("{n}{t}"))
        .boxed()
}

/// Integers around interesting bounds.
pub fn edge_u64() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => 0..=2000u64,
        4 => any::<u64>(),
        2 => any::<u32>().prop_map(u64::from),
        3 => (0u32..64, -2i64..=2).prop_map(|(b, d)| (1u64 << b).wrapping_add_signed(d)),
        1 => prop::sample::select(vec![0, u64::MAX, i64::MAX as u64, i64::MAX as u64 + 1, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX / 1024, u64::MAX / 1024 + 1]),
    ]
    .boxed()
}

pub fn edge_i64() -> BoxedStrategy<i64> {
    prop_oneof![
        4 => -1200..=1200i64,
        3 => any::<i64>(),
        2 => any::<i32>().prop_map(i64::from),
        2 => edge_u64().prop_map(|v| v as i64),
        1 => prop::sample::select(vec![0, -1, i64::MIN, i64::MAX, i64::from(i32::MIN), i64::from(i32::MIN) - 1, i64::from(i32::MAX) + 1, i64::from(u32::MAX) + 1]),
    ]
    .boxed()
}

pub fn edge_f64() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => (-100000i32..100000).prop_map(|v| f64::from(v) / 8.0),
        2 => any::<f64>(),
        2 => edge_i64().prop_map(|v| v as f64),
        1 => prop::sample::select(vec![0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300, 9007199254740993.0, 4294967295.0, 4294967296.0, 2147483647.0, -2147483648.0, -2147483649.0]),
    ]
    .boxed()
}

/// Arbitrary YAML (string keys), small.
pub fn yaml() -> BoxedStrategy<Value> {
    let leaf = prop_oneof![
        1 => Just(Value::Null),
        1 => any::<bool>().prop_map(Value::Bool),
        2 => edge_u64().prop_map(Value::from),
        1 => edge_i64().prop_map(Value::from),
        1 => (-100000i32..100000).prop_map(|v| Value::from(f64::from(v) / 8.0)),
        3 => scalar_text().prop_map(Value::String),
    ];
    leaf.prop_recursive(3, 12, 4, |inner| {
        prop_oneof![
            prop::collection::vec(inner.clone(), 0..4).prop_map(Value::Sequence),
            prop::collection::vec((one_line_nonempty(), inner), 0..4).prop_map(|v| {
                Value::Mapping(v.into_iter().map(|(k, v)| (Value::String(k), v)).collect())
            }),
        ]
    })
    .boxed()
}

pub fn scalar_text() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-zA-Z][a-zA-Z0-9 _./-]{0,10}",
        1 => text(),
        1 => prop::sample::select(vec!["", "true", "false", "null", "~", "0", "-1", "1.5", "yes", "no", "0x10", "1e3", "<<", "- a", "a: b", "#c", "NONE", "CMD", "=", ":", "a=b", "default"]).prop_map(String::from),
    ]
    .boxed()
}

pub fn env_key() -> BoxedStrategy<String> {
    prop_oneof![4 => "[A-Z_][A-Z0-9_]{0,6}", 1 => "[a-z]{1,3}[.-][a-z]{1,3}", 1 => one_line_nonempty()].boxed()
}

/// Absolute container path.
pub fn abs_path() -> BoxedStrategy<String> {
    prop::collection::vec("[a-zA-Z0-9_.-]{1,6}", 0..4)
        .prop_map(|v| format!("/{}", v.join("/")))
        .boxed()
}

/// Any host path in the accepted forms.
pub fn host_path() -> BoxedStrategy<String> {
    (
        prop::sample::select(vec!["/", "./", "../", "~/", ".", "..", "~"]),
        prop::collection::vec("[a-zA-Z0-9_-]{1,6}", 0..3),
    )
        .prop_map(|(p, v)| {
            let rest = v.join("/");
            if rest.is_empty() {
                p.to_owned()
            } else if p.ends_with('/') {
                format!("{p}{rest}")
            } else {
                format!("{p}/{rest}")
            }
        })
        .boxed()
}
