//! C14 port mappings, C15 volume mounts, C27 path types.

use std::{
    borrow::Cow,
    net::IpAddr,
    path::{Path, PathBuf},
};

use compose_spec::{
    service::{
        ports::{self, Mode, Port, Protocol, Range, ShortPort, ShortRanges},
        volumes::{
            self,
            mount::{BindPropagation, Common},
            HostPath, Mount, SELinux, ShortVolume, Source,
        },
        AbsolutePath,
    },
    Identifier, Service, ShortOrLong, YamlValue,
};
use indexmap::IndexSet;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::{
    ensure, ensure_eq, fail,
    fw::{all, sub, Cov, Property, Res},
    gen,
    keys::{ref_extension_key, ref_identifier},
    scalar::{protocol_text, range_is, range_text, ref_protocol, ref_range},
    tmpl,
};

fn value<T: Serialize>(v: &T) -> Result<YamlValue, String> {
    serde_yaml::to_value(v).map_err(|e| format!("cannot serialise: {e}"))
}

// ---- C14 ----

type Ends = (u16, Option<u16>);

#[derive(Clone, Debug, PartialEq)]
struct RefPort {
    ip: Option<IpAddr>,
    host: Option<Ends>,
    container: Ends,
    protocol: Option<Protocol>,
}

fn span(r: Ends) -> u16 {
    r.1.unwrap_or(r.0) - r.0
}

/// `Err`: no claim; `Ok(None)`: must be rejected.
fn ref_port(s: &str) -> Result<Option<RefPort>, ()> {
    let (addr, protocol) = match s.split_once('/') {
        Some((_, "")) => return Err(()),
        Some((a, p)) => (a, Some(ref_protocol(p))),
        None => (s, None),
    };
    // the last part is the container port, the one before it the host port, the rest the address
    let parts: Vec<&str> = addr.split(':').collect();
    let container = ref_range(parts[parts.len() - 1])?;
    let host = match parts.len().checked_sub(2).map(|i| parts[i]) {
        None | Some("") => None,
        Some(h) => match ref_range(h)? {
            None => return Ok(None),
            some => some,
        },
    };
    let ip = if parts.len() > 2 {
        let text = parts[..parts.len() - 2].join(":");
        let inner = match text.strip_prefix('[').and_then(|t| t.strip_suffix(']')) {
            Some(inner) if inner.parse::<std::net::Ipv6Addr>().is_ok() => inner,
            // brackets around something else
            Some(_) => return Err(()),
            None => &text,
        };
        match inner.parse::<IpAddr>() {
            Ok(ip) => Some(ip),
            Err(_) => return Ok(None),
        }
    } else {
        None
    };
    let Some(container) = container else { return Ok(None) };
    if host.is_some_and(|h| span(h) != span(container)) {
        return Ok(None);
    }
    Ok(Some(RefPort { ip, host, container, protocol }))
}

fn port_is(p: &ShortPort, want: &RefPort, what: &str) -> Res {
    ensure_eq!(p.host_ip, want.ip, "{what}: host ip");
    ensure_eq!(p.ranges.host().map(|r| (r.start(), r.end())), want.host, "{what}: host ports");
    let c = p.ranges.container();
    ensure_eq!((c.start(), c.end()), want.container, "{what}: container ports");
    ensure_eq!(p.protocol, want.protocol, "{what}: protocol");
    Ok(())
}

/// (ip, host, container, protocol) of every published port.
type Published = (Option<IpAddr>, Option<u16>, u16, Option<Protocol>);

fn ref_expand(p: &RefPort) -> Vec<Published> {
    (0..=u32::from(span(p.container)))
        .map(|i| {
            let at = |r: Ends| u16::try_from(u32::from(r.0) + i).unwrap();
            (p.ip, p.host.map(at), at(p.container), p.protocol.clone())
        })
        .collect()
}

fn published(p: &Port) -> Result<Published, String> {
    ensure!(
        p.name.is_none() && p.app_protocol.is_none() && p.mode.is_none() && p.extensions.is_empty(),
        "a long port made from a short one has other options: {p:?}"
    );
    if let Some(r) = p.published {
        ensure!(r.end().is_none(), "a long port made from a short one has a range: {p:?}");
    }
    Ok((p.host_ip, p.published.map(|r| r.start()), p.target, p.protocol.clone()))
}

fn ip_text() -> BoxedStrategy<String> {
    prop_oneof![
        4 => any::<std::net::Ipv4Addr>().prop_map(|a| a.to_string()),
        3 => any::<std::net::Ipv6Addr>().prop_map(|a| a.to_string()),
        3 => any::<std::net::Ipv6Addr>().prop_map(|a| format!("[{a}]")),
        3 => prop::sample::select(vec!["127.0.0.1", "0.0.0.0", "::1", "::", "[::1]", "[::]", "fe80::1", "::ffff:1.2.3.4", "2001:db8::", "1:2:3:4:5:6:7:8"]).prop_map(String::from),
    ]
    .boxed()
}

/// Host and container ranges, mostly of equal size.
fn ranges_text() -> BoxedStrategy<(String, String)> {
    prop_oneof![
        4 => (gen::port(), gen::port()).prop_map(|(a, b)| (a.to_string(), b.to_string())),
        4 => (gen::port(), gen::port(), 0..30u16, -1..=1i32).prop_map(|(a, b, n, d)| {
            let n2 = i32::from(n) + if d == 0 { 0 } else { d };
            let n2 = u16::try_from(n2.max(0)).unwrap();
            let (a, b) = (a.min(65535 - n), b.min(65535 - n2));
            (format!("{a}-{}", a + n), format!("{b}-{}", b + n2))
        }),
        2 => (range_text(), range_text()),
        1 => (gen::port(), 0..60000u16).prop_map(|(a, n)| {
            let a = a.min(65535 - n);
            (format!("{a}-{}", a + n), format!("0-{n}"))
        }),
        1 => Just(("0-65535".to_owned(), "0-65535".to_owned())),
    ]
    .boxed()
}

fn port_text() -> BoxedStrategy<String> {
    (prop::option::of(ip_text()), ranges_text(), 0..4u8, prop::option::of(protocol_text()))
        .prop_map(|(ip, (host, container), form, protocol)| {
            let mut s = match (ip, form) {
                (Some(ip), 0 | 1) => format!("{ip}::{container}"),
                (Some(ip), _) => format!("{ip}:{host}:{container}"),
                (None, 0) => container,
                (None, 1) => format!(":{container}"),
                (None, _) => format!("{host}:{container}"),
            };
            if let Some(p) = protocol {
                s = format!("{s}/{p}");
            }
            s
        })
        .boxed()
}

fn one_port(s: &Service) -> Option<&ShortOrLong<ShortPort, Port>> {
    s.ports.first()
}

fn check_short_port(s: &String, cov: &mut Cov) -> Res {
    let got = s.parse::<ShortPort>().ok();
    let Ok(want) = ref_port(s) else {
        cov.label("no claim");
        return Ok(());
    };
    cov.nontrivial();
    cov.label(if want.is_some() { "valid" } else { "invalid" });
    ensure_eq!(got.is_some(), want.is_some(), "port {s:?} accepted");
    ensure_eq!(ShortPort::try_from(s.as_str()).ok(), got, "TryFrom<&str> of {s:?}");
    let doc = tmpl::service("ports: ['@']", &s.as_str().into())?;
    ensure_eq!(doc.is_some(), want.is_some(), "document with port {s:?} accepted");
    if !s.contains('/') {
        let ranges = s.parse::<ShortRanges>().ok();
        let want = want.as_ref().filter(|w| w.ip.is_none());
        ensure_eq!(
            ranges.map(|r| (r.host().map(|h| (h.start(), h.end())), (r.container().start(), r.container().end()))),
            want.map(|w| (w.host, w.container)),
            "ShortRanges of {s:?}"
        );
        let r = s.parse::<Range>().ok();
        ensure_eq!(
            r.map(|r| (r.start(), r.end())),
            want.filter(|_| !s.contains(':')).map(|w| w.container),
            "Range of {s:?}"
        );
    }
    let (Some(got), Some(want)) = (got, want) else { return Ok(()) };
    if want.ip.is_some() {
        cov.label("ip");
    }
    if want.host.is_some() {
        cov.label("host");
    }
    if want.container.1.is_some() {
        cov.label("range");
    }
    port_is(&got, &want, &format!("port {s:?}"))?;
    range_is(got.ranges.container(), want.container, "container")?;
    // printed form denotes the same mapping
    let text = got.to_string();
    ensure_eq!(ref_port(&text), Ok(Some(want.clone())), "meaning of {text:?}, printed for {s:?}");
    ensure_eq!(text.parse::<ShortPort>().ok().as_ref(), Some(&got), "parse of the printed {text:?}");
    let ranges = got.ranges.to_string();
    ensure_eq!(ranges.parse::<ShortRanges>().ok(), Some(got.ranges), "parse of the printed ranges {ranges:?}");
    // document
    let service = doc.expect("parsed");
    ensure_eq!(one_port(&service), Some(&ShortOrLong::Short(got.clone())), "port of a document with {s:?}");
    tmpl::stable(&service)?;
    let written = tmpl::written("ports: ['@']", &service)?;
    let plain = want.ip.is_none() && want.host.is_none() && want.container.1.is_none() && want.protocol.is_none();
    match written {
        Some(YamlValue::Number(n)) => {
            ensure!(plain, "port {s:?} is written as {n}");
            ensure_eq!(n.as_u64(), Some(u64::from(want.container.0)), "written port {s:?}");
        }
        Some(YamlValue::String(t)) => ensure_eq!(ref_port(&t), Ok(Some(want.clone())), "meaning of the written {t:?}"),
        other => fail!("port {s:?} is written as {other:?}"),
    }
    // expansion
    let expanded = ref_expand(&want);
    let long: Vec<Port> = got.clone().into_long_iter().collect();
    let got_expanded = long.iter().map(published).collect::<Result<Vec<_>, _>>()?;
    ensure_eq!(got_expanded, expanded, "long ports of {s:?}");
    let pairs: Vec<_> = got.ranges.into_iter().collect();
    ensure_eq!(
        pairs,
        expanded.iter().map(|p| (p.1, p.2)).collect::<Vec<_>>(),
        "port pairs of {s:?}"
    );
    for (port, tuple) in long.into_iter().zip(&expanded).take(40) {
        let back = port.clone().into_short();
        match back {
            Ok(short) => port_is(
                &short,
                &RefPort {
                    ip: tuple.0,
                    host: tuple.1.map(|p| (p, None)),
                    container: (tuple.2, None),
                    protocol: tuple.3.clone(),
                },
                "short form of a long port",
            )?,
            Err(p) => fail!("{p:?}, made from {s:?}, has no short form"),
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongPort {
    name: Option<String>,
    target: u16,
    published: Option<(u16, Option<u16>, bool)>,
    host_ip: Option<String>,
    protocol: Option<String>,
    app_protocol: Option<String>,
    mode: Option<bool>,
    ext: Vec<(String, String)>,
    order: Vec<u16>,
}

fn ext() -> BoxedStrategy<Vec<(String, String)>> {
    prop_oneof![
        3 => Just(vec![]),
        1 => prop::collection::vec(("x-[a-z0-9_-]{0,6}", gen::scalar_text()), 1..4).prop_map(|v| {
            let mut seen = std::collections::HashSet::new();
            v.into_iter().filter(|(k, _)| seen.insert(k.clone())).collect()
        }),
    ]
    .boxed()
}

fn opt<S: Strategy + 'static>(s: S) -> BoxedStrategy<Option<S::Value>>
where
    S::Value: Clone,
{
    prop_oneof![1 => Just(None), 1 => s.prop_map(Some)].boxed()
}

fn rare<S: Strategy + 'static>(s: S) -> BoxedStrategy<Option<S::Value>>
where
    S::Value: Clone,
{
    prop_oneof![5 => Just(None), 2 => s.prop_map(Some)].boxed()
}

fn long_port() -> BoxedStrategy<LongPort> {
    (
        (rare(gen::scalar_text()), gen::port(), opt((gen::port(), opt(gen::port()), any::<bool>()))),
        (
            opt(ip_text().prop_map(|s| s.trim_matches(|c| c == '[' || c == ']').to_owned())),
            opt(protocol_text()),
            rare(gen::scalar_text()),
            rare(any::<bool>()),
            ext(),
            prop::collection::vec(any::<u16>(), 12),
        ),
    )
        .prop_map(|((name, target, published), (host_ip, protocol, app_protocol, mode, ext, order))| LongPort {
            name,
            target,
            published: published.map(|(a, b, t)| match b {
                Some(b) => (a.min(b), Some(a.max(b)), t),
                None => (a, None, t),
            }),
            host_ip,
            protocol,
            app_protocol,
            mode,
            ext,
            order,
        })
        .boxed()
}

/// A mapping with the entries in an order given by `order`; extensions keep their relative order.
fn mapping(entries: Vec<(String, YamlValue)>, ext: &[(String, String)], order: &[u16]) -> YamlValue {
    let mut keyed: Vec<(u16, String, YamlValue)> = entries
        .into_iter()
        .enumerate()
        .map(|(i, (k, v))| (order.get(i).copied().unwrap_or(0), k, v))
        .collect();
    keyed.sort_by_key(|(o, ..)| *o);
    let mut list: Vec<(String, YamlValue)> = keyed.into_iter().map(|(_, k, v)| (k, v)).collect();
    for (i, (k, v)) in ext.iter().enumerate() {
        // spread the extensions over the mapping, in order
        let at = (i * 2 + usize::from(order.first().copied().unwrap_or(0) % 3)).min(list.len());
        let last = list.iter().rposition(|(k, _)| k.starts_with("x-")).map_or(0, |p| p + 1);
        list.insert(at.max(last), (k.clone(), v.as_str().into()));
    }
    YamlValue::Mapping(list.into_iter().map(|(k, v)| (YamlValue::String(k), v)).collect())
}

fn ext_is<'a>(
    got: impl Iterator<Item = (&'a compose_spec::ExtensionKey, &'a YamlValue)>,
    want: &[(String, String)],
    what: &str,
) -> Res {
    let got: Vec<(String, YamlValue)> = got.map(|(k, v)| (k.to_string(), v.clone())).collect();
    let want: Vec<(String, YamlValue)> = want.iter().map(|(k, v)| (k.clone(), v.as_str().into())).collect();
    ensure_eq!(got, want, "{what}: extensions");
    Ok(())
}

fn check_long_port(c: &LongPort, cov: &mut Cov) -> Res {
    if c.ext.iter().any(|(k, _)| !ref_extension_key(k)) {
        return Ok(());
    }
    let range = c.published.map(|(a, b, _)| (a, b.filter(|b| *b != a)));
    let range_value = |r: Ends, text: bool| -> YamlValue {
        match r.1 {
            Some(e) => format!("{}-{e}", r.0).into(),
            None if text => r.0.to_string().into(),
            None => r.0.into(),
        }
    };
    let mut entries: Vec<(String, YamlValue)> = vec![("target".into(), c.target.into())];
    let mut put = |k: &str, v: Option<YamlValue>| {
        if let Some(v) = v {
            entries.push((k.into(), v));
        }
    };
    put("name", c.name.clone().map(Into::into));
    put("published", c.published.map(|(_, _, t)| range_value(range.unwrap(), t)));
    put("host_ip", c.host_ip.clone().map(Into::into));
    put("protocol", c.protocol.clone().map(Into::into));
    put("app_protocol", c.app_protocol.clone().map(Into::into));
    put("mode", c.mode.map(|h| if h { "host" } else { "ingress" }.into()));
    let doc = mapping(entries, &c.ext, &c.order);
    let Some(service) = tmpl::service("ports: ['@']", &doc)? else { fail!("long port {doc:?} rejected") };
    let Some(ShortOrLong::Long(port)) = one_port(&service) else { fail!("long port {doc:?} is not long") };
    cov.nontrivial();
    ensure_eq!(port.name, c.name, "name");
    ensure_eq!(port.target, c.target, "target");
    ensure_eq!(port.published.map(|r| (r.start(), r.end())), range, "published");
    let ip: Option<IpAddr> = c.host_ip.as_ref().map(|i| i.parse().expect("ip"));
    ensure_eq!(port.host_ip, ip, "host_ip");
    let protocol = c.protocol.as_deref().map(ref_protocol);
    ensure_eq!(port.protocol, protocol, "protocol");
    ensure_eq!(port.app_protocol, c.app_protocol, "app_protocol");
    ensure_eq!(port.mode, c.mode.map(|h| if h { Mode::Host } else { Mode::Ingress }), "mode");
    ext_is(port.extensions.iter(), &c.ext, "port")?;
    tmpl::stable(&service)?;
    let written = tmpl::written("ports: ['@']", &service)?;
    let Some(YamlValue::Mapping(m)) = &written else { fail!("long port written as {written:?}") };
    ensure_eq!(m.len(), doc.as_mapping().unwrap().len(), "number of written keys of {doc:?} ({written:?})");
    for (k, v) in doc.as_mapping().unwrap() {
        let w = m.get(k);
        let same = match k.as_str() {
            Some("published") => w == Some(&range_value(range.unwrap(), false)),
            Some("host_ip") => w.and_then(|w| w.as_str()).and_then(|w| w.parse().ok()) == ip,
            _ => w == Some(v),
        };
        ensure!(same, "key {k:?} of {doc:?} is written as {w:?}");
    }
    // short form
    let short = port.clone().into_short();
    let expressible = c.name.is_none()
        && c.app_protocol.is_none()
        && c.mode.is_none()
        && c.ext.is_empty()
        && range.is_none_or(|r| r.1.is_none());
    cov.label(if expressible { "has short form" } else { "no short form" });
    match short {
        Ok(s) => {
            ensure!(expressible, "{port:?} was made short: {s:?}");
            port_is(&s, &RefPort { ip, host: range, container: (c.target, None), protocol }, "short form")?;
            let back: Vec<Port> = s.clone().into_long_iter().collect();
            ensure_eq!(back, vec![port.clone()], "long form of the short form");
        }
        Err(p) => {
            ensure!(!expressible, "{port:?} has no short form");
            ensure_eq!(&p, port, "long port given back");
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum RangeOp {
    Host(u16, Option<u16>),
    Container(u16, Option<u16>),
    Take,
    Print,
}

fn small_range() -> BoxedStrategy<(u16, Option<u16>)> {
    prop_oneof![
        2 => gen::port().prop_map(|p| (p, None)),
        4 => (gen::port(), 0..4u16).prop_map(|(p, d)| (p, Some(p.saturating_add(d)))),
        1 => (gen::port(), gen::port()).prop_map(|(a, b)| (a, Some(b))),
        1 => Just((0, Some(65535))),
        1 => Just((0, Some(65534))),
        1 => Just((1, Some(65535))),
    ]
    .boxed()
}

fn norm((a, b): (u16, Option<u16>)) -> Option<Ends> {
    match b {
        None => Some((a, None)),
        Some(b) if b == a => Some((a, None)),
        Some(b) if b > a => Some((a, Some(b))),
        _ => None,
    }
}

fn check_ranges_ops((host, container, ops): &(Option<Ends>, Ends, Vec<RangeOp>), cov: &mut Cov) -> Res {
    let new = |r: Ends| -> Result<Option<Range>, String> {
        let got = Range::new(r.0, r.1).ok();
        ensure_eq!(got.is_some(), norm(r).is_some(), "Range::new{r:?}");
        if let (Some(g), Some(w)) = (got, norm(r)) {
            range_is(g, w, "Range::new")?;
        }
        ensure_eq!(Range::try_from(r).ok(), got, "TryFrom<(u16, Option<u16>)>");
        if let Some(e) = r.1 {
            ensure_eq!(Range::try_from((r.0, e)).ok(), got, "TryFrom<(u16, u16)>");
            ensure_eq!(Range::try_from(r.0..=e).ok(), got, "TryFrom<RangeInclusive>");
        } else {
            ensure_eq!(Some(Range::from(r.0)), got, "From<u16>");
        }
        if let (Some(g), Some(w)) = (got, norm(r)) {
            ensure_eq!(g == r.0, w.1.is_none(), "Range {w:?} == its start");
            let d = 65535 - w.1.unwrap_or(w.0);
            let moved = g + d;
            ensure_eq!((moved.start(), moved.end()), (w.0 + d, w.1.map(|e| e + d)), "Range {w:?} + {d}");
            ensure_eq!(moved - d, g, "Range {w:?} + {d} - {d}");
            let low = g - w.0;
            ensure_eq!((low.start(), low.end()), (0, w.1.map(|e| e - w.0)), "Range {w:?} - {}", w.0);
        }
        Ok(got)
    };
    let Some(c) = new(*container)? else { return Ok(()) };
    let mut m_container = norm(*container).unwrap();
    let h = match host {
        Some(h) => match new(*h)? {
            Some(h) => Some(h),
            None => return Ok(()),
        },
        None => None,
    };
    let mut m_host = host.and_then(norm);
    let ok = m_host.is_none_or(|h| span(h) == span(m_container));
    let r = ShortRanges::new(h, c);
    ensure_eq!(r.is_ok(), ok, "ShortRanges::new({h:?}, {c:?})");
    let Ok(mut r) = r else { return Ok(()) };
    cov.nontrivial_if(!ops.is_empty());
    let ends = |r: Range| (r.start(), r.end());
    for op in ops {
        match op {
            RangeOp::Host(a, b) => {
                let Some(n) = new((*a, *b))? else { continue };
                let w = norm((*a, *b)).unwrap();
                let res = r.replace_host(n);
                if span(w) == span(m_container) {
                    cov.label("replaced host");
                    ensure_eq!(res.map(|o| o.map(ends)).ok(), Some(m_host), "replace_host({n:?})");
                    m_host = Some(w);
                } else {
                    ensure!(res.is_err(), "replace_host({n:?}) of {r:?} succeeded");
                }
            }
            RangeOp::Container(a, b) => {
                let Some(n) = new((*a, *b))? else { continue };
                let w = norm((*a, *b)).unwrap();
                let res = r.replace_container(n);
                if m_host.is_none_or(|h| span(h) == span(w)) {
                    cov.label("replaced container");
                    ensure_eq!(res.map(ends).ok(), Some(m_container), "replace_container({n:?})");
                    m_container = w;
                } else {
                    ensure!(res.is_err(), "replace_container({n:?}) of {r:?} succeeded");
                }
            }
            RangeOp::Take => {
                ensure_eq!(r.take_host().map(ends), m_host, "take_host");
                m_host = None;
            }
            RangeOp::Print => {
                let text = r.to_string();
                ensure_eq!(text.parse::<ShortRanges>().ok(), Some(r), "parse of the printed {text:?}");
            }
        }
        ensure_eq!(r.host().map(ends), m_host, "host after {op:?}");
        ensure_eq!(ends(r.container()), m_container, "container after {op:?}");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum PortItem {
    Number(u16),
    Text(String),
    Long(u16, Option<u16>, bool),
}

fn check_port_list(items: &Vec<PortItem>, cov: &mut Cov) -> Res {
    // expected: the expansion of all items, in order
    let mut docs = Vec::new();
    let mut want_long: Vec<Published> = Vec::new();
    let mut short_ok = Vec::new();
    let mut seen = IndexSet::new();
    for i in items {
        // equal items are one item
        let key = match i {
            PortItem::Number(n) => format!("{:?}", RefPort { ip: None, host: None, container: (*n, None), protocol: None }),
            PortItem::Text(t) => match ref_port(t) {
                Ok(Some(r)) => format!("{r:?}"),
                _ => continue,
            },
            PortItem::Long(..) => format!("{i:?}"),
        };
        if !seen.insert(key) {
            continue;
        }
        match i {
            PortItem::Number(n) => {
                docs.push(YamlValue::from(*n));
                want_long.push((None, None, *n, None));
                short_ok.push(true);
            }
            PortItem::Text(t) => {
                let r = ref_port(t).unwrap().unwrap();
                docs.push(t.as_str().into());
                want_long.extend(ref_expand(&r));
                short_ok.push(true);
            }
            PortItem::Long(t, p, named) => {
                let mut entries = vec![("target".to_owned(), YamlValue::from(*t))];
                if let Some(p) = p {
                    entries.push(("published".into(), (*p).into()));
                }
                if *named {
                    entries.push(("mode".into(), "host".into()));
                }
                docs.push(mapping(entries, &[], &[]));
                want_long.push((None, *p, *t, None));
                short_ok.push(!*named);
            }
        }
    }
    let n = docs.len();
    let Some(service) = tmpl::service("ports: '@'", &YamlValue::Sequence(docs.clone()))? else {
        fail!("ports {docs:?} rejected")
    };
    ensure_eq!(service.ports.len(), n, "number of ports of {docs:?}");
    cov.nontrivial_if(n > 1);
    let got: Vec<Published> = ports::into_long_iter(service.ports.clone())
        .map(|p| (p.host_ip, p.published.map(|r| r.start()), p.target, p.protocol))
        .collect();
    ensure_eq!(got, want_long, "long ports of {docs:?}");
    let short: Vec<_> = ports::into_short_iter(service.ports.clone()).collect();
    ensure_eq!(short.iter().map(Result::is_ok).collect::<Vec<_>>(), short_ok, "short ports of {docs:?}");
    let again: Vec<Published> = short
        .into_iter()
        .flat_map(|p| match p {
            Ok(s) => s.into_long_iter().collect::<Vec<_>>(),
            Err(l) => vec![l],
        })
        .map(|p| (p.host_ip, p.published.map(|r| r.start()), p.target, p.protocol))
        .collect();
    ensure_eq!(again, want_long, "ports of {docs:?} after converting to short syntax where possible");
    Ok(())
}

pub fn c14() -> Property {
    Property {
        id: "C14",
        subs: vec![
            sub(
                "short port text",
                "port mappings [ip:][host:]container[/protocol] with and without random edits; non-trivial: the reference decides it",
                12_000,
                || {
                    prop_oneof![
                        3 => port_text(),
                        3 => gen::near(port_text()),
                        1 => (gen::text(), port_text()).prop_map(|(t, p)| format!("{t}:{p}")),
                    ]
                },
                check_short_port,
            ),
            sub(
                "short port number",
                "a port given as an integer in a document; non-trivial: all",
                2_000,
                || prop_oneof![gen::port().prop_map(i64::from), gen::edge_i64()],
                |n, cov| {
                    cov.nontrivial();
                    let want = u16::try_from(*n).ok();
                    let got = tmpl::service("ports: ['@']", &YamlValue::from(*n))?;
                    ensure_eq!(got.is_some(), want.is_some(), "port {n} accepted");
                    if let (Some(s), Some(w)) = (got, want) {
                        ensure_eq!(one_port(&s), Some(&ShortOrLong::Short(ShortPort::from(w))), "port {n}");
                        port_is(
                            &ShortPort::from(w),
                            &RefPort { ip: None, host: None, container: (w, None), protocol: None },
                            "From<u16>",
                        )?;
                        ensure_eq!(tmpl::written("ports: ['@']", &s)?, Some(w.into()), "written port {n}");
                    }
                    Ok(())
                },
            ),
            sub(
                "long port",
                "long ports with every subset of options in any key order; non-trivial: all",
                10_000,
                long_port,
                check_long_port,
            ),
            sub(
                "range edits",
                "constructors of Range and ShortRanges and sequences of edits against a model; non-trivial: valid start and at least one edit",
                6_000,
                || {
                    let op = prop_oneof![
                        3 => small_range().prop_map(|(a, b)| RangeOp::Host(a, b)),
                        3 => small_range().prop_map(|(a, b)| RangeOp::Container(a, b)),
                        1 => Just(RangeOp::Take),
                        1 => Just(RangeOp::Print),
                    ];
                    (prop::option::of(small_range()), small_range(), prop::collection::vec(op, 0..8))
                },
                check_ranges_ops,
            ),
            sub(
                "port lists",
                "lists mixing short and long ports, converted to long and to short syntax; non-trivial: more than one port",
                5_000,
                || {
                    let item = prop_oneof![
                        2 => gen::port().prop_map(PortItem::Number),
                        4 => port_text().prop_filter("small", |t| ref_port(t).ok().flatten().is_none_or(|r| span(r.container) < 100)).prop_map(PortItem::Text),
                        2 => (gen::port(), prop::option::of(gen::port()), any::<bool>()).prop_map(|(a, b, c)| PortItem::Long(a, b, c)),
                    ];
                    prop::collection::vec(item, 0..6)
                },
                check_port_list,
            ),
        ],
        known: vec![],
        assumptions: &[
            "std's IpAddr parser decides which addresses are well formed",
            "no claim for an empty protocol, numbers with a plus sign and brackets around anything but an IPv6 address",
        ],
    }
}

// ---- C15 ----

fn ref_host_path(s: &str) -> bool {
    let first = s.split('/').next().unwrap_or("");
    s.starts_with('/') || first == "." || first == ".."
}

#[derive(Clone, Debug, PartialEq)]
enum RefSource {
    Host(String),
    Named(String),
}

fn ref_source(s: &str) -> Option<RefSource> {
    if s.starts_with('/') || s.starts_with('.') {
        ref_host_path(s).then(|| RefSource::Host(s.to_owned()))
    } else {
        ref_identifier(s).then(|| RefSource::Named(s.to_owned()))
    }
}

#[derive(Clone, Debug, PartialEq)]
struct RefVolume {
    source: Option<RefSource>,
    target: String,
    read_only: bool,
    selinux: Option<char>,
}

fn ref_volume(s: &str) -> Option<RefVolume> {
    let parts: Vec<&str> = s.split(':').collect();
    let target_of = |t: &str| t.starts_with('/').then(|| t.to_owned());
    match parts[..] {
        [target] => Some(RefVolume { source: None, target: target_of(target)?, read_only: false, selinux: None }),
        [source, target] => Some(RefVolume {
            source: Some(ref_source(source)?),
            target: target_of(target)?,
            read_only: false,
            selinux: None,
        }),
        [source, target, options] => {
            let options: Vec<&str> = options.split(',').collect();
            let count = |words: [&str; 2]| options.iter().filter(|o| words.contains(o)).count();
            let known = options.iter().all(|o| ["ro", "rw", "z", "Z"].contains(o));
            if !known || count(["ro", "rw"]) > 1 || count(["z", "Z"]) > 1 {
                return None;
            }
            Some(RefVolume {
                source: Some(ref_source(source)?),
                target: target_of(target)?,
                read_only: options.contains(&"ro"),
                selinux: if options.contains(&"z") {
                    Some('z')
                } else {
                    options.contains(&"Z").then_some('Z')
                },
            })
        }
        _ => None,
    }
}

fn text_of(p: &Path) -> String {
    p.to_str().expect("utf-8").to_owned()
}

fn selinux_char(s: SELinux) -> char {
    match s {
        SELinux::Shared => 'z',
        SELinux::Private => 'Z',
    }
}

fn source_of(s: &Source) -> RefSource {
    match s {
        Source::HostPath(p) => RefSource::Host(text_of(p.as_path())),
        Source::Volume(v) => RefSource::Named(v.to_string()),
    }
}

fn parts_of(v: &ShortVolume) -> RefVolume {
    RefVolume {
        source: v.options.as_ref().map(|o| source_of(&o.source)),
        target: text_of(v.container_path.as_path()),
        read_only: v.options.as_ref().is_some_and(|o| o.read_only),
        selinux: v.options.as_ref().and_then(|o| o.selinux).map(selinux_char),
    }
}

fn path_tail() -> BoxedStrategy<String> {
    prop_oneof![
        6 => prop::collection::vec("[a-zA-Z0-9_.-]{1,5}", 0..4).prop_map(|v| v.join("/")),
        1 => prop::collection::vec(prop::sample::select(vec!["", ".", "..", "a", ".b", "~", "c d", "é", "x,y", "ro"]), 0..5).prop_map(|v| v.join("/")),
    ]
    .boxed()
}

fn target_text() -> BoxedStrategy<String> {
    prop_oneof![8 => path_tail().prop_map(|t| format!("/{t}")), 1 => path_tail()].boxed()
}

fn source_text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => gen::ident(),
        3 => path_tail().prop_map(|t| format!("/{t}")),
        3 => (prop::sample::select(vec![".", ".."]), path_tail()).prop_map(|(p, t)| if t.is_empty() { p.to_owned() } else { format!("{p}/{t}") }),
        1 => prop::sample::select(vec![".a", "..a/b", "...", "~/a", "~", "a/b", "", "-a", ".-", "./", "../", "//", "C\\a"]).prop_map(String::from),
    ]
    .boxed()
}

fn options_text() -> BoxedStrategy<String> {
    prop_oneof![
        6 => prop::sample::select(vec!["ro", "rw", "z", "Z", "ro,z", "ro,Z", "rw,z", "rw,Z", "z,ro", "Z,ro", "z,rw", "Z,rw"]).prop_map(String::from),
        2 => prop::collection::vec(prop::sample::select(vec!["ro", "rw", "z", "Z", "", "RO", "nocopy", " ro", "zZ"]), 0..4).prop_map(|v| v.join(",")),
    ]
    .boxed()
}

fn volume_text() -> BoxedStrategy<String> {
    prop_oneof![
        1 => target_text(),
        2 => (source_text(), target_text()).prop_map(|(s, t)| format!("{s}:{t}")),
        4 => (source_text(), target_text(), options_text()).prop_map(|(s, t, o)| format!("{s}:{t}:{o}")),
    ]
    .boxed()
}

fn no_nul(s: &str) -> bool {
    !s.contains('\0')
}

fn check_common(c: &Common, want: &RefVolume, what: &str) -> Res {
    ensure_eq!(text_of(c.target.as_path()), want.target, "{what}: target");
    ensure_eq!(c.read_only, want.read_only, "{what}: read_only");
    ensure!(c.consistency.is_none() && c.extensions.is_empty(), "{what}: unexpected options {c:?}");
    Ok(())
}

fn check_short_volume(s: &String, cov: &mut Cov) -> Res {
    let want = ref_volume(s);
    let got = s.parse::<ShortVolume>().ok();
    cov.nontrivial();
    cov.label(if want.is_some() { "valid" } else { "invalid" });
    ensure_eq!(got.as_ref().map(parts_of), want, "volume {s:?}");
    let doc = tmpl::service("volumes: ['@']", &s.as_str().into())?;
    ensure_eq!(doc.is_some(), want.is_some(), "document with volume {s:?} accepted");
    if let Some(src) = s.split(':').next() {
        let parsed = src.parse::<Source>().ok();
        ensure_eq!(parsed.as_ref().map(source_of), ref_source(src), "source {src:?}");
        ensure_eq!(Source::try_from(src).ok(), parsed, "TryFrom<&str> of source {src:?}");
        ensure_eq!(Source::try_from(src.to_owned()).ok(), parsed, "TryFrom<String> of source {src:?}");
        ensure_eq!(Source::parse(src).ok(), parsed, "Source::parse({src:?})");
        if let Some(p) = parsed {
            ensure_eq!(p.to_string(), src, "printed source");
        }
        let as_path = ref_host_path(src).then(|| RefSource::Host(src.to_owned()));
        ensure_eq!(Source::try_from(Path::new(src)).ok().as_ref().map(source_of), as_path, "TryFrom<&Path> of source {src:?}");
        ensure_eq!(Source::try_from(PathBuf::from(src)).ok().as_ref().map(source_of), as_path, "TryFrom<PathBuf> of source {src:?}");
    }
    let (Some(got), Some(want)) = (got, want) else { return Ok(()) };
    let text = got.to_string();
    ensure_eq!(ref_volume(&text).as_ref(), Some(&want), "meaning of {text:?}, printed for {s:?}");
    ensure_eq!(text.parse::<ShortVolume>().ok().as_ref().map(parts_of).as_ref(), Some(&want), "parse of the printed {text:?}");
    let service = doc.expect("parsed");
    match service.volumes.first() {
        Some(ShortOrLong::Short(v)) => ensure_eq!(parts_of(v), want, "volume of a document with {s:?}"),
        other => fail!("volume {s:?} of a document is {other:?}"),
    }
    tmpl::stable(&service)?;
    let written = tmpl::written("volumes: ['@']", &service)?;
    let written = written.as_ref().and_then(|w| w.as_str()).unwrap_or("");
    ensure_eq!(ref_volume(written).as_ref(), Some(&want), "meaning of the written {written:?}");
    // long form
    let long = got.clone().into_long();
    ensure_eq!(&Mount::from(got.clone()), &long, "From<ShortVolume> for Mount");
    ensure_eq!(
        long.source_to_string(),
        want.source.as_ref().map(|s| match s {
            RefSource::Host(s) | RefSource::Named(s) => s.clone(),
        }),
        "source_to_string of {long:?}"
    );
    ensure_eq!(
        [long.is_volume(), long.is_bind(), long.is_tmpfs(), long.is_named_pipe(), long.is_cluster()],
        [
            !matches!(want.source, Some(RefSource::Host(_))),
            matches!(want.source, Some(RefSource::Host(_))),
            false,
            false,
            false
        ],
        "kind of {long:?}"
    );
    check_common(long.common(), &want, "long form")?;
    match (&long, &want.source) {
        (Mount::Bind(b), Some(RefSource::Host(h))) => {
            cov.label("bind");
            ensure_eq!(&text_of(b.source.as_path()), h, "source of {long:?}");
            let Some(o) = &b.bind else { fail!("{long:?} has no bind options") };
            ensure!(o.create_host_path, "{long:?}: create_host_path is implied by the short syntax");
            ensure_eq!(o.selinux.map(selinux_char), want.selinux, "selinux");
            ensure!(o.propagation.is_none() && o.extensions.is_empty(), "unexpected options {o:?}");
        }
        (Mount::Volume(v), source) => {
            cov.label(if source.is_some() { "named" } else { "anonymous" });
            let name = match source {
                Some(RefSource::Named(n)) => Some(n.as_str()),
                _ => None,
            };
            ensure_eq!(v.source.as_ref().map(Identifier::as_str), name, "source of {long:?}");
            ensure!(v.volume.is_none(), "unexpected options {v:?}");
        }
        _ => fail!("long form of {s:?} is {long:?}"),
    }
    // and back; the long syntax of a volume has no place for SELinux relabelling
    if want.selinux.is_none() || matches!(want.source, Some(RefSource::Host(_))) {
        ensure_eq!(long.clone().into_short().ok(), Some(got), "short form of the long form of {s:?}");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MountCase {
    kind: u8,
    source: Option<String>,
    target: String,
    read_only: Option<bool>,
    consistency: Option<String>,
    ext: Vec<(String, String)>,
    nested: bool,
    flag: Option<bool>,
    word: Option<u8>,
    text: Option<String>,
    number: Option<u32>,
    nested_ext: Vec<(String, String)>,
    order: Vec<u16>,
}

const PROPAGATION: [(&str, BindPropagation); 8] = [
    ("private", BindPropagation::Private),
    ("shared", BindPropagation::Shared),
    ("slave", BindPropagation::Slave),
    ("unbindable", BindPropagation::Unbindable),
    ("rprivate", BindPropagation::RPrivate),
    ("rshared", BindPropagation::RShared),
    ("rslave", BindPropagation::RSlave),
    ("runbindable", BindPropagation::RUnbindable),
];

fn mount_case() -> BoxedStrategy<MountCase> {
    (
        (
            prop::sample::select(vec![0u8, 0, 0, 1, 1, 1, 2, 3, 4]),
            (gen::ident(), gen::host_path(), any::<bool>()),
            gen::abs_path(),
            opt(any::<bool>()),
            rare(gen::scalar_text()),
            ext(),
        ),
        (
            any::<bool>(),
            opt(any::<bool>()),
            rare(0..16u8),
            rare("[a-zA-Z0-9_.-]{1,6}(/[a-z]{1,3}){0,2}"),
            opt(any::<u32>()),
            ext(),
            prop::collection::vec(any::<u16>(), 12),
        ),
    )
        .prop_map(|((kind, (name, path, has), target, read_only, consistency, ext), (nested, flag, word, text, number, nested_ext, order))| {
            // the host paths which are not volume sources start with ~
            let path = path.replace('~', "..");
            let source = match kind {
                0 => has.then_some(name),
                1 | 3 => Some(path),
                2 => None,
                _ => Some(name),
            };
            MountCase { kind, source, target, read_only, consistency, ext, nested, flag, word, text, number, nested_ext, order }
        })
        .boxed()
}

const KINDS: [&str; 5] = ["volume", "bind", "tmpfs", "npipe", "cluster"];

fn check_mount(c: &MountCase, cov: &mut Cov) -> Res {
    if !c.ext.iter().chain(&c.nested_ext).all(|(k, _)| ref_extension_key(k)) {
        return Ok(());
    }
    let propagation = c.word.map(|w| PROPAGATION[usize::from(w % 8)]);
    let selinux = c.number.and_then(|n| match n % 4 {
        0 => Some('z'),
        1 => Some('Z'),
        _ => None,
    });
    let mut inner: Vec<(String, YamlValue)> = Vec::new();
    match c.kind {
        0 => {
            inner.extend(c.flag.map(|f| ("nocopy".to_owned(), f.into())));
            inner.extend(c.text.clone().map(|t| ("subpath".to_owned(), t.into())));
        }
        1 => {
            inner.extend(propagation.map(|(w, _)| ("propagation".to_owned(), w.into())));
            inner.extend(c.flag.map(|f| ("create_host_path".to_owned(), f.into())));
            inner.extend(selinux.map(|s| ("selinux".to_owned(), s.to_string().into())));
        }
        2 => {
            inner.extend(c.text.as_ref().map(|t| ("size".to_owned(), YamlValue::from(format!("{}b", t.len())))));
            inner.extend(c.number.map(|n| ("mode".to_owned(), n.into())));
        }
        _ => {}
    }
    let nested = c.nested && c.kind < 3;
    let mut entries: Vec<(String, YamlValue)> = vec![("type".into(), KINDS[usize::from(c.kind)].into()), ("target".into(), c.target.as_str().into())];
    entries.extend(c.source.clone().map(|s| ("source".to_owned(), s.into())));
    entries.extend(c.read_only.map(|r| ("read_only".to_owned(), r.into())));
    entries.extend(c.consistency.clone().map(|s| ("consistency".to_owned(), s.into())));
    if nested {
        entries.push((KINDS[usize::from(c.kind)].to_owned(), mapping(inner.clone(), &c.nested_ext, &c.order)));
    }
    let doc = mapping(entries, &c.ext, &c.order);
    let Some(service) = tmpl::service("volumes: ['@']", &doc)? else { fail!("mount {doc:?} rejected") };
    let Some(ShortOrLong::Long(mount)) = service.volumes.first() else { fail!("mount {doc:?} is not long") };
    cov.nontrivial();
    cov.label(KINDS[usize::from(c.kind)]);
    ensure_eq!(mount.kind(), KINDS[usize::from(c.kind)], "kind");
    ensure_eq!(
        [
            mount.as_volume().is_some(),
            mount.as_bind().is_some(),
            mount.as_tmpfs().is_some(),
            mount.as_named_pipe().is_some(),
            mount.as_cluster().is_some()
        ],
        [0, 1, 2, 3, 4].map(|k| k == c.kind),
        "as_* of {mount:?}"
    );
    ensure_eq!(mount.source_to_string(), c.source, "source of {mount:?}");
    let common = mount.common();
    ensure_eq!(text_of(common.target.as_path()), c.target, "target");
    ensure_eq!(common.read_only, c.read_only.unwrap_or(false), "read_only");
    ensure_eq!(common.consistency, c.consistency, "consistency");
    ext_is(common.extensions.iter(), &c.ext, "mount")?;
    let mut plain = true;
    match mount {
        Mount::Volume(v) => {
            ensure_eq!(v.volume.is_some(), nested, "volume options");
            if let Some(o) = &v.volume {
                ensure_eq!(o.nocopy, c.flag.unwrap_or(false), "nocopy");
                ensure_eq!(o.subpath.as_deref().map(text_of), c.text, "subpath");
                ext_is(o.extensions.iter(), &c.nested_ext, "volume options")?;
                let empty = !o.nocopy && c.text.is_none() && c.nested_ext.is_empty();
                ensure_eq!(o.is_empty(), empty, "is_empty of {o:?}");
                plain = empty;
            }
            plain &= c.source.is_some() || !common.read_only;
        }
        Mount::Bind(b) => {
            ensure_eq!(b.bind.is_some(), nested, "bind options");
            if let Some(o) = &b.bind {
                ensure_eq!(o.create_host_path, c.flag.unwrap_or(false), "create_host_path");
                ensure_eq!(o.propagation, propagation.map(|(_, p)| p), "propagation");
                ensure_eq!(o.selinux.map(selinux_char), selinux, "selinux");
                ext_is(o.extensions.iter(), &c.nested_ext, "bind options")?;
                plain = o.propagation.is_none() && o.create_host_path && c.nested_ext.is_empty();
                ensure_eq!(
                    o.is_empty(),
                    propagation.is_none() && !o.create_host_path && selinux.is_none() && c.nested_ext.is_empty(),
                    "is_empty of {o:?}"
                );
            }
        }
        Mount::Tmpfs(t) => {
            ensure_eq!(t.tmpfs.is_some(), nested, "tmpfs options");
            if let Some(o) = &t.tmpfs {
                let size = c.text.as_ref().map(|t| u64::try_from(t.len()).unwrap());
                ensure_eq!(o.size.map(|s| s.into_bytes()), size.map(Some), "size");
                ensure_eq!(o.mode, c.number, "mode");
                ext_is(o.extensions.iter(), &c.nested_ext, "tmpfs options")?;
            }
            plain = false;
        }
        _ => plain = false,
    }
    plain &= c.consistency.is_none() && c.ext.is_empty();
    cov.label(if plain { "has short form" } else { "no short form" });
    match mount.clone().into_short() {
        Err(m) => {
            ensure!(!plain, "{mount:?} has no short form");
            ensure_eq!(&m, mount, "mount given back");
        }
        Ok(s) => {
            ensure!(plain, "{mount:?} was made short: {s:?}");
            let want = RefVolume {
                source: c.source.as_ref().map(|s| if c.kind == 0 { RefSource::Named(s.clone()) } else { RefSource::Host(s.clone()) }),
                target: c.target.clone(),
                read_only: common.read_only,
                selinux: if nested && c.kind == 1 { selinux } else { None },
            };
            ensure_eq!(parts_of(&s), want, "short form of {mount:?}");
            let text = s.to_string();
            ensure_eq!(ref_volume(&text), Some(want), "meaning of the printed short form {text:?}");
            // the long form again, with the defaults of the short syntax
            let mut back = s.into_long();
            let mut orig = mount.clone();
            for m in [&mut back, &mut orig] {
                match m {
                    Mount::Volume(v) if v.volume.as_ref().is_some_and(|o| o.is_empty()) => v.volume = None,
                    Mount::Bind(b) => {
                        b.bind.get_or_insert_with(Default::default).create_host_path = true;
                    }
                    _ => {}
                }
            }
            ensure_eq!(back, orig, "long form of the short form");
        }
    }
    // written form
    tmpl::stable(&service)?;
    let written = tmpl::written("volumes: ['@']", &service)?;
    let Some(YamlValue::Mapping(w)) = &written else { fail!("mount written as {written:?}") };
    let strip = |m: &YamlValue| -> YamlValue {
        let m = m.as_mapping().unwrap();
        YamlValue::Mapping(m.iter().filter(|(_, v)| **v != YamlValue::Bool(false)).map(|(k, v)| (k.clone(), v.clone())).collect())
    };
    let mut want = strip(&doc);
    if nested {
        let k = KINDS[usize::from(c.kind)];
        let inner = strip(want.get(k).unwrap());
        want.as_mapping_mut().unwrap().insert(k.into(), inner);
    }
    // keys may move, extensions keep their order
    let pairs = |m: &YamlValue| m.as_mapping().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>();
    let w = YamlValue::Mapping(w.clone());
    ensure_eq!(pairs(&w).len(), pairs(&want).len(), "number of keys of {w:?}, written for {doc:?}");
    for (k, v) in pairs(&want) {
        ensure_eq!(w.get(&k), Some(&v), "key {k:?} written for {doc:?}");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum VolumeItem {
    Short(Option<String>, String, bool),
    Long(Option<String>, String, bool, bool),
}

fn check_volume_list(items: &Vec<VolumeItem>, cov: &mut Cov) -> Res {
    // distinct targets, so that nothing is merged
    let mut docs = Vec::new();
    let mut want = Vec::new();
    for (i, item) in items.iter().enumerate() {
        match item {
            VolumeItem::Short(source, target, ro) => {
                let target = format!("{}/{i}", target.trim_end_matches('/'));
                let text = match source {
                    Some(s) => format!("{s}:{target}{}", if *ro { ":ro" } else { "" }),
                    None => target.clone(),
                };
                docs.push(YamlValue::from(text));
                want.push((source.clone(), target, source.is_some() && *ro, true));
            }
            VolumeItem::Long(source, target, ro, nocopy) => {
                let target = format!("{}/{i}", target.trim_end_matches('/'));
                let mut e = vec![("type".to_owned(), YamlValue::from("volume")), ("target".to_owned(), target.as_str().into())];
                e.extend(source.clone().map(|s| ("source".to_owned(), s.into())));
                if *ro {
                    e.push(("read_only".into(), true.into()));
                }
                if *nocopy {
                    e.push(("volume".into(), mapping(vec![("nocopy".into(), true.into())], &[], &[])));
                }
                docs.push(mapping(e, &[], &[]));
                want.push((source.clone(), target, *ro, !nocopy && !(source.is_none() && *ro)));
            }
        }
    }
    cov.nontrivial_if(docs.len() > 1);
    let Some(service) = tmpl::service("volumes: '@'", &YamlValue::Sequence(docs.clone()))? else {
        fail!("volumes {docs:?} rejected")
    };
    let long: Vec<_> = volumes::into_long_iter(service.volumes.clone())
        .map(|m| (m.source_to_string(), text_of(m.common().target.as_path()), m.common().read_only))
        .collect();
    ensure_eq!(long, want.iter().map(|(s, t, r, _)| (s.clone(), t.clone(), *r)).collect::<Vec<_>>(), "long volumes of {docs:?}");
    let short: Vec<_> = volumes::into_short_iter(service.volumes.clone())
        .map(|m| match m {
            Ok(s) => {
                let p = parts_of(&s);
                let source = p.source.map(|s| match s {
                    RefSource::Host(s) | RefSource::Named(s) => s,
                });
                (source, p.target, p.read_only, true)
            }
            Err(m) => (m.source_to_string(), text_of(m.common().target.as_path()), m.common().read_only, false),
        })
        .collect();
    ensure_eq!(short, want, "short volumes of {docs:?}");
    Ok(())
}

pub fn c15() -> Property {
    Property {
        id: "C15",
        subs: vec![
            sub(
                "short volume text",
                "volume strings [source:]target[:options] with and without random edits; non-trivial: all",
                15_000,
                || prop_oneof![4 => volume_text(), 3 => gen::near(volume_text()), 1 => gen::text()].prop_filter("NUL", |s| no_nul(s)),
                check_short_volume,
            ),
            sub(
                "long mounts",
                "mounts of all five types with every subset of options in any key order; non-trivial: all",
                15_000,
                mount_case,
                check_mount,
            ),
            sub(
                "volume lists",
                "lists mixing short and long volumes, converted to long and to short syntax; non-trivial: more than one volume",
                5_000,
                || {
                    let source = || prop::option::of(gen::ident());
                    let item = prop_oneof![
                        (prop_oneof![2 => source(), 1 => gen::abs_path().prop_map(Some)], gen::abs_path(), any::<bool>()).prop_map(|(a, b, c)| VolumeItem::Short(a, b, c)),
                        (source(), gen::abs_path(), any::<bool>(), prop::bool::weighted(0.3)).prop_map(|(a, b, c, d)| VolumeItem::Long(a, b, c, d)),
                    ];
                    prop::collection::vec(item, 0..6)
                },
                check_volume_list,
            ),
        ],
        known: vec![],
        assumptions: &[
            "the z and Z options of a named volume have no counterpart in the long syntax and are not followed there",
            "a bind mount without bind options and one with only create_host_path: true are the same mount",
        ],
    }
}

// ---- C27 ----

#[derive(Clone, Debug, Serialize, Deserialize)]
enum PathOp {
    Push(String),
    Pop,
    /// Into an ordinary path and back.
    Rebuild(u8),
    /// Through a document.
    Document,
}

fn component() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-zA-Z0-9_-]{1,5}",
        2 => prop::sample::select(vec!["", ".", "..", "/", "./", "../", "//", "/a", "/a/b/", "a/b", "./a", "../a", ".a", "..a", "~", "a/../b", "a/./b", "a//b", "/..", "/.", " ", "é", "..."]).prop_map(String::from),
        1 => path_tail(),
    ]
    .boxed()
}

fn path_text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => component().prop_map(|c| format!("/{c}")),
        3 => (prop::sample::select(vec![".", ".."]), component()).prop_map(|(p, c)| format!("{p}/{c}")),
        3 => component(),
        1 => gen::text(),
    ]
    .boxed()
}

/// The operations which the two path types share.
trait PathType: Sized + Clone + std::fmt::Debug + PartialEq + Serialize + for<'de> Deserialize<'de> {
    const NAME: &'static str;
    const TEMPLATE: &'static str;
    fn valid(s: &str) -> bool;
    fn new_str(s: &str) -> Option<Self>;
    fn all_constructors(s: &str) -> Vec<(&'static str, Option<Self>)>;
    fn path(&self) -> &Path;
    fn views(&self) -> Vec<PathBuf>;
    fn push(&mut self, p: &str);
    fn pop(&mut self) -> bool;
    fn rebuild(self, how: u8) -> Result<Self, String>;
    fn model_pop(p: &mut PathBuf) -> bool;
}

macro_rules! path_type {
    ($Ty:ident, $template:literal, $valid:expr, $pop:expr) => {
        impl PathType for $Ty {
            const NAME: &'static str = stringify!($Ty);
            const TEMPLATE: &'static str = $template;
            fn valid(s: &str) -> bool {
                $valid(s)
            }
            fn new_str(s: &str) -> Option<Self> {
                $Ty::new(s).ok()
            }
            fn all_constructors(s: &str) -> Vec<(&'static str, Option<Self>)> {
                vec![
                    ("FromStr", s.parse().ok()),
                    ("TryFrom<&str>", $Ty::try_from(s).ok()),
                    ("TryFrom<String>", $Ty::try_from(s.to_owned()).ok()),
                    ("TryFrom<&Path>", $Ty::try_from(Path::new(s)).ok()),
                    ("TryFrom<PathBuf>", $Ty::try_from(PathBuf::from(s)).ok()),
                    ("TryFrom<Box<Path>>", $Ty::try_from(PathBuf::from(s).into_boxed_path()).ok()),
                    ("TryFrom<Cow<Path>>", $Ty::try_from(Cow::Borrowed(Path::new(s))).ok()),
                    ("Deserialize", serde_yaml::from_value(YamlValue::from(s)).ok()),
                ]
            }
            fn path(&self) -> &Path {
                self.as_path()
            }
            fn views(&self) -> Vec<PathBuf> {
                vec![
                    self.as_inner().clone(),
                    self.clone().into_inner(),
                    PathBuf::from(self.clone()),
                    Box::<Path>::from(self.clone()).into_path_buf(),
                    AsRef::<Path>::as_ref(self).to_owned(),
                    AsRef::<PathBuf>::as_ref(self).clone(),
                    std::borrow::Borrow::<Path>::borrow(self).to_owned(),
                ]
            }
            fn push(&mut self, p: &str) {
                $Ty::push(self, p);
            }
            fn pop(&mut self) -> bool {
                $Ty::pop(self)
            }
            fn rebuild(self, how: u8) -> Result<Self, String> {
                let text = text_of(self.as_path());
                let res = match how % 4 {
                    0 => $Ty::try_from(PathBuf::from(self)),
                    1 => $Ty::try_from(Box::<Path>::from(self)),
                    2 => $Ty::try_from(text.clone()),
                    _ => $Ty::new(self.into_inner()),
                };
                res.map_err(|_| format!("{text:?} is no longer a valid {}", stringify!($Ty)))
            }
            fn model_pop(p: &mut PathBuf) -> bool {
                $pop(p)
            }
        }
    };
}

path_type!(AbsolutePath, "working_dir: '@'", |s: &str| s.starts_with('/'), |p: &mut PathBuf| p.pop());
path_type!(HostPath, "volumes: [{type: bind, source: '@', target: /t}]", ref_host_path, |p: &mut PathBuf| {
    let keep = p.parent().is_none_or(|q| q.as_os_str().is_empty());
    !keep && p.pop()
});

fn check_path<P: PathType>((start, ops): &(String, Vec<PathOp>), cov: &mut Cov) -> Res {
    let name = P::NAME;
    let valid = P::valid(start);
    let got = P::new_str(start);
    ensure_eq!(got.is_some(), valid, "{name}::new({start:?}) accepted");
    for (how, p) in P::all_constructors(start) {
        ensure_eq!(p.is_some(), valid, "{name} {how} of {start:?} accepted");
        if let Some(p) = p {
            ensure_eq!(text_of(p.path()), *start, "{name} {how}");
        }
    }
    let Some(mut p) = got else {
        cov.label("rejected");
        return Ok(());
    };
    cov.nontrivial_if(!ops.is_empty());
    let mut model = PathBuf::from(start);
    for op in ops {
        match op {
            PathOp::Push(c) => {
                p.push(c);
                model.push(c);
                cov.label(if c.starts_with('/') { "push absolute" } else { "push" });
            }
            PathOp::Pop => {
                let before = p.clone();
                let did = p.pop();
                ensure_eq!(did, P::model_pop(&mut model), "{name}: pop of {before:?}");
                cov.label(if did { "pop" } else { "pop refused" });
                if !did {
                    ensure_eq!(text_of(p.path()), text_of(before.path()), "{name}: refused pop");
                }
            }
            PathOp::Rebuild(how) => p = p.rebuild(*how)?,
            PathOp::Document => {
                let leaf = value(&p)?;
                let Some(s) = tmpl::service(P::TEMPLATE, &leaf)? else { fail!("{name} {leaf:?} rejected in a document") };
                ensure_eq!(tmpl::written(P::TEMPLATE, &s)?, Some(leaf), "{name} in a document");
            }
        }
        ensure_eq!(text_of(p.path()), text_of(&model), "{name} after {op:?}");
        ensure!(P::valid(&text_of(p.path())), "{name} is {p:?} after {op:?}");
        for v in p.views() {
            ensure_eq!(text_of(&v), text_of(&model), "{name}: view after {op:?}");
        }
    }
    ensure_eq!(value(&p)?, YamlValue::from(text_of(&model)), "{name}: serialised");
    Ok(())
}

fn check_path_convert(s: &String, cov: &mut Cov) -> Res {
    let Ok(a) = AbsolutePath::new(s.as_str()) else { return Ok(()) };
    cov.nontrivial();
    let h = HostPath::from(a.clone());
    ensure_eq!(text_of(h.as_path()), *s, "HostPath from AbsolutePath");
    let src = Source::from(a.clone());
    ensure_eq!(source_of(&src), RefSource::Host(s.clone()), "Source from AbsolutePath");
    ensure!(a == *Path::new(s) && h == *Path::new(s), "comparison with Path of {s:?}");
    let short = ShortVolume::new(a.clone());
    ensure_eq!(ShortVolume::from(a.clone()), short, "ShortVolume from AbsolutePath");
    ensure_eq!(text_of(short.container_path.as_path()), *s, "container path");
    Ok(())
}

fn path_ops() -> BoxedStrategy<(String, Vec<PathOp>)> {
    let op = prop_oneof![
        4 => component().prop_map(PathOp::Push),
        4 => Just(PathOp::Pop),
        1 => any::<u8>().prop_map(PathOp::Rebuild),
        1 => Just(PathOp::Document),
    ];
    (path_text(), prop::collection::vec(op, 0..10))
        .prop_filter("NUL", |(s, _)| no_nul(s))
        .boxed()
}

pub fn c27() -> Property {
    Property {
        id: "C27",
        subs: vec![
            sub(
                "absolute paths",
                "constructors and sequences of push, pop and conversions against an ordinary path; non-trivial: valid start and at least one operation",
                10_000,
                path_ops,
                check_path::<AbsolutePath>,
            ),
            sub(
                "host paths",
                "constructors and sequences of push, pop and conversions against an ordinary path; non-trivial: valid start and at least one operation",
                10_000,
                path_ops,
                check_path::<HostPath>,
            ),
            sub("conversions", "absolute paths as host paths and sources; non-trivial: absolute", 4_000, path_text, check_path_convert),
            all(
                "short starts",
                "all strings of up to four characters out of / . ~ a; non-trivial: all",
                || {
                    let mut out = vec![String::new()];
                    let mut last = out.clone();
                    for _ in 0..4 {
                        last = last.iter().flat_map(|s| ['/', '.', '~', 'a'].map(|c| format!("{s}{c}"))).collect();
                        out.extend(last.clone());
                    }
                    out.into_iter().flat_map(|s| (0..4u8).map(move |n| (s.clone(), n))).collect::<Vec<_>>()
                },
                |(s, n), cov| {
                    cov.nontrivial();
                    let case = (s.clone(), (0..*n).map(|_| PathOp::Pop).collect());
                    check_path::<AbsolutePath>(&case, cov)?;
                    check_path::<HostPath>(&case, cov)
                },
            ),
        ],
        known: vec![],
        assumptions: &["std's PathBuf::push and pop are the ordinary path operations; paths are UTF-8"],
    }
}
