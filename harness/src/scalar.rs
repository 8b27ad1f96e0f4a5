//! C12 durations, C13 byte sizes, C22 bounded numbers, C28 CPU sets, users, exposed ports, ulimits.

use std::{collections::BTreeSet, time::Duration};

use compose_spec::{
    duration,
    service::{
        blkio_config::Weight, deploy::resources::Cpus, healthcheck, user, ByteValue, CpuSet, Expose, Healthcheck,
        IdOrName, Limit, OomScoreAdj, Percent, Ulimit, User,
    },
    service::ports::{Protocol, Range},
    AsShort, Service, ShortOrLong, YamlValue,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::{
    ensure, ensure_eq, fail,
    fw::{all, sub, Cov, Property, Res},
    gen,
    keys::ref_user_name,
    tmpl,
};

// ---- C12 ----

const UNITS: [(&str, u128); 5] = [("h", 3_600_000_000), ("m", 60_000_000), ("s", 1_000_000), ("ms", 1_000), ("us", 1)];

fn micros(n: u128) -> Option<Duration> {
    let secs = u64::try_from(n / 1_000_000).ok()?;
    Some(Duration::new(secs, u32::try_from(n % 1_000_000).ok()? * 1_000))
}

/// `Err`: no claim; `Ok(None)`: must be rejected.
fn ref_duration(s: &str) -> Result<Option<Duration>, ()> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut total: Option<u128> = Some(0);
    let mut huge = false;
    if b.is_empty() {
        return Ok(None);
    }
    while i < b.len() {
        let start = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        let digits = &s[start..i];
        let unit_start = i;
        while i < b.len() && !b[i].is_ascii_digit() {
            i += 1;
        }
        let Some((_, factor)) = UNITS.iter().find(|(u, _)| *u == &s[unit_start..i]) else {
            return Ok(None);
        };
        if digits.is_empty() {
            return Ok(None);
        }
        match digits.parse::<u64>() {
            Ok(v) => total = total.and_then(|t| t.checked_add(u128::from(v) * factor)),
            // larger than any documented range of one number
            Err(_) => huge = true,
        }
    }
    if huge {
        return Err(());
    }
    Ok(total.and_then(micros))
}

fn print_duration(d: Duration) -> String {
    let mut s = String::new();
    let secs = d.as_secs();
    let us = u64::from(d.subsec_micros());
    for (v, u) in [(secs / 3600, "h"), (secs / 60 % 60, "m"), (secs % 60, "s"), (us / 1000, "ms"), (us % 1000, "us")] {
        if v != 0 {
            s += &format!("{v}{u}");
        }
    }
    if s.is_empty() {
        s += "0s";
    }
    s
}

fn duration_text() -> BoxedStrategy<String> {
    prop::collection::vec((gen::edge_u64(), 0..5usize, 0..3usize), 1..5)
        .prop_map(|v| v.into_iter().map(|(n, u, z)| format!("{}{n}{}", "0".repeat(z / 2), UNITS[u].0)).collect())
        .boxed()
}

fn small_duration_text() -> BoxedStrategy<String> {
    prop::collection::vec((0..100_000u64, 0..5usize), 1..5)
        .prop_map(|v| v.into_iter().map(|(n, u)| format!("{n}{}", UNITS[u].0)).collect())
        .boxed()
}

fn any_duration() -> BoxedStrategy<(u64, u32)> {
    let sub = prop_oneof![
        3 => 0..1_000_000u32,
        2 => (0..1000u32).prop_map(|m| m * 1000),
        1 => Just(0),
        1 => Just(999_999),
    ];
    (prop_oneof![2 => gen::edge_u64(), 2 => 0..100_000u64, 1 => (0..24u64).prop_map(|h| h * 3600)], sub).boxed()
}

type DurationField = (&'static str, fn(&Service) -> Option<Duration>);

fn check_of(s: &Service) -> Option<&healthcheck::Command> {
    match s.healthcheck.as_ref()? {
        Healthcheck::Command(c) => Some(c),
        Healthcheck::Disable => None,
    }
}

const DURATION_FIELDS: &[DurationField] = &[
    ("cpu_rt_runtime: '@'", |s| s.cpu_rt_runtime),
    ("cpu_rt_period: '@'", |s| s.cpu_rt_period),
    ("stop_grace_period: '@'", |s| s.stop_grace_period),
    ("healthcheck: {test: a, interval: '@'}", |s| check_of(s)?.interval),
    ("healthcheck: {test: a, timeout: '@'}", |s| check_of(s)?.timeout),
    ("healthcheck: {test: a, start_period: '@'}", |s| check_of(s)?.start_period),
    ("healthcheck: {test: a, start_interval: '@'}", |s| check_of(s)?.start_interval),
    ("deploy: {restart_policy: {delay: '@'}}", |s| s.deploy.as_ref()?.restart_policy.as_ref()?.delay),
    ("deploy: {restart_policy: {window: '@'}}", |s| s.deploy.as_ref()?.restart_policy.as_ref()?.window),
    ("deploy: {update_config: {delay: '@'}}", |s| s.deploy.as_ref()?.update_config.as_ref()?.delay),
    ("deploy: {update_config: {monitor: '@'}}", |s| s.deploy.as_ref()?.update_config.as_ref()?.monitor),
    ("deploy: {rollback_config: {delay: '@'}}", |s| s.deploy.as_ref()?.rollback_config.as_ref()?.delay),
    ("deploy: {rollback_config: {monitor: '@'}}", |s| s.deploy.as_ref()?.rollback_config.as_ref()?.monitor),
];

const MICROS_FIELDS: &[DurationField] = &[
    ("cpu_period: '@'", |s| s.cpu_period),
    ("cpu_quota: '@'", |s| s.cpu_quota),
];

fn check_duration_text(s: &String, cov: &mut Cov) -> Res {
    let got = duration::parse(s);
    match ref_duration(s) {
        Err(()) => cov.label("no claim"),
        Ok(want) => {
            cov.label(if want.is_some() { "valid" } else { "invalid" });
            cov.nontrivial_if(!s.is_empty());
            ensure_eq!(got.ok(), want, "duration::parse({s:?})");
        }
    }
    Ok(())
}

pub fn c12() -> Property {
    Property {
        id: "C12",
        subs: vec![
            sub(
                "terms",
                "1-4 terms of any 64-bit number and unit; non-trivial: not empty",
                60_000,
                duration_text,
                check_duration_text,
            ),
            sub(
                "text",
                "durations with 1-3 random edits and arbitrary text; non-trivial: not empty",
                60_000,
                || gen::mixed(small_duration_text()),
                check_duration_text,
            ),
            sub(
                "print",
                "any span, whole microseconds or with nanoseconds; non-trivial: not zero",
                60_000,
                || (any_duration(), prop_oneof![4 => Just(0u32), 1 => 0..1000u32]),
                |&((secs, us), nanos): &((u64, u32), u32), cov: &mut Cov| {
                    let d = Duration::new(secs, us * 1000 + nanos);
                    cov.nontrivial_if(d != Duration::ZERO);
                    cov.label(if nanos == 0 { "whole microseconds" } else { "with nanoseconds" });
                    let s = duration::to_string(d);
                    let whole = Duration::new(secs, us * 1000);
                    ensure_eq!(duration::parse(&s).ok(), Some(whole), "parse(to_string({d:?}) = {s:?})");
                    ensure_eq!(s, print_duration(d), "to_string({d:?})");
                    Ok(())
                },
            ),
            sub(
                "fields",
                "a duration text or integer in one of the 15 duration fields; non-trivial: all",
                12_000,
                || {
                    let n = DURATION_FIELDS.len() + MICROS_FIELDS.len();
                    let leaf = prop_oneof![
                        3 => small_duration_text().prop_map(YamlValue::from),
                        2 => gen::mixed(small_duration_text()).prop_map(YamlValue::from),
                        1 => duration_text().prop_map(YamlValue::from),
                        3 => gen::edge_u64().prop_map(YamlValue::from),
                        1 => gen::edge_i64().prop_map(YamlValue::from),
                        1 => gen::edge_f64().prop_map(YamlValue::from),
                        1 => any::<bool>().prop_map(YamlValue::from),
                    ];
                    (0..n, leaf)
                },
                |(i, leaf): &(usize, YamlValue), cov: &mut Cov| {
                    cov.nontrivial();
                    let text_field = *i < DURATION_FIELDS.len();
                    let (t, get) = if text_field { DURATION_FIELDS[*i] } else { MICROS_FIELDS[*i - DURATION_FIELDS.len()] };
                    let want = match leaf {
                        YamlValue::Number(n) => Ok(n.as_u64().map(Duration::from_micros)),
                        YamlValue::String(s) if text_field => ref_duration(s),
                        _ => Ok(None),
                    };
                    let got = tmpl::service(t, leaf)?;
                    let Ok(want) = want else {
                        cov.label("no claim");
                        return Ok(());
                    };
                    let Some(want) = want else {
                        cov.label("invalid");
                        ensure!(got.is_none(), "{t} accepts {leaf:?}");
                        return Ok(());
                    };
                    cov.label(if leaf.is_string() { "text" } else { "integer" });
                    let Some(service) = got else { fail!("{t} rejects {leaf:?}") };
                    ensure_eq!(get(&service), Some(want), "{t} with {leaf:?}");
                    let back = tmpl::written(t, &service)?;
                    let expected: YamlValue = if text_field {
                        print_duration(want).into()
                    } else {
                        u64::try_from(want.as_micros()).expect("from u64").into()
                    };
                    ensure_eq!(back, Some(expected), "{t} with {leaf:?} is serialised");
                    tmpl::stable(&service)
                },
            ),
        ],
        known: vec![],
        assumptions: &["no claim on single numbers above u64::MAX (e.g. 99999999999999999999us)"],
    }
}

// ---- C13 ----

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Size {
    value: u64,
    unit: &'static str,
}

fn ref_size(s: &str) -> Result<Option<Size>, ()> {
    let end = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    let (digits, unit) = s.split_at(end);
    let unit = match unit {
        "" | "b" | "B" => "b",
        "k" | "K" | "kb" => "kb",
        "m" | "M" | "mb" => "mb",
        "g" | "G" | "gb" => "gb",
        // a leading + is not documented either way
        _ if s.starts_with('+') => return Err(()),
        _ => return Ok(None),
    };
    Ok(digits.parse().ok().map(|value| Size { value, unit }))
}

fn factor(unit: &str) -> u128 {
    match unit {
        "b" => 1,
        "kb" => 1_000,
        "mb" => 1_000_000,
        _ => 1_000_000_000,
    }
}

fn make(v: u64, unit: usize) -> ByteValue {
    [ByteValue::Bytes(v), ByteValue::Kilobytes(v), ByteValue::Megabytes(v), ByteValue::Gigabytes(v)][unit]
}

fn size_matches(got: ByteValue, want: Size, what: &str) -> Res {
    let v = ["b", "kb", "mb", "gb"].iter().position(|u| *u == want.unit).expect("unit");
    ensure_eq!(got, make(want.value, v), "{what}");
    ensure_eq!(got.unit(), want.unit, "{what}: unit()");
    let bytes = u64::try_from(u128::from(want.value) * factor(want.unit)).ok();
    ensure_eq!(got.into_bytes(), bytes, "{what}: into_bytes()");
    ensure_eq!(got.to_string(), format!("{}{}", want.value, want.unit), "{what}: Display");
    Ok(())
}

fn size_text() -> BoxedStrategy<String> {
    let n = prop_oneof![
        3 => gen::edge_u64(),
        2 => (prop::sample::select(vec![1u64, 1_000, 1_000_000, 1_000_000_000]), -2i64..=2)
            .prop_map(|(f, d)| (u64::MAX / f).saturating_add_signed(d)),
        2 => 0..100_000u64,
    ];
    (n, prop::sample::select(vec!["", "b", "k", "kb", "m", "mb", "g", "gb", "B", "K", "M", "G"]), 0..6usize)
        .prop_map(|(n, u, z)| format!("{}{n}{u}", "0".repeat(z / 4)))
        .boxed()
}

/// Numbers with a unit or something like it, and space or a sign around them.
fn odd_size_text() -> BoxedStrategy<String> {
    const UNITS: &[&str] = &[
        "Kb", "kB", "KB", "Mb", "mB", "MB", "Gb", "gB", "GB", "bb", "BB", "t", "tb", "TB", "ki", "kib", "KiB", "mib", "MiB", "gi", "gib", "p", "B/s",
        "bytes", "byte", "kk", "kbb", "bk", "e3", ".0", ".5g", "kb ", "gb\n", "b,", "%", "mm", "us", "_000", ",000", "0x", "u", "k1", "m0",
    ];
    let unit = prop_oneof![4 => prop::sample::select(UNITS.to_vec()), 1 => prop::sample::select(vec!["", "k", "mb", "g", "B"])];
    let before = prop_oneof![6 => Just(""), 1 => prop::sample::select(vec![" ", "-", "+", "0x", ".", "\t", "b", "k", "_"])];
    (before, prop_oneof![0..100u64, gen::edge_u64()], prop_oneof![6 => Just(""), 1 => prop::sample::select(vec![" ", "_", "-", "."])], unit)
        .prop_map(|(b, n, m, u)| format!("{b}{n}{m}{u}"))
        .boxed()
}

type SizeField = (&'static str, fn(&Service) -> Option<ByteValue>);

fn bps(l: &[compose_spec::service::blkio_config::BpsLimit]) -> Option<ByteValue> {
    l.first().map(|l| l.rate)
}

fn limits(s: &Service) -> Option<&compose_spec::service::deploy::resources::Limits> {
    s.deploy.as_ref()?.resources.as_ref()?.limits.as_ref()
}

fn reservations(s: &Service) -> Option<&compose_spec::service::deploy::resources::Reservations> {
    s.deploy.as_ref()?.resources.as_ref()?.reservations.as_ref()
}

fn long_build(s: &Service) -> Option<&compose_spec::service::Build> {
    match s.build.as_ref()? {
        ShortOrLong::Long(b) => Some(b),
        ShortOrLong::Short(_) => None,
    }
}

fn tmpfs_options(s: &Service) -> Option<&compose_spec::service::volumes::mount::TmpfsOptions> {
    match s.volumes.first()? {
        ShortOrLong::Long(m) => m.as_tmpfs()?.tmpfs.as_ref(),
        ShortOrLong::Short(_) => None,
    }
}

const SIZE_FIELDS: &[SizeField] = &[
    ("mem_limit: '@'", |s| s.mem_limit),
    ("mem_reservation: '@'", |s| s.mem_reservation),
    ("shm_size: '@'", |s| s.shm_size),
    ("memswap_limit: '@'", |s| match s.memswap_limit? {
        Limit::Value(v) => Some(v),
        Limit::Unlimited => None,
    }),
    ("build: {shm_size: '@'}", |s| long_build(s)?.shm_size),
    ("blkio_config: {device_read_bps: [{path: /a, rate: '@'}]}", |s| bps(&s.blkio_config.as_ref()?.device_read_bps)),
    ("blkio_config: {device_write_bps: [{path: /a, rate: '@'}]}", |s| bps(&s.blkio_config.as_ref()?.device_write_bps)),
    ("deploy: {resources: {limits: {memory: '@'}}}", |s| limits(s)?.memory),
    ("deploy: {resources: {reservations: {memory: '@'}}}", |s| reservations(s)?.memory),
    ("volumes: [{type: tmpfs, target: /a, tmpfs: {size: '@'}}]", |s| tmpfs_options(s)?.size),
];

fn check_size_text(s: &String, cov: &mut Cov) -> Res {
    let got = s.parse::<ByteValue>().ok();
    let serde: Option<ByteValue> = serde_yaml::from_value(s.as_str().into()).ok();
    ensure_eq!(serde, got, "deserialize and FromStr of {s:?}");
    match ref_size(s) {
        Err(()) => cov.label("no claim"),
        Ok(None) => {
            cov.label("invalid");
            cov.nontrivial_if(!s.is_empty());
            ensure_eq!(got, None, "{s:?}");
        }
        Ok(Some(want)) => {
            cov.label("valid");
            cov.nontrivial();
            let Some(got) = got else { fail!("rejects the size {s:?}") };
            size_matches(got, want, s)?;
            ensure_eq!(got.to_string().parse().ok(), Some(got), "parse of the printed {s:?}");
        }
    }
    Ok(())
}

pub fn c13() -> Property {
    Property {
        id: "C13",
        subs: vec![
            sub("sizes", "any 64-bit number (edges of the overflow of each unit included) with each unit; non-trivial: not empty", 60_000, size_text, check_size_text),
            sub("text", "sizes with 1-3 random edits and arbitrary text; non-trivial: not empty", 60_000, || gen::mixed(size_text()), check_size_text),
            sub("odd units", "a number with a unit which is none, in another case or apart, or with something before it; non-trivial: not empty", 40_000, odd_size_text, check_size_text),
            sub(
                "fields",
                "a size as text or integer in one of the 10 size fields; non-trivial: all",
                12_000,
                || {
                    let leaf = prop_oneof![
                        4 => size_text().prop_map(YamlValue::from),
                        3 => gen::mixed(size_text()).prop_map(YamlValue::from),
                        3 => gen::edge_u64().prop_map(YamlValue::from),
                        1 => gen::edge_i64().prop_map(YamlValue::from),
                        1 => gen::edge_f64().prop_map(YamlValue::from),
                        1 => any::<bool>().prop_map(YamlValue::from),
                    ];
                    (0..SIZE_FIELDS.len(), leaf)
                },
                |(i, leaf): &(usize, YamlValue), cov: &mut Cov| {
                    cov.nontrivial();
                    let (t, get) = SIZE_FIELDS[*i];
                    let unlimited = t.starts_with("memswap") && (*leaf == YamlValue::from(-1) || leaf.as_str() == Some("-1"));
                    let want = match leaf {
                        YamlValue::Number(n) => Ok(n.as_u64().map(|value| Size { value, unit: "b" })),
                        YamlValue::String(s) => ref_size(s),
                        _ => Ok(None),
                    };
                    let got = tmpl::service(t, leaf)?;
                    match want {
                        Err(()) => cov.label("no claim"),
                        Ok(None) if unlimited => {
                            cov.label("unlimited");
                            ensure_eq!(got.map(|s| s.memswap_limit), Some(Some(Limit::Unlimited)), "{t} with {leaf:?}");
                        }
                        Ok(None) => {
                            cov.label("invalid");
                            ensure!(got.is_none(), "{t} accepts {leaf:?}");
                        }
                        Ok(Some(want)) => {
                            cov.label("valid");
                            let Some(service) = got else { fail!("{t} rejects {leaf:?}") };
                            let Some(got) = get(&service) else { fail!("{t} with {leaf:?}: nothing in the field") };
                            size_matches(got, want, &format!("{t} with {leaf:?}"))?;
                            ensure_eq!(
                                tmpl::written(t, &service)?,
                                Some(format!("{}{}", want.value, want.unit).into()),
                                "{t} with {leaf:?} is serialised"
                            );
                            tmpl::stable(&service)?;
                        }
                    }
                    Ok(())
                },
            ),
        ],
        known: vec![],
        assumptions: &["no claim on a leading '+' or upper-case letters in two-letter units"],
    }
}

// ---- C22 ----

/// What a bounded field accepts: the integers `min..=max` (documents give them as integers).
struct IntField {
    t: &'static str,
    min: i128,
    max: i128,
    get: fn(&Service) -> Option<i128>,
    /// -1 stands for "no limit"
    unlimited: bool,
    /// Text is accepted too.
    text: bool,
    /// No claim on integers up to this absolute value outside the range (0: claim everything).
    quiet: bool,
}

const fn int(t: &'static str, min: i128, max: i128, get: fn(&Service) -> Option<i128>) -> IntField {
    IntField { t, min, max, get, unlimited: false, text: false, quiet: false }
}

const U64: i128 = u64::MAX as i128;
const U32: i128 = u32::MAX as i128;
const U16: i128 = u16::MAX as i128;

fn pids(s: &Service) -> Option<i128> {
    Some(match s.pids_limit? {
        Limit::Value(v) => v.into(),
        Limit::Unlimited => -1,
    })
}

fn limit64(l: Limit<u64>) -> i128 {
    match l {
        Limit::Value(v) => v.into(),
        Limit::Unlimited => -1,
    }
}

fn ulimit_long(s: &Service) -> Option<&Ulimit> {
    match s.ulimits.get("nofile")? {
        ShortOrLong::Long(u) => Some(u),
        ShortOrLong::Short(_) => None,
    }
}

fn long_port(s: &Service) -> Option<&compose_spec::service::ports::Port> {
    match s.ports.first()? {
        ShortOrLong::Long(p) => Some(p),
        ShortOrLong::Short(_) => None,
    }
}

fn long_config(s: &Service) -> Option<&compose_spec::service::ConfigOrSecret> {
    match s.configs.first()? {
        ShortOrLong::Long(p) => Some(p),
        ShortOrLong::Short(_) => None,
    }
}

fn int_fields() -> Vec<IntField> {
    vec![
        int("cpu_percent: '@'", 0, 100, |s| Some(s.cpu_percent?.into_inner().into())),
        int("mem_swappiness: '@'", 0, 100, |s| Some(s.mem_swappiness?.into_inner().into())),
        int("oom_score_adj: '@'", -1000, 1000, |s| Some(i16::from(s.oom_score_adj?).into())),
        int("blkio_config: {weight: '@'}", 10, 1000, |s| Some(u16::from(s.blkio_config.as_ref()?.weight?).into())),
        int("blkio_config: {weight_device: [{path: /a, weight: '@'}]}", 10, 1000, |s| {
            Some(u16::from(s.blkio_config.as_ref()?.weight_device.first()?.weight).into())
        }),
        int("blkio_config: {device_read_iops: [{path: /a, rate: '@'}]}", 0, U64, |s| {
            Some(s.blkio_config.as_ref()?.device_read_iops.first()?.rate.into())
        }),
        int("blkio_config: {device_write_iops: [{path: /a, rate: '@'}]}", 0, U64, |s| {
            Some(s.blkio_config.as_ref()?.device_write_iops.first()?.rate.into())
        }),
        int("cpu_count: '@'", 0, U64, |s| Some(s.cpu_count?.into())),
        int("cpu_shares: '@'", 0, U64, |s| Some(s.cpu_shares?.into())),
        int("scale: '@'", 0, U64, |s| Some(s.scale?.into())),
        IntField { unlimited: true, ..int("pids_limit: '@'", 0, U32, pids) },
        IntField { unlimited: true, ..int("ulimits: {nofile: '@'}", 0, U64, |s| match s.ulimits.get("nofile")? {
            ShortOrLong::Short(l) => Some(limit64(*l)),
            ShortOrLong::Long(_) => None,
        }) },
        IntField { unlimited: true, ..int("ulimits: {nofile: {soft: '@', hard: 4}}", 0, U64, |s| Some(limit64(ulimit_long(s)?.soft))) },
        IntField { unlimited: true, ..int("ulimits: {nofile: {soft: 4, hard: '@'}}", 0, U64, |s| Some(limit64(ulimit_long(s)?.hard))) },
        int("healthcheck: {test: a, retries: '@'}", 0, U64, |s| Some(check_of(s)?.retries?.into())),
        int("deploy: {replicas: '@'}", 0, U64, |s| Some(s.deploy.as_ref()?.replicas?.into())),
        int("deploy: {placement: {max_replicas_per_node: '@'}}", 0, U64, |s| {
            Some(s.deploy.as_ref()?.placement.as_ref()?.max_replicas_per_node?.into())
        }),
        int("deploy: {restart_policy: {max_attempts: '@'}}", 0, U64, |s| {
            Some(s.deploy.as_ref()?.restart_policy.as_ref()?.max_attempts?.into())
        }),
        int("deploy: {update_config: {parallelism: '@'}}", 0, U64, |s| {
            Some(s.deploy.as_ref()?.update_config.as_ref()?.parallelism?.into())
        }),
        int("deploy: {rollback_config: {max_failure_ratio: '@'}}", 0, U64, |s| {
            Some(s.deploy.as_ref()?.rollback_config.as_ref()?.max_failure_ratio?.into())
        }),
        IntField { unlimited: true, ..int("deploy: {resources: {limits: {pids: '@'}}}", 0, U32, |s| Some(match limits(s)?.pids? {
            Limit::Value(v) => v.into(),
            Limit::Unlimited => -1,
        })) },
        IntField { text: true, ..int("deploy: {resources: {reservations: {devices: [{capabilities: [gpu], count: '@'}]}}}", 0, U64, |s| {
            match reservations(s)?.devices.first()?.count? {
                compose_spec::service::deploy::resources::Count::Integer(n) => Some(n.into()),
                compose_spec::service::deploy::resources::Count::All => None,
            }
        }) },
        int("deploy: {resources: {reservations: {generic_resources: [{discrete_resource_spec: {value: '@'}}]}}}", 0, U64, |s| {
            Some(reservations(s)?.generic_resources.first()?.discrete_resource_spec.as_ref()?.value?.into())
        }),
        int("ports: [{target: '@'}]", 0, U16, |s| Some(long_port(s)?.target.into())),
        IntField { text: true, ..int("ports: [{target: 1, published: '@'}]", 0, U16, |s| {
            let r = long_port(s)?.published?;
            r.end().is_none().then(|| r.start().into())
        }) },
        IntField { text: true, ..int("ports: ['@']", 0, U16, |s| match s.ports.first()? {
            ShortOrLong::Short(p) if p.ranges.host().is_none() && p.host_ip.is_none() && p.ranges.container().end().is_none() => {
                Some(p.ranges.container().start().into())
            }
            _ => None,
        }) },
        IntField { text: true, ..int("expose: ['@']", 0, U16, |s| Some(s.expose.first()?.range.start().into())) },
        int("configs: [{source: a, mode: '@'}]", 0, U32, |s| Some(long_config(s)?.mode?.into())),
        int("volumes: [{type: tmpfs, target: /a, tmpfs: {mode: '@'}}]", 0, U32, |s| Some(tmpfs_options(s)?.mode?.into())),
        IntField { quiet: true, text: true, ..int("group_add: ['@']", 0, U32, |s| Some(s.group_add.first()?.as_id()?.into())) },
    ]
}

fn i128_value(n: i128) -> Option<YamlValue> {
    u64::try_from(n).map(YamlValue::from).or_else(|_| i64::try_from(n).map(YamlValue::from)).ok()
}

fn edges_of(fields: &[IntField]) -> Vec<i128> {
    let mut v: Vec<i128> = fields.iter().flat_map(|f| [f.min, f.max]).flat_map(|b| (-2..=2).map(move |d| b + d)).collect();
    v.extend([0, -1, 255, 256, 65535, 65536, 32767, 32768, -32768, -32769, 128, 127, -128, -129, i128::from(i64::MAX), i128::from(i64::MIN)]);
    v.sort_unstable();
    v.dedup();
    v.retain(|n| i128_value(*n).is_some());
    v
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Form {
    Int,
    Float,
    Text,
}

fn check_int_field(&(i, n, form): &(usize, i128, Form), cov: &mut Cov) -> Res {
    let fields = int_fields();
    let f = &fields[i];
    let Some(value) = i128_value(n) else { return Ok(()) };
    cov.nontrivial();
    let leaf = match form {
        Form::Int => value.clone(),
        #[allow(clippy::cast_precision_loss)]
        Form::Float => {
            // whole floats: "1.0" is not an integer; no claim whether it is accepted, only about the value
            YamlValue::from(n as f64)
        }
        Form::Text => YamlValue::from(n.to_string()),
    };
    let got = tmpl::service(f.t, &leaf)?;
    let ok = (f.min..=f.max).contains(&n) || f.unlimited && n == -1;
    match form {
        Form::Int if ok => {
            cov.label("in range");
            let Some(s) = got else { fail!("{} rejects {leaf:?}", f.t) };
            ensure_eq!((f.get)(&s), Some(n), "{} with {leaf:?}", f.t);
            if !f.t.contains("published") {
                ensure_eq!(tmpl::written(f.t, &s)?, Some(value), "{} with {leaf:?} is serialised", f.t);
            }
            tmpl::stable(&s)
        }
        Form::Int => {
            cov.label("out of range");
            ensure!(got.is_none(), "{} accepts {leaf:?}, which is out of range", f.t);
            Ok(())
        }
        Form::Float | Form::Text => {
            let accepted = got.is_some();
            cov.label(if form == Form::Float { "float" } else { "text" });
            if let Some(s) = &got {
                // whatever is accepted must be the written number
                ensure!(ok || f.quiet, "{} accepts {leaf:?}, which is out of range", f.t);
                if ok && !(form == Form::Float && n.unsigned_abs() > 1 << 53) {
                    ensure_eq!((f.get)(s), Some(n), "{} with {leaf:?}", f.t);
                }
            }
            if form == Form::Text && f.text && ok {
                ensure!(accepted, "{} rejects {leaf:?}", f.t);
            }
            Ok(())
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Num {
    U(u64),
    I(i64),
    F(f64),
}

fn check_cpus_number(n: &Num, cov: &mut Cov) -> Res {
    cov.nontrivial();
    let v = match n {
        Num::U(v) => YamlValue::from(*v),
        Num::I(v) => YamlValue::from(*v),
        Num::F(v) => YamlValue::from(*v),
    };
    #[allow(clippy::cast_precision_loss)]
    let (f, claim) = match n {
        // larger integers are not exact in a float and no machine has as many CPUs: no claim
        Num::U(v) => (*v as f64, *v <= u64::from(u32::MAX)),
        Num::I(v) => (*v as f64, *v < 0 || *v <= i64::from(i32::MAX)),
        Num::F(v) => (*v, !(*v == 0.0 && v.is_sign_negative())),
    };
    let want = f.is_finite() && f >= 0.0;
    let fields: [(&str, fn(&Service) -> Option<Cpus>); 3] = [
        ("cpus: '@'", |s| s.cpus),
        ("deploy: {resources: {limits: {cpus: '@'}}}", |s| limits(s)?.cpus),
        ("deploy: {resources: {reservations: {cpus: '@'}}}", |s| reservations(s)?.cpus),
    ];
    if matches!(n, Num::F(_)) {
        let new = Cpus::new(f).ok().map(Cpus::into_inner);
        if claim {
            ensure_eq!(new, want.then_some(f), "Cpus::new({f:?})");
        }
        if !f.is_nan() {
            ensure_eq!(Cpus::try_from(f).ok().map(Cpus::into_inner), new, "Cpus::try_from({f:?})");
        }
    }
    for (t, get) in fields {
        // NaN is not equal to itself, so compare the decision only
        let got: Option<Service> = serde_yaml::from_value(tmpl::fill(t, &v)).ok();
        if !claim {
            cov.label("no claim");
            continue;
        }
        cov.label(if want { "accepted" } else { "rejected" });
        ensure_eq!(got.as_ref().and_then(get).map(Cpus::into_inner), want.then_some(f), "{t} with {v:?}");
        ensure_eq!(got.is_some(), want, "{t} with {v:?}");
        if let Some(s) = got {
            ensure_eq!(get(&s).map(f64::from), Some(f), "{t} with {v:?}: into f64");
            let back = tmpl::written(t, &s)?.and_then(|v| v.as_f64());
            ensure_eq!(back, Some(f), "{t} with {v:?} is serialised");
            tmpl::stable(&s)?;
        }
        // the same number as text
        let text = match n {
            Num::U(v) => v.to_string(),
            Num::I(v) => v.to_string(),
            Num::F(v) => v.to_string(),
        };
        let got: Option<Service> = serde_yaml::from_value(tmpl::fill(t, &text.as_str().into())).ok();
        ensure_eq!(got.as_ref().and_then(get).map(Cpus::into_inner), want.then_some(f), "{t} with text {text:?}");
    }
    Ok(())
}

pub fn c22() -> Property {
    Property {
        id: "C22",
        subs: vec![
            all(
                "edges",
                "each of the bounded fields x the numbers within 2 of any field's bound x integer, float and text form (exhaustive); non-trivial: all",
                || {
                    let fields = int_fields();
                    let edges = edges_of(&fields);
                    let mut out = Vec::new();
                    for i in 0..fields.len() {
                        for n in &edges {
                            for form in [Form::Int, Form::Float, Form::Text] {
                                out.push((i, *n, form));
                            }
                        }
                    }
                    out
                },
                check_int_field,
            ),
            sub(
                "fields",
                "each of the bounded fields with a number in or out of its range, as integer, float or text; non-trivial: all",
                20_000,
                || {
                    let f = int_fields();
                    let ranges: Vec<(i128, i128)> = f.iter().map(|f| (f.min, f.max)).collect();
                    (0..f.len(), prop_oneof![4 => Just(Form::Int), 1 => Just(Form::Float), 1 => Just(Form::Text)])
                        .prop_flat_map(move |(i, form)| {
                            let (min, max) = ranges[i];
                            let n = prop_oneof![
                                3 => min..=max,
                                2 => (min - 300)..=(max + 300),
                                1 => gen::edge_i64().prop_map(i128::from),
                                1 => gen::edge_u64().prop_map(i128::from),
                            ];
                            (Just(i), n, Just(form))
                        })
                        .prop_map(|(i, n, form)| (i, n.clamp(i64::MIN.into(), u64::MAX.into()), form))
                },
                check_int_field,
            ),
            all(
                "percent_weight_oom",
                "every u8 for Percent, every u16 for Weight and every i16 for OomScoreAdj through each constructor (exhaustive); non-trivial: all",
                || (0..=u16::MAX).collect(),
                |&n: &u16, cov: &mut Cov| {
                    cov.nontrivial();
                    if let Ok(p) = u8::try_from(n) {
                        let want = (p <= 100).then_some(p);
                        ensure_eq!(Percent::new(p).ok().map(Percent::into_inner), want, "Percent::new({p})");
                        ensure_eq!(Percent::try_from(p).ok().map(u8::from), want, "Percent::try_from({p})");
                        if let Ok(v) = Percent::new(p) {
                            ensure!(v == p && !(v == p.wrapping_add(1)), "Percent({p}) == u8");
                        }
                    }
                    let want = (10..=1000).contains(&n).then_some(n);
                    ensure_eq!(Weight::new(n).ok().map(u16::from), want, "Weight::new({n})");
                    ensure_eq!(Weight::try_from(n).ok().map(u16::from), want, "Weight::try_from({n})");
                    if let Ok(w) = Weight::new(n) {
                        ensure_eq!(w.into_inner().get(), n, "Weight({n}).into_inner()");
                        ensure_eq!(w.to_string(), n.to_string(), "Weight({n}) Display");
                    }
                    #[allow(clippy::cast_possible_wrap)]
                    let i = n as i16;
                    let want = (-1000..=1000).contains(&i).then_some(i);
                    ensure_eq!(OomScoreAdj::new(i).ok().map(i16::from), want, "OomScoreAdj::new({i})");
                    ensure_eq!(OomScoreAdj::try_from(i).ok().map(i16::from), want, "OomScoreAdj::try_from({i})");
                    if let Ok(v) = OomScoreAdj::new(i) {
                        ensure!(v == i, "OomScoreAdj({i}) == i16");
                    }
                    Ok(())
                },
            ),
            sub(
                "cpus",
                "unsigned, signed and floating point numbers for the three cpus fields; non-trivial: all",
                10_000,
                || {
                    prop_oneof![
                        2 => gen::edge_u64().prop_map(Num::U),
                        2 => gen::edge_i64().prop_map(Num::I),
                        4 => gen::edge_f64().prop_map(Num::F),
                    ]
                },
                check_cpus_number,
            ),
            sub(
                "limit_text",
                "numbers, sizes and near misses as text for Limit; non-trivial: not empty",
                20_000,
                || gen::mixed(prop_oneof![2 => gen::edge_i64().prop_map(|n| n.to_string()), 2 => gen::edge_u64().prop_map(|n| n.to_string()), 1 => Just("-1".to_owned()), 2 => size_text()].boxed()),
                |s: &String, cov: &mut Cov| {
                    cov.nontrivial_if(!s.is_empty());
                    // '+' is not settled by the documentation
                    if s.starts_with('+') {
                        return Ok(());
                    }
                    let digits = !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
                    let w32 = if s == "-1" { Some(Limit::Unlimited) } else { s.parse::<u32>().ok().filter(|_| digits).map(Limit::Value) };
                    let w64 = if s == "-1" { Some(Limit::Unlimited) } else { s.parse::<u64>().ok().filter(|_| digits).map(Limit::Value) };
                    ensure_eq!(s.parse::<Limit<u32>>().ok(), w32, "Limit<u32> from {s:?}");
                    ensure_eq!(s.parse::<Limit<u64>>().ok(), w64, "Limit<u64> from {s:?}");
                    if let Some(w) = w64 {
                        cov.label("valid");
                        ensure_eq!(w.to_string().parse().ok(), Some(w), "print and parse {w:?}");
                    }
                    if s == "-1" {
                        ensure_eq!(s.parse::<Limit<ByteValue>>().ok(), Some(Limit::Unlimited), "Limit<ByteValue> from {s:?}");
                    } else if let Ok(w) = ref_size(s) {
                        let got = s.parse::<Limit<ByteValue>>().ok();
                        ensure_eq!(got.is_some(), w.is_some(), "Limit<ByteValue> from {s:?}");
                        if let (Some(Limit::Value(v)), Some(w)) = (got, w) {
                            size_matches(v, w, s)?;
                            ensure_eq!(Limit::Value(v).to_string().parse().ok(), got, "print and parse {s:?}");
                        }
                    }
                    Ok(())
                },
            ),
        ],
        known: vec![],
        assumptions: &[
            "no claim on whether whole floats or numeric text are accepted by integer fields which do not document text; if accepted, the number must be right",
            "no claim on cpus integers above u32::MAX and on -0.0",
        ],
    }
}

// ---- C28 ----

fn ref_cpuset(s: &str) -> Result<Option<BTreeSet<u64>>, ()> {
    let mut set = BTreeSet::new();
    if s.is_empty() {
        return Ok(Some(set));
    }
    let mut claim = true;
    for part in s.split(',') {
        let num = |p: &str| -> Option<u64> { (!p.is_empty() && p.bytes().all(|b| b.is_ascii_digit())).then(|| p.parse().ok()).flatten() };
        if part.starts_with('+') || part.contains("-+") || part.is_empty() && s.ends_with(',') {
            claim = false;
            continue;
        }
        match part.split_once('-') {
            None => match num(part) {
                Some(n) => {
                    set.insert(n);
                }
                None => return Ok(None),
            },
            Some((a, b)) => match (num(a), num(b)) {
                (Some(a), Some(b)) => {
                    if a > b || b - a > 50_000 {
                        claim = false;
                    } else {
                        set.extend(a..=b);
                    }
                }
                _ => return Ok(None),
            },
        }
    }
    if claim {
        Ok(Some(set))
    } else {
        Err(())
    }
}

/// Would parsing enumerate a huge range?
fn huge_range(s: &str) -> bool {
    s.split(',').any(|p| {
        p.split_once('-').is_some_and(|(a, b)| match (a.parse::<u64>(), b.parse::<u64>()) {
            (Ok(a), Ok(b)) => b > a && b - a > 3_000,
            _ => false,
        })
    })
}

fn cpuset_text() -> BoxedStrategy<String> {
    let n = prop_oneof![5 => 0..40u64, 2 => 0..2000u64, 1 => (0..20u64).prop_map(|d| u64::MAX - d)];
    let part = prop_oneof![
        2 => n.clone().prop_map(|n| n.to_string()),
        3 => (n, 0..20u64).prop_map(|(a, d)| format!("{a}-{}", a.saturating_add(d))),
    ];
    prop::collection::vec(part, 0..6).prop_map(|v| v.join(",")).boxed()
}

fn id_or_name() -> BoxedStrategy<String> {
    prop_oneof![
        2 => any::<u32>().prop_map(|n| n.to_string()),
        1 => gen::edge_u64().prop_map(|n| n.to_string()),
        4 => gen::user_name(),
    ]
    .boxed()
}

fn ref_id_or_name(s: &str) -> Result<Option<Result<u32, String>>, ()> {
    if s.starts_with('+') {
        return Err(());
    }
    if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) {
        return Ok(s.parse().ok().map(Ok));
    }
    match ref_user_name(s) {
        None => Err(()),
        Some(true) => Ok(Some(Err(s.to_owned()))),
        Some(false) => Ok(None),
    }
}

fn as_ref_id(v: &IdOrName) -> Result<u32, String> {
    match v {
        IdOrName::Id(n) => Ok(*n),
        IdOrName::Name(n) => Err(n.as_str().to_owned()),
    }
}

type UserParts = (Result<u32, String>, Option<Result<u32, String>>);

fn ref_user(s: &str) -> Result<Option<UserParts>, ()> {
    let (u, g) = match s.split_once(':') {
        Some((u, g)) => (u, Some(g)),
        None => (s, None),
    };
    let u = ref_id_or_name(u);
    let g = g.map(ref_id_or_name).transpose();
    match (u, g) {
        (Ok(None), _) | (_, Ok(Some(None))) => Ok(None),
        (Err(()), _) | (_, Err(())) => Err(()),
        (Ok(Some(u)), Ok(None)) => Ok(Some((u, None))),
        (Ok(Some(u)), Ok(Some(Some(g)))) => Ok(Some((u, Some(g)))),
    }
}

fn print_id(v: &Result<u32, String>) -> String {
    match v {
        Ok(n) => n.to_string(),
        Err(s) => s.clone(),
    }
}

/// A port or `start-end` without leniency: `Err` no claim.
pub fn ref_range(s: &str) -> Result<Option<(u16, Option<u16>)>, ()> {
    if s.starts_with('+') || s.contains("-+") {
        return Err(());
    }
    let num = |p: &str| -> Option<u16> { (!p.is_empty() && p.bytes().all(|b| b.is_ascii_digit())).then(|| p.parse().ok()).flatten() };
    Ok(match s.split_once('-') {
        None => num(s).map(|n| (n, None)),
        Some((a, b)) => match (num(a), num(b)) {
            (Some(a), Some(b)) if a < b => Some((a, Some(b))),
            (Some(a), Some(b)) if a == b => Some((a, None)),
            _ => None,
        },
    })
}

pub fn ref_protocol(s: &str) -> Protocol {
    match s {
        "tcp" => Protocol::Tcp,
        "udp" => Protocol::Udp,
        other => Protocol::Other(other.to_owned()),
    }
}

pub fn range_text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => gen::port().prop_map(|p| p.to_string()),
        3 => (gen::port(), 0..20u16).prop_map(|(p, d)| format!("{p}-{}", p.saturating_add(d))),
        2 => (gen::port(), gen::port()).prop_map(|(a, b)| format!("{a}-{b}")),
    ]
    .boxed()
}

pub fn protocol_text() -> BoxedStrategy<String> {
    prop_oneof![3 => Just("tcp".to_owned()), 3 => Just("udp".to_owned()), 2 => "[a-zA-Z0-9]{1,5}", 1 => prop::sample::select(vec!["TCP", "sctp", "tcp/udp", ""]).prop_map(String::from)].boxed()
}

pub fn range_is(r: Range, want: (u16, Option<u16>), what: &str) -> Res {
    ensure_eq!((r.start(), r.end()), want, "{what}: start and end");
    let size = u32::from(want.1.unwrap_or(want.0)) - u32::from(want.0) + 1;
    ensure_eq!(u32::from(r.size()), size.min(65535), "{what}: size()");
    ensure!(r == (want.0..=want.1.unwrap_or(want.0)), "{what}: == RangeInclusive");
    ensure_eq!(r.into_iter().map(u32::from).sum::<u32>(), (u32::from(want.0)..=u32::from(want.1.unwrap_or(want.0))).sum::<u32>(), "{what}: sum of the ports");
    let text = match want.1 {
        Some(e) => format!("{}-{e}", want.0),
        None => want.0.to_string(),
    };
    ensure_eq!(r.to_string(), text, "{what}: Display");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct UlimitCase {
    resource: String,
    soft: i64,
    hard: i64,
    text: bool,
    extension: Option<String>,
}

pub fn c28() -> Property {
    Property {
        id: "C28",
        subs: vec![
            sub(
                "cpuset",
                "lists of CPU numbers and ranges, with and without random edits; non-trivial: not empty",
                40_000,
                || prop_oneof![2 => cpuset_text(), 1 => gen::mixed(cpuset_text())],
                |s: &String, cov: &mut Cov| {
                    if huge_range(s) {
                        cov.label("skipped: huge range");
                        return Ok(());
                    }
                    let got = s.parse::<CpuSet>().ok();
                    ensure_eq!(CpuSet::try_from(s.as_str()).ok(), got.clone(), "TryFrom<&str> of {s:?}");
                    let doc = tmpl::service("cpuset: '@'", &s.as_str().into())?;
                    ensure_eq!(doc.as_ref().map(|s| s.cpuset.clone()), got.clone(), "document with cpuset {s:?}");
                    match ref_cpuset(s) {
                        Err(()) => cov.label("no claim"),
                        Ok(want) => {
                            cov.nontrivial_if(!s.is_empty());
                            cov.label(if want.is_some() { "valid" } else { "invalid" });
                            ensure_eq!(got.clone().map(|c| c.0), want, "cpuset {s:?}");
                        }
                    }
                    if let Some(c) = got {
                        ensure_eq!(c.is_empty(), c.0.is_empty(), "is_empty() of {s:?}");
                        let text = c.to_string();
                        ensure_eq!(ref_cpuset(&text), Ok(Some(c.0.clone())), "printed cpuset {text:?}");
                        ensure_eq!(text.parse().ok(), Some(c.clone()), "parse of the printed cpuset {text:?}");
                        tmpl::stable(&doc.expect("parsed"))?;
                        ensure_eq!(BTreeSet::from(c.clone()), c.0, "into BTreeSet");
                    }
                    Ok(())
                },
            ),
            sub(
                "cpuset_print",
                "arbitrary small sets of CPU numbers; non-trivial: at least two CPUs",
                30_000,
                || prop::collection::btree_set(prop_oneof![4 => 0..24u64, 1 => any::<u64>(), 1 => (0..4u64).prop_map(|d| u64::MAX - d)], 0..14),
                |set: &BTreeSet<u64>, cov: &mut Cov| {
                    cov.nontrivial_if(set.len() > 1);
                    let c = CpuSet::from(set.clone());
                    let text = c.to_string();
                    ensure_eq!(ref_cpuset(&text), Ok(Some(set.clone())), "printed cpuset {text:?}");
                    ensure_eq!(text.parse::<CpuSet>().ok().map(|c| c.0), Some(set.clone()), "parse of {text:?}");
                    Ok(())
                },
            ),
            sub(
                "user",
                "user[:group] with ids, names, near misses; non-trivial: not empty",
                40_000,
                || {
                    let part = prop_oneof![4 => id_or_name(), 1 => gen::mixed(id_or_name())];
                    prop_oneof![
                        3 => (part.clone(), prop::option::of(part)).prop_map(|(u, g)| match g {
                            Some(g) => format!("{u}:{g}"),
                            None => u,
                        }),
                        1 => gen::mixed((id_or_name(), id_or_name()).prop_map(|(a, b)| format!("{a}:{b}")).boxed()),
                    ]
                },
                |s: &String, cov: &mut Cov| {
                    let got = s.parse::<User>().ok();
                    for (how, o) in [
                        ("parse(&str)", User::parse(s.as_str()).ok()),
                        ("parse(String)", User::parse(s.clone()).ok()),
                        ("TryFrom<&str>", User::try_from(s.as_str()).ok()),
                        ("TryFrom<String>", User::try_from(s.clone()).ok()),
                        ("document", tmpl::service("user: '@'", &s.as_str().into())?.and_then(|s| s.user)),
                    ] {
                        ensure_eq!(o, got, "{how} of {s:?}");
                    }
                    match ref_user(s) {
                        Err(()) => cov.label("no claim"),
                        Ok(want) => {
                            cov.nontrivial_if(!s.is_empty());
                            cov.label(match &want {
                                None => "invalid",
                                Some((_, None)) => "user",
                                Some((_, Some(_))) => "user and group",
                            });
                            let parts = got.as_ref().map(|u| (as_ref_id(&u.user), u.group.as_ref().map(as_ref_id)));
                            ensure_eq!(parts, want, "user {s:?}");
                            if let (Some(u), Some((user, group))) = (&got, want) {
                                let text = print_id(&user) + &group.map_or(String::new(), |g| format!(":{}", print_id(&g)));
                                ensure_eq!(u.to_string(), text, "Display of user {s:?}");
                                ensure_eq!(String::from(u.clone()), text, "String from user {s:?}");
                                ensure_eq!(User::try_from(text).ok(), got, "parse of the printed user {s:?}");
                            }
                        }
                    }
                    Ok(())
                },
            ),
            sub(
                "id_or_name",
                "ids as numbers, ids and names as text in group_add; non-trivial: all",
                20_000,
                || {
                    prop_oneof![
                        2 => gen::edge_u64().prop_map(YamlValue::from),
                        1 => gen::edge_i64().prop_map(YamlValue::from),
                        3 => id_or_name().prop_map(YamlValue::from),
                        2 => gen::mixed(id_or_name()).prop_map(YamlValue::from),
                    ]
                },
                |v: &YamlValue, cov: &mut Cov| {
                    cov.nontrivial();
                    let got = tmpl::service("group_add: ['@']", v)?;
                    let want = match v {
                        YamlValue::Number(n) => Ok(n.as_u64().and_then(|n| u32::try_from(n).ok()).map(Ok)),
                        YamlValue::String(s) => {
                            let got2 = s.parse::<IdOrName>().ok();
                            ensure_eq!(IdOrName::try_from(s.clone()).ok(), got2, "IdOrName from {s:?}");
                            ensure_eq!(got.as_ref().and_then(|s| s.group_add.first().cloned()), got2, "group_add {s:?} and FromStr");
                            ref_id_or_name(s)
                        }
                        _ => Ok(None),
                    };
                    let Ok(want) = want else {
                        cov.label("no claim");
                        return Ok(());
                    };
                    cov.label(match &want {
                        None => "invalid",
                        Some(Ok(_)) => "id",
                        Some(Err(_)) => "name",
                    });
                    let first = got.as_ref().and_then(|s| s.group_add.first().map(as_ref_id));
                    ensure_eq!(first, want, "group_add {v:?}");
                    if let (Some(s), Some(want)) = (got, want) {
                        let first = s.group_add.first().expect("checked");
                        ensure_eq!(first.to_string(), print_id(&want), "Display");
                        ensure_eq!(String::from(first.clone()), print_id(&want), "String::from");
                        ensure_eq!(first.as_id(), want.clone().ok(), "as_id()");
                        ensure_eq!(first.as_name().map(user::Name::as_str).map(str::to_owned), want.clone().err(), "as_name()");
                        ensure_eq!((first.is_id(), first.is_name()), (want.is_ok(), want.is_err()), "is_id() and is_name()");
                        tmpl::stable(&s)?;
                    }
                    Ok(())
                },
            ),
            sub(
                "expose",
                "port or range with optional protocol, near misses, integers; non-trivial: not empty",
                40_000,
                || {
                    let t = (range_text(), prop::option::of(protocol_text())).prop_map(|(r, p)| match p {
                        Some(p) => format!("{r}/{p}"),
                        None => r,
                    }).boxed();
                    prop_oneof![3 => t.clone(), 2 => gen::mixed(t)]
                },
                |s: &String, cov: &mut Cov| {
                    let got = s.parse::<Expose>().ok();
                    ensure_eq!(Expose::try_from(s.as_str()).ok(), got, "TryFrom<&str> of {s:?}");
                    let doc = tmpl::service("expose: ['@']", &s.as_str().into())?;
                    ensure_eq!(doc.as_ref().and_then(|s| s.expose.first().cloned()), got, "document with expose {s:?}");
                    let (r, p) = match s.split_once('/') {
                        Some((r, p)) => (r, Some(p)),
                        None => (s.as_str(), None),
                    };
                    let Ok(want) = ref_range(r) else {
                        cov.label("no claim");
                        return Ok(());
                    };
                    cov.nontrivial_if(!s.is_empty());
                    cov.label(if want.is_some() { "valid" } else { "invalid" });
                    ensure_eq!(got.is_some(), want.is_some(), "expose {s:?} accepted");
                    if let (Some(e), Some(w)) = (&got, want) {
                        range_is(e.range, w, &format!("expose {s:?}"))?;
                        ensure_eq!(e.protocol, p.map(ref_protocol), "protocol of expose {s:?}");
                        ensure_eq!(e.to_string().parse().ok(), got, "parse of the printed expose {s:?}");
                        let written = serde_yaml::to_value(e).map_err(|e| e.to_string())?;
                        let want_written: YamlValue = match (w.1, p) {
                            (None, None) => w.0.into(),
                            _ => e.to_string().into(),
                        };
                        ensure_eq!(written, want_written, "serialised expose {s:?}");
                        tmpl::stable(&doc.expect("parsed"))?;
                    }
                    Ok(())
                },
            ),
            sub(
                "ulimits",
                "soft and hard limits from -1 up, as numbers or text, short or long; non-trivial: all",
                20_000,
                || {
                    let n = prop_oneof![3 => -1..2000i64, 1 => Just(-1i64), 1 => 0..=i64::MAX];
                    (gen::ulimit_resource(), n.clone(), n, any::<bool>(), prop::option::weighted(0.2, "x-[a-z]{1,4}"))
                        .prop_map(|(resource, soft, hard, text, extension)| UlimitCase { resource, soft, hard, text, extension })
                },
                |c: &UlimitCase, cov: &mut Cov| {
                    cov.nontrivial();
                    // text limits: documented only for "-1"
                    let leaf = |n: i64| if c.text && n == -1 { YamlValue::from("-1") } else { YamlValue::from(n) };
                    let limit = |n: i64| u64::try_from(n).map_or(Limit::Unlimited, Limit::Value);
                    let mut long = serde_yaml::Mapping::new();
                    long.insert("soft".into(), leaf(c.soft));
                    long.insert("hard".into(), leaf(c.hard));
                    if let Some(x) = &c.extension {
                        long.insert(x.as_str().into(), "v".into());
                    }
                    let t = format!("ulimits: {{{}: '@'}}", serde_json_key(&c.resource));
                    let Some(s) = tmpl::service(&t, &long.clone().into())? else { fail!("rejects {t} with {long:?}") };
                    let Some(ShortOrLong::Long(u)) = s.ulimits.get(c.resource.as_str()) else { fail!("no long ulimit in {s:?}") };
                    ensure_eq!((u.soft, u.hard), (limit(c.soft), limit(c.hard)), "{long:?}");
                    ensure_eq!(u.extensions.len(), usize::from(c.extension.is_some()), "extensions");
                    ensure_eq!(u.as_short().copied(), (c.soft == c.hard && c.extension.is_none()).then(|| limit(c.soft)), "as_short()");
                    tmpl::stable(&s)?;
                    let Some(s) = tmpl::service(&t, &leaf(c.soft))? else { fail!("rejects {t} with {}", c.soft) };
                    let Some(short @ ShortOrLong::Short(l)) = s.ulimits.get(c.resource.as_str()) else { fail!("no short ulimit in {s:?}") };
                    ensure_eq!(*l, limit(c.soft), "short ulimit");
                    let long = short.clone().into_long();
                    ensure_eq!((long.soft, long.hard, long.extensions.len()), (*l, *l, 0), "into_long()");
                    ensure_eq!(tmpl::written(&t, &s)?, Some(YamlValue::from(c.soft)), "serialised short ulimit");
                    tmpl::stable(&s)
                },
            ),
        ],
        known: vec![],
        assumptions: &[
            "no claim on reversed CPU ranges, a trailing comma, numbers with a leading '+'; CPU ranges above 3000 CPUs are not parsed (the set is stored element by element)",
        ],
    }
}

fn serde_json_key(s: &str) -> String {
    format!("{s:?}")
}
