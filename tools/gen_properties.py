#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here so the lines stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

S = "src/service"
p("C01", "A valid Compose document keeps its meaning through parse and serialise",
  "Parsing any valid Compose document and serialising it again yields the same document, up to the documented canonical forms only (short/long syntax folding, canonical duration/size/port strings, omission of empty or default values); no field is lost, renamed, moved, reordered within a user-keyed map or list, or given another value. The parsed value exposes each setting in the field it was written in. Serialising and parsing the result again gives an equal value and the identical document (serialisation is a deterministic fixed point).",
  ["inputs"], "all documents built from every field of every Compose section, in every syntax variant each field accepts, with arbitrary values of the field's type",
  "full_round_trip parses one fixed document (src/test-full.yaml); combinations of fields, syntax variants and values outside that file are never seen.",
  ["src/lib.rs", "src/service.rs", "src/serde.rs", "src/common.rs", "src/network.rs", "src/volume.rs", "src/config.rs", "src/secret.rs", "src/include.rs", f"{S}/build.rs", f"{S}/deploy.rs", f"{S}/deploy/resources.rs", f"{S}/develop.rs", f"{S}/volumes/mount.rs", f"{S}/network_config.rs"],
  [("derived and hand-written Serialize/Deserialize of Compose and Service and everything below them", "src/lib.rs, src/service.rs"), ("field (de)serialisation helpers", "src/serde.rs, src/serde/*.rs"), ("ShortOrLong, ItemOrList, ListOrMap", "src/common.rs, src/common/short_or_long.rs")],
  ["serde_yaml::from_str::<Compose>", "serde_yaml::to_value(&Compose)"])
p("C02", "No input makes parsing panic",
  "Every parsing entry point (the YAML entry points for a whole document and every string or value constructor in the public API) returns a value or an error for every input; it never panics, overflows or indexes out of bounds. The accessors, Display and serialisation of any value such a parse returned do not panic either.",
  ["inputs"], "arbitrary strings, arbitrary YAML trees, and mutations of valid documents and valid strings (truncation, huge numbers, multi-byte characters, duplicated or removed separators); CPU-set ranges are limited to small spans because they are expanded eagerly",
  "Unit tests feed a few dozen well-formed strings and simple random ones; the panics live at unusual offsets and magnitudes (a number above u64, a reversed range, an empty name).",
  ["src/duration.rs", f"{S}/ports.rs", f"{S}/image.rs", f"{S}/image/name.rs", f"{S}/byte_value.rs", f"{S}/cpuset.rs", f"{S}/device.rs", f"{S}/user.rs", f"{S}/volumes.rs", f"{S}/build/cache.rs", f"{S}/build/context.rs", "src/options.rs", "src/serde.rs"],
  [("parsers return Result with typed errors", "src/**/*.rs `parse`/`from_str`"), ("checked arithmetic", "src/duration.rs, src/service/byte_value.rs, src/service/ports.rs")])
p("C03", "Unknown keys are rejected and extension keys are preserved",
  "In every mapping of the format that supports extension fields, a key which is neither a field of that mapping nor prefixed with x- makes parsing fail. A key prefixed with x- is accepted with any value and comes back with the same key, value and order when the document is serialised.",
  ["inputs"], "all valid documents; every extension-capable mapping inside them; arbitrary unknown keys (typos of real fields, fields of other mappings, arbitrary text) and arbitrary extension values",
  "The existing tests exercise one or two mappings with one extension; whether each of the ~25 extension-capable mappings rejects or preserves keys is not examined.",
  ["src/common.rs", "src/common/keys.rs", "src/lib.rs", "src/service.rs", "src/network.rs", "src/volume.rs", "src/config.rs", "src/secret.rs", f"{S}/build.rs", f"{S}/deploy.rs", f"{S}/deploy/resources.rs", f"{S}/healthcheck.rs", f"{S}/network_config.rs", f"{S}/volumes/mount.rs", f"{S}/ports.rs"],
  [("Extensions flattened into each mapping; ExtensionKey rejects other keys", "src/common.rs, src/common/keys.rs"), ("Resource keeps extensions while looking for `external`", "src/common.rs")])
p("C04", "Values of the wrong type or outside the grammar of a field are rejected",
  "Replacing the value of one field of a valid document by a value of a kind or format that field cannot have (a scalar where a mapping belongs, text where a number belongs, a malformed duration, size, port, image, name, enum word or out-of-range number) makes parsing fail with an error. Such a value is never silently dropped, defaulted or coerced.",
  ["inputs"], "all valid documents, every field in them, and every invalid replacement in a per-type catalogue of generated invalid values",
  "Rejection tests exist for a handful of types in isolation and none goes through a whole document, where an untagged or `any` visitor can swallow the error.",
  ["src/serde.rs", "src/service.rs", "src/common.rs", f"{S}/ports.rs", f"{S}/deploy.rs", f"{S}/healthcheck.rs", f"{S}/limit.rs", f"{S}/blkio_config.rs", "src/duration.rs"],
  [("typed fields with validating Deserialize", "src/service.rs and below"), ("ValueEnumVisitor / ItemOrListVisitor / FromStrOrU16Visitor", "src/serde.rs")])
p("C05", "Mutually exclusive and required fields are enforced",
  "A document giving two settings the format declares mutually exclusive (service network_mode with networks, build dockerfile with dockerfile_inline, more than one source for a config or secret, a healthcheck disabled together with other options, credential_spec sources, mount options of another mount type), or lacking a required one (services, a config/secret source, bind/volume source or target, a port target, and so on), fails to parse. The same document with exactly one permitted combination parses.",
  ["inputs"], "all subsets of the fields of each such mapping with arbitrary valid values",
  "Tests cover single pairs in one order; the rule is about every combination of fields.",
  ["src/service.rs", f"{S}/network_config.rs", f"{S}/build.rs", f"{S}/build/dockerfile.rs", f"{S}/healthcheck.rs", f"{S}/credential_spec.rs", f"{S}/volumes/mount.rs", "src/config.rs", "src/secret.rs", f"{S}/ports.rs", f"{S}/develop.rs"],
  [("FlattenedEnum-style visitors producing duplicate/missing field errors", "src/serde.rs, src/service/network_config.rs, src/service/build/dockerfile.rs, src/config.rs, src/secret.rs"), ("healthcheck Visitor", "src/service/healthcheck.rs")])
p("C06", "Merge keys and the YAML entry points agree",
  "For any document, the string, byte, reader and value entry points of the options builder produce equal results (all fail or all give equal values), equal to plain deserialisation when merging is off. With merging on, a document with `<<` keys parses to the same value as the document with those merges written out by hand (explicit keys win over merged ones, earlier sources over later ones), and a document without `<<` keys parses to the same value as with merging off.",
  ["inputs", "configurations"], "valid and invalid documents with generated anchors, aliases and merge keys at any mapping, single or listed sources; both option settings; string-valued fields given as strings; values compared up to the order of mapping keys when merging",
  "Two fixed examples in doc comments; nothing compares entry points or nested/list merges.",
  ["src/options.rs", "src/lib.rs"],
  [("Options::from_yaml_str/reader/slice/value", "src/options.rs")])
p("C07", "Reference validation reports exactly the undefined resources",
  "validate_networks, validate_configs and validate_secrets succeed if and only if every network, config or secret a service uses is a key of the matching top-level map; validate_volumes succeeds if and only if every named volume used by more than one service (in short or long syntax) is a key of the top-level volumes. On failure the error names the first offending resource in service order (and the service for networks, configs and secrets), and validate_all reports the first failure in the order networks, volumes, configs, secrets.",
  ["inputs"], "all compose values with arbitrary services, short and long references of every kind, and arbitrary top-level definitions",
  "One hand-built pass/fail pair per resource kind; not multi-service combinations, long syntax, first-offender order or the validate_all order.",
  ["src/lib.rs", "src/service.rs", f"{S}/volumes.rs", f"{S}/network_config.rs", f"{S}/config_or_secret.rs"],
  [("Compose::validate_*", "src/lib.rs"), ("Service::validate_*", "src/service.rs"), ("named_volumes_iter", "src/service/volumes.rs")])
p("C08", "Names and keys accept exactly their documented grammar",
  "Each validated text type (project name, identifier, map key, extension key, hostname, ulimit/cache option and resource keys, user or group name, image tag, digest and name) accepts a string if and only if it satisfies the documented rules of that type, and an accepted string is kept verbatim. Every way of constructing the type (new, FromStr, TryFrom of each string type, deserialisation, use as a map key or in a document) makes the same decision.",
  ["inputs"], "all strings, concentrated on near-misses: boundary characters, empty parts, first/last-position rules, lengths at the limit, control and multi-byte characters",
  "Proptests in the repository only feed strings from the accepting regex; rejection is tested on single examples, so a widened grammar passes.",
  ["src/common/keys.rs", "src/name.rs", f"{S}/hostname.rs", f"{S}/ulimit.rs", f"{S}/user.rs", f"{S}/build/cache.rs", f"{S}/image/tag.rs", f"{S}/image/digest.rs", f"{S}/image/name.rs"],
  [("key_impls! macro and per-type validation", "src/common/keys.rs"), ("Name::new", "src/name.rs"), ("Hostname/Resource/UserOrGroup/Tag/Digest constructors", "src/service/*")])
p("C09", "String-like types behave exactly like their text",
  "For every key, name and image type, equality, ordering, hashing, Display, as_str/AsRef/Borrow, comparison with plain strings, conversion back to String and serialisation agree with the underlying text. A value in any map or set is found by its text, and never by a different text.",
  ["inputs"], "all pairs of valid strings of each type, including equal, prefix-related and case-differing pairs, and sets of such strings",
  "No test compares hashing or ordering with the string; map lookup by &str is exercised on one key.",
  ["src/common/keys.rs", "src/name.rs", f"{S}/image.rs", f"{S}/hostname.rs", f"{S}/ulimit.rs", f"{S}/user.rs", f"{S}/image/name.rs", f"{S}/image/tag.rs", f"{S}/image/digest.rs"],
  [("hand-written PartialEq/Eq/Hash/Ord/Borrow impls", "src/service/image.rs, src/common/keys.rs")])
p("C10", "Image references are split into their parts correctly",
  "An image reference is accepted if and only if it is a valid name (optional registry with optional port, non-empty path components of the allowed characters and separators) optionally followed by one valid tag or one valid digest. For an accepted reference the name, registry, tag and digest accessors return exactly those parts of the original text, and the parts reassemble to it.",
  ["inputs"], "all strings built from registry, port, path, tag and digest parts, valid or with one part broken",
  "The existing proptests check that generated valid images parse and re-display; that the parts are the right ones when registries have ports, or that broken references are refused, is sampled by hand.",
  [f"{S}/image.rs", f"{S}/image/name.rs", f"{S}/image/tag.rs", f"{S}/image/digest.rs"],
  [("Image::parse and stored part offsets", "src/service/image.rs"), ("Name validation", "src/service/image/name.rs")])
p("C11", "Editing an image keeps all its parts consistent",
  "After any sequence of set_registry, set_name, set_tag, set_digest, set_tag_and_digest style edits and rebuilds from parts, the image text equals the text assembled from the current registry, path and tag or digest, every accessor returns the current part, and the text parses back to an equal image. An edit never changes a part other than the one set (setting a tag replaces a digest and vice versa, as documented).",
  ["histories"], "all sequences of edits with arbitrary valid parts, starting from any valid image",
  "Tests apply one edit to one image; stale offsets only show after sequences of edits of different lengths.",
  [f"{S}/image.rs", f"{S}/image/name.rs"],
  [("in-place string surgery with stored offsets", "src/service/image.rs"), ("from_parts / into_parts", "src/service/image.rs")])
p("C12", "Durations parse to the exact span and print back losslessly",
  "A duration string of the documented form (integer values with units us, ms, s, m, h in any combination) parses to exactly the sum of its terms, and anything else, including an overflowing sum, is an error. Printing a duration of whole microseconds gives a string that parses back to it, and the fields that are durations (as text, or as integer microseconds for cpu_period and cpu_quota) hold that exact span.",
  ["inputs"], "all sequences of terms with arbitrary magnitudes, all near-miss strings, and all whole-microsecond durations up to the representable maximum",
  "The proptests draw modest u32-sized values in canonical order; overflow, boundary and malformed inputs are single examples.",
  ["src/duration.rs", "src/serde/duration_option.rs", "src/serde/duration_us_option.rs"],
  [("duration::parse / to_string", "src/duration.rs"), ("serde helpers", "src/serde/duration_option.rs, src/serde/duration_us_option.rs")])
p("C13", "Byte sizes convert exactly",
  "A size given as an integer or as an integer with one of the documented units (b, k, kb, m, mb, g, gb; those of one letter also in upper case) parses to that exact amount with its unit, and its byte count is the value times 1, 10^3, 10^6 or 10^9 (none when that exceeds the representable maximum). Any other text is rejected, printing then parsing is the identity, and every field holding a size (alone or as a limit where -1 means unlimited) holds and writes exactly the size given.",
  ["inputs"], "all integers and unit spellings, including values whose byte count overflows, and near-miss strings",
  "Existing tests use small magnitudes and the accepted spellings only.",
  [f"{S}/byte_value.rs", f"{S}/limit.rs"],
  [("ByteValue parse/Display/into_bytes/into_units", "src/service/byte_value.rs"), ("Limit<ByteValue>", "src/service/limit.rs")])
p("C14", "Port mappings parse, convert and print without changing meaning",
  "A short port mapping [ip:][host:]container[/protocol] is accepted exactly when each part is well formed, ranges are ordered and host and container ranges have compatible sizes; its parts are the ones written (IPv4, IPv6 bracketed or bare as documented, host, container, protocol). Converting short to long syntax and back, printing and parsing again, and expanding a short mapping to per-port long mappings all keep the set of published host, container, protocol and interface tuples, in order.",
  ["inputs"], "all combinations of addresses, single ports and ranges (including boundary ports 0, 1, 65535 and unequal or reversed ranges) and protocols, plus malformed strings",
  "Repository proptests start from generated values and round-trip them; no independent expansion, boundary-range or rejection oracle.",
  [f"{S}/ports.rs"],
  [("ShortPort/ShortRanges/Range parse, Display and conversions", "src/service/ports.rs"), ("Port::into_short / ShortPort::into_long", "src/service/ports.rs")])
p("C15", "Service volume syntax conversions keep the mount unchanged",
  "A short volume string [source:]target[:options] parses to exactly the source kind (host path, named volume, anonymous), target, access mode and options written, or is rejected. Converting a volume between short and long syntax in either direction keeps type, source, target, read-only, and the options the other syntax can express, and reports that no short form exists whenever the long form carries an option short syntax lacks.",
  ["inputs"], "all short strings over source kinds, targets and option lists; all long mounts of every type with every subset of options",
  "Tests convert a few fixed mounts; the guarantee is about every subset of options of every mount type.",
  [f"{S}/volumes.rs", f"{S}/volumes/mount.rs"],
  [("ShortVolume parse/Display/into_long", "src/service/volumes.rs"), ("Mount::into_short and per-type into_short", "src/service/volumes/mount.rs")])
p("C16", "Short and long syntax are interchangeable wherever both exist",
  "For every setting with both syntaxes (build, depends_on, include, env_file, configs, secrets, networks, ulimits and similar), converting short to long gives the long value holding just that short value and defaults, and converting long to short succeeds exactly when nothing but the short value is set. Those conversions are mutually inverse, and a setting written either way in a document yields the same long value.",
  ["inputs"], "all short values and all long values with every subset of extra options set, alone and inside collections mixing both",
  "Only some types have one conversion test each; iff-no-other-option is a statement about all subsets of options.",
  ["src/common/short_or_long.rs", "src/common.rs", "compose_spec_macros/src/as_short.rs", "src/include.rs", f"{S}/build.rs", f"{S}/env_file.rs", f"{S}/config_or_secret.rs", f"{S}/ulimit.rs", "src/service.rs", f"{S}/network_config.rs"],
  [("ShortOrLong, AsShort, AsShortIter", "src/common/short_or_long.rs"), ("AsShort derive", "compose_spec_macros/src/as_short.rs")])
p("C17", "Lists, maps and scalar values convert without loss",
  "Converting a setting between list form (key=value items) and map form keeps every key, value and order, splitting on the first delimiter only and treating an item without one as a key without value. Scalar values parse to boolean, number or text by the documented precedence, integers convert to an integer type exactly when it can hold them, conversions to floating point are never lossy, a float never becomes an integer, and item-or-list values behave like the list of their items.",
  ["inputs"], "all lists of strings with zero, one or many delimiters, duplicates and empty parts; all maps of scalar values; all numbers including integer and float boundaries",
  "Conversions are shown in doc examples; boundary numbers and odd delimiters are not sampled.",
  ["src/common.rs"],
  [("ListOrMap::into_list/into_map/into_map_split_on", "src/common.rs"), ("Value/Number/StringOrNumber parse and TryFrom", "src/common.rs"), ("ItemOrList", "src/common.rs")])
p("C18", "Platform strings and typed platforms agree",
  "Every supported os[/arch[/variant]] string parses to the platform whose os, architecture and variant accessors print those components, and printing that platform gives the string back; any unsupported combination is rejected. Each operating system accepts exactly the architectures documented for it, and the typed conversions between platform, OS, architecture and variant agree with the strings.",
  ["inputs"], "the full product of operating systems, architectures and variants (finite, enumerated), plus near-miss strings",
  "The types are generated by a macro from a table; unit tests check a few entries.",
  [f"{S}/platform.rs", "compose_spec_macros/src/platforms.rs", "compose_spec_macros/src/platforms"],
  [("platforms! table and generated enums", "src/service/platform.rs, compose_spec_macros/src/platforms")])
p("C19", "Device, cgroup-rule and block-IO settings keep their exact meaning",
  "A device mapping host:container[:permissions] and a device cgroup rule `kind major:minor permissions` (numbers or *) parse to exactly the parts written, print back to an equivalent string that parses to the same value, and reject malformed parts. Weights and rate limits hold exactly the written values and refuse out-of-range ones.",
  ["inputs"], "all combinations of paths, permissions subsets in any order, major/minor values, kinds and weights, plus malformed strings",
  "Round-trip tests start from canonical values only; permission order, missing parts and range limits are sampled by hand.",
  [f"{S}/device.rs", f"{S}/blkio_config.rs"],
  [("Device/CgroupRule/Permissions parse and Display", "src/service/device.rs"), ("Weight", "src/service/blkio_config.rs")])
p("C20", "Networking and linkage strings keep their exact meaning",
  "Network mode, MAC address, network endpoint settings, extra hosts, links, external links, volumes_from, IPC, PID, UTS, cgroup and user-namespace settings parse to exactly the alternative and the parts written, and print to text that parses back to an equal value. Malformed text is rejected where the type has a defined format.",
  ["inputs"], "all values of each type with arbitrary valid names (including names equal to keywords of the grammar such as ro, rw, service or host), and arbitrary near-miss strings",
  "Round trips are tested on one value per alternative; names that collide with keywords and zero-padded bytes are not.",
  [f"{S}/network_config.rs", "src/service.rs", f"{S}/volumes.rs", f"{S}/hostname.rs"],
  [("NetworkMode, MacAddress, Link, VolumesFrom, IpcMode and similar parse/Display", "src/service.rs, src/service/network_config.rs")])
p("C21", "Keyword enumerations agree between text, parsing and documents",
  "Every keyword enumeration of the format (restart, pull policy, isolation, ordering and failure actions, drivers, bind propagation, SELinux, protocols, conditions and so on) maps each documented word to one alternative and back, identically through as_str, Display, FromStr, TryFrom and document (de)serialisation. Words outside a closed enumeration are rejected, and open enumerations keep an unknown word verbatim.",
  ["inputs"], "every alternative of every enumeration (enumerated) and arbitrary other words, including case variants and prefixes of keywords",
  "Many of these enumerations are exercised only through one word in test-full.yaml.",
  ["src/service.rs", f"{S}/deploy.rs", f"{S}/deploy/endpoint_mode.rs", f"{S}/deploy/resources.rs", f"{S}/develop.rs", f"{S}/volumes/mount.rs", f"{S}/volumes.rs", f"{S}/ports.rs", "src/network.rs", f"{S}/healthcheck.rs"],
  [("enum as_str/FromStr/serde impls", "src/service.rs, src/service/deploy.rs, src/network.rs")])
p("C22", "Bounded numbers accept exactly their range",
  "Each bounded numeric setting (percentages, CPU counts, OOM score adjustment, swappiness, block-IO weight, limits where -1 means unlimited, ports, pids) accepts exactly the documented range through every constructor and in documents, whether written as an integer, float or text where the field allows it. The accepted number is read back unchanged and an out-of-range one is an error, never clamped or wrapped.",
  ["inputs"], "all integers and floats, concentrated on both sides of every bound, on type limits and on special floats",
  "Tests try one value inside and one outside each bound; the integer/float/text spellings are not crossed.",
  ["src/service.rs", f"{S}/limit.rs", f"{S}/blkio_config.rs", f"{S}/deploy/resources.rs", f"{S}/build.rs", f"{S}/ulimit.rs", f"{S}/ports.rs"],
  [("Percent, OomScoreAdj, Weight, Limit, Cpus constructors and Deserialize", "src/service.rs, src/service/limit.rs, src/service/blkio_config.rs, src/service/deploy/resources.rs")])
p("C23", "Build cache, context, SSH and network strings keep their exact meaning",
  "A build cache entry, build context (URL or path, with git branch and subdirectory), SSH authentication entry and build network parse to exactly the parts written, print to text that parses back to an equal value, and are rejected when malformed. Cache options are kept in order and never confused with the image reference or the cache type.",
  ["inputs"], "all combinations of cache types, references and options, URLs and paths with fragments, and SSH ids and paths, plus malformed strings",
  "Unit tests cover each documented spelling once.",
  [f"{S}/build.rs", f"{S}/build/cache.rs", f"{S}/build/context.rs", f"{S}/build/ssh_auth.rs", f"{S}/build/network.rs"],
  [("Cache/CacheType/CacheOption", "src/service/build/cache.rs"), ("Context", "src/service/build/context.rs"), ("SshAuth", "src/service/build/ssh_auth.rs")])
p("C24", "External resources are recognised exactly",
  "A top-level network, volume, config or secret with external: true parses as external with its name, and is rejected when any setting other than name is present; without external: true it parses as an ordinary resource with all its settings and extensions in order. Serialising either gives back an equivalent resource that parses to an equal value.",
  ["inputs"], "all resources of the four kinds with every subset of settings, extensions and external true, false or absent, in any key order",
  "One external example per kind; combinations with other settings, key order and external: false are not generated.",
  ["src/common.rs", "src/network.rs", "src/volume.rs", "src/config.rs", "src/secret.rs"],
  [("Resource<T> Serialize/Deserialize", "src/common.rs")])
p("C25", "Health checks keep command, disabling and options exact",
  "A health check parses to the command form written (CMD list, CMD-SHELL or plain string) with exactly the given interval, timeout, start period, start interval, retries and extensions, or to the disabled form when disable: true or else test NONE is given without other options. A shell command given as string or as CMD-SHELL list is the same test, and malformed tests are rejected.",
  ["inputs"], "all health checks with every subset of options, every test form with arbitrary arguments, and malformed tests",
  "Tests cover each test form once with few options.",
  [f"{S}/healthcheck.rs"],
  [("Healthcheck and Test (de)serialisation", "src/service/healthcheck.rs")])
p("C26", "Emptiness, defaults and omission of settings agree",
  "A settings group reports itself empty if and only if nothing in it is set (an empty list, map or nested group counts as nothing), its default value is empty, and serialising a default group produces an empty mapping that parses back to the default. Omitting a setting is the same as writing its documented default (attach, required, create_host_path, condition and restart flags and so on), and a non-default value is always written out.",
  ["inputs"], "all settings groups with every subset of settings; every field with a documented default set to the default, to a non-default value, or omitted",
  "is_empty is unit-tested on few types and never with each single field set.",
  ["src/service.rs", f"{S}/build.rs", f"{S}/deploy.rs", f"{S}/deploy/resources.rs", "src/network.rs", "src/volume.rs", f"{S}/network_config.rs", f"{S}/volumes/mount.rs", "src/serde.rs"],
  [("is_empty methods and skip_serializing_if", "src/service.rs, src/service/deploy.rs, src/network.rs"), ("default_true / skip_true helpers", "src/serde.rs")])
p("C27", "Path types keep their invariant under every operation",
  "An absolute container path is always absolute and a host path always is absolute or starts with a . or .. component, whatever sequence of constructing, pushing, popping and converting is applied; construction from and conversion of any other path fails, and a pop which would break the invariant leaves the value unchanged. The resulting path equals what the same operations give on an ordinary path.",
  ["histories"], "all sequences of path operations with relative, absolute, empty, dot and parent components",
  "Constructors are tested on fixed strings; sequences of mutations are not tested at all.",
  [f"{S}/volumes.rs"],
  [("AbsolutePath / HostPath", "src/service/volumes.rs")])
p("C28", "CPU sets, users, exposed ports and ulimits keep their exact meaning",
  "A cpuset string denotes exactly the set of CPUs its comma separated numbers and ranges list; a user entry its user and group by name or id; an expose entry its port or range and protocol; a ulimit its soft and hard values. Each prints to text that parses back to the same value and rejects malformed text.",
  ["inputs"], "all such strings with arbitrary numbers, overlapping or reversed ranges of bounded span, names and ids, plus malformed strings",
  "Round trips from canonical values only; overlaps, reversed ranges and id/name ambiguity are not sampled.",
  [f"{S}/cpuset.rs", f"{S}/user.rs", f"{S}/expose.rs", f"{S}/ulimit.rs"],
  [("CpuSet parse/Display", "src/service/cpuset.rs"), ("User/UserOrGroup/IdOrName", "src/service/user.rs"), ("Expose", "src/service/expose.rs")])
p("C29", "Lists keep every entry and its place",
  "A list setting keeps its entries in the order written: where the format has a list of unique entries (capabilities, devices, DNS, exposed and published ports, volumes, profiles, links, groups, security options, aliases, label and environment lists and so on) each distinct entry is kept exactly once at its first place, and entries that differ in any part, however little, are all kept. Where repetition is allowed (command words, include, env_file, configs, secrets, build caches and tags, placement, device reservations, watch rules) repeated entries are all kept.",
  ["inputs"], "all lists with repeated, equal but differently written, and almost equal entries, in every list setting of the format",
  "Tests hardly ever repeat an entry, and never compare entries that differ in one part only; manual equality and hashing implementations decide which entries survive.",
  ["src/service.rs", "src/common.rs", f"{S}/ports.rs", f"{S}/volumes/mount.rs", f"{S}/network_config.rs", f"{S}/deploy/resources.rs"],
  [("IndexSet and Vec fields of Service, Build, Network and Reservations", "src/service.rs, src/service/build.rs"), ("PartialEq/Hash of Port and the mount types", "src/service/ports.rs, src/service/volumes/mount.rs")])
p("C30", "The order in which settings are written does not matter",
  "Reordering the keys of any mappings of a document, valid or not, does not change whether it is accepted, with merging off or on, and a document accepted in both orders gives the same settings with the same values; only the order of user-keyed entries and extensions follows the one written.",
  ["inputs"], "all documents (valid, with contradicting, missing, unknown or wrong settings) and all permutations of the keys of their mappings",
  "Tests write the settings of each group in one order; hand-written map visitors decide on what they saw before.",
  ["src/service.rs", f"{S}/healthcheck.rs", f"{S}/volumes/mount.rs", "src/common.rs", "src/config.rs", "src/secret.rs", f"{S}/build/dockerfile.rs", f"{S}/credential_spec.rs", "src/serde.rs"],
  [("hand-written visit_map and flattened enums", "src/service/healthcheck.rs, src/common.rs, src/service/network_config.rs")])
p("C31", "Equality, hashing and ordering agree with what values mean",
  "Two values of the model (a document, a service, a settings group, a list entry) compare equal exactly if they hold the same settings, so values that differ in any setting are unequal; equality is symmetric and agrees with a clone. Equal values that can be hashed have equal hashes and find each other in a set. The order of ordered values is total and consistent with equality, and numbers are ordered as such, with no limit above every limit. A value compares with a plain number, range, text or path as what it holds does.",
  ["inputs"], "all pairs of documents and settings, in particular ones that differ in one choice, and triples of ordered values",
  "Tests compare whole parsed documents with themselves; no test compares values that differ in one field.",
  ["src/common.rs", f"{S}/ports.rs", f"{S}/volumes/mount.rs", f"{S}/limit.rs", f"{S}/blkio_config.rs", "src/service.rs"],
  [("manual PartialEq/Hash implementations", "src/service/ports.rs, src/service/volumes/mount.rs, src/common.rs"), ("derived Eq/Ord/Hash of value types", "src/service/*.rs")])
p("C32", "Reading does not depend on how a format hands over values",
  "The public types read the same from every self-describing serde format with YAML's data model, as from YAML: whether texts come borrowed, copied or owned, integers in the smallest type or in 64 bits, and collections with or without a known size, the same trees are accepted and give the same values. What a type accepts of numbers handed over as signed, of texts handed over as bytes and of values wrapped as options or newtypes, it reads as the same value as from YAML.",
  ["inputs"], "all documents, settings and arbitrary trees, valid or not, for every public type that can be read, and all ways of handing values over",
  "Tests read from serde_yaml only, mostly from text; the visitors have separate methods for each of these ways.",
  ["src/serde.rs", "src/common/short_or_long.rs", "src/common.rs", f"{S}/user.rs", f"{S}/limit.rs", f"{S}/deploy/resources.rs", f"{S}/byte_value.rs"],
  [("hand-written visitors", "src/serde.rs, src/common/short_or_long.rs"), ("number visitors", f"{S}/limit.rs, {S}/deploy/resources.rs, {S}/user.rs")])
p("C33", "Values put together in code mean the same as ones read",
  "A value made in code, by a constructor, a conversion or by assigning public fields, from parts free of the characters which the written form gives a meaning, equals the one read from its written form, is written the same as that one, and reads back as itself; predicates and accessors (is_*, as_*, kind, common) agree with how it was made, conversions back give what went in, and arithmetic and comparisons with plain numbers agree with those numbers.",
  ["inputs"], "all values of the parts that constructors and conversions take, and all exchanges of public fields between two documents, services, builds, deployments, networks or volumes",
  "Tests build few values in code, most only through parsing; hundreds of small conversions and predicates have no test.",
  ["src/common.rs", f"{S}/volumes/mount.rs", f"{S}/ports.rs", f"{S}/user.rs", f"{S}/build/cache.rs", f"{S}/deploy/resources.rs", "src/common/short_or_long.rs", f"{S}/blkio_config.rs", f"{S}/build/context.rs"],
  [("From/TryFrom implementations and constructors", "src/**/*.rs"), ("impl_from! and impl_from_str!", "src/common.rs, src/lib.rs")])
p("C34", "Errors say what is wrong with the input",
  "Whatever the library rejects, it rejects with an error that is true of the input: the variant of the error names a rule that the text or number really breaks, and the characters, parts, numbers and bounds the error shows are those of the input and of the rule; every way of parsing a text gives the same error. Read from a document, the error shows the same with all of its causes, an unknown setting or a missing required one is named, and so is a setting that is excluded by another, or the one that excludes it.",
  ["inputs"], "all texts near every text type, all numbers, and all documents with an unknown, missing or excluded setting",
  "Tests check a handful of variants; which character, part or number is reported depends on the whole input, and causes get lost between the parser and the reader of a document unnoticed.",
  ["src/serde.rs", "src/duration.rs", "src/common/keys.rs", "src/common.rs", f"{S}/byte_value.rs", f"{S}/ports.rs", f"{S}/image.rs", f"{S}/volumes.rs", f"{S}/build/cache.rs", f"{S}/device.rs", f"{S}/network_config.rs", "src/service.rs"],
  [("thiserror enumerations and where they are made", "src/**/*.rs"), ("error_chain", "src/serde.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
