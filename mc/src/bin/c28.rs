//@ hooks
//! C28: node configuration files and key file names survive a round trip.
//!
//! (1) Every setting, alone and in pairs, saved and loaded, over other files, on top of other
//! settings, and every truncation of a file. (2) Every small phonebook. (3) Every file name made of
//! a few awkward pieces, and every name and validity period over boundary values. (4) Every value
//! of the flag words and bootstrap addresses. (5) Every sequence of operations on the global
//! configuration directory.

use std::path::PathBuf;

use algorsand::config::verif_hook as h;
use algorsand::config::*;
use algorsand::data::basics::Round;
use mc::*;
use serde_json::{json, Map, Value};
use std::os::unix::fs::PermissionsExt;

fn json_of(l: &Local) -> Map<String, Value> {
    match serde_json::to_value(l).unwrap() {
        Value::Object(m) => m,
        _ => panic!("settings are no object"),
    }
}

fn local_of(m: &Map<String, Value>) -> Local {
    serde_json::from_value(Value::Object(m.clone())).expect("settings")
}

/// What loading does on top of the plain settings: relays are archival and serve.
fn relays(mut m: Map<String, Value>) -> Map<String, Value> {
    if m["net_address"] != json!("") {
        for f in ["archival", "enable_ledger_service", "enable_block_service"] {
            m.insert(f.into(), json!(true));
        }
    }
    m
}

/// Other values for a setting, by its kind.
fn others(v: &Value, signed: bool) -> Vec<Value> {
    match v {
        Value::Bool(b) => vec![json!(!b)],
        Value::String(_) => vec![
            json!(""),
            json!("x"),
            json!("<network>.example.org;a\"b\\c\n\u{e9}$HOME"),
        ],
        Value::Number(n) => {
            let mut out = vec![json!(1), json!(0), json!(i32::MAX)];
            if signed || n.is_i64() && n.as_i64() < Some(0) {
                out.push(json!(-7));
            }
            out.retain(|x| x != v);
            out
        }
        Value::Object(o) if o.contains_key("secs") => vec![
            json!({"secs": 0, "nanos": 1}),
            json!({"secs": 1u64 << 40, "nanos": 999_999_999}),
        ],
        Value::Object(_) => vec![json!({"10.0.0.1": true}), json!({"a": false, "b": true})],
        v => panic!("unexpected setting {}", v),
    }
}

fn settings(r: &mut Report) {
    let defaults = json_of(&Local::default());
    let names: Vec<String> = defaults.keys().cloned().collect();
    // every change of a single setting
    let mut changes: Vec<(String, Value)> = vec![];
    for n in &names {
        for v in others(&defaults[n], false) {
            let mut m = defaults.clone();
            m.insert(n.clone(), v.clone());
            if serde_json::from_value::<Local>(Value::Object(m)).is_ok() && v != defaults[n] {
                changes.push((n.clone(), v));
            }
        }
    }
    let mut cases: Vec<Vec<usize>> = vec![vec![]];
    let n = changes.len();
    for i in 0..n {
        cases.push(vec![i]);
        for j in i + 1..n {
            if changes[i].0 != changes[j].0
                && (thorough()
                    || changes[i].0 == "net_address"
                    || changes[j].0 == "version"
                    || (i + j) % 3 == 0)
            {
                cases.push(vec![i, j]);
            }
        }
    }
    cases.push({
        // the last change of every setting at once
        (0..n)
            .filter(|&i| i + 1 == n || changes[i].0 != changes[i + 1].0)
            .collect()
    });
    r.space(
        "settings",
        format!(
            "{} settings, {} single changes, {} combinations",
            names.len(),
            n,
            cases.len()
        ),
    );
    let chunks: Vec<(usize, Vec<Vec<usize>>)> =
        cases.chunks(400).map(|c| c.to_vec()).enumerate().collect();
    let (changes, defaults) = (&changes, &defaults);
    parallel(r, chunks, |r, (n, list)| {
        let dir = scratch(&format!("settings{}", n));
        let d = dir.to_str().unwrap();
        let file = dir.join("config.json");
        for c in list {
            r.state();
            r.steps(4);
            let mut m = defaults.clone();
            let mut part = Map::new();
            for &i in c {
                m.insert(changes[i].0.clone(), changes[i].1.clone());
                part.insert(changes[i].0.clone(), changes[i].1.clone());
            }
            let case = || format!("{}", Value::Object(part.clone()));
            // saved (over whatever was there before) and loaded
            let l = local_of(&m);
            let saved = guard(|| l.save_to_disk(d).map_err(|e| e.to_string()));
            r.check(saved == Ok(Ok(())), "save", case, || format!("{:?}", saved));
            let got = guard(|| {
                h::load_from_disk(d)
                    .map(|l| json_of(&l))
                    .map_err(|e| e.to_string())
            });
            let want = relays(m.clone());
            r.check(got == Ok(Ok(want.clone())), "round-trip", case, || {
                diff(&got, &want)
            });
            // saved under another name: the same file
            let other = format!("{}/other.json", d);
            r.step();
            let saved = guard(|| l.save_to_file(&other).map_err(|e| e.to_string()));
            r.check(
                saved == Ok(Ok(())) && std::fs::read(&other).ok() == std::fs::read(&file).ok(),
                "save-other-name",
                case,
                || format!("{:?}", saved),
            );
            let mode = std::fs::metadata(&file)
                .map(|m| m.permissions().mode() & 0o777)
                .unwrap_or(0);
            r.check(mode == 0o600, "mode", case, || format!("{:o}", mode));
            // a hand-written file with just these, and one with something unknown
            for extra in [false, true] {
                let mut p = part.clone();
                if extra {
                    p.insert("no_such_setting".into(), json!([1, {"x": null}]));
                }
                std::fs::write(&file, serde_json::to_vec(&p).unwrap()).unwrap();
                let got = guard(|| {
                    h::load_from_disk(d)
                        .map(|l| json_of(&l))
                        .map_err(|e| e.to_string())
                });
                r.check(got == Ok(Ok(want.clone())), "partial", case, || {
                    diff(&got, &want)
                });
            }
            // on top of other settings: what the file does not say stays
            let mut base = defaults.clone();
            base.insert("gossip_fanout".into(), json!(77));
            base.insert("endpoint_address".into(), json!("there"));
            base.insert("enable_profiler".into(), json!(true));
            let mut want = base.clone();
            want.extend(part.clone());
            let mut l = local_of(&base);
            let got = guard(|| {
                h::merge_from_dir(&mut l, d)
                    .map(|_| ())
                    .map_err(|e| e.to_string())
            })
            .and_then(|x| Ok(x.map(|_| json_of(&l))));
            let want = relays(want);
            r.check(got == Ok(Ok(want.clone())), "merge", case, || {
                diff(&got, &want)
            });
            r.outcome(if want["net_address"] == json!("") {
                "node"
            } else {
                "relay"
            });
            r.trace();
        }
    });
    // malformed files
    let dir = scratch("settings");
    let d = dir.to_str().unwrap().to_string();
    let file = dir.join("config.json");
    let mut m = defaults.clone();
    for n in 0..changes.len() {
        m.insert(changes[n].0.clone(), changes[n].1.clone());
    }
    local_of(&m).save_to_disk(&d).unwrap();
    let full = std::fs::read(&file).unwrap();
    let mut bad: Vec<Vec<u8>> = (0..full.len()).map(|n| full[..n].to_vec()).collect();
    for b in [
        "[]",
        "null",
        "7",
        "\"x\"",
        "{\"gossip_fanout\": \"x\"}",
        "{\"gossip_fanout\": -1}",
        "{\"gossip_fanout\": 1.5}",
        "{\"archival\": 1}",
        "{\"net_address\": null}",
        "{\"reconnect_time\": 3}",
        "{\"priority_peers\": []}",
        "{} x",
        "{\"gossip_fanout\": 4294967296}",
    ] {
        bad.push(b.as_bytes().to_vec());
    }
    bad.push(vec![0xff, 0xfe]);
    for b in &bad {
        r.state();
        r.steps(2);
        std::fs::write(&file, b).unwrap();
        let case = || {
            format!(
                "{} bytes: {}",
                b.len(),
                String::from_utf8_lossy(&b[b.len().saturating_sub(40)..])
            )
        };
        let got = guard(|| h::load_from_disk(&d).is_err());
        r.check(got == Ok(true), "malformed", case, || format!("{:?}", got));
        let mut l = local_of(&m);
        let got = guard(|| h::merge_from_dir(&mut l, &d).is_err());
        r.check(
            got == Ok(true) && json_of(&l) == m,
            "malformed-merge",
            case,
            || format!("{:?}, or the settings changed", got),
        );
        r.outcome("malformed");
    }
    r.trace();
    let gone = dir.join("nowhere");
    let gone = gone.to_str().unwrap();
    r.check(
        guard(|| h::load_from_disk(gone).is_err()) == Ok(true),
        "nowhere",
        || "load".into(),
        || "no error".into(),
    );
    r.check(
        guard(|| Local::default().save_to_disk(gone).is_err()) == Ok(true),
        "nowhere",
        || "save".into(),
        || "no error".into(),
    );
}

fn diff(
    got: &std::result::Result<std::result::Result<Map<String, Value>, String>, String>,
    want: &Map<String, Value>,
) -> String {
    match got {
        Ok(Ok(g)) => want
            .iter()
            .filter(|(k, v)| g.get(*k) != Some(v))
            .map(|(k, v)| format!("{}: {:?} instead of {}", k, g.get(k), v))
            .collect::<Vec<_>>()
            .join(", "),
        other => format!("{:?}", other),
    }
}

fn phonebooks(r: &mut Report) {
    let entries = [
        "",
        "a",
        "relay.example.org:4160",
        "\"",
        "\\",
        "\n",
        "\u{e9}\u{1F600}",
        "$HOME",
        "{\"include\":[]}",
    ];
    let dir = scratch("phonebook");
    let d = dir.to_str().unwrap().to_string();
    let file = dir.join("phonebook.json");
    r.check(
        guard(|| load_phonebook(&d).is_err()) == Ok(true),
        "phonebook-nowhere",
        || "no file".into(),
        || "no error".into(),
    );
    // each saved over the previous one; lists shrink and grow
    for len in (0..=tier(3, 4)).rev().chain(0..=2) {
        product(&vec![entries.len(); len], |x| {
            r.state();
            r.step();
            let list: Vec<String> = x.iter().map(|&i| entries[i].to_string()).collect();
            let saved =
                guard(|| save_phonebook_to_disk(list.clone(), &d).map_err(|e| e.to_string()));
            let got = guard(|| load_phonebook(&d).map_err(|e| e.to_string()));
            r.check(
                saved == Ok(Ok(())) && got == Ok(Ok(list.clone())),
                "phonebook",
                || format!("{:?}", list),
                || format!("{:?}, then {:?}", saved, got),
            );
        });
        r.trace();
    }
    save_phonebook_to_disk(vec!["one".into(), "two".into()], &d).unwrap();
    let mode = std::fs::metadata(&file).unwrap().permissions().mode() & 0o777;
    r.check(
        mode == 0o600,
        "phonebook-mode",
        || "phonebook".into(),
        || format!("{:o}", mode),
    );
    let full = std::fs::read(&file).unwrap();
    let mut bad: Vec<Vec<u8>> = (0..full.len()).map(|n| full[..n].to_vec()).collect();
    for b in [
        "{}",
        "[]",
        "null",
        "{\"include\": null}",
        "{\"include\": \"a\"}",
        "{\"include\": [1]}",
        "{\"Include\": []}",
        "{\"include\": []} x",
    ] {
        bad.push(b.as_bytes().to_vec());
    }
    bad.push(vec![0xc3]);
    for b in &bad {
        r.state();
        r.step();
        std::fs::write(&file, b).unwrap();
        let got = guard(|| load_phonebook(&d).map_err(|e| e.to_string()));
        r.check(
            matches!(got, Ok(Err(_))),
            "phonebook-malformed",
            || String::from_utf8_lossy(b).into_owned(),
            || format!("{:?}", got),
        );
    }
    let gone = dir.join("nowhere");
    r.check(
        guard(|| save_phonebook_to_disk(vec![], gone.to_str().unwrap()).is_err()) == Ok(true),
        "phonebook-nowhere",
        || "save".into(),
        || "no error".into(),
    );
    r.space(
        "phonebooks",
        format!(
            "all lists of up to {} of {} entries, {} malformed files",
            tier(3, 4),
            entries.len(),
            bad.len()
        ),
    );
}

/// name.first.last.partkey with plain decimal rounds in order.
fn parse_part(f: &str) -> Option<(String, u64, u64)> {
    let body = f.strip_suffix(".partkey")?;
    let dot = body.rfind('.')?;
    let (rest, last) = (&body[..dot], &body[dot + 1..]);
    let dot = rest.rfind('.')?;
    let (name, first) = (&rest[..dot], &rest[dot + 1..]);
    let num = |s: &str| -> Option<u64> {
        if s.is_empty()
            || !s.bytes().all(|b| b.is_ascii_digit())
            || (s.len() > 1 && s.starts_with('0'))
        {
            return None;
        }
        s.parse().ok()
    };
    let (a, b) = (num(first)?, num(last)?);
    if a <= b {
        Some((name.to_string(), a, b))
    } else {
        None
    }
}

fn key_names(r: &mut Report) {
    // made of name and rounds
    let names = [
        "",
        "a",
        "wallet",
        "a.b",
        ".",
        "..",
        "1",
        "1.2",
        "a.1.2",
        "a.rootkey",
        "a.1.2.partkey",
        ".rootkey",
        ".partkey",
        "x.3.4.partkey.5",
        "dir/x",
        "\u{e9}",
        " ",
        "a.rootkey.rootkey",
        "a.01.2",
    ];
    let rounds = [0u64, 1, 2, 9, 10, 99, 3_000_000, u64::MAX - 1, u64::MAX];
    for n in names {
        r.state();
        r.steps(4);
        let f = h::root_key_filename(n);
        let case = || format!("root key of {:?}: {:?}", n, f);
        r.check(f == format!("{}.rootkey", n), "root-name", case, || {
            "unexpected name".into()
        });
        r.check(
            h::is_root_key_filename(&f) && !h::is_part_key_filename(&f),
            "root-kind",
            case,
            || "not recognised, or as the other kind".into(),
        );
        r.check(
            h::account_name_from_root_key_filename(&f) == n,
            "root-account",
            case,
            || h::account_name_from_root_key_filename(&f),
        );
        for m in names {
            r.check(
                h::matches_root_key_filename(m, &f) == (m == n),
                "root-match",
                case,
                || format!("and {:?}", m),
            );
        }
        for first in rounds {
            for last in rounds {
                r.state();
                r.steps(4);
                let f = h::part_key_filename(n, Round(first), Round(last));
                let case = || format!("participation key of {:?} {}-{}: {:?}", n, first, last, f);
                r.check(
                    f == format!("{}.{}.{}.partkey", n, first, last),
                    "part-name",
                    case,
                    || "unexpected name".into(),
                );
                let ok = first <= last;
                let got = guard(|| (h::is_part_key_filename(&f), h::is_root_key_filename(&f)));
                r.check(got == Ok((ok, false)), "part-kind", case, || {
                    format!("{:?}", got)
                });
                let acc = guard(|| h::account_name_from_part_key_filename(&f));
                if ok {
                    r.check(acc.as_deref() == Ok(n), "part-account", case, || {
                        format!("{:?}", acc)
                    });
                }
                for m in names {
                    let got = guard(|| h::matches_part_key_filename(m, &f));
                    r.check(got == Ok(ok && m == n), "part-match", case, || {
                        format!("{:?} for {:?}", got, m)
                    });
                }
            }
        }
        r.trace();
    }
    // any file name
    let pieces = [
        "a",
        ".",
        "0",
        "1",
        "2",
        "00",
        "+",
        "-",
        " ",
        "18446744073709551615",
        "18446744073709551616",
        "partkey",
        "rootkey",
        ".partkey",
        ".rootkey",
        ".1.2",
        "\u{e9}",
    ];
    for len in 0..=tier(5, 6) {
        let jobs: Vec<usize> = if len == 0 {
            vec![0]
        } else {
            (0..pieces.len()).collect()
        };
        parallel(r, jobs, |r, &p0| {
            product(
                &vec![pieces.len(); if len == 0 { 0 } else { len - 1 }],
                |d| {
                    let mut f = String::new();
                    if len > 0 {
                        f.push_str(pieces[p0]);
                    }
                    d.iter().for_each(|&i| f.push_str(pieces[i]));
                    r.state();
                    r.steps(4);
                    let part = parse_part(&f);
                    let root = f.strip_suffix(".rootkey");
                    let case = || format!("{:?}", f);
                    let got = guard(|| (h::is_part_key_filename(&f), h::is_root_key_filename(&f)));
                    r.check(
                        got == Ok((part.is_some(), root.is_some())),
                        "file-kind",
                        case,
                        || {
                            format!(
                                "{:?} instead of {:?}",
                                got,
                                (part.is_some(), root.is_some())
                            )
                        },
                    );
                    let got = guard(|| {
                        (
                            h::account_name_from_part_key_filename(&f),
                            h::account_name_from_root_key_filename(&f),
                        )
                    });
                    r.check(
                        matches!(&got, Ok((_, b)) if *b == root.unwrap_or(&f)),
                        "file-account",
                        case,
                        || format!("{:?}", got),
                    );
                    if let Some((name, a, b)) = &part {
                        r.check(
                            matches!(&got, Ok((x, _)) if x == name),
                            "file-account",
                            case,
                            || format!("{:?} instead of {:?}", got, name),
                        );
                        r.check(
                            h::part_key_filename(name, Round(*a), Round(*b)) == f,
                            "file-rounds",
                            case,
                            || "the name is not that of its rounds".into(),
                        );
                        r.check(
                            h::matches_part_key_filename(name, &f),
                            "file-match",
                            case,
                            || "does not match its own account".into(),
                        );
                    } else {
                        r.check(
                            !h::matches_part_key_filename("a", &f)
                                && !h::matches_part_key_filename(&f, &f),
                            "file-match",
                            case,
                            || "matches an account".into(),
                        );
                    }
                    r.outcome(if part.is_some() {
                        "participation key"
                    } else if root.is_some() {
                        "root key"
                    } else {
                        "neither"
                    });
                },
            );
            r.trace();
        });
    }
    r.space(
        "file names",
        format!(
            "all names of up to {} of {} pieces; {} accounts x {} x {} rounds",
            tier(5, 6),
            pieces.len(),
            names.len(),
            rounds.len(),
            rounds.len()
        ),
    );
}

fn flags(r: &mut Report) {
    let mut words: Vec<u32> = (0..64).collect();
    for b in 0..32 {
        words.push(1 << b);
        words.push(!(1 << b));
        words.push((1 << b) | 5);
    }
    words.push(u32::MAX);
    for &a in &words {
        for &b in &words {
            r.state();
            r.steps(7);
            let mut l = Local::default();
            l.catchup_block_validate_mode = a;
            l.dns_security_flags = b;
            let got = (
                l.catchup_verify_certificate(),
                l.catchup_verify_payset_hash(),
                l.catchup_verify_transaction_signatures(),
                l.catchup_verify_apply_data(),
                l.dnssec_srv_enforced(),
                l.dnssec_relay_addr_enforced(),
                l.dnssec_telemetry_enforced(),
            );
            let bit = |w: u32, i: u32| w >> i & 1 == 1;
            let want = (
                !bit(a, 0),
                !bit(a, 1),
                bit(a, 2),
                bit(a, 3),
                bit(b, 0),
                bit(b, 1),
                bit(b, 2),
            );
            r.check(
                got == want,
                "flags",
                || format!("validate mode {} dns flags {}", a, b),
                || format!("{:?} instead of {:?}", got, want),
            );
        }
    }
    r.trace();
    let default_id = Local::default().dns_bootstrap_id;
    let ids = [
        default_id.as_str(),
        "",
        "<network>",
        "x",
        "<network>.a;<network>.b",
        ";;a;;<network>;",
        ";",
        "<network><network>",
        "<network>.algorand.network;",
        " ;a ;; b",
        "\t",
        "A;a;A",
    ];
    for id in ids {
        for net in [
            "mainnet",
            "testnet",
            "devnet",
            "betanet",
            "devtestnet",
            "",
            "devnet2",
            "<network>",
            "a;b",
        ] {
            r.state();
            r.steps(2);
            let mut l = Local::default();
            l.dns_bootstrap_id = id.to_string();
            let want = match (id == default_id, net) {
                (true, "devnet") => "devnet.algodev.network".to_string(),
                (true, "betanet") => "betanet.algodev.network".to_string(),
                _ => id.split("<network>").collect::<Vec<_>>().join(net),
            };
            let case = || format!("{:?} for {:?}", id, net);
            let got = guard(|| h::dns_bootstrap(&l, net));
            r.check(got.as_ref() == Ok(&want), "bootstrap", case, || {
                format!("{:?} instead of {:?}", got, want)
            });
            let list: Vec<String> = want
                .split(';')
                .filter(|s| !s.is_empty())
                .map(String::from)
                .collect();
            let got = guard(|| h::dns_bootstrap_array(&l, net));
            r.check(got.as_ref() == Ok(&list), "bootstrap-list", case, || {
                format!("{:?} instead of {:?}", got, list)
            });
        }
    }
    r.trace();
    r.space(
        "flags",
        format!("{} x {} flag words", words.len(), words.len()),
    );
}

/// Directories that are named with environment variables.
fn variables(r: &mut Report) {
    let base = scratch("vars");
    std::fs::create_dir_all(base.join("sub/deep")).unwrap();
    std::env::set_var("VERIF_DIR_A", base.to_str().unwrap());
    std::env::set_var("VERIF_DIR_B", "sub");
    std::env::remove_var("VERIF_DIR_NONE");
    for (root, at) in [
        ("$VERIF_DIR_A", Some("")),
        ("${VERIF_DIR_A}", Some("")),
        ("$VERIF_DIR_A/sub", Some("sub")),
        ("$VERIF_DIR_A/$VERIF_DIR_B", Some("sub")),
        ("${VERIF_DIR_A}/${VERIF_DIR_B}/deep", Some("sub/deep")),
        ("$VERIF_DIR_NONE", None),
        ("$VERIF_DIR_A/$VERIF_DIR_NONE", None),
        ("${VERIF_DIR_NONE}/x", None),
        ("$VERIF_DIR_A/nowhere", None),
    ] {
        r.state();
        r.steps(2);
        let mut l = Local::default();
        l.gossip_fanout = 9;
        let one = guard(|| l.save_to_disk(root).map_err(|e| e.to_string()));
        let two =
            guard(|| save_phonebook_to_disk(vec!["p".into()], root).map_err(|e| e.to_string()));
        match at {
            Some(p) => {
                let dir = base.join(p);
                let d = dir.to_str().unwrap();
                r.check(
                    one == Ok(Ok(()))
                        && h::load_from_disk(d).map(|l| l.gossip_fanout).ok() == Some(9),
                    "variables",
                    || root.into(),
                    || format!("{:?}", one),
                );
                r.check(
                    two == Ok(Ok(())) && load_phonebook(d).ok() == Some(vec!["p".to_string()]),
                    "variables",
                    || root.into(),
                    || format!("{:?}", two),
                );
                let _ = std::fs::remove_file(dir.join("config.json"));
                let _ = std::fs::remove_file(dir.join("phonebook.json"));
                r.outcome("variables expanded");
            }
            None => {
                r.check(
                    matches!(one, Ok(Err(_))),
                    "variables-undefined",
                    || root.into(),
                    || format!("{:?}", one),
                );
                r.check(
                    matches!(two, Ok(Err(_))),
                    "variables-undefined",
                    || root.into(),
                    || format!("{:?}", two),
                );
                r.outcome("variables undefined");
            }
        }
    }
    r.trace();
}

/// The global configuration directory is the one set last, or ~/.algorand, which is then made.
fn global_dir(r: &mut Report) {
    let home = scratch("home");
    std::env::set_var("HOME", home.to_str().unwrap());
    let default = home.join(".algorand");
    let dirs = [PathBuf::new(), home.join("one"), PathBuf::from("relative")];
    // operations: set each, get, path of a file, remove the default directory
    for n in 1..=tier(5, 6) {
        sequences(6, n, |ops| {
            if ops.len() != n {
                return;
            }
            set_global_config_file_root(&ArefPath(PathBuf::new()));
            let _ = std::fs::remove_dir_all(&default);
            let mut cur = PathBuf::new();
            r.state();
            for (i, &op) in ops.iter().enumerate() {
                r.step();
                let case = || format!("operations {:?}, step {}", ops, i);
                match op {
                    0..=2 => {
                        let old =
                            guard(|| set_global_config_file_root(&ArefPath(dirs[op].clone())));
                        r.check(old.as_ref() == Ok(&cur), "global-set", case, || {
                            format!("{:?} instead of {:?}", old, cur)
                        });
                        cur = dirs[op].clone();
                    }
                    3 | 4 => {
                        if cur.as_os_str().is_empty() {
                            cur = default.clone();
                        }
                        let was_default = cur == default;
                        let got = if op == 3 {
                            guard(|| get_global_config_file_root().map_err(|e| e.to_string()))
                        } else {
                            guard(|| get_config_file_path("x.json").map_err(|e| e.to_string()))
                        };
                        let want = if op == 3 {
                            cur.clone()
                        } else {
                            cur.join("x.json")
                        };
                        r.check(got == Ok(Ok(want.clone())), "global-get", case, || {
                            format!("{:?} instead of {:?}", got, want)
                        });
                        let _ = was_default;
                    }
                    _ => {
                        // made when first asked for
                        let d = guard(|| get_default_config_file_path().map_err(|e| e.to_string()));
                        r.check(d == Ok(Ok(default.clone())), "global-default", case, || {
                            format!("{:?}", d)
                        });
                        if cur == default {
                            r.check(default.is_dir(), "global-made", case, || {
                                "the directory does not exist".into()
                            });
                        }
                    }
                }
            }
            r.trace();
        });
    }
    set_global_config_file_root(&ArefPath(PathBuf::new()));
    r.space(
        "global directory",
        format!("all sequences of up to {} operations", tier(5, 6)),
    );
}

struct ArefPath(PathBuf);
impl AsRef<PathBuf> for ArefPath {
    fn as_ref(&self) -> &PathBuf {
        &self.0
    }
}

/// What is saved, by kind: settings, phonebook, protocols. In a process that cannot write more than
/// so many bytes into a file.
fn save_kind(kind: &str, dir: &str) -> std::result::Result<(), String> {
    match kind {
        "settings" => {
            let mut m = json_of(&Local::default());
            m.insert("gossip_fanout".into(), json!(77));
            m.insert("endpoint_address".into(), json!("there"));
            m.insert("enable_profiler".into(), json!(true));
            local_of(&m).save_to_disk(dir).map_err(|e| e.to_string())
        }
        "phonebook" => save_phonebook_to_disk(
            (0..12)
                .map(|i| format!("relay-{}.example.org", i))
                .collect(),
            dir,
        )
        .map_err(|e| e.to_string()),
        _ => {
            let mut t = CONSENSUS.0.clone();
            let keep = t
                .keys()
                .cloned()
                .min_by_key(|k| format!("{:?}", k))
                .unwrap();
            t.retain(|k, _| *k == keep);
            save_configurable_consensus(dir, ConsensusProtocols(t)).map_err(|e| e.to_string())
        }
    }
}

/// Saving breaks off after every number of bytes: it must be reported.
fn full_disk(r: &mut Report) {
    let base = scratch("full");
    let mut jobs = Vec::new();
    for (kind, name) in [
        ("settings", "config.json"),
        ("phonebook", "phonebook.json"),
        ("protocols", "consensus.json"),
    ] {
        let dir = base.join(kind);
        std::fs::create_dir_all(&dir).unwrap();
        let res = save_kind(kind, dir.to_str().unwrap());
        let len = std::fs::metadata(dir.join(name))
            .map(|m| m.len())
            .unwrap_or(0);
        if !r.check(
            res.is_ok() && len > 10,
            "full-disk-setup",
            || kind.into(),
            || format!("{:?} {}", res, len),
        ) {
            return;
        }
        let stride = tier((len / 120).max(1), (len / 1000).max(1));
        for n in (0..len).filter(|n| n % stride == 0 || n + 3 > len) {
            jobs.push((kind, name, n));
        }
    }
    r.space("saving breaks off", jobs.len());
    parallel(r, jobs, |r, (kind, name, n)| {
        for existing in [false, true] {
            let dir = base.join(format!("{}-{}-{}", kind, n, existing));
            std::fs::create_dir_all(&dir).unwrap();
            if existing {
                std::fs::write(dir.join(name), b"{}").unwrap();
            }
            r.step();
            r.state();
            r.trace();
            let exe = std::env::current_exe().unwrap();
            let limit = format!("--fsize={}", n);
            let (rc, out, err) = run_cmd(
                std::path::Path::new("/bin/sh"),
                &[
                    "-c",
                    "trap '' XFSZ; exec prlimit \"$@\"",
                    "sh",
                    &limit,
                    exe.to_str().unwrap(),
                    "save",
                    kind,
                    dir.to_str().unwrap(),
                ],
                &dir,
                &[],
                60,
            );
            let case = || format!("saving {} with room for {} bytes", kind, n);
            r.check(
                rc == Some(0) && out.contains("saving: Err"),
                if rc == Some(0) {
                    "save-failure-not-reported"
                } else {
                    "full-disk-panics"
                },
                case,
                || format!("exit {:?} {} {}", rc, out, err),
            );
            r.outcome("failed save reported");
            let _ = std::fs::remove_dir_all(&dir);
        }
    });
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if std::env::var("VERIF_CHILD").is_ok() && args.len() == 3 && args[0] == "save" {
        println!("saving: {:?}", save_kind(&args[1], &args[2]));
        std::process::exit(0);
    }
    let mut r = Report::new("C28");
    variables(&mut r);
    global_dir(&mut r);
    settings(&mut r);
    phonebooks(&mut r);
    key_names(&mut r);
    flags(&mut r);
    full_disk(&mut r);
    r.finish()
}
