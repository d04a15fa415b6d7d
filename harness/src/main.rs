//! fuser-pbt check ID | replay FILE | list
//!
//! `check` runs the cases in a child process, so that a crash (say, a stack overflow) is found
//! out, traced back to the case and reported like any other violation.

use fuser_pbt::checks;
use fuser_pbt::engine::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{exit, Command, Stdio};
use std::time::Instant;

fn root() -> PathBuf {
    std::env::var_os("FUSER_PBT_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("."))
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
fn thorough() -> bool { std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) }
fn tier() -> &'static str { if thorough() { "thorough" } else { "quick" } }

fn find(id: &str) -> Check {
    match checks::all().into_iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            println!("ERROR: no check {}", id);
            exit(2)
        }
    }
}

fn json_str(out: &mut String, s: &str) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
fn json_map(out: &mut String, m: &BTreeMap<&'static str, u64>) {
    out.push('{');
    for (i, (k, v)) in m.iter().enumerate() {
        if i > 0 {
            out.push_str(", ");
        }
        json_str(out, k);
        let _ = write!(out, ": {}", v);
    }
    out.push('}');
}

fn write_evidence(check: &Check, report: &Report, wall: f64, violations: u64) {
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": ",
        check.id,
        tier(),
        seed(),
        check.level,
        report.evaluations,
        report.distinct_nontrivial
    );
    json_str(&mut o, check.rule);
    o.push_str(",\n  \"parts\": [");
    for (i, p) in report.parts.iter().enumerate() {
        o.push_str(if i > 0 { ",\n   " } else { "\n   " });
        o.push_str("{\"name\": ");
        json_str(&mut o, p.name);
        let _ = write!(
            o,
            ", \"cases\": {}, \"nontrivial\": {}, \"random_choices\": {}, \"covers_its_finite_space\": {}}}",
            p.evaluations,
            p.nontrivial,
            p.draws,
            check.exhaustive_parts.contains(&p.name) && report.failure.is_none()
        );
    }
    o.push_str("\n  ],\n  \"classes\": ");
    json_map(&mut o, &report.classes);
    o.push_str(",\n  \"set_aside\": ");
    json_map(&mut o, &report.excluded);
    o.push_str(",\n  \"samples\": [");
    for (i, s) in report.samples.iter().enumerate() {
        o.push_str(if i > 0 { ",\n   " } else { "\n   " });
        json_str(&mut o, s);
    }
    o.push_str("\n  ]\n },\n \"assumptions\": [");
    for (i, s) in check.assumptions.iter().enumerate() {
        if i > 0 {
            o.push_str(", ");
        }
        json_str(&mut o, s);
    }
    let _ = write!(o, "],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, violations);
    let dir = root().join("evidence");
    let _ = fs::create_dir_all(&dir);
    if let Err(e) = fs::write(dir.join(format!("{}.json", check.id)), o) {
        println!("ERROR: cannot write evidence: {}", e);
        exit(2);
    }
}

fn write_replay(check: &Check, part: &str, index: u64, choices: Option<&[u64]>, text: &str) -> PathBuf {
    let dir = root().join("replays");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.txt", check.id, tier(), seed()));
    let mut o = String::new();
    let _ = writeln!(o, "property={}\npart={}\nindex={}\ntier={}\nseed={}", check.id, part, index, tier(), seed());
    match choices {
        Some(c) => {
            let list: Vec<String> = c.iter().map(|v| v.to_string()).collect();
            let _ = writeln!(o, "choices={}", list.join(","));
        }
        None => {
            let _ = writeln!(o, "choices=random");
        }
    }
    let _ = writeln!(o, "---\n{}", text);
    let _ = fs::write(&path, o);
    path
}

fn print_findings(check: &Check) {
    // a finding is only known when it is listed; it is printed while it still fails
    let listed = fs::read_to_string(root().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    for (id, what, fails) in &check.findings {
        let is_listed = listed.lines().any(|l| {
            let mut w = l.split_whitespace();
            w.next() == Some(*id) && w.any(|x| x == format!("property={}", check.id))
        });
        if is_listed && catch(|| fails()).unwrap_or(true) {
            println!("KNOWN-FINDING: property={} {} {}", check.id, id, what);
        }
    }
}

fn run(id: &str) -> ! {
    let check = find(id);
    let report = run_check(&check, seed(), thorough());
    if let Some(e) = report.harness_error {
        println!("ERROR: {}", e);
        exit(2);
    }
    let violations = u64::from(report.failure.is_some());
    write_evidence(&check, &report, report.wall, violations);
    print_findings(&check);
    match report.failure {
        None => {
            println!(
                "{} held: {} cases, {} distinct non-trivial, {:.1} s",
                check.id, report.evaluations, report.distinct_nontrivial, report.wall
            );
            exit(0)
        }
        Some(f) => {
            let text = format!("{}\n---\n{}", f.message, f.notes.join("\n"));
            let path = write_replay(&check, f.part, f.index, Some(&f.choices), &text);
            println!("{} part {:?} case {}: {}", check.id, f.part, f.index, f.message);
            println!("VIOLATION property={} replay={}", check.id, path.display());
            exit(1)
        }
    }
}

/// How a process that runs a single case may end: with an answer, or with what is wrong about it.
fn run_alone(id: &str, part: usize, index: u64, seed: u64, thorough: bool) -> Option<String> {
    let me = std::env::current_exe().expect("own path");
    let out = Command::new("bash")
        .args(["-c", "ulimit -S -t 60; exec timeout 200 \"$@\"", "bash"])
        .arg(&me)
        .args(["single", id, &part.to_string(), &index.to_string()])
        .env("VERIF_SEED", seed.to_string())
        .env("VERIF_TIER", if thorough { "thorough" } else { "quick" })
        .output()
        .expect("single");
    let err = String::from_utf8_lossy(&out.stderr);
    // the shell and timeout report a signal as an exit status
    let signal = out.status.signal().or(out.status.code().map(|c| c - 128).filter(|s| *s > 0));
    match (out.status.code(), signal) {
        (Some(1), _) => Some(String::from_utf8_lossy(&out.stdout).to_string()),
        _ if err.contains("has overflowed its stack") => Some("the stack overflows".into()),
        _ if err.contains("memory allocation of") => Some("the case needs memory without end".into()),
        (_, Some(24)) => Some("the case does not end (60 s of processor time)".into()),
        (_, Some(s)) if [4, 6, 7, 8, 11].contains(&s) => {
            Some(format!("the process is ended by signal {}", s))
        }
        _ => None,
    }
}

fn supervise(id: &str) -> ! {
    let started = Instant::now();
    let check = find(id);
    let me = std::env::current_exe().expect("own path");
    let progress = std::env::temp_dir().join(format!("fuser-pbt-progress-{}", std::process::id()));
    let _ = fs::write(&progress, vec![0u8; 16 * (SHARDS as usize + 1)]);
    let out = Command::new(&me)
        .args(["run", id])
        .env("FUSER_PBT_PROGRESS", &progress)
        .stdout(Stdio::inherit())
        .stderr(Stdio::piped())
        .spawn()
        .and_then(|c| c.wait_with_output());
    let state = fs::read(&progress).unwrap_or_default();
    let _ = fs::remove_file(&progress);
    let out = match out {
        Ok(o) => o,
        Err(e) => {
            println!("ERROR: {}", e);
            exit(2)
        }
    };
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    eprint!("{}", err);
    match (out.status.code(), out.status.signal()) {
        (Some(code), _) if code != STUCK => exit(code),
        (None, Some(9)) | (None, Some(15)) | (None, None) => {
            println!("ERROR: the run was ended from outside: {:?}", out.status);
            exit(3)
        }
        _ => (),
    }
    // find the case which crashes or does not end
    let slots: Vec<(u64, u64)> = state
        .chunks(16)
        .map(|c| {
            (u64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..].try_into().unwrap()))
        })
        .collect();
    let mut candidates: Vec<(u64, u64)> = slots.into_iter().filter(|(p, _)| *p > 0).collect();
    // the last one is a failure already found
    candidates.reverse();
    let mut seen = std::collections::HashSet::new();
    candidates.retain(|c| seen.insert(*c));
    for (part, index) in candidates {
        let part = part as usize - 1;
        if let Some(what) = run_alone(id, part, index, seed(), thorough()) {
            let name = check.parts[part].name;
            let path = write_replay(&check, name, index, None, &what);
            println!("{} part {:?} case {}: {}", id, name, index, what);
            let report = Report {
                parts: vec![],
                evaluations: index + 1,
                distinct_nontrivial: 0,
                classes: BTreeMap::new(),
                excluded: BTreeMap::new(),
                samples: vec![format!("crash in part {} case {}", name, index)],
                wall: 0.0,
                failure: None,
                harness_error: None,
            };
            write_evidence(&check, &report, started.elapsed().as_secs_f64(), 1);
            println!("VIOLATION property={} replay={}", id, path.display());
            exit(1);
        }
    }
    println!("ERROR: the run ended without an answer ({:?}), but no single case reproduces that", out.status);
    exit(3)
}

fn do_replay(file: &str) -> ! {
    let text = fs::read_to_string(file).expect("replay file");
    let head = text.split("\n---\n").next().unwrap_or("");
    let get = |key: &str| -> String {
        head.lines()
            .find_map(|l| l.strip_prefix(&format!("{}=", key)))
            .unwrap_or_else(|| panic!("no {} in replay file", key))
            .to_string()
    };
    let check = find(&get("property"));
    let name = get("part");
    let index: u64 = get("index").parse().expect("index");
    let is_thorough = get("tier") == "thorough";
    let at = check.parts.iter().position(|p| p.name == name).expect("part");
    let choices = get("choices");
    let (msg, notes) = if choices == "random" {
        (run_alone(check.id, at, index, get("seed").parse().expect("seed"), is_thorough), vec![])
    } else {
        let list: Vec<u64> =
            choices.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().expect("choice")).collect();
        let part = &check.parts[at];
        let part = Part { name: part.name, quick: 0, thorough: 0, run: part.run };
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || replay(&part, index, list, is_thorough))
            .unwrap()
            .join()
            .unwrap()
    };
    for n in notes {
        println!("{}", n);
    }
    match msg {
        Some(m) => {
            println!("{}", m);
            println!("VIOLATION property={} replay={}", check.id, file);
            exit(1)
        }
        None => {
            println!("the case passes");
            exit(0)
        }
    }
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match args.as_slice() {
        ["check", id] => supervise(id),
        ["run", id] => run(id),
        ["single", id, part, index] => {
            let check = find(id);
            match run_single(&check, part.parse().unwrap(), index.parse().unwrap(), seed(), thorough()) {
                Some(m) => {
                    println!("{}", m);
                    exit(1)
                }
                None => exit(0),
            }
        }
        ["replay", file] => do_replay(file),
        ["list"] => {
            for c in checks::all() {
                let parts: Vec<String> =
                    c.parts.iter().map(|p| format!("{} {}/{}", p.name, p.quick, p.thorough)).collect();
                println!("{}: {}", c.id, parts.join("; "));
            }
        }
        _ => {
            println!("usage: fuser-pbt check ID | replay FILE | list");
            exit(2)
        }
    }
}
