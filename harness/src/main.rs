#![allow(dead_code, static_mut_refs)]
mod engine;
mod refm;
mod shapes;
mod real;
mod props;

use engine::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const VERIF: &str = "/verif";

fn esc(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }
fn line(s: &str) -> String { s.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n").replace('\r', "\\r") }

fn threads() -> usize { std::env::var("VERIF_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).clamp(1, NSLOT) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "work" => work(&a[2], &a[3], &a[4]),
        "one" => one(&a[2], &a[3], &a[4], a[5].parse().unwrap()),
        "check" => std::process::exit(check(&a[2], &a[3])),
        "replay" => replay(&a[2]),
        "list" => for p in props::ALL { for t in ["quick", "thorough"] { for s in props::suites(p, t == "thorough") { println!("{p} {t} {} n={} {}", s.name, s.n, s.bound); } } },
        _ => { eprintln!("usage: harness check <id> quick|thorough | replay <file>"); std::process::exit(2) }
    }
}

/// worker process: run all suites, report on stdout
fn work(prop: &str, tier: &str, slots: &str) {
    install_quiet_hook(); limit_memory(24 << 30); map_slots(slots);
    let only = std::env::var("VERIF_SUITE").ok();
    let suites = props::suites(prop, tier == "thorough");
    let th = threads();
    for (si, s) in suites.iter().enumerate() {
        if let Some(o) = &only { if !s.name.contains(o.as_str()) { continue; } }
        let r = run_suite(si as u64, s, th);
        let mut per: BTreeMap<&str, u64> = BTreeMap::new();
        let mut seen: BTreeSet<(u64, String)> = BTreeSet::new();
        for (i, f) in &r.fails {
            let c = per.entry(&f.key).or_insert(0); *c += 1;
            if *c <= 500 && seen.insert((*i, f.key.clone())) { println!("FAIL\t{}\t{}\t{}\t{}\t{}", s.name, i, f.key, line(&(s.desc)(*i)), line(&f.msg)); }
        }
        if stop_first() && !r.fails.is_empty() { std::process::exit(1); }
        let hits: Vec<String> = r.hits.iter().map(|(k, v)| format!("{k}={v}")).collect();
        println!("STAT\t{}\t{}\t{}\t{}\t{}\t{}\t{:.2}\t{}\t{}", s.name, s.n, r.cases, r.states, r.transitions, r.complete, r.wall, hits.join(","), line(&s.bound));
        let mut picks: Vec<u64> = vec![0, s.n / 2, s.n.saturating_sub(1)]; picks.dedup();
        for i in picks { if s.n > 0 { println!("SAMPLE\t{}\t{}\t{}", s.name, i, line(&(s.desc)(i))); } }
        std::io::stdout().flush().unwrap();
    }
    if measuring() { for (k, v) in MEAS.lock().unwrap().iter() { eprintln!("MEAS {k} {v:.2}"); } }
    println!("DONE"); std::io::stdout().flush().unwrap();
}

/// runs exactly one case; exit 0 held, 1 failed (messages on stdout)
fn one(prop: &str, tier: &str, suite: &str, idx: u64) {
    install_quiet_hook(); limit_memory(24 << 30);
    let suites = props::suites(prop, tier == "thorough");
    let s = suites.iter().find(|s| s.name == suite).expect("no such suite");
    println!("property {prop} suite {suite} case {idx}: {}", (s.desc)(idx)); std::io::stdout().flush().unwrap();
    let h = std::thread::Builder::new().stack_size(32 << 20);
    let fails = std::thread::scope(|sc| h.spawn_scoped(sc, || {
        let mut cx = Cx::new(0);
        if let Err(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.run)(idx, &mut cx))) { cx.fails.push(Fail { key: "case.panic".into(), msg: pmsg(p) }); }
        cx.fails
    }).unwrap().join().unwrap());
    for f in &fails { println!("  {}: {}", f.key, f.msg); }
    if fails.is_empty() { println!("  held"); }
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}

fn run_one(prop: &str, tier: &str, suite: &str, idx: u64, secs: u64) -> Result<(), String> {
    let mut c = Command::new(std::env::current_exe().unwrap()).args(["one", prop, tier, suite, &idx.to_string()]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let t = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() { return match st.code() { Some(0) => Ok(()), Some(1) => Err("failed".into()), _ => Err(format!("process died: {st}")) }; }
        if t.elapsed() > Duration::from_secs(secs) { let _ = c.kill(); let _ = c.wait(); return Err(format!("no result after {secs} s")); }
        std::thread::sleep(Duration::from_millis(20));
    }
}

struct Known { prop: String, key: String, input: String, what: String }
fn known() -> Vec<Known> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{VERIF}/KNOWN_FINDINGS.txt")) {
        for l in t.lines() {
            // known: property=C25 key=asin.panic input=<case> :: what
            if let Some(r) = l.strip_prefix("known: property=") {
                let (prop, r) = r.split_once(" key=").expect("known finding: key"); let (key, r) = r.split_once(" input=").expect("known finding: input"); let (input, what) = r.split_once(" :: ").expect("known finding: text");
                v.push(Known { prop: prop.into(), key: key.into(), input: input.into(), what: what.into() });
            }
        }
    }
    v
}

fn check(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    if !props::ALL.contains(&prop) { eprintln!("unknown property {prop}"); return 2; }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let slots = std::env::temp_dir().join(format!("hmath-verif-slots-{}", std::process::id())); let slots = slots.to_str().unwrap().to_string();
    let _ = std::fs::remove_file(&slots);
    let out = Command::new(std::env::current_exe().unwrap()).args(["work", prop, tier, &slots]).stderr(Stdio::inherit()).output().expect("worker");
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let suites = props::suites(prop, tier == "thorough");
    let mut fails: Vec<(String, u64, String, String, String)> = vec![]; // suite idx key input msg
    let (mut states, mut trans, mut cases, mut planned) = (0u64, 0u64, 0u64, 0u64); let mut complete = true; let mut sj = vec![]; let mut samples = vec![];
    let mut done = false; let mut hang = None;
    for l in text.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "FAIL" if f.len() >= 6 => fails.push((f[1].into(), f[2].parse().unwrap(), f[3].into(), f[4].into(), f[5].into())),
            "STAT" if f.len() >= 10 => {
                planned += f[2].parse::<u64>().unwrap(); cases += f[3].parse::<u64>().unwrap(); states += f[4].parse::<u64>().unwrap(); trans += f[5].parse::<u64>().unwrap(); complete &= f[6] == "true";
                sj.push(format!("{{\"suite\":{},\"space\":{},\"explored\":{},\"states\":{},\"transitions\":{},\"exhausted\":{},\"wall_s\":{},\"outcomes\":{},\"bound\":{}}}", esc(f[1]), f[2], f[3], f[4], f[5], f[6], f[7], esc(f[8]), esc(f[9])));
                eprintln!("  {:<28} space {:>10} states {:>10} transitions {:>11} {:>7}s {}", f[1], f[2], f[4], f[5], f[7], f[8]);
            }
            "SAMPLE" if f.len() >= 4 => samples.push(format!("{{\"suite\":{},\"case\":{},\"input\":{}}}", esc(f[1]), f[2], esc(f[3]))),
            "HANG" => hang = Some((f[1].to_string(), f[2].parse::<u64>().unwrap())),
            "DONE" => done = true,
            _ => {}
        }
    }
    let mut err = None;
    if let Some((s, i)) = hang {
        let d = suites.iter().find(|x| x.name == s).map(|x| (x.desc)(i)).unwrap_or_default();
        match run_one(prop, tier, &s, i, 100) { Err(e) => fails.push((s, i, "hang".into(), d, format!("case did not finish: {e}"))), Ok(()) => err = Some(format!("case {s}/{i} exceeded the time limit once but finishes alone")) }
    } else if !done || !out.status.success() {
        map_slots(&slots); let mut found = false;
        for (si, c) in in_flight() {
            let s = &suites[si as usize];
            if let Err(e) = run_one(prop, tier, &s.name, c, 100) { if e != "failed" { fails.push((s.name.clone(), c, "crash".into(), (s.desc)(c), format!("case kills the process or never ends: {e}"))); found = true; break; } }
        }
        if !found { err = Some(format!("worker ended abnormally: {}", out.status)); }
    }
    let _ = std::fs::remove_file(&slots);
    if let Some(f) = fails.iter().find(|f| f.2 == "MODEL") { err = Some(format!("reference model inconsistent: {} {}", f.3, f.4)); fails.retain(|f| f.2 != "MODEL"); }
    let kn = known(); let mut known_hit: BTreeSet<String> = BTreeSet::new(); let mut viol = vec![];
    for f in &fails {
        if let Some(k) = kn.iter().find(|k| k.prop == prop && k.key == f.2 && (k.input == f.3 || k.input == "*")) { known_hit.insert(format!("property={prop} key={} input={} {}", k.key, k.input, k.what)); } else { viol.push(f); }
    }
    for k in &known_hit { println!("KNOWN-FINDING: {k}"); }
    // report: the first case of every (suite, key), simplest first
    let mut seen = BTreeSet::new(); let mut shown = 0;
    for f in &viol {
        if !seen.insert((f.0.clone(), f.2.clone())) { continue; }
        if shown >= 12 { break; }
        shown += 1;
        let dir = format!("{VERIF}/replays"); let _ = std::fs::create_dir_all(&dir);
        let safe: String = f.2.chars().map(|c| if c.is_ascii_alphanumeric() || c == '.' { c } else { '_' }).collect();
        let path = format!("{dir}/{prop}-{}-{safe}.json", f.0);
        let body = format!("{{\"property\":{},\"tier\":{},\"suite\":{},\"case\":{},\"key\":{},\"input\":{},\"message\":{},\"replay\":{}}}\n", esc(prop), esc(tier), esc(&f.0), f.1, esc(&f.2), esc(&f.3), esc(&f.4), esc(&format!("bash /verif/check.sh replay {path}")));
        let _ = std::fs::write(&path, body);
        println!("{prop} {}#{} [{}] input: {}\n    {}", f.0, f.1, f.2, f.3, f.4);
        println!("VIOLATION property={prop} replay={path}");
    }
    let ev = format!("{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"planned_cases\":{},\"exhaustive\":{},\"known_findings_seen\":{},\"suites\":[{}],\"samples\":[{}]}},\"assumptions\":[\"the reference model in harness/src/refm.rs and real.rs is right (its divisions and roots check their own certificates)\",\"values outside the enumerated alphabets and bounds are not covered\"],\"wall_s\":{:.2},\"violations\":{}}}\n",
        esc(prop), esc(tier), seed, states, trans, cases, planned, complete && done, known_hit.len(), sj.join(","), samples.join(","), t0.elapsed().as_secs_f64(), viol.len());
    let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
    std::fs::write(format!("{VERIF}/evidence/{prop}.json"), ev).expect("evidence");
    if !viol.is_empty() { return 1; }
    if let Some(e) = err { eprintln!("check error: {e}"); return 2; }
    if !complete { eprintln!("check error: exploration incomplete"); return 2; }
    println!("{prop} held: {cases} cases, {states} states, {trans} transitions, {:.1}s", t0.elapsed().as_secs_f64());
    0
}

fn replay(path: &str) {
    let t = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| -> String { let p = format!("\"{k}\":"); let i = t.find(&p).expect("field") + p.len(); let r = &t[i..]; if r.starts_with('"') { r[1..].split('"').next().unwrap().into() } else { r.split(|c| c == ',' || c == '}').next().unwrap().into() } };
    one(&get("property"), &get("tier"), &get("suite"), get("case").parse().unwrap());
}
