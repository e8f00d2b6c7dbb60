mod gen; mod rng; mod run; mod surface; mod probes;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use serde_json::{json, Value};

fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned() }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("probe") => probe(&a),
        Some("worker") => worker(&a),
        Some("one") => {
            // vharness one <profile> <seed> <dir>
            std::panic::set_hook(Box::new(|_| {}));
            let v = run_case(&a[2], a[3].parse().unwrap(), Path::new(&a[4]));
            println!("{}", serde_json::to_string_pretty(&v).unwrap());
        }
        Some("show") => match run::engine(Path::new(&a[2]), true) {
            run::Res::Ok(o) => {
                println!("{}", prettyplease::unparse(&syn::parse_file(&o.rs).unwrap()));
                for (n, t) in &o.cpp { if n.contains("autocxxgen") { println!("==== {n}\n{t}"); } }
                if let Err(e) = run::cxx_compiles(Path::new(&a[2]), &o.cpp) { println!("CXX-ERR {e}"); }
            }
            run::Res::Err(e) => println!("ERR {e}"),
            run::Res::Panic(e) => println!("PANIC {e}"),
        },
        Some("surface") => if let run::Res::Ok(o) = run::engine(Path::new(&a[2]), true) { println!("{:#?}", o.surf) },
        _ => { eprintln!("usage: vharness probe <profile> --seed S --seconds N --out DIR --jobs J"); std::process::exit(2) }
    }
}
/// One case: {"nontrivial":bool, "failures":[{key,message}], "sample":..}
fn run_case(profile: &str, seed: u64, dir: &Path) -> Value {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    let c = probes::run(profile, seed, dir);
    json!({"seed": seed, "nontrivial": c.nontrivial, "hash": c.hash, "sample": c.sample, "skipped": c.skipped, "failures": c.failures.iter().map(|f| json!({"key": f.0, "message": f.1})).collect::<Vec<_>>()})
}
fn worker(a: &[String]) {
    let profile = &a[2];
    let dir = PathBuf::from(arg(a, "--dir").unwrap());
    let seed: u64 = arg(a, "--seed").unwrap().parse().unwrap();
    let k: u64 = arg(a, "--k").unwrap().parse().unwrap();
    let n: u64 = arg(a, "--n").unwrap().parse().unwrap();
    let secs: u64 = arg(a, "--seconds").unwrap().parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let t = std::time::Instant::now();
    let mut i = arg(a, "--start").map(|s| s.parse().unwrap()).unwrap_or(0u64);
    let max = probes::max_cases(profile);
    while t.elapsed().as_secs() < secs && i * n + k < max {
        let s = seed.wrapping_mul(1_000_003) + i * n + k;
        println!("START {i}");
        let v = run_case(profile, s, &dir.join("case"));
        println!("{v}");
        let _ = std::io::stdout().flush();
        i += 1;
    }
}
fn probe(a: &[String]) {
    let profile = a[2].clone();
    let out = PathBuf::from(arg(a, "--out").unwrap());
    let seed = arg(a, "--seed").unwrap_or("1".into());
    let secs: u64 = arg(a, "--seconds").unwrap_or("30".into()).parse().unwrap();
    let jobs: u64 = arg(a, "--jobs").unwrap_or("8".into()).parse().unwrap();
    let maxfail: usize = arg(a, "--maxfail").unwrap_or("3".into()).parse().unwrap();
    let _ = std::fs::create_dir_all(&out);
    let work = std::env::temp_dir().join(format!("vharness-{}", std::process::id()));
    let exe = std::env::current_exe().unwrap();
    let t = std::time::Instant::now();
    let hs: Vec<_> = (0..jobs).map(|k| {
        let (profile, seed, exe, dir) = (profile.clone(), seed.clone(), exe.clone(), work.join(format!("w{k}")));
        std::thread::spawn(move || {
            // a worker that dies (abort, stack overflow) is itself a finding; restart after it.
            let mut start = 0u64;
            let mut lines = vec![];
            loop {
                let left = secs.saturating_sub(t.elapsed().as_secs());
                if left == 0 { break; }
                let c = Command::new(&exe).args(["worker", &profile, "--dir", dir.to_str().unwrap(), "--seed", &seed, "--k", &k.to_string(), "--n", &jobs.to_string(), "--seconds", &left.to_string(), "--start", &start.to_string()])
                    .stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
                let o = c.wait_with_output().unwrap();
                let txt = String::from_utf8_lossy(&o.stdout).to_string();
                let mut last = None;
                for l in txt.lines() {
                    if let Some(n) = l.strip_prefix("START ") { last = n.parse::<u64>().ok(); } else if l.starts_with('{') { lines.push(l.to_string()); last = None; }
                }
                if o.status.success() { break; }
                if let Some(n) = last {
                    let s = seed.parse::<u64>().unwrap().wrapping_mul(1_000_003) + n * jobs + k;
                    lines.push(json!({"seed": s, "nontrivial": true, "hash": 0, "failures": [{"key": "crash", "message": format!("the engine process died ({}) on this input", o.status)}]}).to_string());
                    start = n + 1;
                } else { break; }
            }
            lines
        })
    }).collect();
    let mut cases = 0u64; let mut nontrivial = std::collections::BTreeSet::new(); let mut distinct = std::collections::BTreeSet::new();
    let mut skipped = std::collections::BTreeMap::<String, u64>::new();
    let mut fails: Vec<Value> = vec![]; let mut samples = vec![];
    let mut keys = std::collections::BTreeMap::<String, u64>::new();
    for h in hs {
        for l in h.join().unwrap() {
            let v: Value = serde_json::from_str(&l).unwrap();
            cases += 1;
            let hash = v["hash"].as_u64().unwrap_or(0);
            distinct.insert(hash);
            if v["nontrivial"].as_bool() == Some(true) { nontrivial.insert(hash); }
            if let Some(s) = v["skipped"].as_str() { *skipped.entry(s.into()).or_default() += 1; }
            if samples.len() < 2 && v["nontrivial"].as_bool() == Some(true) { samples.push(v["sample"].clone()); }
            for f in v["failures"].as_array().unwrap() {
                let key = f["key"].as_str().unwrap_or("").to_string();
                let n = keys.entry(key.clone()).or_default();
                *n += 1;
                if *n as usize <= maxfail && fails.len() < 40 {
                    let s = v["seed"].as_u64().unwrap();
                    let d = out.join(format!("case-{s}"));
                    if !d.exists() { let _ = run_saved(&exe, &profile, s, &d); }
                    fails.push(json!({"key": key, "message": f["message"], "seed": s, "input": d, "replay_cmd": format!("{} one {} {} {}", exe.display(), profile, s, d.display())}));
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&work);
    println!("{}", json!({"profile": profile, "cases": cases, "distinct": distinct.len(), "nontrivial": nontrivial.len(), "skipped": skipped, "failures": fails, "failure_keys": keys, "samples": samples, "rule": probes::rule(&profile), "wall_s": t.elapsed().as_secs_f64()}));
}
fn run_saved(exe: &Path, profile: &str, s: u64, d: &Path) -> std::io::Result<()> {
    let o = Command::new(exe).args(["one", profile, &s.to_string(), d.to_str().unwrap()]).stderr(Stdio::null()).output()?;
    std::fs::write(d.join("verdict.json"), o.stdout)
}
