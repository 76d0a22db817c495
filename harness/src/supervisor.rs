//! Command line, worker processes, crash/hang detection, evidence and replay files.

use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::fd::AsRawFd;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use crate::core::{self, Ctx, Tier, Violation};
use crate::props;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}

fn tier_of(s: &str) -> Tier {
    match s {
        "thorough" => Tier::Thorough,
        "smoke" => Tier::Smoke,
        _ => Tier::Quick,
    }
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn map_progress(path: &Path) -> *mut u64 {
    let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    f.set_len(4096).unwrap();
    unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0);
        assert!(p as isize != -1);
        p as *mut u64
    }
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(check(&args[2], &args[3])),
        Some("worker") => worker(&args[2], tier_of(&args[3]), args[4].parse().unwrap(), args[5].parse().unwrap(), &args[6]),
        Some("replay") => std::process::exit(replay(&args[2])),
        Some("one") => one(&args[2], tier_of(&args[3]), &args[4], args[5].parse().unwrap()),
        Some("diff") => crate::diff::command(&args[2..]),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: ozzmc check ID quick|thorough | replay FILE | list");
            std::process::exit(2);
        }
    }
}

fn prop(id: &str) -> props::Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

fn limit_memory() {
    // Address-space cap: a runaway allocation request fails instead of taking the machine down.
    let lim = [6u64 << 30, 6u64 << 30];
    unsafe { setrlimit(9, &lim) };
    let core = [0u64, 0];
    unsafe { setrlimit(4, &core) };
}

fn worker(id: &str, tier: Tier, shard: u64, nshards: u64, dir: &str) {
    limit_memory();
    let dir = PathBuf::from(dir);
    core::set_progress(map_progress(&dir.join(format!("progress{}", shard))));
    core::install_panic_hook();
    let mut ctx = Ctx::new(tier, prop(id).quick_level, shard, nshards);
    (prop(id).run)(&mut ctx);
    let v: Vec<Value> = ctx
        .violations
        .iter()
        .map(|v| json!({"suite": v.suite, "ordinal": v.ordinal, "desc": v.desc, "message": v.message}))
        .collect();
    let suites: Vec<Value> = ctx.suites.iter().map(|s| json!([s.0, s.1, s.2])).collect();
    let out = json!({
        "violations": v, "violation_count": ctx.violation_count, "evaluations": ctx.stats.evaluations,
        "transitions": ctx.stats.transitions, "traces": ctx.stats.traces, "samples": ctx.samples, "suites": suites,
    });
    let dump = |name: &str, set: &HashSet<u64>| {
        let mut b = Vec::with_capacity(set.len() * 8);
        for h in set {
            b.extend_from_slice(&h.to_le_bytes());
        }
        fs::write(dir.join(format!("{}{}", name, shard)), b).unwrap();
    };
    dump("states", &ctx.stats.states);
    dump("outcomes", &ctx.stats.outcomes);
    fs::write(dir.join(format!("result{}.json", shard)), out.to_string()).unwrap();
}

fn one(id: &str, tier: Tier, suite: &str, ordinal: u64) {
    if id == "C19" {
        std::process::exit(crate::p_diff::one(if tier == Tier::Thorough { "thorough" } else { "quick" }, suite, ordinal));
    }
    limit_memory();
    core::install_panic_hook();
    let mut ctx = Ctx::new(tier, prop(id).quick_level, 0, 1);
    ctx.only = Some((suite.to_string(), ordinal));
    (prop(id).run)(&mut ctx);
    for v in &ctx.violations {
        println!("case {}#{}: {}\n  {}", v.suite, v.ordinal, v.desc, v.message);
    }
    if ctx.stats.evaluations == 0 {
        println!("no such case");
        std::process::exit(2);
    }
    std::process::exit(if ctx.violations.is_empty() { 0 } else { 1 });
}

fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_str(&fs::read_to_string(file).unwrap()).unwrap();
    let exe = std::env::current_exe().unwrap();
    let st = Command::new(exe)
        .args([
            "one",
            v["property"].as_str().unwrap(),
            v["tier"].as_str().unwrap(),
            v["suite"].as_str().unwrap(),
            &v["ordinal"].as_u64().unwrap().to_string(),
        ])
        .status()
        .unwrap();
    match st.code() {
        Some(0) => {
            println!("replay: property holds on this case");
            0
        }
        Some(1) => {
            println!("VIOLATION property={} replay={}", v["property"].as_str().unwrap(), file);
            1
        }
        c => {
            if st.signal().is_some() {
                println!("VIOLATION property={} replay={}", v["property"].as_str().unwrap(), file);
                return 1;
            }
            eprintln!("replay failed: {:?}", c);
            2
        }
    }
}

struct Running {
    child: Child,
    shard: u64,
    progress: *mut u64,
    last_beat: u64,
    last_change: Instant,
    ordinal: u64,
}

fn read_set(path: &Path, into: &mut HashSet<u64>) {
    if let Ok(b) = fs::read(path) {
        for c in b.chunks_exact(8) {
            into.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
}

fn load_known(id: &str) -> Vec<(String, String)> {
    let mut out = Vec::new();
    if let Ok(s) = fs::read_to_string(verif_dir().join("known_findings.json")) {
        let v: Value = serde_json::from_str(&s).expect("known_findings.json");
        for f in v["findings"].as_array().cloned().unwrap_or_default() {
            if f["property"].as_str() == Some(id) {
                out.push((f["case"].as_str().unwrap().to_string(), f["what"].as_str().unwrap().to_string()));
            }
        }
    }
    out
}

fn check(id: &str, tier_s: &str) -> i32 {
    let start = Instant::now();
    let p = prop(id);
    let _ = tier_of(tier_s);
    let vdir = verif_dir();
    fs::create_dir_all(vdir.join("evidence")).unwrap();
    let rdir = vdir.join("replays");
    fs::create_dir_all(&rdir).unwrap();
    let work = std::env::temp_dir().join(format!("ozzmc-{}-{}", id, std::process::id()));
    fs::create_dir_all(&work).unwrap();
    let exe = std::env::current_exe().unwrap();
    let nshards: u64 = if p.single { 1 } else { std::env::var("OZZMC_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8) };
    let hang = Duration::from_secs(p.hang_secs);

    let mut running: Vec<Running> = (0..nshards)
        .map(|shard| {
            let progress = map_progress(&work.join(format!("progress{}", shard)));
            let child = Command::new(&exe)
                .args(["worker", id, tier_s, &shard.to_string(), &nshards.to_string(), work.to_str().unwrap()])
                .stdin(Stdio::null())
                .stdout(fs::File::create(work.join(format!("out{}", shard))).unwrap())
                .stderr(fs::File::create(work.join(format!("err{}", shard))).unwrap())
                .spawn()
                .unwrap();
            Running { child, shard, progress, last_beat: u64::MAX, last_change: Instant::now(), ordinal: 0 }
        })
        .collect();

    let mut violations: Vec<Violation> = Vec::new();
    let mut vcount = 0u64;
    let mut engine_error: Option<String> = None;
    let mut crashed = false;
    let (mut evals, mut transitions, mut traces) = (0u64, 0u64, 0u64);
    let mut states = HashSet::new();
    let mut outcomes = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut suites: BTreeMap<String, (u64, u64)> = BTreeMap::new();

    while !running.is_empty() {
        let mut i = 0;
        while i < running.len() {
            let r = &mut running[i];
            let (ordinal, beat) = unsafe { (r.progress.add(1).read_volatile(), r.progress.add(2).read_volatile()) };
            if beat != r.last_beat {
                r.last_beat = beat;
                r.last_change = Instant::now();
            }
            r.ordinal = ordinal;
            let st = r.child.try_wait().unwrap();
            let hung = st.is_none() && r.last_change.elapsed() > hang;
            if st.is_none() && !hung {
                i += 1;
                continue;
            }
            let mut died = None;
            if hung {
                let _ = r.child.kill();
                let _ = r.child.wait();
                died = Some(format!("no progress for {} s (hang or endless loop)", p.hang_secs));
            } else if let Some(st) = st {
                if st.code() != Some(0) {
                    let err = fs::read_to_string(work.join(format!("err{}", r.shard))).unwrap_or_default();
                    let tail: String = err.lines().rev().take(4).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ");
                    match st.signal() {
                        Some(9) => engine_error = Some("worker killed (out of memory?)".into()),
                        Some(s) => died = Some(format!("process died with signal {} ({})", s, tail)),
                        None => engine_error = Some(format!("worker failed: {:?} {}", st.code(), tail)),
                    }
                }
            }
            if let Some(message) = died {
                crashed = true;
                vcount += 1;
                violations.push(Violation {
                    suite: core::read_suite(r.progress),
                    ordinal: r.ordinal,
                    desc: format!("(case {} of the suite, see replay)", r.ordinal),
                    message,
                });
            } else if engine_error.is_none() {
                let v: Value = serde_json::from_str(
                    &fs::read_to_string(work.join(format!("result{}.json", r.shard))).unwrap_or_else(|_| "{}".into()),
                )
                .unwrap();
                evals += v["evaluations"].as_u64().unwrap_or(0);
                transitions += v["transitions"].as_u64().unwrap_or(0);
                traces += v["traces"].as_u64().unwrap_or(0);
                vcount += v["violation_count"].as_u64().unwrap_or(0);
                for x in v["violations"].as_array().cloned().unwrap_or_default() {
                    violations.push(Violation {
                        suite: x["suite"].as_str().unwrap().into(),
                        ordinal: x["ordinal"].as_u64().unwrap(),
                        desc: x["desc"].as_str().unwrap().into(),
                        message: x["message"].as_str().unwrap().into(),
                    });
                }
                for s in v["samples"].as_array().cloned().unwrap_or_default() {
                    samples.push(s.as_str().unwrap().to_string());
                }
                for s in v["suites"].as_array().cloned().unwrap_or_default() {
                    let e = suites.entry(s[0].as_str().unwrap().to_string()).or_insert((0, 0));
                    e.0 = e.0.max(s[1].as_u64().unwrap());
                    e.1 += s[2].as_u64().unwrap();
                }
                read_set(&work.join(format!("states{}", r.shard)), &mut states);
                read_set(&work.join(format!("outcomes{}", r.shard)), &mut outcomes);
            }
            running.remove(i);
        }
        std::thread::sleep(Duration::from_millis(3));
    }

    // Suites that run outside the sharded enumeration (cross-build comparison).
    if let Some(post) = p.post {
        match post(tier_s) {
            Ok(r) => {
                evals += r.evaluations;
                for s in r.samples {
                    samples.push(s);
                }
                for h in r.outcomes {
                    outcomes.insert(h);
                }
                vcount += r.violations.len() as u64;
                violations.extend(r.violations);
                for (n, c) in r.suites {
                    suites.insert(n, (c, c));
                }
            }
            Err(e) => engine_error = Some(e),
        }
    }

    if let Some(e) = &engine_error {
        eprintln!("ENGINE ERROR: {}", e);
    }

    violations.sort_by(|a, b| (a.ordinal, &a.suite).cmp(&(b.ordinal, &b.suite)));
    let known = load_known(id);
    let mut known_hit: Vec<bool> = vec![false; known.len()];
    let mut fresh: Vec<&Violation> = Vec::new();
    for v in &violations {
        let key = format!("{}: {}", v.suite, v.desc);
        if let Some(k) = known.iter().position(|k| k.0 == key) {
            known_hit[k] = true;
        } else {
            fresh.push(v);
        }
    }
    for (k, hit) in known.iter().zip(&known_hit) {
        if *hit {
            println!("KNOWN-FINDING: property={} {}", id, k.1);
        }
    }
    let mut rc = 0;
    for (n, v) in fresh.iter().take(10).enumerate() {
        let path = rdir.join(format!("{}-{}-{}.json", id, tier_s, n));
        let j = json!({"property": id, "tier": tier_s, "suite": v.suite, "ordinal": v.ordinal, "desc": v.desc,
            "message": v.message, "how": "bash /verif/replay.sh <this file>"});
        fs::File::create(&path).unwrap().write_all(serde_json::to_string_pretty(&j).unwrap().as_bytes()).unwrap();
        println!("VIOLATION property={} replay={}", id, path.display());
        println!("  {}#{} {}", v.suite, v.ordinal, v.desc);
        println!("  {}", v.message);
        rc = 1;
    }
    if rc == 0 && engine_error.is_some() {
        rc = 2;
    }

    let complete = engine_error.is_none() && !crashed && suites.values().all(|s| s.0 == s.1);
    let nsamples: Vec<String> = {
        let mut seen = HashSet::new();
        samples.retain(|s| seen.insert(s.split('#').next().unwrap_or("").to_string()));
        samples.into_iter().take(30).collect()
    };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let suites_json: Value = suites.iter().map(|(k, v)| (k.clone(), json!({"cases": v.0, "executed": v.1}))).collect::<serde_json::Map<_, _>>().into();
    let mut cov = json!({
        "evaluations": evals,
        "distinct_nontrivial": outcomes.len(),
        "rule": p.rule,
        "samples": nsamples,
        "exhaustive": complete,
        "suites": suites_json,
    });
    if p.level == "model_checking" {
        cov["states"] = json!(states.len());
        cov["transitions"] = json!(transitions);
        cov["traces_validated_against_impl"] = json!(traces);
    }
    let ev = json!({
        "property": id, "tier": tier_s, "seed": seed, "level": p.level, "coverage": cov,
        "assumptions": p.assumptions, "wall_s": start.elapsed().as_secs_f64(), "violations": fresh.len().max(if fresh.is_empty() {0} else {vcount as usize}),
    });
    fs::write(vdir.join("evidence").join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let _ = fs::remove_dir_all(&work);
    println!(
        "{} {}: {} cases, {} distinct outcomes, {} states, {} transitions, {} violations, {:.1}s",
        id, tier_s, evals, outcomes.len(), states.len(), transitions, fresh.len(), start.elapsed().as_secs_f64()
    );
    rc
}
