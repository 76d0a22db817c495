//! C19: the same outcomes from every build, target and process.

use crate::core::*;
use crate::diff::SUITES;
use crate::props::PostResult;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

struct Variant {
    name: &'static str,
    /// Relative to the build directory.
    artifact: &'static str,
    wasm: bool,
    env: &'static [(&'static str, &'static str)],
}

const VARIANTS: [Variant; 8] = [
    Variant { name: "reference (optimised, checked)", artifact: "release/ozzmc", wasm: false, env: &[] },
    Variant { name: "same build, second process", artifact: "release/ozzmc", wasm: false, env: &[("OZZMC_PAD", "0123456789012345678901234567890123456789"), ("RUST_MIN_STACK", "3000000")] },
    Variant { name: "same build, third process", artifact: "release/ozzmc", wasm: false, env: &[("LANG", "C.UTF-8"), ("MALLOC_PERTURB_", "165")] },
    Variant { name: "unoptimised", artifact: "v-o0/debug/ozzmc", wasm: false, env: &[] },
    Variant { name: "fully optimised", artifact: "v-plain/plain/ozzmc", wasm: false, env: &[] },
    Variant { name: "fully optimised for AVX2 and FMA", artifact: "v-avx/plain/ozzmc", wasm: false, env: &[] },
    Variant { name: "WebAssembly", artifact: "v-wasm/wasm32-unknown-unknown/plain/ozzmc.wasm", wasm: true, env: &[] },
    Variant { name: "WebAssembly with SIMD", artifact: "v-wasmsimd/wasm32-unknown-unknown/plain/ozzmc.wasm", wasm: true, env: &[] },
];

fn build_dir() -> PathBuf {
    // .../release/ozzmc
    std::env::current_exe().unwrap().parent().unwrap().parent().unwrap().to_path_buf()
}

fn usable(v: &Variant) -> bool {
    !v.artifact.starts_with("v-avx") || (std::is_x86_feature_detected!("avx2") && std::is_x86_feature_detected!("fma"))
}

type Outcomes = HashMap<u64, u64>;

fn command(v: &Variant, file: &Path, shard: u64, shards: u64, tier: &str) -> Command {
    let a = build_dir().join(v.artifact);
    let mut c = if v.wasm {
        let mut c = Command::new("node");
        c.arg(PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into())).join("harness/wasm_run.js")).arg(&a);
        c
    } else {
        let mut c = Command::new(&a);
        c.arg("diff");
        c
    };
    c.arg(file).arg(shard.to_string()).arg(shards.to_string()).arg(tier);
    c.envs(v.env.iter().copied()).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    c
}

fn read(file: &Path, into: &mut Outcomes) -> bool {
    let Ok(b) = std::fs::read(file) else { return false };
    for c in b.chunks_exact(16) {
        into.insert(u64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..].try_into().unwrap()));
    }
    true
}

/// Outcomes of one variant; an error when it cannot be run, a message when it crashed.
fn outcomes(v: &Variant, dir: &Path, tier: &str, only: Option<(u64, u64)>) -> Result<(Outcomes, Option<String>), String> {
    let a = build_dir().join(v.artifact);
    if !a.exists() {
        return Err(format!("{} is not built ({})", v.name, a.display()));
    }
    let shards = if only.is_some() { 1 } else { 8 };
    let mut o = Outcomes::new();
    let mut crash = None;
    let mut kids = Vec::new();
    for s in 0..shards {
        let f = dir.join(format!("{}-{}", v.artifact.replace('/', "_"), s));
        let _ = std::fs::remove_file(&f);
        let mut c = command(v, &f, s, shards, tier);
        if let Some((suite, ord)) = only {
            c.arg(suite.to_string()).arg(ord.to_string());
        }
        kids.push((f, c.spawn().map_err(|e| format!("{}: {}", v.name, e))?));
    }
    for (f, k) in kids {
        let out = k.wait_with_output().map_err(|e| e.to_string())?;
        if !read(&f, &mut o) {
            let err = String::from_utf8_lossy(&out.stderr);
            crash = Some(format!("{} {}: {}", v.name, out.status, err.lines().last().unwrap_or("")));
        }
    }
    Ok((o, crash))
}

fn describe(suite: u64, ord: u64, tier: &str, dir: &Path) -> String {
    let out = command(&VARIANTS[0], &dir.join("one"), 0, 1, tier).arg(suite.to_string()).arg(ord.to_string()).output();
    out.map(|o| String::from_utf8_lossy(&o.stdout).lines().next().unwrap_or("").to_string()).unwrap_or_default()
}

fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("ozzmc-diff-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub fn post(tier: &str) -> Result<PostResult, String> {
    let dir = scratch();
    let mut r = PostResult::default();
    let (base, crash) = outcomes(&VARIANTS[0], &dir, tier, None)?;
    if let Some(c) = crash {
        r.violations.push(Violation { suite: "reference".into(), ordinal: 0, desc: "reference run".into(), message: c });
    }
    let mut per: BTreeMap<u64, u64> = BTreeMap::new();
    for (k, h) in &base {
        *per.entry(k >> 40).or_default() += 1;
        r.outcomes.push(h ^ k.rotate_left(20));
    }
    for (s, n) in &per {
        r.suites.push((SUITES[*s as usize].to_string(), *n));
        r.samples.push(format!("{}#0: {}", SUITES[*s as usize], describe(*s, 0, tier, &dir)));
    }
    r.evaluations += base.len() as u64;
    for v in &VARIANTS[1..] {
        if !usable(v) {
            continue;
        }
        let (o, crash) = outcomes(v, &dir, tier, None)?;
        r.evaluations += o.len() as u64;
        r.suites.push((format!("compared with: {}", v.name), o.len() as u64));
        if let Some(c) = crash {
            r.violations.push(Violation { suite: v.name.into(), ordinal: 0, desc: "run".into(), message: c });
            continue;
        }
        let mut bad: Vec<u64> = Vec::new();
        for (k, h) in &base {
            if v.wasm && (k >> 40) as usize == crate::diff::ONE_TARGET {
                continue;
            }
            if o.get(k) != Some(h) {
                bad.push(*k);
            }
        }
        if o.len() != base.len() {
            return Err(format!("{} ran {} cases instead of {}", v.name, o.len(), base.len()));
        }
        bad.sort();
        let mut seen: HashMap<u64, u32> = HashMap::new();
        for k in bad {
            let n = seen.entry(k >> 40).or_default();
            *n += 1;
            if *n > 3 {
                continue;
            }
            let (suite, ord) = (k >> 40, k & ((1 << 40) - 1));
            r.violations.push(Violation {
                suite: SUITES[suite as usize].into(),
                ordinal: ord,
                desc: format!("{} [{}]", describe(suite, ord, tier, &dir), v.name),
                message: format!("the outcome of the build \"{}\" differs from that of \"{}\"", v.name, VARIANTS[0].name),
            });
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(r)
}

/// Replays one case with every variant.
pub fn one(tier: &str, suite: &str, ord: u64) -> i32 {
    let Some(s) = SUITES.iter().position(|x| *x == suite) else {
        println!("the variant \"{}\" crashed as a whole: running it again", suite);
        return match post(tier) {
            Ok(r) if r.violations.is_empty() => 0,
            Ok(_) => 1,
            Err(e) => {
                eprintln!("{}", e);
                2
            }
        };
    };
    let dir = scratch();
    println!("{}", describe(s as u64, ord, tier, &dir));
    let mut base = None;
    let mut rc = 0;
    for v in VARIANTS.iter().filter(|v| usable(v)) {
        match outcomes(v, &dir, tier, Some((s as u64, ord))) {
            Err(e) => {
                eprintln!("{}", e);
                rc = 2;
            }
            Ok((o, crash)) => {
                let h = o.get(&(((s as u64) << 40) | ord)).copied();
                println!("  {:40} {}", v.name, crash.clone().unwrap_or(h.map(|h| format!("{:016x}", h)).unwrap_or("no outcome".into())));
                if base.is_none() {
                    base = Some(h);
                }
                if (base != Some(h) || crash.is_some()) && !(v.wasm && s == crate::diff::ONE_TARGET) {
                    rc = 1;
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    rc
}

/// Within one process: every case twice, the second time in a process that has already run everything.
pub fn c19(ctx: &mut Ctx) {
    ctx.suite("same-process", |ctx| {
        let th = ctx.wide();
        ctx.case(
            || "every case twice in one process".to_string(),
            |st| {
                let go = || {
                    let mut d = crate::diff::D::new(0, 1, th);
                    crate::diff::run(&mut d);
                    d.out
                };
                let (a, b) = (go(), go());
                for (x, y) in a.iter().zip(&b) {
                    ensure!(x == y, "{} case {}: another outcome the second time", SUITES[(x.0 >> 40) as usize], x.0 & ((1 << 40) - 1));
                }
                st.transitions += a.len() as u64;
                Ok(a.len() as u64)
            },
        );
    });
}
