mod alloc_mon;
mod core;
mod dynfmt;
mod dynser;
mod model;
mod props;
mod render;
mod repr_mon;

use crate::core::*;
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fs,
    io::Write,
    os::unix::{fs::FileExt, process::ExitStatusExt},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    time::{Duration, Instant},
};

thread_local!(static PANIC: RefCell<String> = const { RefCell::new(String::new()) });

/// CPU time of one case (all of them are far below a second).
const CASE_CPU_S: u64 = 40;

fn find(id: &str) -> &'static Prop {
    props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = match i.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => match i.payload().downcast_ref::<String>() {
                Some(s) => s.clone(),
                None => "?".into(),
            },
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} @ {loc}"));
    }));
}

/// The panic message without the numbers, which identifies the failure.
fn panic_sig(s: &str) -> String {
    let s: String = s.split(" @ ").next().unwrap_or("").chars().map(|c| if c.is_ascii_digit() { 'N' } else { c }).collect();
    format!("panic: {}", s.chars().take(80).collect::<String>())
}

fn run_case(cx: &mut Ctx, p: &'static Prop, seed: u64, index: u64) {
    cx.case = index;
    let mut rng = Rng::new(case_seed(seed, p.id, index));
    let before = cx.evals;
    if let Err(m) = guarded(|| (p.case)(cx, &mut rng)) {
        cx.fail(panic_sig(&m), m);
    }
    if cx.evals == before {
        cx.count("cases.without-decision");
    }
}

fn run_fixed(cx: &mut Ctx, p: &'static Prop) {
    cx.case = u64::MAX;
    if let Some(f) = p.fixed {
        if let Err(m) = guarded(|| f(cx)) {
            cx.fail(panic_sig(&m), m);
        }
    }
}

fn on_stack(stack: usize, f: impl FnOnce() + Send) {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(stack).spawn_scoped(s, f).unwrap().join().unwrap();
    });
}

struct Args {
    seed: u64,
    tier: Tier,
    shard: u64,
    shards: u64,
    cases: u64,
    dir: PathBuf,
    deadline_s: u64,
    /// Name of the results.
    name: u64,
}

fn worker(p: &'static Prop, a: Args) {
    install_hook();
    on_stack(p.stack, || {
        let mut cx = Ctx::new(p.id, a.tier);
        cx.cur = Some(fs::OpenOptions::new().create(true).truncate(true).write(true).open(a.dir.join(format!("cur.{}", a.name))).unwrap());
        let t = Instant::now();
        if a.shard == 0 && !cfg!(miri) {
            run_fixed(&mut cx, p);
        }
        let mut i = a.shard;
        while i < a.cases {
            run_case(&mut cx, p, a.seed, i);
            cx.count("cases");
            if cx.viols.len() >= 10 {
                cx.count("stopped.violations");
                break;
            }
            // Generous watchdog: stops the exploration, it is not a verdict
            if (i % 64 == a.shard % 64 || cfg!(miri)) && t.elapsed().as_secs() > a.deadline_s {
                cx.count("stopped.watchdog");
                break;
            }
            i += a.shards;
        }
        let v = json!({
            "evals": cx.evals, "counts": cx.counts, "samples": cx.samples, "findings": cx.findings,
            "viols": cx.viols.iter().map(|v| json!({"sig": v.sig, "detail": v.detail, "input": v.input, "case": v.case})).collect::<Vec<_>>(),
        });
        let mut f = std::io::BufWriter::new(fs::File::create(a.dir.join(format!("distinct.{}", a.name))).unwrap());
        for h in &cx.distinct {
            f.write_all(&h.to_le_bytes()).unwrap();
        }
        f.flush().unwrap();
        fs::write(a.dir.join(format!("out.{}", a.name)), v.to_string()).unwrap();
    });
}

fn cpu_s(pid: u32) -> Option<u64> {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let s = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = s.split(' ').collect();
    Some((f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?) / 100)
}

fn read_cur(path: &Path) -> Option<(u64, String)> {
    let f = fs::File::open(path).ok()?;
    let mut h = [0; 16];
    f.read_exact_at(&mut h, 0).ok()?;
    let case = u64::from_le_bytes(h[..8].try_into().unwrap());
    let len = u64::from_le_bytes(h[8..].try_into().unwrap()).min(60_000) as usize;
    let mut b = vec![0; len];
    f.read_exact_at(&mut b, 16).ok()?;
    Some((case, String::from_utf8_lossy(&b).into_owned()))
}

/// A build of this program whose executions are watched by another monitor.
#[derive(Clone)]
struct Leg {
    name: &'static str,
    path: PathBuf,
    shards: u64,
    cases: u64,
    deadline: u64,
}

struct Kid {
    k: u64,
    c: std::process::Child,
    leg: Option<Leg>,
    late: u64,
    st: Option<std::process::ExitStatus>,
    last: (u64, String),
    cpu0: u64,
    hung: bool,
    seed: u64,
}

/// YPMON_TSAN, YPMON_ASAN: the programs; YPMON_MIRI: the manifest.
fn legs(thorough: bool) -> Vec<Leg> {
    let mut out = vec![];
    for (name, var, shards, quick, deep) in [("tsan", "YPMON_TSAN", 4, 1_500, 20_000), ("asan", "YPMON_ASAN", 4, 3_000, 60_000), ("miri", "YPMON_MIRI", 4, 4, 150)] {
        if let Some(path) = std::env::var_os(var) {
            let deadline = if thorough { 2400 } else { 200 };
            out.push(Leg { name, path: path.into(), shards: if thorough { 8 } else { shards }, cases: if thorough { deep } else { quick }, deadline });
        }
    }
    out
}

/// The report of a sanitizer or the interpreter.
fn report(err: &str) -> Option<String> {
    let l = err.lines().find(|l| {
        l.contains("WARNING: ThreadSanitizer:")
            || l.contains("ERROR: AddressSanitizer:")
            || l.contains("ERROR: LeakSanitizer: detected")
            || l.contains("error: Undefined Behavior:")
            || l.contains("error: memory leaked:")
            || l.contains("error: deadlock")
            || l.contains("the evaluated program deadlocked")
    })?;
    let l = l.trim_start_matches(|c: char| c == '=' || c.is_ascii_digit()).replace("WARNING: ", "").replace("ERROR: ", "").replace("error: ", "");
    let l: String = l.split(" (pid").next().unwrap_or("").split(" on address").next().unwrap_or("").split(" on unknown").next().unwrap_or("").chars().map(|c| if c.is_ascii_digit() { 'N' } else { c }).take(90).collect();
    Some(l)
}

fn check(p: &'static Prop, verif: &Path) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|s| s == "thorough");
    let tier = if thorough { "thorough" } else { "quick" };
    let scale: f64 = std::env::var("YPMON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.);
    let cases = if thorough { p.thorough } else { p.quick };
    let cases = ((cases as f64 * scale) as u64).max(1);
    let deadline = std::env::var("YPMON_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000u64 } else { 400 });
    let shards: u64 = std::env::var("YPMON_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let dir = std::env::temp_dir().join(format!("ypmon.{}.{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    // Sanitizers and the interpreter run a part of the workload, with other seeds
    let mut jobs: Vec<(u64, Option<Leg>)> = (0..shards).map(|k| (k, None)).collect();
    for l in legs(thorough) {
        for _ in 0..l.shards {
            jobs.push((jobs.len() as u64, Some(l.clone())));
        }
    }
    let mut kids: Vec<_> = jobs
        .into_iter()
        .map(|(k, leg)| {
            let mut c = match &leg {
                None => Command::new(&exe),
                Some(l) if l.name == "miri" => {
                    let mut c = Command::new("cargo");
                    c.args(["+nightly", "miri", "run", "--offline", "-q", "--features", "plain-alloc", "--manifest-path"]);
                    c.arg(&l.path).arg("--");
                    c.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-preemption-rate=0.05 -Zmiri-seed={}", seed.wrapping_mul(100).wrapping_add(k) % 1_000_000));
                    c.env("CARGO_TARGET_DIR", verif.join("target/miri"));
                    c
                }
                Some(l) => {
                    let mut c = Command::new(&l.path);
                    c.env("ASAN_OPTIONS", "exitcode=66:detect_leaks=1");
                    c.env("TSAN_OPTIONS", "exitcode=66:halt_on_error=1");
                    c
                }
            };
            // The shards of a leg explore cases of their own
            let (s, k1, n, total, late) = match &leg {
                None => (seed, k, shards, cases, deadline),
                Some(l) => (seed.wrapping_add(7919 * (k + 1)), 0, 1, l.cases, l.deadline),
            };
            let c = c
                .args(["worker", p.id, &s.to_string(), tier, &k1.to_string(), &n.to_string(), &total.to_string(), dir.to_str().unwrap(), &late.to_string(), &k.to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(fs::File::create(dir.join(format!("err.{k}"))).unwrap())
                .spawn()
                .unwrap();
            Kid { k, c, leg, late, st: None, last: (u64::MAX - 1, String::new()), cpu0: 0, hung: false, seed: s }
        })
        .collect();
    // Wait; a case that burned CASE_CPU_S of *CPU time* is a non-termination
    loop {
        std::thread::sleep(Duration::from_millis(50));
        let mut alive = false;
        for Kid { k, c, st, last, cpu0, hung, leg, late, .. } in &mut kids {
            if st.is_some() {
                continue;
            }
            if let Ok(Some(s)) = c.try_wait() {
                *st = Some(s);
                continue;
            }
            alive = true;
            if t0.elapsed().as_secs() > *late + 240 {
                let _ = c.kill();
            }
            if leg.is_some() {
                continue;
            }
            if let (Some(cur), Some(cpu)) = (read_cur(&dir.join(format!("cur.{k}"))), cpu_s(c.id())) {
                if cur != *last {
                    *last = cur;
                    *cpu0 = cpu;
                } else if cpu >= *cpu0 + CASE_CPU_S {
                    *hung = true;
                    let _ = c.kill();
                }
            }
        }
        if !alive {
            break;
        }
    }
    let mut evals = 0;
    let mut counts = BTreeMap::<String, u64>::new();
    let mut distinct = HashSet::<u64>::new();
    let mut samples = vec![];
    let mut viols = vec![];
    let mut findings = vec![];
    let mut inconclusive = vec![];
    let mut legs = BTreeMap::<&str, Value>::new();
    for Kid { k, st, hung, leg, seed, .. } in &kids {
        if let Some(l) = leg {
            let err = fs::read_to_string(dir.join(format!("err.{k}"))).unwrap_or_default();
            let out = fs::read_to_string(dir.join(format!("out.{k}"))).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok());
            let e = legs.entry(l.name).or_insert_with(|| json!({"cases": 0, "evaluations": 0, "runs": 0, "unfinished": 0}));
            let bump = |e: &mut Value, k: &str, n: u64| e[k] = json!(e[k].as_u64().unwrap_or(0) + n);
            if let Some(sig) = report(&err) {
                let (case, input) = read_cur(&dir.join(format!("cur.{k}"))).unwrap_or((0, String::new()));
                viols.push(json!({"sig": sig, "detail": err.chars().take(6000).collect::<String>(), "input": input, "case": case, "seed": seed, "leg": l.name}));
            }
            if let Some(v) = out {
                bump(e, "runs", 1);
                bump(e, "cases", v["counts"]["cases"].as_u64().unwrap_or(0));
                bump(e, "evaluations", v["evals"].as_u64().unwrap_or(0));
                viols.extend(v["viols"].as_array().unwrap().iter().cloned().map(|mut v| {
                    v["seed"] = json!(seed);
                    v["leg"] = json!(l.name);
                    v
                }));
            } else {
                bump(e, "unfinished", 1);
                e["note"] = json!(err.chars().rev().take(400).collect::<Vec<_>>().into_iter().rev().collect::<String>());
            }
            if let Ok(b) = fs::read(dir.join(format!("distinct.{k}"))) {
                distinct.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
            continue;
        }
        if let Ok(b) = fs::read(dir.join(format!("distinct.{k}"))) {
            distinct.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        let out = fs::read_to_string(dir.join(format!("out.{k}"))).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok());
        if let Some(v) = out {
            evals += v["evals"].as_u64().unwrap();
            for (n, c) in v["counts"].as_object().unwrap() {
                let (c, e) = (c.as_u64().unwrap(), counts.entry(n.clone()).or_default());
                *e = if n.starts_with("max.") { c.max(*e) } else { *e + c };
            }
            samples.extend(v["samples"].as_array().unwrap().iter().cloned());
            findings.extend(v["findings"].as_array().unwrap().iter().filter_map(|f| f.as_str().map(String::from)));
            viols.extend(v["viols"].as_array().unwrap().iter().cloned());
        } else {
            // The process died: the announced case is the witness
            let (case, input) = read_cur(&dir.join(format!("cur.{k}"))).unwrap_or((0, String::new()));
            let err = fs::read_to_string(dir.join(format!("err.{k}"))).unwrap_or_default();
            let err: String = err.chars().rev().take(3000).collect::<Vec<_>>().into_iter().rev().collect();
            let sig = match st.and_then(|s| s.signal()) {
                _ if *hung => "no-termination".to_string(),
                Some(9) | Some(15) => {
                    inconclusive.push(format!("worker {k} was killed"));
                    continue;
                }
                Some(n) => format!("crash: signal {n}"),
                None => {
                    inconclusive.push(format!("worker {k} failed: {err}"));
                    continue;
                }
            };
            viols.push(json!({"sig": sig, "detail": err, "input": input, "case": case}));
        }
    }
    for m in p.must {
        if viols.is_empty() && counts.get(*m).copied().unwrap_or(0) == 0 {
            inconclusive.push(format!("never observed: {m}"));
        }
    }
    if evals == 0 && viols.is_empty() {
        inconclusive.push("no decision was taken".into());
    }
    samples.truncate(6);
    let _ = fs::remove_dir_all(&dir);
    let level = "exploration";
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct.len(), "rule": p.rule,
            "samples": samples, "observed": counts, "shards": shards, "sanitizers": legs,
            "inconclusive": inconclusive,
        },
        "assumptions": p.assumptions,
        "wall_s": (t0.elapsed().as_millis() as f64) / 1000.,
        "violations": viols.len(),
    });
    fs::create_dir_all(verif.join("evidence")).unwrap();
    fs::write(verif.join(format!("evidence/{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    findings.sort();
    findings.dedup();
    for f in findings {
        println!("KNOWN-FINDING: property={} {f}", p.id);
    }
    for (n, l) in &legs {
        println!("{}: {n}: {l}", p.id);
    }
    println!("{}: {} decisions, {} distinct non-trivial cases, {:.1} s", p.id, evals, distinct.len(), t0.elapsed().as_secs_f64());
    if !viols.is_empty() {
        let rdir = verif.join("replays");
        fs::create_dir_all(&rdir).unwrap();
        let mut seen = HashSet::new();
        for v in &viols {
            let sig = v["sig"].as_str().unwrap();
            if !seen.insert(sig.to_string()) || seen.len() > 5 {
                continue;
            }
            let path = rdir.join(format!("{}-{:08x}.json", p.id, hash_of(&(sig, v["case"].as_u64())) as u32));
            let seed = v["seed"].as_u64().unwrap_or(seed);
            let r = json!({"property": p.id, "seed": seed, "leg": v["leg"], "tier": tier, "case": v["case"], "sig": sig, "detail": v["detail"], "input": v["input"]});
            fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
            println!("  {sig}: {}", v["detail"].as_str().unwrap_or("").chars().take(600).collect::<String>());
            println!("VIOLATION property={} replay={}", p.id, path.display());
        }
        return 1;
    }
    if !inconclusive.is_empty() {
        println!("INCONCLUSIVE property={}: {}", p.id, inconclusive.join("; "));
        return 2;
    }
    0
}

fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&fs::read_to_string(path).unwrap()).unwrap();
    let p = find(v["property"].as_str().unwrap());
    let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    one(p, v["seed"].as_u64().unwrap(), tier, v["case"].as_u64().unwrap(), 1)
}

fn one(p: &'static Prop, seed: u64, tier: Tier, case: u64, n: u64) -> i32 {
    install_hook();
    let mut failed = false;
    on_stack(p.stack, || {
        let mut cx = Ctx::new(p.id, tier);
        cx.verbose = true;
        if case == u64::MAX {
            run_fixed(&mut cx, p);
        } else {
            for i in case..case + n {
                run_case(&mut cx, p, seed, i);
            }
        }
        failed = !cx.viols.is_empty();
        if std::env::var("YPMON_SHOW").is_ok() {
            println!("{}", cx.input);
        }
        println!("{} decisions, {} violations {:?}", cx.evals, cx.viols.len(), cx.counts);
    });
    failed as i32
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    let n = |i: usize| s(i).parse::<u64>().unwrap_or(0);
    let verif = PathBuf::from(std::env::var("YPMON_VERIF").unwrap_or_else(|_| "/verif".into()));
    let code = match s(1) {
        "check" => check(find(s(2)), &verif),
        "worker" => {
            let args = Args {
                seed: n(3),
                tier: if s(4) == "thorough" { Tier::Thorough } else { Tier::Quick },
                shard: n(5),
                shards: n(6),
                cases: n(7),
                dir: s(8).into(),
                deadline_s: n(9),
                name: n(10),
            };
            worker(find(s(2)), args);
            0
        }
        "replay" => replay(s(2)),
        // one ID SEED CASE [N]: run cases in this process
        "one" => one(find(s(2)), n(3), Tier::Quick, n(4), n(5).max(1)),
        // short ID SEED N [K]: the shortest failing inputs
        "short" => {
            install_hook();
            let p = find(s(2));
            let mut code = 0;
            on_stack(p.stack, || {
                let mut cx = Ctx::new(p.id, Tier::Quick);
                let mut all = vec![];
                run_fixed(&mut cx, p);
                all.append(&mut cx.viols);
                for i in 0..n(4) {
                    run_case(&mut cx, p, n(3), i);
                    all.append(&mut cx.viols);
                }
                code = !all.is_empty() as i32;
                println!("{} failures of {} decisions, distinct {} {:?}", all.len(), cx.evals, cx.distinct.len(), cx.counts);
                all.sort_by_key(|v| v.input.len());
                for v in all.iter().take(n(5).max(1) as usize) {
                    println!("#{} [{}] {}\n<<<{}>>>\n", v.case, v.sig, v.detail, v.input);
                }
            });
            code
        }
        "list" => {
            props::ALL.iter().for_each(|p| println!("{}", p.id));
            0
        }
        _ => {
            eprintln!("usage: ypmon check|replay|one|list ...");
            2
        }
    };
    std::process::exit(code)
}
