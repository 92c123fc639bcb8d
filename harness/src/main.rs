//! gv run PROP quick|thorough      run a check, write evidence, print VIOLATION lines
//! gv replay FILE                  run one saved case again
//! gv worker ... / gv one ...      internal
mod checks;
mod dict;
mod dump;
mod engine;
mod gen;
mod lang;
mod lsp;
mod model;
mod proj;
mod render;

use checks::Check;
use engine::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn verif() -> PathBuf {
    std::env::var("GV_VERIF").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn case_seed(seed: u64, prop: &str, case: u64) -> u64 {
    let mut r = Rng::new(seed ^ hash_str(prop));
    let a = r.next();
    let mut r = Rng::new(a.wrapping_add(case.wrapping_mul(0x2545F4914F6CDD1D)));
    r.next()
}

enum Outcome {
    Ok,
    Fail(Failure),
    HarnessError(String),
}

fn run_case(check: &Check, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    ctx.nontrivial.clear();
    ctx.inputs.clear();
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(|| (check.f)(src, ctx))) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(f)) => Outcome::Fail(f),
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") {
                Outcome::HarnessError(format!("panic in the harness at {loc}: {msg}"))
            } else {
                Outcome::Fail(Failure::new(format!("panic at {loc}: {msg}")))
            }
        }
    }
}

fn limits(prop: &str) {
    unsafe {
        let mem = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &mem);
        // The smallest stack that threads have by default; programs that are started keep the usual one
        if !matches!(prop, "C17" | "C18" | "C19" | "C20" | "C21") {
            let mut stack = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::getrlimit(libc::RLIMIT_STACK, &mut stack);
            stack.rlim_cur = (2 << 20).min(stack.rlim_max);
            libc::setrlimit(libc::RLIMIT_STACK, &stack);
        }
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}

fn cpu_limit(secs: u64) {
    unsafe {
        let l = libc::rlimit { rlim_cur: secs, rlim_max: secs + 5 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((loc, msg));
            }
        });
    }));
}

fn arg<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}

fn bins() -> PathBuf {
    std::env::var("GV_BINS").map(PathBuf::from).unwrap_or_else(|_| verif().join("build/repo/debug"))
}

fn known_sigs(prop: &str) -> Vec<String> {
    let text = std::fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| l.split_once(' '))
        .filter(|(p, _)| *p == prop)
        .filter_map(|(_, rest)| rest.strip_prefix("sig="))
        .map(|rest| rest.split(' ').next().unwrap_or("").to_string())
        .collect()
}

fn failure_json(check: &Check, seed: u64, case: u64, choices: &[u32], f: &Failure, inputs: &[(String, String)]) -> Value {
    json!({
        "property": check.id, "seed": seed, "case": case, "choices": choices,
        "what": f.what,
        "inputs": inputs.iter().map(|(n, t)| json!({"name": n, "text": t})).collect::<Vec<_>>(),
    })
}

fn worker(args: &[String]) -> i32 {
    let prop = arg(args, "--prop").unwrap();
    let check = checks::find(prop).unwrap();
    let seed: u64 = arg(args, "--seed").unwrap().parse().unwrap();
    let k: u64 = arg(args, "--worker").unwrap().parse().unwrap();
    let n: u64 = arg(args, "--workers").unwrap().parse().unwrap();
    let total: u64 = arg(args, "--cases").unwrap().parse().unwrap();
    let out = PathBuf::from(arg(args, "--out").unwrap());
    let thorough = arg(args, "--tier") == Some("thorough");
    limits(check.id);
    install_hook();
    let scratch = out.join(format!("w{k}"));
    std::fs::create_dir_all(&scratch).unwrap();
    let mut ctx = Ctx::new(scratch, bins(), thorough);
    let known = known_sigs(prop);
    let progress = std::fs::File::create(out.join(format!("progress{k}"))).unwrap();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut evaluations = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut known_hits: BTreeMap<String, String> = BTreeMap::new();
    let mut case = arg(args, "--from").map_or(k, |s| s.parse().unwrap());
    let mut status = 0;
    while case < total {
        {
            use std::os::unix::fs::FileExt;
            progress.write_all_at(&case.to_le_bytes(), 0).unwrap();
        }
        let mut src = Src::random(case_seed(seed, prop, case));
        let outcome = run_case(check, &mut src, &mut ctx);
        evaluations += 1;
        match outcome {
            Outcome::Ok => {
                let fresh = ctx.nontrivial.iter().filter(|h| seen.insert(**h)).count();
                if fresh > 0 && samples.len() < 2 && evaluations % 7 == 3 {
                    let s: Vec<Value> = ctx
                        .inputs
                        .iter()
                        .map(|(n, t)| json!({"name": n, "text": t.chars().take(600).collect::<String>()}))
                        .collect();
                    samples.push(json!({"case": case, "inputs": s}));
                }
            }
            Outcome::HarnessError(e) => {
                eprintln!("HARNESS-ERROR property={prop} case={case}: {e}");
                std::fs::write(out.join(format!("harness_error{k}")), e).unwrap();
                status = 3;
                break;
            }
            Outcome::Fail(f) if known.contains(&f.sig) && !f.sig.is_empty() => {
                known_hits.insert(f.sig.clone(), f.what.clone());
            }
            Outcome::Fail(f) => {
                let path = out.join(format!("failure{k}.json"));
                let first = src.rec.clone();
                std::fs::write(&path, failure_json(check, seed, case, &first, &f, &ctx.inputs).to_string()).unwrap();
                // shrink; only within the same kind of failure (panic or not)
                let is_panic = f.what.starts_with("panic");
                let start = Instant::now();
                let best = shrink(first, if check.slow { 300 } else { 4000 }, |seq| {
                    if start.elapsed() > Duration::from_secs(if check.slow { 60 } else { 25 }) {
                        return None;
                    }
                    let mut s = Src::replay(seq.to_vec());
                    match run_case(check, &mut s, &mut ctx) {
                        Outcome::Fail(g) if g.what.starts_with("panic") == is_panic && g.sig == f.sig => Some(s.rec),
                        _ => None,
                    }
                });
                let mut s = Src::replay(best.clone());
                if let Outcome::Fail(g) = run_case(check, &mut s, &mut ctx) {
                    std::fs::write(&path, failure_json(check, seed, case, &best, &g, &ctx.inputs).to_string()).unwrap();
                }
                status = 1;
                break;
            }
        }
        case += n;
    }
    let hashes: Vec<u64> = seen.into_iter().collect();
    let mut bytes = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        bytes.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(out.join(format!("hashes{k}")), bytes).unwrap();
    std::fs::write(
        out.join(format!("result{k}.json")),
        json!({"evaluations": evaluations, "stats": ctx.stats, "samples": samples, "known": known_hits}).to_string(),
    )
    .unwrap();
    status
}

/// Runs a single case in this process, under limits. Exit 0 passes, 1 fails, otherwise crashes.
fn one(args: &[String]) -> i32 {
    let prop = arg(args, "--prop").unwrap();
    let check = checks::find(prop).unwrap();
    let out = PathBuf::from(arg(args, "--out").unwrap());
    limits(check.id);
    cpu_limit(arg(args, "--cpu").and_then(|s| s.parse().ok()).unwrap_or(20));
    install_hook();
    let scratch = out.join("one");
    std::fs::create_dir_all(&scratch).unwrap();
    let mut ctx = Ctx::new(scratch, bins(), false);
    let mut src = match arg(args, "--choices") {
        Some(f) => {
            let v: Vec<u32> = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
            Src::replay(v)
        }
        None => {
            let seed: u64 = arg(args, "--seed").unwrap().parse().unwrap();
            let case: u64 = arg(args, "--case").unwrap().parse().unwrap();
            Src::random(case_seed(seed, prop, case))
        }
    };
    // what is generated is known only after the run, unless it dies: a generator-only pass
    if args.iter().any(|a| a == "--record") {
        std::env::set_var("GV_RECORD", out.join("record.json"));
    }
    match run_case(check, &mut src, &mut ctx) {
        Outcome::Ok => 0,
        Outcome::Fail(f) => {
            std::fs::write(
                out.join("one.json"),
                failure_json(check, 0, 0, &src.rec, &f, &ctx.inputs).to_string(),
            )
            .unwrap();
            1
        }
        Outcome::HarnessError(e) => {
            eprintln!("{e}");
            3
        }
    }
}

/// What a check calls right before it hands generated input to the code under test:
/// if the process dies in there, the supervisor still knows the choices and the input.
pub fn about_to_run(src: &Src, ctx: &Ctx) {
    if let Ok(path) = std::env::var("GV_RECORD") {
        let _ = std::fs::write(
            path,
            json!({"choices": src.rec, "inputs": ctx.inputs.iter().map(|(n, t)| json!({"name": n, "text": t})).collect::<Vec<_>>()}).to_string(),
        );
    }
}

fn self_cmd() -> Command {
    Command::new(std::env::current_exe().unwrap())
}

enum Iso {
    Pass,
    Fail,
    Died(String),
    Error,
}

fn isolated(prop: &str, out: &Path, extra: &[String]) -> Iso {
    let _ = std::fs::remove_dir_all(out.join("one"));
    let st = self_cmd()
        .arg("one")
        .args(["--prop", prop, "--out", out.to_str().unwrap(), "--record"])
        .args(extra)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status();
    match st {
        Ok(s) => match (s.code(), s.signal()) {
            (Some(0), _) => Iso::Pass,
            (Some(1), _) => Iso::Fail,
            (_, Some(sig)) if sig == libc::SIGXCPU || sig == libc::SIGKILL => {
                Iso::Died("does not terminate (CPU limit of 20 s in isolation)".into())
            }
            (_, Some(sig)) => Iso::Died(format!("process killed by signal {sig} (e.g. stack overflow or abort)")),
            _ => Iso::Error,
        },
        Err(_) => Iso::Error,
    }
}

/// Runs a case that crashed or hung again, in isolation, and shrinks it
fn confirm(prop: &str, out: &Path, seed: u64, case: u64) -> Result<Option<Value>, ()> {
    let extra = vec!["--seed".into(), seed.to_string(), "--case".into(), case.to_string()];
    match isolated(prop, out, &extra) {
        Iso::Died(what) => {
            let rec: Value = std::fs::read_to_string(out.join("record.json"))
                .ok()
                .and_then(|t| serde_json::from_str(&t).ok())
                .unwrap_or(json!({"choices": [], "inputs": []}));
            let mut choices: Vec<u32> =
                rec["choices"].as_array().map(|a| a.iter().map(|v| v.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default();
            let mut inputs = rec["inputs"].clone();
            let hang = what.contains("terminate");
            if !choices.is_empty() {
                let t0 = Instant::now();
                let f = out.join("choices.json");
                choices = shrink(choices, if hang { 60 } else { 400 }, |seq| {
                    if t0.elapsed() > Duration::from_secs(60) {
                        return None;
                    }
                    std::fs::write(&f, serde_json::to_string(seq).unwrap()).unwrap();
                    let extra = vec![
                        "--choices".into(),
                        f.to_str().unwrap().into(),
                        "--cpu".into(),
                        if hang { "4".into() } else { "20".into() },
                    ];
                    match isolated(prop, out, &extra) {
                        Iso::Died(_) => {
                            let rec: Value = serde_json::from_str(&std::fs::read_to_string(out.join("record.json")).ok()?).ok()?;
                            inputs = rec["inputs"].clone();
                            Some(rec["choices"].as_array()?.iter().map(|v| v.as_u64().unwrap_or(0) as u32).collect())
                        }
                        _ => None,
                    }
                });
            }
            Ok(Some(json!({"property": prop, "seed": seed, "case": case, "choices": choices, "what": what, "inputs": inputs})))
        }
        Iso::Fail => {
            let t = std::fs::read_to_string(out.join("one.json")).map_err(|_| ())?;
            let mut v: Value = serde_json::from_str(&t).map_err(|_| ())?;
            v["case"] = json!(case);
            v["seed"] = json!(seed);
            Ok(Some(v))
        }
        Iso::Pass => Ok(None),
        Iso::Error => Err(()),
    }
}

/// No control characters, not too long
fn printable(s: &str) -> String {
    s.chars().take(3000).map(|c| if c.is_control() && c != '\n' && c != '\t' { '\u{fffd}' } else { c }).collect()
}

fn run(args: &[String]) -> i32 {
    let prop = args[0].as_str();
    let tier = args.get(1).map(|s| s.as_str()).unwrap_or("quick");
    let Some(check) = checks::find(prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let mut cases = if thorough { check.thorough } else { check.quick } as u64;
    if let Ok(c) = std::env::var("GV_CASES") {
        cases = c.parse().unwrap();
    }
    let workers: u64 = std::env::var("GV_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let start = Instant::now();
    let base = std::env::var("TMPDIR").unwrap_or_else(|_| "/tmp".into());
    let out = PathBuf::from(base).join(format!("gv-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&out).unwrap();
    let spawn = |k: u64, from: u64| {
        self_cmd()
            .arg("worker")
            .args(["--prop", prop, "--seed", &seed.to_string(), "--worker", &k.to_string()])
            .args(["--workers", &workers.to_string(), "--cases", &cases.to_string(), "--from", &from.to_string()])
            .args(["--out", out.to_str().unwrap(), "--tier", tier])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .spawn()
            .expect("spawn worker")
    };
    let mut children: Vec<_> = (0..workers).map(|k| (k, Some(spawn(k, k)), (u64::MAX, Instant::now()))).collect();
    let mut error: Option<String> = None;
    let mut stopped: Option<Instant> = None;
    let mut failures: Vec<Value> = vec![];
    let mut restarts = 0;
    loop {
        let mut running = false;
        // workers that crashed or hang, with the case
        let mut crashed: Vec<(u64, u64, String)> = vec![];
        for (k, child, last) in &mut children {
            let Some(c) = child else { continue };
            match c.try_wait().unwrap() {
                None => {
                    running = true;
                    let p = std::fs::read(out.join(format!("progress{k}"))).unwrap_or_default();
                    let case = p.try_into().map(u64::from_le_bytes).unwrap_or(u64::MAX);
                    let failing = out.join(format!("failure{k}.json")).exists();
                    if case != last.0 {
                        *last = (case, Instant::now());
                    }
                    let patience = Duration::from_secs(if failing { 150 } else { 60 });
                    // once there is a violation, the others get little time to come to an end
                    let late = stopped.is_some_and(|t| t.elapsed() > Duration::from_secs(if failing { 60 } else { 5 }));
                    if last.1.elapsed() > patience || late {
                        let _ = c.kill();
                        let _ = c.wait();
                        if !failing && !late {
                            crashed.push((*k, case, "no answer".into()));
                        }
                        *child = None;
                    }
                }
                Some(st) => {
                    if st.code() == Some(3) {
                        error = Some(format!(
                            "harness error: {}",
                            std::fs::read_to_string(out.join(format!("harness_error{k}"))).unwrap_or_default()
                        ));
                    } else if !matches!(st.code(), Some(0) | Some(1)) && !out.join(format!("failure{k}.json")).exists() {
                        let p = std::fs::read(out.join(format!("progress{k}"))).unwrap_or_default();
                        let case = p.try_into().map(u64::from_le_bytes).unwrap_or(u64::MAX);
                        crashed.push((*k, case, format!("worker died: {st}")));
                    }
                    if st.code() == Some(1) {
                        stopped.get_or_insert(Instant::now());
                    }
                    *child = None;
                }
            }
        }
        // confirm crashes and hangs in isolation
        for (k, case, how) in crashed {
            if case == u64::MAX {
                error = Some(format!("worker failed to start: {how}"));
                continue;
            }
            if stopped.is_some() {
                continue;
            }
            match confirm(prop, &out, seed, case) {
                Ok(Some(f)) => {
                    failures.push(f);
                    stopped = Some(Instant::now());
                }
                Ok(None) if restarts < 3 => {
                    // e.g. the machine was too busy: go on behind this case
                    eprintln!("NOTE: case {case}: {how}, but not in isolation");
                    restarts += 1;
                    running = true;
                    let slot = children.iter_mut().find(|c| c.0 == k).unwrap();
                    *slot = (k, Some(spawn(k, case + workers)), (u64::MAX, Instant::now()));
                }
                _ => error = Some(format!("case {case}: {how}, but not in isolation (inconclusive)")),
            }
            // the time that this took is not held against the others
            for c in &mut children {
                c.2 .1 = Instant::now();
            }
        }
        if !running {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // collect
    let mut evaluations = 0;
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut known: BTreeMap<String, String> = BTreeMap::new();
    for k in 0..workers {
        if let Ok(t) = std::fs::read_to_string(out.join(format!("result{k}.json"))) {
            let v: Value = serde_json::from_str(&t).unwrap();
            evaluations += v["evaluations"].as_u64().unwrap_or(0);
            for (n, c) in v["stats"].as_object().unwrap() {
                *stats.entry(n.clone()).or_insert(0) += c.as_u64().unwrap_or(0);
            }
            samples.extend(v["samples"].as_array().unwrap().iter().cloned());
            for (s, w) in v["known"].as_object().unwrap() {
                known.insert(s.clone(), w.as_str().unwrap_or("").to_string());
            }
        }
        if let Ok(b) = std::fs::read(out.join(format!("hashes{k}"))) {
            distinct.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        if let Ok(t) = std::fs::read_to_string(out.join(format!("failure{k}.json"))) {
            if let Ok(v) = serde_json::from_str::<Value>(&t) {
                failures.push(v);
            }
        }
    }
    failures.sort_by_key(|f| f["case"].as_u64());
    let evidence = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct.len(),
            "rule": check.rule,
            "samples": samples.into_iter().take(4).collect::<Vec<_>>(),
            "classes": stats,
            "cases_planned": cases,
        },
        "assumptions": check.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": failures.len(),
    });
    let evdir = std::env::var("GV_EVIDENCE").map(PathBuf::from).unwrap_or_else(|_| verif().join("evidence"));
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{prop}.json")), serde_json::to_string_pretty(&evidence).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&out);
    for (sig, what) in &known {
        println!("KNOWN-FINDING: property={prop} {sig}: {what}");
    }
    println!(
        "{prop} {tier}: {evaluations} cases, {} distinct non-trivial, {:.1} s",
        distinct.len(),
        start.elapsed().as_secs_f64()
    );
    if let Some(f) = failures.first() {
        let dir = verif().join("out");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{prop}-{}.json", f["case"]));
        std::fs::write(&path, serde_json::to_string_pretty(f).unwrap()).unwrap();
        println!("{}", printable(f["what"].as_str().unwrap_or("")));
        for i in f["inputs"].as_array().unwrap_or(&vec![]) {
            println!("--- {}", printable(i["name"].as_str().unwrap_or("")));
            println!("{}", printable(i["text"].as_str().unwrap_or("")));
        }
        println!("VIOLATION property={prop} replay={}", path.display());
        return 1;
    }
    if let Some(e) = error {
        eprintln!("ERROR: {e}");
        return 2;
    }
    0
}

fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let prop = v["property"].as_str().unwrap();
    let check = checks::find(prop).unwrap();
    let choices: Vec<u32> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    limits(check.id);
    install_hook();
    let scratch = PathBuf::from(format!("/tmp/gv-replay-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let mut ctx = Ctx::new(scratch.clone(), bins(), false);
    let mut src = Src::replay(choices);
    let o = run_case(check, &mut src, &mut ctx);
    let _ = std::fs::remove_dir_all(&scratch);
    for (n, t) in &ctx.inputs {
        println!("--- {n}\n{t}");
    }
    match o {
        Outcome::Ok => {
            println!("passes");
            0
        }
        Outcome::Fail(f) => {
            println!("{}", f.what);
            println!("VIOLATION property={prop} replay={file}");
            1
        }
        Outcome::HarnessError(e) => {
            println!("{e}");
            2
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let rest = args.get(1..).unwrap_or(&[]);
    let code = match args.first().map(|s| s.as_str()) {
        Some("run") => run(rest),
        Some("worker") => worker(rest),
        Some("one") => one(rest),
        Some("replay") => replay(&rest[0]),
        Some("literals") => {
            print!("{}", dict::Dict::dump());
            0
        }
        Some("list") => {
            for c in checks::ALL {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: gv run PROP quick|thorough | replay FILE");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
