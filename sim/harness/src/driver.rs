//! Command line: `check`, the workers it starts, `replay`, `selftest`.
use crate::judge::Finding;
use crate::plan::*;
use crate::plangen;
use crate::rng::Hash;
use crate::shrink::{evaluate, Shrinker};
use crate::world::{self, Factory};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::channel;
use std::time::{Duration, Instant};

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

pub fn main(args: &[String], factory: Factory) -> i32 {
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    match a[..] {
        ["check", prop, tier] => check(prop, tier),
        ["worker", prop, runs, k, n, secs] => worker(prop, num(runs), num(k), num(n), num(secs), factory),
        ["minimise", prop, index] => minimise(prop, num(index), factory),
        ["replay", file] => replay(file, factory),
        ["plan", prop, index] => {
            println!("{}", serde_json::to_string_pretty(&plangen::plan(env_u64("VERIF_SEED", 1), prop, num(index))).unwrap());
            0
        }
        ["run", prop, index] => run_one(prop, num(index), factory),
        ["fingerprints", prop, from, to] => {
            for i in num(from)..num(to) {
                let p = plangen::plan(env_u64("VERIF_SEED", 1), prop, i);
                println!("{} {} {:016x}", prop, i, world::run(&p, factory).fingerprint());
            }
            0
        }
        _ => {
            eprintln!("usage: hir-dst check <property> quick|thorough | replay <file> | run <property> <index> | plan <property> <index> | fingerprints <property> <from> <to>");
            2
        }
    }
}

fn num(s: &str) -> u64 {
    s.parse().unwrap_or(0)
}

/// Evaluations which make a run a non-trivial one for the property
fn relevant(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" => &["requests"],
        "C02" => &["answers compared with a fresh server", "publications compared with a fresh server"],
        "C03" => &["publication sequences"],
        "C04" => &["diagnostics publications"],
        "C05" => &["requests"],
        "C06" => &["navigation answers"],
        "C07" => &["rename answers"],
        "C08" => &["shift answers"],
        "C09" => &["control flow commands"],
        "C10" => &["outline answers", "folding answers", "lens answers", "inlay answers"],
        "C11" => &["token answers"],
        "C12" => &["position checks"],
        "C13" => &["external locations", "backtrace hints"],
        "C14" => &["runs compared with a perfect transport"],
        _ => &["lifecycle answers", "terminations"],
    }
}

fn worker(prop: &str, runs: u64, k: u64, n: u64, secs: u64, factory: Factory) -> i32 {
    let base = env_u64("VERIF_SEED", 1);
    let end = Instant::now() + Duration::from_secs(secs);
    let out = std::io::stdout();
    let mut evals: BTreeMap<String, u64> = BTreeMap::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let (mut done, mut steps, mut polls, mut nanos, mut rechecks, mut mismatches) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut inter: BTreeSet<u64> = BTreeSet::new();
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    let mut samples = vec![];
    let mut overrun = 0;
    let mut i = k;
    while i < runs && Instant::now() < end {
        let p = plangen::plan(base, prop, i);
        {
            let mut o = out.lock();
            let _ = writeln!(o, "S {}", i);
            let _ = o.flush();
        }
        let (log, mut v) = evaluate(&p, prop, factory);
        v.findings.retain(|f| match crate::judge::known(&p, &log, f) {
            Some(what) => {
                *known.entry(what.to_string()).or_default() += 1;
                false
            }
            None => true,
        });
        if done % 64 == 0 {
            rechecks += 1;
            let again = world::run(&p, factory);
            if again.fingerprint() != log.fingerprint() {
                mismatches += 1;
            }
        }
        done += 1;
        steps += log.steps;
        polls += log.polls;
        nanos += log.sim_nanos;
        overrun += log.overrun as u64;
        inter.insert(log.inter.0);
        for (a, b) in &v.evals {
            *evals.entry(a.to_string()).or_default() += b;
        }
        for (a, b) in &log.counts {
            *counts.entry(a.to_string()).or_default() += b;
        }
        let hits: u64 = relevant(prop).iter().filter_map(|r| v.evals.get(*r)).sum();
        if hits > 0 {
            distinct.insert(log.fingerprint());
        }
        if samples.len() < 1 && hits > 0 && log.steps > 40 {
            samples.push(json!({
                "run": i,
                "ops": p.ops.len(),
                "plan": summary(&p),
                "steps": log.steps,
                "messages_sent": log.sent.len(),
                "messages_received": log.got.len(),
                "fingerprint": format!("{:016x}", log.fingerprint()),
            }));
        }
        if let Some(f) = v.findings.first() {
            let mut o = out.lock();
            let _ = writeln!(o, "F {}", json!({"index": i, "class": f.class, "msg": f.msg}));
            let _ = o.flush();
            return 0;
        }
        i += n;
    }
    let mut o = out.lock();
    let _ = writeln!(
        o,
        "E {}",
        json!({
            "runs": done, "steps": steps, "polls": polls, "nanos": nanos, "rechecks": rechecks, "mismatches": mismatches,
            "inter": inter.iter().collect::<Vec<_>>(), "distinct": distinct.iter().collect::<Vec<_>>(),
            "evals": evals, "counts": counts, "samples": samples, "overrun": overrun, "known": known,
        })
    );
    let _ = o.flush();
    0
}

fn summary(p: &Plan) -> Vec<String> {
    p.ops
        .iter()
        .map(|o| {
            let s = format!("{:?}", o);
            if s.chars().count() > 160 {
                s.chars().take(160).collect::<String>() + "…"
            } else {
                s
            }
        })
        .collect()
}

fn run_one(prop: &str, index: u64, factory: Factory) -> i32 {
    let p = plangen::plan(env_u64("VERIF_SEED", 1), prop, index);
    show(&p, prop, factory)
}

fn show(p: &Plan, prop: &str, factory: Factory) -> i32 {
    let (log, v) = evaluate(p, prop, factory);
    for e in &log.events {
        println!("{}", e);
    }
    println!("steps {} fingerprint {:016x} insts {:?}", log.steps, log.fingerprint(), log.insts);
    println!("counts {:?}", log.counts);
    println!("evals {:?}", v.evals);
    for f in &v.findings {
        println!("FINDING {} {} {}{}", f.prop, f.class, f.msg, if crate::judge::known(p, &log, f).is_some() { " [known]" } else { "" });
    }
    v.findings.len().min(1) as i32
}

/// Child process: shrink run `index` and write the replay file
fn minimise(prop: &str, index: u64, factory: Factory) -> i32 {
    let base = env_u64("VERIF_SEED", 1);
    let plan = plangen::plan(base, prop, index);
    let mut tries = 0;
    let (log, f) = loop {
        let (log, v) = evaluate(&plan, prop, factory);
        let f = v.findings.into_iter().find(|f| crate::judge::known(&plan, &log, f).is_none());
        match f {
            Some(f) => break (log, f),
            None if tries >= 3 => return 4,
            None => tries += 1,
        }
    };
    let mut recorded = plan.clone();
    recorded.choices = Some(log.choices.clone());
    write_replay(prop, base, index, &recorded, &f, &log, &plan, 0);
    let budget = if f.class == "dead-stuck" && f.msg.contains("CPU") { 1 } else { env_u64("DST_SHRINK_SECONDS", 40) };
    let mut s = Shrinker::new(plan.clone(), f, prop, factory, Duration::from_secs(budget));
    s.run();
    // The final plan must fail the same way; otherwise keep the recorded one
    let (log, v) = evaluate(&s.best, prop, factory);
    if let Some(f) = v.findings.into_iter().find(|x| x.class == s.class && crate::judge::known(&s.best, &log, x).is_none()) {
        let mut p = s.best.clone();
        p.choices = Some(log.choices.clone());
        while p.choices.as_ref().and_then(|c| c.last()) == Some(&0) {
            p.choices.as_mut().unwrap().pop();
        }
        let (log, _) = evaluate(&p, prop, factory);
        write_replay(prop, base, index, &p, &f, &log, &plan, s.tried);
    }
    0
}

fn replay_path(prop: &str, base: u64, index: u64) -> String {
    format!("{}/evidence/replay-{}-{}-{}.json", root(), prop, base, index)
}

fn root() -> String {
    std::env::var("DST_ROOT").unwrap_or_else(|_| "/verif".into())
}

#[allow(clippy::too_many_arguments)]
fn write_replay(prop: &str, base: u64, index: u64, p: &Plan, f: &Finding, log: &world::RunLog, orig: &Plan, tried: u64) {
    let v = json!({
        "property": prop,
        "class": f.class,
        "violation": f.msg,
        "verif_seed": base,
        "run": index,
        "original_ops": orig.ops.len(),
        "ops": p.ops.len(),
        "shrink_candidates": tried,
        "fingerprint": format!("{:016x}", log.fingerprint()),
        "plan": p,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    if let Err(e) = std::fs::write(replay_path(prop, base, index), serde_json::to_string_pretty(&v).unwrap()) {
        eprintln!("cannot write the replay file: {}", e);
    }
}

fn replay(file: &str, factory: Factory) -> i32 {
    let Ok(Ok(v)) = std::fs::read_to_string(file).map(|s| serde_json::from_str::<Value>(&s)) else {
        eprintln!("cannot read {}", file);
        return 3;
    };
    let (Ok(p), Some(prop)) = (serde_json::from_value::<Plan>(v["plan"].clone()), v["property"].as_str()) else {
        eprintln!("{} is no replay file", file);
        return 3;
    };
    let (log, verdict) = evaluate(&p, prop, factory);
    for e in &log.events {
        println!("{}", e);
    }
    let fp = format!("{:016x}", log.fingerprint());
    match verdict.findings.iter().find(|f| f.class == v["class"].as_str().unwrap_or("") && crate::judge::known(&p, &log, f).is_none()) {
        Some(f) => {
            println!("{}: {}", f.class, f.msg);
            println!("execution {} ({} the recorded one)", fp, if v["fingerprint"] == fp.as_str() { "identical to" } else { "DIFFERS from" });
            println!("VIOLATION property={} replay={}", prop, file);
            1
        }
        None => {
            println!("the violation does not occur (execution {})", fp);
            0
        }
    }
}

struct Kid {
    child: Child,
    at: Option<u64>,
    result: Option<Value>,
    finding: Option<Value>,
    open: bool,
}

/// (runs, wall clock limit in seconds)
fn budget(prop: &str, tier: &str) -> (u64, u64) {
    let b = match (prop, tier) {
        (_, "thorough") => (u64::MAX / 4, 600),
        ("C02", _) => (18_000, 75),
        ("C14", _) => (24_000, 75),
        _ => (40_000, 75),
    };
    (env_u64("DST_RUNS", b.0), env_u64("DST_SECONDS", b.1))
}

fn check(prop: &str, tier: &str) -> i32 {
    if !plangen::PROPS.contains(&prop) {
        eprintln!("unknown property {}", prop);
        return 2;
    }
    let started = Instant::now();
    let base = env_u64("VERIF_SEED", 1);
    let (runs, secs) = budget(prop, tier);
    let n = env_u64("DST_WORKERS", std::thread::available_parallelism().map_or(4, |x| x.get()).max(4) as u64);
    let n = if n <= 4 { 8 } else { n };
    let exe = std::env::current_exe().expect("own path");
    println!("{}: seed {}, {} runs at most, {} s at most, {} workers", prop, base, runs, secs, n);
    let (tx, rx) = channel::<(usize, Option<String>)>();
    let mut kids: Vec<Kid> = vec![];
    for k in 0..n {
        let mut child = match Command::new(&exe)
            .args(["worker", prop, &runs.to_string(), &k.to_string(), &n.to_string(), &secs.to_string()])
            .stdout(Stdio::piped())
            .spawn()
        {
            Ok(c) => c,
            Err(e) => {
                eprintln!("cannot start a worker: {}", e);
                return 3;
            }
        };
        let o = child.stdout.take().unwrap();
        let tx = tx.clone();
        let id = k as usize;
        std::thread::spawn(move || {
            for l in BufReader::new(o).lines() {
                let Ok(l) = l else { break };
                if tx.send((id, Some(l))).is_err() {
                    return;
                }
            }
            let _ = tx.send((id, None));
        });
        kids.push(Kid {
            child,
            at: None,
            result: None,
            finding: None,
            open: true,
        });
    }
    let mut deaths: Vec<(u64, String)> = vec![];
    let mut hit: Option<u64> = None;
    let mut hit_deadline = None;
    loop {
        let wait = if hit.is_some() { Duration::from_millis(200) } else { Duration::from_secs(secs + 180) };
        match rx.recv_timeout(wait) {
            Ok((id, Some(l))) => {
                let kid = &mut kids[id];
                if let Some(x) = l.strip_prefix("S ") {
                    kid.at = x.parse().ok();
                } else if let Some(x) = l.strip_prefix("F ") {
                    kid.finding = serde_json::from_str(x).ok();
                    let ix = kid.finding.as_ref().and_then(|f| f["index"].as_u64());
                    hit = match (hit, ix) {
                        (Some(a), Some(b)) => Some(a.min(b)),
                        (a, b) => a.or(b),
                    };
                } else if let Some(x) = l.strip_prefix("E ") {
                    kid.result = serde_json::from_str(x).ok();
                }
            }
            Ok((id, None)) => {
                let kid = &mut kids[id];
                kid.open = false;
                let st = kid.child.wait();
                if kid.result.is_none() && kid.finding.is_none() {
                    let how = st.map_or("vanished".to_string(), |s| s.to_string());
                    if how.contains("exit status: 3") {
                        eprintln!("a worker failed (run {:?})", kid.at);
                        return 3;
                    }
                    if let Some(at) = kid.at {
                        deaths.push((at, how));
                        hit = Some(hit.map_or(at, |h| h.min(at)));
                    } else {
                        eprintln!("a worker did not start: {}", how);
                        return 3;
                    }
                }
                if kids.iter().all(|k| !k.open) {
                    break;
                }
            }
            Err(_) => {
                if hit.is_none() {
                    eprintln!("the workers do not end");
                    for k in &mut kids {
                        let _ = k.child.kill();
                    }
                    return 3;
                }
            }
        }
        if hit.is_some() {
            // Give the others the chance to report something earlier
            let d = *hit_deadline.get_or_insert_with(|| Instant::now() + Duration::from_millis(500));
            if Instant::now() > d {
                for k in &mut kids {
                    let _ = k.child.kill();
                    let _ = k.child.wait();
                }
                break;
            }
        }
    }

    let mut code = 0;
    let mut violations = 0;
    if hit.is_some() {
        let mut found: Vec<(u64, String, String)> = kids
            .iter()
            .filter_map(|k| k.finding.as_ref())
            .map(|f| (f["index"].as_u64().unwrap_or(0), f["class"].as_str().unwrap_or("").to_string(), f["msg"].as_str().unwrap_or("").to_string()))
            .collect();
        for (at, how) in &deaths {
            found.push((*at, "process-death".into(), format!("the server takes the whole process down: {}", how)));
        }
        found.sort();
        for (ix, class, msg) in found {
            let path = replay_path(prop, base, ix);
            let st = Command::new(&exe).args(["minimise", prop, &ix.to_string()]).stdout(Stdio::null()).status();
            let ok = match st.as_ref().map(|s| s.code()) {
                Ok(Some(0)) => true,
                // killed by a signal again: that is reproducible, too
                Ok(None) => {
                    if !std::path::Path::new(&path).exists() {
                        let p = plangen::plan(base, prop, ix);
                        let v = json!({"property": prop, "class": class, "violation": msg, "verif_seed": base, "run": ix, "plan": p});
                        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
                    }
                    true
                }
                _ => false,
            };
            if !ok {
                eprintln!("run {} ({}: {}) could not be reproduced", ix, class, msg);
                continue;
            }
            let what = std::fs::read_to_string(&path)
                .ok()
                .and_then(|s| serde_json::from_str::<Value>(&s).ok())
                .map_or(msg.clone(), |v| format!("{}: {}", v["class"].as_str().unwrap_or(""), v["violation"].as_str().unwrap_or("")));
            println!("run {}: {}", ix, what);
            println!("VIOLATION property={} replay={}", prop, path);
            violations += 1;
            code = 1;
            break;
        }
        if code == 0 {
            eprintln!("a reported violation is not reproducible");
            code = 3;
        }
    }
    evidence(prop, tier, base, &kids, started, violations);
    code
}

fn evidence(prop: &str, tier: &str, base: u64, kids: &[Kid], started: Instant, violations: u64) {
    let mut sums: BTreeMap<&str, u64> = BTreeMap::new();
    let mut evals: BTreeMap<String, u64> = BTreeMap::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut inter: BTreeSet<u64> = BTreeSet::new();
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    let mut samples: Vec<Value> = vec![];
    for r in kids.iter().filter_map(|k| k.result.as_ref()) {
        for k in ["runs", "steps", "polls", "nanos", "rechecks", "mismatches", "overrun"] {
            *sums.entry(k).or_default() += r[k].as_u64().unwrap_or(0);
        }
        for (m, key) in [(&mut evals, "evals"), (&mut counts, "counts"), (&mut known, "known")] {
            for (a, b) in r[key].as_object().into_iter().flatten() {
                *m.entry(a.clone()).or_default() += b.as_u64().unwrap_or(0);
            }
        }
        inter.extend(r["inter"].as_array().into_iter().flatten().filter_map(Value::as_u64));
        distinct.extend(r["distinct"].as_array().into_iter().flatten().filter_map(Value::as_u64));
        samples.extend(r["samples"].as_array().into_iter().flatten().cloned());
    }
    samples.truncate(3);
    let wall = started.elapsed().as_secs_f64();
    let g = |k: &str| sums.get(k).copied().unwrap_or(0);
    let per_hour = (g("runs") as f64 / wall.max(0.001) * 3600.0) as u64;
    let known_lines = crate::judge::known_findings(prop);
    for (what, text) in known_lines {
        println!("KNOWN-FINDING: property={} {} (met {} times in this run)", prop, text, known.get(*what).copied().unwrap_or(0));
    }
    println!(
        "{}: {} runs, {} steps, {} distinct interleavings, {:.1} s, {} violation(s)",
        prop,
        g("runs"),
        g("steps"),
        inter.len(),
        wall,
        violations
    );
    let e = json!({
        "property": prop,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": g("runs"),
            "distinct_nontrivial": distinct.len(),
            "rule": format!("One evaluation is one simulated session (plan and schedule derived from VERIF_SEED, the property and the run's number). It is non-trivial if at least one of the oracles {:?} was evaluated in it; distinct means a distinct fingerprint of the complete execution (every scheduling step and message).", relevant(prop)),
            "samples": samples,
            "oracle_evaluations": evals,
            "runs_per_hour": per_hour,
            "scheduler_steps": g("steps"),
            "task_polls": g("polls"),
            "simulated_seconds": g("nanos") / 1_000_000_000,
            "distinct_interleavings": inter.len(),
            "interleaving_measure": "hash of the sequence of scheduler actions (poll, deliver, credit, reply, timer, issue, wake-up) of a run",
            "faults_and_events": counts,
            "determinism_rechecks": g("rechecks"),
            "determinism_mismatches": g("mismatches"),
            "runs_cut_at_step_limit": g("overrun"),
            "known_findings_met": known,
            "real_components": ["the server's main.rs and every module of the crate, unmodified", "tower-lsp (codec, service, client socket), dashmap, ropey, chumsky, serde_json, futures, tokio sync primitives"],
            "stubbed_components": ["tokio scheduler, spawn, stdin/stdout, timers (simulated runtime)", "file system lookups below /simfs, clocks, random numbers, threads and futex waits (libc seams)", "env_logger (discards)", "the editor (simulated client)"],
        },
        "assumptions": [
            "one thread runs at a time: interleavings are those of task polls (and of threads of the server, should it start any, until they block), not of parallel memory accesses",
            "the editor sends syntactically valid JSON-RPC frames",
        ],
        "wall_s": wall,
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", root(), prop), serde_json::to_string_pretty(&e).unwrap()) {
        eprintln!("cannot write the evidence: {}", e);
    }
}

#[allow(dead_code)]
fn hash(s: &str) -> u64 {
    Hash::of(s.as_bytes())
}
