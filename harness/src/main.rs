//! svdmc: bounded exhaustive exploration of rust-embedded/svd against a reference model.
pub mod bld;
pub mod bridge;
pub mod encref;
pub mod engine;
pub mod gen;
pub mod model;
pub mod props;
pub mod refm;
pub mod xmlw;

use engine::*;
use serde_json::{json, Value};
use std::io::Read;
use std::process::{Command, ExitCode, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
pub struct Prop {
    pub id: &'static str,
    pub spaces: fn(Tier) -> Vec<Space>,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

#[derive(Clone)]
struct Known {
    property: String,
    sig: String,
    contains: Vec<String>,
    what: String,
}
fn verif() -> String {
    std::env::var("SVDMC_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn known(id: &str) -> Vec<Known> {
    let mut v = vec![];
    let s = std::fs::read_to_string(format!("{}/known_findings.jsonl", verif())).unwrap_or_default();
    for l in s.lines() {
        let Ok(j) = serde_json::from_str::<Value>(l) else { continue };
        if j["kind"] == "finding" && j["property"] == id {
            v.push(Known {
                property: id.into(),
                sig: j["sig"].as_str().unwrap_or("").into(),
                contains: j["contains"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default(),
                what: j["what"].as_str().unwrap_or("").into(),
            });
        }
    }
    v
}
fn is_known<'a>(k: &'a [Known], f: &Failure) -> Option<&'a Known> {
    k.iter().find(|k| k.sig == f.sig && !k.contains.is_empty() && k.contains.iter().all(|c| f.input.contains(c.as_str())))
}

fn main() -> ExitCode {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        "check" => check(arg(2), tier(arg(3))),
        "worker" => worker(arg(2), tier(arg(3)), arg(4)),
        "one" => one(arg(2), tier(arg(3)), arg(4), arg(5)),
        "replay" => replay(arg(2)),
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
            ExitCode::SUCCESS
        }
        "spaces" => {
            let t = tier(arg(3));
            for p in props::all().iter().filter(|p| arg(2).is_empty() || p.id == arg(2)) {
                for s in (p.spaces)(t) {
                    println!("{} {} :: {}", p.id, s.name, s.bound);
                }
            }
            ExitCode::SUCCESS
        }
        _ => {
            eprintln!("usage: svdmc check ID quick|thorough | replay FILE | list | spaces");
            ExitCode::from(2)
        }
    }
}
fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}
fn find(id: &str) -> Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}
fn cap(t: Tier) -> Duration {
    let d = if t == Tier::Quick { 240 } else { 780 };
    Duration::from_secs(std::env::var("SVDMC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(d))
}
fn threads() -> usize {
    std::env::var("SVDMC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
    })
}
const STACK: usize = 8 << 20;

/// The exploration itself; the parent process watches over it.
fn worker(id: &str, t: Tier, scratch: &str) -> ExitCode {
    let p = find(id);
    let only = std::env::var("SVDMC_SPACE").unwrap_or_default();
    let spaces = (p.spaces)(t);
    let slots = Slots { file: std::fs::File::create(format!("{scratch}/slots")).unwrap() };
    let o = Opts { threads: threads(), deadline: Instant::now() + cap(t), slots: Some(&slots), hang_after: Duration::from_secs(30), stack: STACK };
    let kn = known(id);
    let mut out = vec![];
    for (i, s) in spaces.into_iter().enumerate() {
        if !only.is_empty() && !s.name.contains(&only) {
            continue;
        }
        // known findings never enter the failure list
        let kn2 = kn.clone();
        let hits = std::sync::Arc::new(std::sync::Mutex::new(std::collections::BTreeMap::<String, u64>::new()));
        let h2 = hits.clone();
        let body = s.body;
        let s2 = Space {
            name: s.name,
            bound: s.bound,
            dedupe: s.dedupe,
            body: Box::new(move |c: &mut Ctx| match body(c) {
                Res::Fail(f) => match is_known(&kn2, &f) {
                    Some(k) => {
                        *h2.lock().unwrap().entry(k.what.clone()).or_default() += 1;
                        Res::Ok(h64("known"))
                    }
                    None => Res::Fail(f),
                },
                r => r,
            }),
        };
        let r = explore(i, &s2, &o);
        // a failure only counts when it repeats exactly
        let mut fl = vec![];
        let mut flaky = vec![];
        let mut per_sig = std::collections::BTreeMap::<String, usize>::new();
        for (c, f) in &r.failures {
            let n = per_sig.entry(f.sig.clone()).or_default();
            *n += 1;
            if *n > 3 {
                continue;
            }
            let again = (0..2).map(|_| run_one(&s2, c).0).all(|x| matches!(x, Res::Fail(g) if g.msg == f.msg && g.input == f.input));
            let j = json!({"choices": c, "sig": f.sig, "msg": f.msg, "input": f.input, "space": r.name});
            if again {
                fl.push(j)
            } else {
                flaky.push(j)
            }
        }
        let hits = hits.lock().unwrap().clone();
        if std::env::var("SVDMC_VERBOSE").is_ok() {
            eprintln!(
                "{id} {:<28} leaves {:>9} skip {:>8} states {:>8} outcomes {:>7} execs {:>9} trans {:>9} {:.2}s complete={} fails={}",
                r.name, r.leaves, r.skipped, r.states, r.outcomes, r.execs, r.transitions, r.wall, r.complete, r.n_failures
            );
        }
        out.push(json!({
            "space": r.name, "bound": r.bound, "leaves": r.leaves, "duplicates_skipped": r.skipped, "states": r.states,
            "transitions": r.transitions, "executions": r.execs, "distinct_outcomes": r.outcomes, "complete": r.complete,
            "wall_s": (r.wall * 1000.0).round() / 1000.0, "samples": r.samples, "n_failures": r.n_failures, "failures": fl, "flaky": flaky, "known": hits,
        }));
    }
    std::fs::write(format!("{scratch}/result.json"), serde_json::to_vec(&out).unwrap()).unwrap();
    ExitCode::SUCCESS
}

/// Run one case alone (used to confirm crashes and hangs, and for replay).
fn one(id: &str, t: Tier, sp: &str, choices: &str) -> ExitCode {
    let p = find(id);
    let Some(s) = (p.spaces)(t).into_iter().find(|s| s.name == sp) else {
        eprintln!("no such space {sp}");
        return ExitCode::from(2);
    };
    let c: Vec<u32> = serde_json::from_str(choices).unwrap_or_default();
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let (r, _) = run_one(&s, &c);
            match r {
                Res::Ok(_) => println!("RESULT ok"),
                Res::Skip => println!("RESULT skip"),
                Res::Fail(f) => println!("RESULT fail\nclass: {}\n{}\ninput:\n{}", f.sig, f.msg, f.input),
            }
        })
        .unwrap();
    match h.join() {
        Ok(_) => ExitCode::SUCCESS,
        Err(_) => ExitCode::from(98),
    }
}
enum Solo {
    Output(String),
    Crash(String),
    Hang,
    EngineError(String),
}
fn solo(id: &str, t: Tier, sp: &str, choices: &str) -> Solo {
    let exe = std::env::current_exe().unwrap();
    let mut ch = Command::new(exe)
        .args(["one", id, if t == Tier::Quick { "quick" } else { "thorough" }, sp, choices])
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap();
    let so = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.take(1 << 22).read_to_string(&mut s);
        s
    });
    let se = ch.stderr.take().unwrap();
    let re = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = se.take(1 << 20).read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break Some(s);
        }
        if t0.elapsed() > Duration::from_secs(45) {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(10));
    };
    let out = rd.join().unwrap_or_default();
    let err = re.join().unwrap_or_default();
    match st {
        None => Solo::Hang,
        Some(s) if s.success() => Solo::Output(out),
        Some(s) if s.code() == Some(98) || s.code() == Some(2) => Solo::EngineError(err),
        Some(s) => Solo::Crash(format!("process ended with {s}: {}", err.lines().filter(|l| !l.trim().is_empty()).take(2).collect::<Vec<_>>().join(" / "))),
    }
}

struct Viol {
    space: String,
    choices: String,
    sig: String,
    msg: String,
    input: String,
}
fn check(id: &str, t: Tier) -> ExitCode {
    let t0 = Instant::now();
    let p = find(id);
    let scratch = std::env::temp_dir().join(format!("svdmc-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let sdir = scratch.to_str().unwrap().to_string();
    let ts = if t == Tier::Quick { "quick" } else { "thorough" };
    let st = Command::new(std::env::current_exe().unwrap()).args(["worker", id, ts, &sdir]).status();
    let mut viol: Vec<Viol> = vec![];
    let mut engine_errors: Vec<String> = vec![];
    let mut results: Vec<Value> = vec![];
    let ok = matches!(&st, Ok(s) if s.success());
    if ok {
        let d = std::fs::read(format!("{sdir}/result.json")).unwrap_or_default();
        results = serde_json::from_slice(&d).unwrap_or_default();
        if results.is_empty() {
            engine_errors.push("no results".into());
        }
        for r in &results {
            for f in r["failures"].as_array().into_iter().flatten() {
                let s = |k: &str| f[k].as_str().unwrap_or("").to_string();
                viol.push(Viol { space: s("space"), choices: f["choices"].to_string(), sig: s("sig"), msg: s("msg"), input: s("input") });
            }
            for f in r["flaky"].as_array().into_iter().flatten() {
                engine_errors.push(format!("failure did not repeat: {f}"));
            }
        }
    } else {
        // find the case that ended the worker
        let code = st.as_ref().ok().and_then(|s| s.code());
        if code == Some(98) {
            engine_errors.push("harness panicked".into());
        }
        let spaces = (p.spaces)(t);
        let mut seen = false;
        for (si, prefix) in read_slots(&format!("{sdir}/slots")) {
            let Some(s) = spaces.get(si) else { continue };
            let ch = serde_json::to_string(&prefix).unwrap();
            match solo(id, t, &s.name, &ch) {
                Solo::Crash(m) => {
                    seen = true;
                    viol.push(Viol { space: s.name.clone(), choices: ch, sig: "crash".into(), msg: m, input: "(the process running this case dies; replay to reproduce)".into() });
                }
                Solo::Hang => {
                    seen = true;
                    viol.push(Viol { space: s.name.clone(), choices: ch, sig: "hang".into(), msg: "no answer within 45 s".into(), input: "(replay to reproduce)".into() });
                }
                Solo::Output(o) => {
                    if let Some(r) = o.strip_prefix("RESULT fail\n") {
                        viol.push(Viol { space: s.name.clone(), choices: ch, sig: "fail-during-crash".into(), msg: r.lines().nth(1).unwrap_or("").into(), input: r.into() });
                    }
                }
                Solo::EngineError(e) => engine_errors.push(e),
            }
        }
        if !seen && viol.is_empty() {
            engine_errors.push(format!("worker ended with {st:?} and no single case reproduces it"));
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);

    // report, one violation per class
    let mut seen = std::collections::BTreeSet::new();
    let rdir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&rdir);
    let mut lines = vec![];
    for v in &viol {
        if !seen.insert((v.space.clone(), v.sig.clone())) {
            continue;
        }
        let path = format!("{rdir}/{id}-{ts}-{:016x}.json", h64(&(v.space.as_str(), v.choices.as_str())));
        let j = json!({"property": id, "tier": ts, "space": v.space, "choices": serde_json::from_str::<Value>(&v.choices).unwrap_or_default(), "class": v.sig, "message": v.msg, "input": v.input});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        if lines.len() < 12 {
            println!("  [{}] {}: {}", v.space, v.sig, clip(&v.msg, 600));
        }
        lines.push(format!("VIOLATION property={id} replay={path}"));
    }
    let sum = |k: &str| results.iter().map(|r| r[k].as_u64().unwrap_or(0)).sum::<u64>();
    let complete = ok && results.iter().all(|r| r["complete"] == true);
    let mut kn = std::collections::BTreeMap::<String, u64>::new();
    for r in &results {
        if let Some(o) = r["known"].as_object() {
            for (k, v) in o {
                *kn.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0);
            }
        }
    }
    let samples: Vec<Value> = results
        .iter()
        .flat_map(|r| r["samples"].as_array().into_iter().flatten().take(2).map(|s| json!({"space": r["space"], "case": clip(s.as_str().unwrap_or(""), 3000)})).collect::<Vec<_>>())
        .collect();
    let spaces_ev: Vec<Value> = results
        .iter()
        .map(|r| {
            let mut o = r.as_object().cloned().unwrap_or_default();
            for k in ["samples", "failures", "flaky"] {
                o.remove(k);
            }
            Value::Object(o)
        })
        .collect();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = json!({
        "property": id, "tier": ts, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum("states"), "transitions": sum("transitions"), "traces_validated_against_impl": sum("executions"),
            "samples": samples, "exhaustive": complete, "rule": p.rule,
            "distinct_outcomes": sum("distinct_outcomes"), "leaves": sum("leaves"), "duplicates_skipped": sum("duplicates_skipped"),
            "spaces": spaces_ev, "known_findings_hit": kn,
            "engine_errors": engine_errors.iter().map(|e| clip(e, 500)).collect::<Vec<_>>(),
        },
        "assumptions": p.assumptions.iter().map(|s| s.to_string()).chain(["Two different canonical inputs do not share a 64-bit hash (a collision would skip one of them).".to_string(), "Nothing random is used; VERIF_SEED has no effect on what is explored.".to_string()]).collect::<Vec<_>>(),
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": lines.len(),
    });
    let edir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&edir);
    let _ = std::fs::write(format!("{edir}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap());
    for (k, n) in &kn {
        println!("KNOWN-FINDING: property={id} {k} ({n} cases)");
    }
    println!(
        "{id} {ts}: {} states, {} transitions, {} executions validated, {} distinct outcomes, complete={complete}, {:.1}s",
        sum("states"), sum("transitions"), sum("executions"), sum("distinct_outcomes"), t0.elapsed().as_secs_f64()
    );
    if !lines.is_empty() {
        for l in lines.iter().take(12) {
            println!("{l}");
        }
        return ExitCode::from(1);
    }
    if !engine_errors.is_empty() {
        for e in &engine_errors {
            eprintln!("engine error: {}", clip(e, 1000));
        }
        return ExitCode::from(2);
    }
    ExitCode::SUCCESS
}
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.into();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…", &s[..e])
}

fn replay(path: &str) -> ExitCode {
    let j: Value = match std::fs::read(path).ok().and_then(|d| serde_json::from_slice(&d).ok()) {
        Some(j) => j,
        None => {
            eprintln!("cannot read {path}");
            return ExitCode::from(2);
        }
    };
    let s = |k: &str| j[k].as_str().unwrap_or("").to_string();
    match solo(&s("property"), tier(&s("tier")), &s("space"), &j["choices"].to_string()) {
        Solo::Output(o) => {
            println!("{o}");
            if o.starts_with("RESULT fail") {
                println!("VIOLATION property={} replay={path}", s("property"));
                return ExitCode::from(1);
            }
            ExitCode::SUCCESS
        }
        Solo::Crash(m) => {
            println!("{m}\nVIOLATION property={} replay={path}", s("property"));
            ExitCode::from(1)
        }
        Solo::Hang => {
            println!("hang\nVIOLATION property={} replay={path}", s("property"));
            ExitCode::from(1)
        }
        Solo::EngineError(e) => {
            eprintln!("{e}");
            ExitCode::from(2)
        }
    }
}
