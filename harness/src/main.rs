//! vmc: explores the real conch-parser exhaustively within bounds and compares it with a reference model.

mod corpus;
mod engine;
mod json;
mod lexref;
mod model;
mod ops;
mod oracles;
mod props;
mod run;
mod tree;
mod unfold;
mod values;
mod work;

#[global_allocator]
static ALLOC: work::Counting = work::Counting;

use engine::*;
use json::Json;
use std::process::{exit, Command};
use std::time::{Duration, Instant};

fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16)
}

fn deep<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 30).spawn_scoped(s, f).unwrap().join().unwrap())
}

struct Args {
    cmd: String,
    id: String,
    quick: bool,
    rest: Vec<String>,
}

fn args() -> Args {
    let mut a = std::env::args().skip(1);
    let cmd = a.next().unwrap_or_default();
    let mut rest: Vec<String> = a.collect();
    let mut quick = std::env::var("VERIF_TIER").map_or(true, |t| t != "thorough");
    if let Some(k) = rest.iter().position(|s| s == "--tier") {
        quick = rest.get(k + 1).map_or(true, |s| s != "thorough");
        rest.drain(k..(k + 2).min(rest.len()));
    }
    let id = if rest.is_empty() { String::new() } else { rest.remove(0) };
    Args { cmd, id, quick, rest }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a = args();
    match a.cmd.as_str() {
        "check" => check(&a),
        "run" => run_child(&a),
        "one" => one(&a),
        "replay" => replay(&a),
        "text" => {
            for s in std::iter::once(&a.id).chain(&a.rest) {
                let s = s.replace("\\n", "\n").replace("\\t", "\t").replace("\\b", "\\");
                let mut i = run::imp(&s);
                let mut m = run::model(&s);
                println!("== {:?}\n{:?}", s, i);
                println!("{:?}", run::diff(&mut i, &mut m.out, 31));
            }
        }
        "list" => {
            for s in props::scenarios(&a.id, a.quick) {
                println!("{}", s.name);
            }
        }
        _ => {
            eprintln!("usage: vmc check ID [--tier quick|thorough] | replay FILE | text TEXT...");
            exit(2)
        }
    }
}

// ---- the exploring process --------------------------------------------------------------------------------------

fn violation_json(s: &Scenario, text: &str, original: &str, what: &str) -> Json {
    Json::Obj(vec![
        ("scenario".into(), Json::Str(s.name.clone())),
        ("text".into(), Json::Str(text.into())),
        ("found_as".into(), Json::Str(original.into())),
        ("what".into(), Json::Str(what.into())),
    ])
}

fn run_child(a: &Args) {
    let out = a.rest[0].clone();
    let scen = props::scenarios(&a.id, a.quick);
    let names: Vec<String> = scen.iter().map(|s| s.name.clone()).collect();
    let t0 = Instant::now();
    let stuck = |v: Violation| {
        let j = Json::Obj(vec![("violation".into(), violation_json(&scen[v.scenario], &v.text, &v.text, &v.what)), ("coverage".into(), Json::Null)]);
        let _ = std::fs::write(&out, j.to_string());
        exit(1);
    };
    let r = explore(&scen, threads(), a.quick, &stuck);
    let mut viol = Json::Null;
    if let Some(v) = &r.violation {
        // Written before shrinking, which may not come to an end.
        let first = violation_json(&scen[v.scenario], &v.text, &v.text, &v.what);
        let j = Json::Obj(vec![("violation".into(), first.clone()), ("coverage".into(), coverage(&r, &scen, &names))]);
        let _ = std::fs::write(&out, j.to_string());
        viol = first;
        if scen[v.scenario].plain {
            let (tx, rx) = std::sync::mpsc::channel();
            let (o, t, w) = (scen[v.scenario].oracle.clone(), v.text.clone(), v.what.clone());
            let _ = std::thread::Builder::new().stack_size(2 << 30).spawn(move || {
                let _ = tx.send(minimise(&o, &t, &w));
            });
            match rx.recv_timeout(Duration::from_secs(25)) {
                Ok((t, w)) => viol = violation_json(&scen[v.scenario], &t, &v.text, &w),
                Err(_) => exit(1),
            }
        }
    }
    let failed = r.violation.is_some();
    let j = Json::Obj(vec![("violation".into(), viol), ("coverage".into(), coverage(&r, &scen, &names)), ("explore_s".into(), Json::Num(t0.elapsed().as_secs_f64()))]);
    std::fs::write(&out, j.to_string()).unwrap();
    exit(failed as i32);
}

fn coverage(r: &Report, scen: &[Scenario], names: &[String]) -> Json {
    let cx = &r.cx;
    let mut o: Vec<(String, Json)> = Vec::new();
    o.push(("states".into(), Json::Num(cx.states.len() as f64)));
    o.push(("transitions".into(), Json::Num(cx.trans.len() as f64)));
    o.push(("traces_validated_against_impl".into(), Json::Num(cx.execs as f64)));
    if cx.evals != cx.execs {
        o.push(("evaluations".into(), Json::Num(cx.evals as f64)));
    }
    if cx.nontrivial > 0 {
        o.push(("varied_runs".into(), Json::Num(cx.nontrivial as f64)));
    }
    o.push(("subtrees_cut_because_no_extension_can_differ".into(), Json::Num(cx.pruned as f64)));
    o.push(("exhaustive_within_bounds".into(), Json::Bool(r.violation.is_none())));
    o.push((
        "meaning".into(),
        Json::Str(
            if scen.iter().any(|s| s.name.starts_with("made by hand: tokens")) {
                "states: distinct values (as told apart by the harness's own rendering); transitions: distinct pairs of these compared by the code; \
                 traces_validated_against_impl: inputs of the bounded spaces below, each run on the real code and judged"
            } else {
            "states: distinct (innermost grammar positions, next token) of the reference model; transitions: distinct pairs of these in \
             succession; traces_validated_against_impl: inputs of the bounded spaces below, each run on the real code and judged; evaluations: \
             runs of the real code compared, where an input takes several"
            }
                .into(),
        ),
    ));
    o.push((
        "spaces".into(),
        Json::Arr(
            r.per_scenario
                .iter()
                .zip(scen)
                .map(|((n, k, t), s)| {
                    let bound = match &s.kind {
                        Kind::Tree { pre, suf, alpha, depth } => format!(
                            "every sequence of at most {} of {} symbols, after {} prefixes, before {} endings",
                            depth, alpha.len(), pre.len(), suf.len()
                        ),
                        Kind::Index { n, .. } => format!("all {} of the family", n),
                    };
                    Json::Obj(vec![
                        ("name".into(), Json::Str(n.clone())),
                        ("bound".into(), Json::Str(bound)),
                        ("inputs".into(), Json::Num(*k as f64)),
                        ("cpu_s".into(), Json::Num((*t * 10.0).round() / 10.0)),
                    ])
                })
                .collect(),
        ),
    ));
    o.push(("outcomes".into(), Json::Obj(cx.outcomes.iter().map(|(k, n)| (k.to_string(), Json::Num(*n as f64))).collect())));
    if !cx.counts.is_empty() {
        o.push(("counts".into(), Json::Obj(cx.counts.iter().map(|(k, n)| (k.to_string(), Json::Num(*n as f64))).collect())));
    }
    o.push((
        "samples".into(),
        Json::Arr(
            cx.samples
                .iter()
                .flat_map(|(k, v)| v.iter().map(move |t| Json::Obj(vec![("outcome".into(), Json::Str(k.to_string())), ("text".into(), Json::Str(t.clone()))])))
                .take(40)
                .collect(),
        ),
    ));
    let _ = names;
    Json::Obj(o)
}

/// Runs one text of one scenario: exit 1 if it violates, a signal if it crashes.
fn one(a: &Args) {
    let name = &a.rest[0];
    let text = std::fs::read_to_string(&a.rest[1]).unwrap_or_default();
    let scen = props::scenarios(&a.id, a.quick);
    let s = match scen.iter().find(|s| &s.name == name) {
        Some(s) => s,
        None => exit(2),
    };
    let r = deep(|| (s.oracle)(&text, &mut Cx { quick: a.quick, ..Cx::default() }));
    match r {
        Ok(()) => exit(0),
        Err(w) => {
            println!("{}", w);
            exit(1)
        }
    }
}

// ---- the supervising process ------------------------------------------------------------------------------------

fn scratch(id: &str) -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("vmc-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn tier(quick: bool) -> &'static str {
    if quick {
        "quick"
    } else {
        "thorough"
    }
}

fn known(id: &str) -> Vec<String> {
    // finding: property=C06 expect=reject|accept input="..." :: what
    let file = std::fs::read_to_string("known-findings.txt").unwrap_or_default();
    let mut v = Vec::new();
    for l in file.lines() {
        let l = match l.strip_prefix("finding: ") {
            Some(l) if l.contains(&format!("property={} ", id)) => l,
            _ => continue,
        };
        let (head, what) = l.split_once(" :: ").unwrap_or((l, ""));
        let input = match head.split_once("input=") {
            Some((_, s)) => Json::parse(s).and_then(|j| j.str().map(|s| s.to_string())),
            None => None,
        };
        let input = match input {
            Some(i) => i,
            None => continue,
        };
        let accepted = deep(|| {
            let o = run::imp(&input);
            o.err.is_none() && o.panic.is_none()
        });
        if accepted != head.contains("expect=accept") {
            v.push(format!("{:?}: {}", input, what));
        }
    }
    v
}

fn check(a: &Args) {
    let t0 = Instant::now();
    let seed: f64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    if !props::IDS.contains(&a.id.as_str()) {
        eprintln!("no such property: {}", a.id);
        exit(2);
    }
    for k in known(&a.id) {
        println!("KNOWN-FINDING: property={} {}", a.id, k);
    }
    let dir = scratch(&a.id);
    let out = dir.join("report.json");
    let me = std::env::current_exe().unwrap();
    let child = |journal: bool| {
        let mut c = Command::new(&me);
        c.args(["run", &a.id]).arg(&out).args(["--tier", tier(a.quick)]);
        if journal {
            c.env("VMC_JOURNAL", &dir);
        }
        c.status().unwrap()
    };
    let st = child(false);
    let report = |p: &std::path::Path| std::fs::read_to_string(p).ok().and_then(|s| Json::parse(&s));
    let mut rep = report(&out);
    if st.code().is_none() || rep.is_none() {
        // It crashed. Find out on what.
        let _ = std::fs::remove_file(&out);
        let st2 = child(true);
        rep = report(&out);
        if st2.code().is_none() || rep.is_none() {
            rep = culprit(a, &dir, &me);
        }
        if rep.is_none() {
            eprintln!("the exploring process ended with {:?} and then {:?}, and no input was found that makes it", st, st2);
            let _ = std::fs::remove_dir_all(&dir);
            exit(2);
        }
    }
    let rep = rep.unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::fs::create_dir_all("evidence");
    let viol = rep.get("violation").cloned().unwrap_or(Json::Null);
    let mut cov = rep.get("coverage").cloned().unwrap_or(Json::Null);
    if matches!(cov, Json::Null) {
        cov = Json::Obj(vec![
            ("states".into(), Json::Num(0.0)),
            ("transitions".into(), Json::Num(0.0)),
            ("traces_validated_against_impl".into(), Json::Num(0.0)),
            ("samples".into(), Json::Arr(vec![viol.clone()])),
        ]);
    }
    let mut n = 0.0;
    let mut path = String::new();
    if !matches!(viol, Json::Null) {
        n = 1.0;
        path = format!("evidence/replay-{}.json", a.id);
        let mut o = vec![("property".to_string(), Json::Str(a.id.clone())), ("tier".to_string(), Json::Str(tier(a.quick).into()))];
        if let Json::Obj(v) = &viol {
            o.extend(v.iter().cloned());
        }
        std::fs::write(&path, Json::Obj(o).to_string() + "\n").unwrap();
    }
    let ev = Json::Obj(vec![
        ("property".into(), Json::Str(a.id.clone())),
        ("tier".into(), Json::Str(tier(a.quick).into())),
        ("seed".into(), Json::Num(seed)),
        ("level".into(), Json::Str("model_checking".into())),
        ("coverage".into(), cov.clone()),
        ("wall_s".into(), Json::Num((t0.elapsed().as_secs_f64() * 100.0).round() / 100.0)),
        ("violations".into(), Json::Num(n)),
    ]);
    std::fs::write(format!("evidence/{}.json", a.id), ev.to_string() + "\n").unwrap();
    let num = |k: &str| cov.get(k).and_then(|j| j.num()).unwrap_or(0.0);
    if let Some(Json::Arr(v)) = cov.get("spaces") {
        for s in v {
            let t = |k: &str| s.get(k).and_then(|j| j.str().map(|s| s.to_string())).unwrap_or_default();
            println!("  {:9} inputs, {:6.1} s cpu: {} ({})", s.get("inputs").and_then(|j| j.num()).unwrap_or(0.0), s.get("cpu_s").and_then(|j| j.num()).unwrap_or(0.0), t("name"), t("bound"));
        }
    }
    println!(
        "{} {}: {} inputs explored, {} states, {} transitions of the model, {:.1} s",
        a.id,
        tier(a.quick),
        num("traces_validated_against_impl"),
        num("states"),
        num("transitions"),
        t0.elapsed().as_secs_f64()
    );
    if n > 0.0 {
        let t = |k: &str| viol.get(k).and_then(|j| j.str().map(|s| s.to_string())).unwrap_or_default();
        println!("in {:?}, {:?}: {}", t("scenario"), t("text"), t("what"));
        println!("VIOLATION property={} replay={}", a.id, path);
        exit(1);
    }
}

/// Tries the texts that were being worked on when the process crashed, each in a process of its own.
fn culprit(a: &Args, dir: &std::path::Path, me: &std::path::Path) -> Option<Json> {
    let scen = props::scenarios(&a.id, a.quick);
    for w in 0..threads() {
        let b = std::fs::read(dir.join(format!("journal.{}", w))).unwrap_or_default();
        if b.len() < 16 {
            continue;
        }
        let field = |r: std::ops::Range<usize>| std::str::from_utf8(&b[r]).ok().and_then(|s| s.trim().parse::<usize>().ok());
        let (si, n) = match (field(0..8), field(8..16)) {
            (Some(s), Some(n)) if s < scen.len() && b.len() >= 16 + n => (s, n),
            _ => continue,
        };
        let text = String::from_utf8_lossy(&b[16..16 + n]).to_string();
        let file = dir.join("text");
        let dies = |t: &str| {
            std::fs::write(&file, t).unwrap();
            let o = Command::new(me).arg("one").arg(&a.id).arg(&scen[si].name).arg(&file).args(["--tier", tier(a.quick)]).output().unwrap();
            match o.status.code() {
                None => Some(format!("the process dies: {}", o.status)),
                Some(1) => Some(String::from_utf8_lossy(&o.stdout).trim().to_string()),
                _ => None,
            }
        };
        if let Some(mut what) = dies(&text) {
            let mut best: Vec<char> = text.chars().collect();
            let t0 = Instant::now();
            let mut step = (best.len() / 2).max(1);
            while scen[si].plain && t0.elapsed() < Duration::from_secs(40) {
                let mut k = 0;
                let mut changed = false;
                while k < best.len() && t0.elapsed() < Duration::from_secs(40) {
                    let mut c = best.clone();
                    c.drain(k..(k + step).min(best.len()));
                    match dies(&c.iter().collect::<String>()) {
                        Some(w) => {
                            best = c;
                            what = w;
                            changed = true
                        }
                        None => k += step,
                    }
                }
                if !changed {
                    if step == 1 {
                        break;
                    }
                    step = (step / 2).max(1);
                }
            }
            let best: String = best.into_iter().collect();
            return Some(Json::Obj(vec![("violation".into(), violation_json(&scen[si], &best, &text, &what)), ("coverage".into(), Json::Null)]));
        }
    }
    None
}

fn replay(a: &Args) {
    let j = match std::fs::read_to_string(&a.id).ok().and_then(|s| Json::parse(&s)) {
        Some(j) => j,
        None => {
            eprintln!("cannot read {}", a.id);
            exit(2)
        }
    };
    let t = |k: &str| j.get(k).and_then(|j| j.str().map(|s| s.to_string())).unwrap_or_default();
    let dir = scratch("replay");
    let file = dir.join("text");
    let mut code = 0;
    for k in ["text", "found_as"] {
        std::fs::write(&file, t(k)).unwrap();
        let o = Command::new(std::env::current_exe().unwrap()).arg("one").arg(t("property")).arg(t("scenario")).arg(&file).args(["--tier", &t("tier")]).output().unwrap();
        println!("{}: {:?}: {}\n{}", k, t(k), o.status, String::from_utf8_lossy(&o.stdout));
        if o.status.code() != Some(0) {
            code = 1;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if code == 1 {
        println!("VIOLATION property={} replay={}", t("property"), a.id);
    }
    exit(code)
}
