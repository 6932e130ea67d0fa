//! `tsmc`: exhaustive exploration of the traffic simulation within stated bounds.
//!
//! Usage:
//!   tsmc check <property> <quick|thorough>   (writes evidence/<property>.json, out/<property>.replay)
//!   tsmc replay <file>                       (re-executes a recorded counterexample with its trace)
//!   tsmc list

#![allow(dead_code)]

mod driver;
mod engine;
mod props;
mod scen;
mod world;

use engine::*;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::{Duration, Instant};

const THREADS: usize = 8;
const HANG_S: u64 = 45;

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn replay_path(id: &str) -> PathBuf {
    root().join("out").join(format!("{}.replay", id))
}

fn write_file(path: &Path, text: &str) {
    if let Some(p) = path.parent() {
        let _ = std::fs::create_dir_all(p);
    }
    std::fs::write(path, text).expect("HARNESS: cannot write a result file");
}

/// Prints and records a violation, then leaves the process with exit code 1.
fn violation(id: &str, tier: &str, f: &Failure) -> ! {
    let path = replay_path(id);
    let mut text = format!(
        "property {}\ntier {}\nsuite {}\nchoices {}\nmessage {}\n",
        id,
        tier,
        f.suite,
        f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
        f.message.replace('\n', " ")
    );
    for l in &f.trace {
        text += &format!("trace {}\n", l);
    }
    write_file(&path, &text);
    println!("suite {}: {}", f.suite, f.message);
    for l in f.trace.iter().rev().take(12).rev() {
        println!("    {}", l);
    }
    println!("VIOLATION property={} replay={}", id, path.display());
    let _ = std::io::stdout().flush();
    std::process::exit(1);
}

static CURRENT: std::sync::Mutex<Option<(String, String)>> = std::sync::Mutex::new(None);

/// Called by the watchdog.
pub fn hang(f: Failure) -> ! {
    let (id, tier) = CURRENT.lock().unwrap().clone().expect("HARNESS: no current check");
    violation(&id, &tier, &f)
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let mut it = l.splitn(3, ' ');
            let p = it.next()?.strip_prefix("property=")?.to_string();
            let h = it.next()?.strip_prefix("history=")?.to_string();
            let what = it.next()?.to_string();
            (p == id).then_some((h, what))
        })
        .collect()
}

fn inner(id: &str, tier: &str) -> i32 {
    let thorough = tier == "thorough";
    *CURRENT.lock().unwrap() = Some((id.to_string(), tier.to_string()));
    let t0 = Instant::now();
    let Some(prop) = props::all(thorough).into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {}", id);
        return 2;
    };
    let only = std::env::var("TSMC_SUITE").ok();
    let budget = if thorough { 10_000 } else { 780 };
    let deadline = t0 + Duration::from_secs(budget);
    let findings = known_findings(id);

    let (mut states, mut transitions, mut execs, mut steps, mut checks, mut pruned, mut replays) =
        (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut suites_json = vec![];
    let mut known_seen = 0;
    let mut vacuous = false;

    for suite in &prop.suites {
        if only.as_deref().is_some_and(|o| o != suite.name) {
            continue;
        }
        let ts = Instant::now();
        let r = explore(suite, thorough, THREADS, HANG_S, deadline);
        if let Some(e) = r.engine_error {
            eprintln!("suite {}: engine error: {}", suite.name, e);
            return 2;
        }
        if let Some(mut f) = r.failure {
            let history = format!(
                "{}:{}",
                f.suite,
                f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
            );
            if suite.known {
                if let Some((_, what)) = findings.iter().find(|(h, _)| *h == history) {
                    println!("KNOWN-FINDING: property={} {}", id, what);
                    known_seen += 1;
                } else {
                    let (_, trace, _) = replay(suite, &f.choices, thorough);
                    f.trace = trace;
                    violation(id, tier, &f);
                }
            } else {
                // A counterexample counts only if re-executing its choices fails again.
                let (m1, trace, o1) = replay(suite, &f.choices, thorough);
                let (m2, _, o2) = replay(suite, &f.choices, thorough);
                match (m1, m2) {
                    (Some(a), Some(_)) if a != "(pruned)" && !a.starts_with("ENGINE") => {
                        let _ = (o1, o2);
                        f.message = a;
                        f.trace = trace;
                        violation(id, tier, &f);
                    }
                    (a, b) => {
                        eprintln!(
                            "suite {}: failure '{}' of {:?} does not replay ({:?} / {:?})",
                            suite.name, f.message, f.choices, a, b
                        );
                        return 2;
                    }
                }
            }
        } else if !r.complete {
            eprintln!("suite {}: the exploration did not finish within {} s", suite.name, budget);
            return 2;
        }
        let s = r.stats;
        // Vacuity: everything the suite promises to reach must have been reached.
        for tag in &suite.must_cover {
            if s.cover.get(tag).copied().unwrap_or(0) == 0 {
                eprintln!("suite {}: '{}' was never reached (vacuous)", suite.name, tag);
                vacuous = true;
            }
        }
        // Replay the recorded sample executions: the same choices must give the same run.
        for c in &s.samples {
            let (m1, trace, o1) = replay(suite, c, thorough);
            let (m2, _, o2) = replay(suite, c, thorough);
            if m1 != m2 || o1 != o2 {
                eprintln!("suite {}: execution {:?} is not reproducible", suite.name, c);
                if id != "C19" {
                    return 2;
                }
            }
            replays += 2;
            if samples.len() < 12 {
                samples.push(format!(
                    "{{\"suite\":{},\"choices\":{:?},\"trace\":[{}]}}",
                    json_str(suite.name),
                    c,
                    trace.iter().take(8).map(|t| json_str(t)).collect::<Vec<_>>().join(",")
                ));
            }
        }
        println!(
            "suite {}: {} executions ({} pruned), {} states, {} steps, {} checks, {:.1} s",
            suite.name,
            s.executions,
            s.pruned,
            s.states.len(),
            s.sim_steps,
            s.checks,
            ts.elapsed().as_secs_f64()
        );
        if !s.maxima.is_empty() {
            println!("    maxima {:?}", s.maxima);
        }
        if !s.cover.is_empty() {
            println!("    cover {:?}", s.cover);
        }
        suites_json.push(format!(
            "{{\"suite\":{},\"bounds\":{},\"executions\":{},\"pruned\":{},\"states\":{},\"distinct_outcomes\":{},\"depth\":{},\"reached\":{{{}}},\"extremes\":{{{}}}}}",
            json_str(suite.name),
            json_str(suite.bounds),
            s.executions,
            s.pruned,
            s.states.len(),
            s.outcomes.len(),
            s.max_depth,
            s.cover.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","),
            s.maxima
                .iter()
                .filter(|(_, v)| v.is_finite())
                .map(|(k, v)| format!("{}:{}", json_str(k), v))
                .collect::<Vec<_>>()
                .join(",")
        ));
        states += s.states.len() as u64;
        transitions += s.transitions;
        execs += s.executions - s.pruned;
        pruned += s.pruned;
        steps += s.sim_steps;
        checks += s.checks;
    }

    if vacuous {
        return 2;
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let json = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":true,\"simulation_steps\":{},\"oracle_evaluations\":{},\"pruned_by_precondition\":{},\"sample_replays_identical\":{},\"known_findings_seen\":{},\"suites\":[{}],\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":0}}\n",
        json_str(id),
        json_str(tier),
        seed,
        states,
        transitions,
        execs,
        steps,
        checks,
        pruned,
        replays,
        known_seen,
        suites_json.join(","),
        samples.join(","),
        prop.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64()
    );
    write_file(&root().join("evidence").join(format!("{}.json", id)), &json);
    println!(
        "{}: held on {} executions, {} states, {} transitions ({:.1} s)",
        id,
        execs,
        states,
        transitions,
        t0.elapsed().as_secs_f64()
    );
    0
}

/// Runs the check in a child process, so that a crash of the code under test (stack overflow,
/// abort) can be attributed to the execution that caused it.
fn check(id: &str, tier: &str) -> i32 {
    let journal = root().join("out").join(format!("{}.journal", id));
    write_file(&journal, "");
    let _ = std::fs::remove_file(root().join("evidence").join(format!("{}.json", id)));
    let exe = std::env::current_exe().expect("HARNESS: exe");
    let status = Command::new(&exe)
        .args(["inner", id, tier])
        .env("TSMC_JOURNAL", &journal)
        .status()
        .expect("HARNESS: cannot start the explorer");
    if let Some(c) = status.code() {
        let _ = std::fs::remove_file(&journal);
        return c;
    }
    // The explorer was killed by a signal: re-execute what its workers were doing.
    eprintln!("the explorer was killed: {:?}", status);
    for (suite, choices) in read_journal(&journal) {
        let list = choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
        let st = Command::new(&exe)
            .args(["one", id, tier, &suite, &list])
            .status()
            .expect("HARNESS: cannot start the explorer");
        if st.code().is_none() {
            let prop = props::all(tier == "thorough").into_iter().find(|p| p.id == id).unwrap();
            let suite = prop.suites.iter().find(|s| s.name == suite).unwrap();
            violation(
                id,
                tier,
                &Failure {
                    suite: suite.name,
                    choices,
                    message: format!("the code under test crashed the process ({})", st),
                    trace: vec![],
                },
            );
        }
    }
    2
}

fn parse_choices(s: &str) -> Vec<u32> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("HARNESS: bad choices")).collect()
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" => check(arg(2), arg(3)),
        "inner" => inner(arg(2), arg(3)),
        "one" => {
            let prop = props::all(arg(3) == "thorough").into_iter().find(|p| p.id == arg(2)).unwrap();
            let suite = prop.suites.iter().find(|s| s.name == arg(4)).unwrap().clone();
            let choices = parse_choices(arg(5));
            let thorough = arg(3) == "thorough";
            // On a thread with the same stack as the explorer's workers.
            let h = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || replay(&suite, &choices, thorough).0)
                .unwrap();
            h.join().map(|m| m.is_some() as i32).unwrap_or(2)
        }
        "replay" => {
            let text = std::fs::read_to_string(arg(2)).expect("HARNESS: cannot read the replay file");
            let get = |k: &str| {
                text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string()
            };
            let tier = get("tier ");
            let prop = props::all(tier == "thorough").into_iter().find(|p| p.id == get("property ")).unwrap();
            let name = get("suite ");
            let suite = prop.suites.iter().find(|s| s.name == name).unwrap();
            let (m, trace, _) = replay(suite, &parse_choices(&get("choices ")), tier == "thorough");
            for t in trace {
                println!("{}", t);
            }
            println!("{}", m.clone().unwrap_or("no violation".into()));
            m.is_some() as i32
        }
        "list" => {
            for p in props::all(false) {
                for s in p.suites {
                    println!("{} {}: {}", p.id, s.name, s.bounds);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: tsmc check <property> <tier> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
