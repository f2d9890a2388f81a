mod alloc;
mod engine;
mod kit;
mod props;
mod vclock;

use engine::*;
use std::io::Write;
use std::sync::atomic::Ordering::SeqCst;
use std::time::Duration;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn verif_dir() -> std::path::PathBuf {
    std::env::var("MX_VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

fn usage() -> ! {
    eprintln!("usage: mxcheck Cxx [--facet NAME] [--scale X] [--replay FILE] [--thorough] | --list");
    std::process::exit(2)
}

fn main() {
    vclock::mark_harness_thread();
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        usage();
    }
    if args[0] == "--list" {
        for p in props::ALL {
            for f in props::facets(p).unwrap() {
                println!("{} {}", p, f.name);
            }
        }
        return;
    }
    let prop = args[0].clone();
    let (mut only, mut replay, mut scale) = (None, None, 1.0f64);
    let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut i = 1;
    while i < args.len() {
        if args[i] == "--thorough" {
            thorough = true;
            i += 1;
            continue;
        }
        match (args[i].as_str(), args.get(i + 1)) {
            ("--facet", Some(v)) => only = Some(v.clone()),
            ("--replay", Some(v)) => replay = Some(v.clone()),
            ("--scale", Some(v)) => scale = v.parse().unwrap_or_else(|_| usage()),
            _ => usage(),
        }
        i += 2;
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    let Some(facets) = props::facets(&prop) else { usage() };
    install_panic_hook();
    watchdog(if thorough { 900 } else { 300 }, prop.clone(), seed, thorough);

    if let Some(file) = replay {
        let text = std::fs::read_to_string(&file).unwrap_or_else(|e| {
            eprintln!("cannot read {}: {}", file, e);
            std::process::exit(2)
        });
        let doc: serde_json::Value = serde_json::from_str(&text).expect("replay file is JSON");
        let facet = doc["facet"].as_str().unwrap_or_default();
        let case = doc["case"].to_string();
        let f = facets.iter().find(|f| f.name == facet).unwrap_or_else(|| {
            eprintln!("no facet {}", facet);
            std::process::exit(2)
        });
        match f.replay(&case) {
            Err(e) => {
                eprintln!("replay file does not fit: {}", e);
                std::process::exit(2)
            }
            Ok(Ok(())) => println!("replay: property {} holds on this case", prop),
            Ok(Err(m)) if m.contains(INCONCLUSIVE) => {
                println!("{}", m);
                std::process::exit(2)
            }
            Ok(Err(m)) => {
                println!("{}", m);
                println!("VIOLATION property={} replay={}", prop, file);
                std::process::exit(1)
            }
        }
        return;
    }

    let cfg = RunCfg { seed, thorough, scale, prop: prop.clone() };
    let start = vclock::real_ns();
    let mut reports = Vec::new();
    for f in facets.iter() {
        if only.as_ref().is_some_and(|o| o != f.name) {
            continue;
        }
        let r = guarded(|| f.run(&cfg)).unwrap_or_else(|e| FacetReport {
            name: f.name.to_string(),
            rule: f.rule.to_string(),
            error: Some(format!("the harness panicked: {}", e)),
            ..FacetReport::default()
        });
        println!(
            "{} {}: {} cases, {} distinct non-trivial, {:.1}s{}",
            prop,
            r.name,
            r.evaluations,
            r.distinct_nontrivial,
            r.wall_s,
            if r.violation.is_some() { " VIOLATED" } else { "" }
        );
        let stop = r.violation.is_some();
        reports.push(r);
        if stop {
            break;
        }
    }
    let wall = (vclock::real_ns() - start) as f64 / 1e9;
    let violation = reports.iter().find_map(|r| r.violation.as_ref());
    let error = reports.iter().find_map(|r| r.error.as_ref());
    write_evidence(&prop, seed, thorough, wall, &reports);
    if let Some(v) = violation {
        report_violation(&prop, v);
    }
    if let Some(e) = error {
        println!("ERROR: {}", e);
        std::process::exit(2);
    }
    for l in known_findings(&prop) {
        println!("KNOWN-FINDING: {}", l);
    }
    let _ = std::io::stdout().flush();
    // threads of free running drivers must not delay the end
    std::process::exit(0);
}

/// Listed, unrepaired findings ("fixed:" entries are not printed).
fn known_findings(prop: &str) -> Vec<String> {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    text.lines().filter(|l| l.starts_with(&format!("property={} ", prop))).map(|l| l.to_string()).collect()
}

fn write_evidence(prop: &str, seed: u64, thorough: bool, wall: f64, reports: &[FacetReport]) {
    let evaluations: u64 = reports.iter().map(|r| r.evaluations).sum();
    let distinct: u64 = reports.iter().map(|r| r.distinct_nontrivial).sum();
    let rule = reports.iter().map(|r| format!("{}: {}", r.name, r.rule)).collect::<Vec<_>>().join(" | ");
    let samples: Vec<_> = reports
        .iter()
        .flat_map(|r| r.samples.iter().take(2).map(|s| serde_json::json!({"facet": r.name, "case": s})))
        .collect();
    let facets: Vec<_> = reports
        .iter()
        .map(|r| {
            serde_json::json!({
                "facet": r.name, "evaluations": r.evaluations, "distinct_nontrivial": r.distinct_nontrivial,
                "classes": r.labels, "wall_s": r.wall_s,
            })
        })
        .collect();
    let doc = serde_json::json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed as i64,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": rule,
            "samples": samples,
            "facets": facets,
        },
        "assumptions": props::assumptions(prop),
        "wall_s": wall,
        "violations": reports.iter().filter(|r| r.violation.is_some()).count(),
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", prop)), serde_json::to_string_pretty(&doc).unwrap()).expect("write evidence");
}

/// No thread of this process but the calling one is running or waits for a
/// processor.
fn all_asleep() -> bool {
    let me = unsafe { libc::syscall(libc::SYS_gettid) }.to_string();
    let Ok(tasks) = std::fs::read_dir("/proc/self/task") else { return false };
    tasks.flatten().filter(|t| t.file_name().to_str() != Some(&me)).all(|t| {
        let stat = std::fs::read_to_string(t.path().join("stat")).unwrap_or_default();
        stat.rsplit(')').next().unwrap_or("").trim_start().starts_with('S')
    })
}

/// Decides that a case never ends. The criteria are about CPU time that was
/// really consumed, or about all threads of the process being blocked, never
/// about the passage of real time alone:
/// * the thread of the case burned 30 s of CPU time on this one case
///   (cases take milliseconds),
/// * all threads together burned 240 s of CPU time on it,
/// * nothing in the process ran at all for 40 s while a case was going on.
/// A run without progress for `limit` seconds that meets none of them ends as
/// an error.
fn watchdog(limit: u64, prop: String, seed: u64, thorough: bool) {
    std::thread::Builder::new()
        .name("mxwatchdog".into())
        .spawn(move || {
            vclock::mark_harness_thread();
            let start = vclock::real_ns();
            let mut last = (PROGRESS.load(SeqCst), vclock::real_ns());
            let mut idle: (u64, u64, u32) = (0, 0, 0);
            loop {
                vclock::real_sleep(Duration::from_millis(500));
                let mut hung: Option<(&'static str, String, String)> = None;
                let total = vclock::cpu_ns(libc::CLOCK_PROCESS_CPUTIME_ID);
                {
                    let g = RUNNING.lock().unwrap();
                    for r in g.values() {
                        let own = vclock::cpu_ns(r.cpu_clock).saturating_sub(r.thread_cpu);
                        let all = total.saturating_sub(r.process_cpu);
                        if own > 30_000_000_000 {
                            hung = Some((r.facet, (r.case_json)(), format!("the case does not end: it has used {} s of CPU time", own / 1_000_000_000)));
                        } else if g.len() == 1 && all > 240_000_000_000 {
                            hung = Some((r.facet, (r.case_json)(), format!("the case does not end: its threads have used {} s of CPU time", all / 1_000_000_000)));
                        }
                    }
                    // whoever began last, so that a run that goes on resets it
                    let newest = g.values().map(|r| r.serial).max();
                    if newest == Some(idle.0) && total.saturating_sub(idle.1) < 100_000_000 && all_asleep() {
                        idle.2 += 1;
                    } else {
                        idle = (newest.unwrap_or(0), total, 0);
                    }
                    if idle.2 > 80 {
                        if let Some(r) = g.values().min_by_key(|r| r.serial) {
                            hung = Some((r.facet, (r.case_json)(), "the case does not end: all threads are blocked".to_string()));
                        }
                    }
                }
                if let Some((facet, case, message)) = hung {
                    let report = FacetReport {
                        name: facet.to_string(),
                        rule: "a case that does not end".to_string(),
                        evaluations: PROGRESS.load(SeqCst),
                        distinct_nontrivial: 1,
                        samples: vec![serde_json::Value::String(case.clone())],
                        violation: Some(Violation { facet: facet.to_string(), message, case_debug: case.clone(), case_json: case }),
                        ..FacetReport::default()
                    };
                    write_evidence(&prop, seed, thorough, (vclock::real_ns() - start) as f64 / 1e9, std::slice::from_ref(&report));
                    report_violation(&prop, report.violation.as_ref().unwrap());
                }
                let p = PROGRESS.load(SeqCst);
                let now = vclock::real_ns();
                if p != last.0 {
                    last = (p, now);
                } else if now - last.1 > limit * 1_000_000_000 {
                    println!("ERROR: no progress for {} s of real time (inconclusive)", limit);
                    let _ = std::io::stdout().flush();
                    std::process::exit(2);
                }
            }
        })
        .unwrap();
}

/// Writes the replay file, prints the VIOLATION line and ends the run.
fn report_violation(prop: &str, v: &Violation) -> ! {
    let dir = verif_dir().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{:016x}.json", prop, v.facet, hash_str(&v.case_json)));
    let case: serde_json::Value = serde_json::from_str(&v.case_json).unwrap_or_default();
    let doc = serde_json::json!({
        "property": prop, "facet": v.facet, "message": v.message, "case": case,
        "how": format!("./check.sh {} --replay {}", prop, path.display()),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("write replay");
    let shown: String = v.case_debug.chars().take(6000).collect();
    println!("facet {}: {}\nminimal case: {}", v.facet, v.message, shown);
    println!("VIOLATION property={} replay={}", prop, path.display());
    let _ = std::io::stdout().flush();
    std::process::exit(1);
}
