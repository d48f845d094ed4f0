//! Property-based checks of tmf. See /verif/DESIGN.md.
mod alloc;
mod engine;
mod io;
mod model;
mod peer;
mod props;
mod refcodec;
use engine::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::process::{Command, Stdio};
#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;
const THREADS: usize = 8;
const WATCHDOG_S: u64 = 820;
/// A single case may take this long
const HANG_S: u64 = 100;
/// How many times the number of cases of each arm the quick tier runs: brings a check to about 10 s.
const QUICK_SCALE: [(&str, f64); 22] = [
    ("C01", 4.0), ("C02", 16.0), ("C03", 16.0), ("C04", 24.0), ("C05", 12.0), ("C06", 16.0), ("C07", 4.0), ("C08", 1.5), ("C09", 3.0),
    ("C10", 2.0), ("C12", 1.5), ("C13", 5.0), ("C14", 5.0), ("C15", 6.0), ("C16", 2.0), ("C18", 5.0), ("C19", 2.0), ("C20", 4.0),
    ("C21", 4.0), ("C22", 3.0), ("C23", 3.0), ("C24", 3.0),
];

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}
fn find(id: &str) -> &'static Prop {
    match props::all().iter().copied().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}
fn choices_text(c: &[u64]) -> String {
    c.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")
}
fn parse_choices(s: &str) -> Vec<u64> {
    s.split(',').filter_map(|v| v.trim().parse().ok()).collect()
}
fn replay_path(verif: &str, prop: &str) -> String {
    format!("{verif}/evidence/replay-{prop}.json")
}
fn write_replay(path: &str, prop: &str, config: &str, arm: &str, choices: &[u64], msg: &str, case: &str, exact: bool) {
    let text = format!(
        "{{\n \"property\": {},\n \"config\": {},\n \"arm\": {},\n \"message\": {},\n \"case\": {},\n \"reproducible\": {exact},\n \"choices\": [{}]\n}}\n",
        json_str(prop), json_str(config), json_str(arm), json_str(msg), json_str(case), choices_text(choices)
    );
    if let Err(e) = std::fs::write(path, text) {
        eprintln!("could not write {path}: {e}");
    }
}
fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let verif = arg(&args, "--verif").unwrap_or_else(|| "/verif".to_owned());
    let known = read_known(&format!("{verif}/known_findings.txt"));
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => supervise(&args, &verif, &known),
        Some("worker") => worker(&args, &verif, &known),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
        }
        // Runs one generated case, or the given choices: used to isolate crashes and to replay. Exits with 3 if it fails.
        Some("one") => {
            let prop = find(&args[2]);
            let arm_i = if let Ok(i) = args[3].parse::<usize>() { i } else { prop.arms.iter().position(|a| a.name == args[3]).unwrap_or(0) };
            let arm = &prop.arms[arm_i];
            let mut src = match (arg(&args, "--index"), arg(&args, "--choices")) {
                (Some(i), _) => case_src(arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1), prop.id, arm, arm_i, i.parse().unwrap()),
                (_, Some(file)) => Src::replay(parse_choices(&std::fs::read_to_string(file).unwrap_or_default())),
                _ => std::process::exit(2),
            };
            src.trace = arg(&args, "--trace").and_then(|t| std::fs::File::create(t).ok());
            let (res, ctx) = run_case(prop.id, arm.f, &mut src, &known, true);
            println!("{}", ctx.desc);
            match res {
                Ok(()) => println!("PASS"),
                Err(m) => {
                    println!("FAIL {m}");
                    std::process::exit(3);
                }
            }
        }
        Some("serve") => peer::serve(),
        _ => {
            eprintln!("usage: harness run|worker|one|serve|list");
            std::process::exit(2);
        }
    }
}
fn worker(args: &[String], verif: &str, known: &[Known]) {
    let prop = find(&args[2]);
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = arg(args, "--tier").as_deref() == Some("thorough");
    let scale: f64 = arg(args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let config = arg(args, "--config").unwrap_or_else(|| "default".to_owned());
    let part = arg(args, "--part").unwrap_or_default();
    let slots = arg(args, "--slots").and_then(|p| std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(p).ok());
    watch_for_hangs(HANG_S);
    let (stats, failure) = run_prop(prop, seed, thorough, scale, THREADS, known, slots.as_ref());
    let mut out = String::new();
    let _ = writeln!(out, "eval {}\nnontrivial {}\ndistinct {}", stats.evaluations, stats.nontrivial, stats.keys.len());
    for (l, c) in &stats.labels {
        let _ = writeln!(out, "label {c} {l}");
    }
    for (id, (n, m)) in &stats.known {
        let _ = writeln!(out, "known {n} {id} {}", m.replace('\n', " "));
    }
    for ((_, _), s) in &stats.samples {
        let _ = writeln!(out, "sample {}", s.replace('\n', " | "));
    }
    let mut code = 0;
    if let Some(f) = failure {
        let arm = &prop.arms[f.arm];
        // The failure must reproduce from its choices before it is reported.
        let mut src = Src::replay(f.choices.clone());
        let (res, _) = run_case(prop.id, arm.f, &mut src, known, false);
        let mut exact = res.is_err();
        let mut best = f.choices.clone();
        if exact {
            // In case a smaller case hangs or crashes
            let path = replay_path(verif, prop.id);
            write_replay(&path, prop.id, &config, arm.name, &best, &f.msg, "", true);
            let _ = std::fs::write(&part, format!("{out}violation {} {}\n", path, format!("[{config}/{} #{}] {}", arm.name, f.index, f.msg).replace('\n', " ")));
            best = shrink(f.choices.clone(), 4000, |c| {
                let mut src = Src::replay(c.to_vec());
                let (res, _) = run_case(prop.id, arm.f, &mut src, known, false);
                res.err().map(|_| src.rec)
            });
        }
        let mut src = Src::replay(best.clone());
        let (res, ctx) = run_case(prop.id, arm.f, &mut src, known, true);
        let msg = match res {
            Err(m) => m,
            Ok(()) => {
                exact = false;
                f.msg.clone()
            }
        };
        let path = replay_path(verif, prop.id);
        write_replay(&path, prop.id, &config, arm.name, &best, &msg, &ctx.desc, exact);
        let _ = writeln!(out, "violation {} {}", path, format!("[{config}/{} #{}] {msg}", arm.name, f.index).replace('\n', " "));
        code = 1;
    }
    if std::fs::write(&part, out).is_err() {
        std::process::exit(2);
    }
    std::process::exit(code);
}
/// Waits for *child*; None if it had to be killed because of the watchdog.
fn wait(child: &mut std::process::Child, limit: std::time::Instant) -> Option<std::process::ExitStatus> {
    loop {
        match child.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) => {
                if std::time::Instant::now() > limit {
                    let _ = child.kill();
                    let _ = child.wait();
                    return None;
                }
                std::thread::sleep(std::time::Duration::from_millis(10));
            }
            Err(_) => return None,
        }
    }
}
fn supervise(args: &[String], verif: &str, known: &[Known]) {
    let begin = std::time::Instant::now();
    let prop = find(&args[2]);
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = arg(args, "--tier").unwrap_or_else(|| "quick".to_owned());
    let limit_s = if tier == "thorough" { 24 * 3600 } else { WATCHDOG_S };
    let limit = begin + std::time::Duration::from_secs(limit_s);
    let mut scale: f64 = arg(args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    if tier != "thorough" {
        scale *= QUICK_SCALE.iter().find(|(id, _)| *id == prop.id).map_or(1.0, |(_, s)| *s);
    }
    // --bin name=path:scale
    let mut bins: Vec<(String, String, f64)> = Vec::new();
    for w in args.windows(2) {
        if w[0] == "--bin" {
            let (name, rest) = w[1].split_once('=').unwrap_or(("default", &w[1]));
            let (path, sc) = rest.rsplit_once(':').unwrap_or((rest, "1"));
            bins.push((name.to_owned(), path.to_owned(), sc.parse().unwrap_or(1.0)));
        }
    }
    if bins.is_empty() {
        bins.push(("default".to_owned(), std::env::current_exe().unwrap().to_string_lossy().into_owned(), 1.0));
    }
    let tmp = std::env::temp_dir().join(format!("tmf-harness-{}-{}", prop.id, std::process::id()));
    let _ = std::fs::create_dir_all(&tmp);
    let mut evals = 0u64;
    let mut nontrivial = 0u64;
    let mut distinct = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut violation: Option<(String, String)> = None;
    let mut error = false;
    for (config, path, bin_scale) in &bins {
        let part = tmp.join(format!("part-{config}"));
        let slots = tmp.join(format!("slots-{config}"));
        let mut command = Command::new(path);
        if config != "default" {
            // Only the default build compares itself with others
            for (k, _) in std::env::vars_os().filter(|(k, _)| k.to_string_lossy().starts_with("HARNESS_PEER_")) {
                command.env_remove(k);
            }
        }
        let child = command
            .args(["worker", prop.id, "--seed", &seed.to_string(), "--tier", &tier, "--verif", verif])
            .args(["--scale", &(scale * bin_scale).to_string(), "--config", config])
            .arg("--part").arg(&part).arg("--slots").arg(&slots)
            .stdout(Stdio::null())
            .stdin(Stdio::null())
            .spawn();
        let Ok(mut child) = child else {
            eprintln!("could not start {path}");
            error = true;
            break;
        };
        let Some(status) = wait(&mut child, limit) else {
            eprintln!("the check of {} ({config}) did not finish in time: inconclusive", prop.id);
            error = true;
            break;
        };
        match status.code() {
            Some(0) | Some(1) => {
                let text = std::fs::read_to_string(&part).unwrap_or_default();
                for line in text.lines() {
                    let (k, rest) = line.split_once(' ').unwrap_or((line, ""));
                    match k {
                        "eval" => evals += rest.parse::<u64>().unwrap_or(0),
                        "nontrivial" => nontrivial += rest.parse::<u64>().unwrap_or(0),
                        "distinct" => distinct += rest.parse::<u64>().unwrap_or(0),
                        "label" => {
                            let (n, l) = rest.split_once(' ').unwrap_or(("0", rest));
                            *labels.entry(format!("{config}/{l}")).or_default() += n.parse::<u64>().unwrap_or(0);
                        }
                        "known" => {
                            let mut it = rest.splitn(3, ' ');
                            let n: u64 = it.next().and_then(|n| n.parse().ok()).unwrap_or(0);
                            *known_hits.entry(it.next().unwrap_or("").to_owned()).or_default() += n;
                        }
                        "sample" => samples.push(format!("{config}/{rest}")),
                        "violation" => {
                            let (p, m) = rest.split_once(' ').unwrap_or((rest, ""));
                            violation = Some((p.to_owned(), m.to_owned()));
                        }
                        _ => (),
                    }
                }
                if status.code() == Some(1) && violation.is_none() {
                    error = true;
                }
            }
            Some(c) => {
                eprintln!("worker of {} ({config}) exited with {c}", prop.id);
                error = true;
            }
            None if std::fs::read_to_string(&part).map_or(false, |t| t.contains("\nviolation ")) => {
                let text = std::fs::read_to_string(&part).unwrap_or_default();
                let rest = text.rsplit("\nviolation ").next().unwrap_or("");
                let (p, m) = rest.trim_end().split_once(' ').unwrap_or((rest, ""));
                violation = Some((p.to_owned(), m.to_owned()));
            }
            None => match isolate_crash(prop, path, config, seed, verif, &slots, &tmp, limit) {
                Some(v) => violation = Some(v),
                None => {
                    eprintln!("worker of {} ({config}) was killed ({status}), and no single case reproduces it", prop.id);
                    error = true;
                }
            },
        }
        if violation.is_some() || error {
            break;
        }
    }
    for b in std::fs::read_dir(&tmp).into_iter().flatten().flatten() {
        let _ = std::fs::remove_file(b.path());
    }
    let _ = std::fs::remove_dir(&tmp);
    // Evidence
    let mut e = String::new();
    let _ = write!(e, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {distinct},\n  \"nontrivial\": {nontrivial},\n  \"rule\": {},\n", json_str(prop.id), json_str(&tier), json_str(prop.rule));
    let _ = write!(e, "  \"configurations\": [{}],\n", bins.iter().map(|b| json_str(&b.0)).collect::<Vec<_>>().join(", "));
    let _ = write!(e, "  \"classes\": {{{}}},\n", labels.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", "));
    let _ = write!(e, "  \"known_finding_hits\": {{{}}},\n", known_hits.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", "));
    let _ = write!(e, "  \"samples\": [\n   {}\n  ]\n }},\n", samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n   "));
    let _ = write!(e, " \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", prop.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "), begin.elapsed().as_secs_f64(), violation.is_some() as u8);
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    if std::fs::write(format!("{verif}/evidence/{}.json", prop.id), e).is_err() {
        eprintln!("could not write the evidence file");
        std::process::exit(2);
    }
    for k in known.iter().filter(|k| k.property == prop.id) {
        if known_hits.contains_key(&k.id) {
            println!("KNOWN-FINDING: property={} {}", k.property, k.what);
        }
    }
    println!("{}: {evals} cases, {nontrivial} non-trivial ({distinct} distinct), {:.1} s", prop.id, begin.elapsed().as_secs_f64());
    if let Some((path, msg)) = violation {
        println!("{msg}");
        println!("VIOLATION property={} replay={path}", prop.id);
        std::process::exit(1);
    }
    if error {
        std::process::exit(2);
    }
}
/// The worker was killed by a signal (abort, stack overflow, ...): finds the case that does it, and shrinks it.
#[allow(clippy::too_many_arguments)]
fn isolate_crash(prop: &'static Prop, bin: &str, config: &str, seed: u64, verif: &str, slots: &std::path::Path, tmp: &std::path::Path, limit: std::time::Instant) -> Option<(String, String)> {
    let data = std::fs::read(slots).ok()?;
    let mut cands = Vec::new();
    for c in data.chunks_exact(16) {
        let arm = u64::from_le_bytes(c[..8].try_into().unwrap());
        let i = u64::from_le_bytes(c[8..].try_into().unwrap());
        if arm > 0 && (arm as usize) <= prop.arms.len() {
            cands.push((arm as usize - 1, i));
        }
    }
    cands.sort();
    let crashes = |extra: &[&str], arm: usize| -> Option<String> {
        let mut child = Command::new(bin)
            .args(["one", prop.id, &arm.to_string(), "--verif", verif])
            .args(extra)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .stdin(Stdio::null())
            .spawn()
            .ok()?;
        let Some(status) = wait(&mut child, limit.min(std::time::Instant::now() + std::time::Duration::from_secs(60))) else {
            return Some("it did not end within 60 s".to_owned());
        };
        if status.code().is_none() {
            Some(format!("the process was killed: {status}"))
        } else {
            None
        }
    };
    for (arm, i) in cands {
        let seed_s = seed.to_string();
        let i_s = i.to_string();
        if let Some(why) = crashes(&["--seed", &seed_s, "--index", &i_s], arm) {
            let path = replay_path(verif, prop.id);
            let trace = tmp.join("trace");
            let trace_s = trace.to_string_lossy().into_owned();
            crashes(&["--seed", &seed_s, "--index", &i_s, "--trace", &trace_s], arm);
            let choices: Vec<u64> = std::fs::read(&trace).ok()?.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
            let file = tmp.join("choices");
            let file_s = file.to_string_lossy().into_owned();
            let hang = why.contains("did not end");
            let best = shrink(choices, if hang { 0 } else { 200 }, |c| {
                std::fs::write(&file, choices_text(c)).ok()?;
                crashes(&["--choices", &file_s, "--trace", &trace_s], arm)?;
                Some(std::fs::read(&trace).ok()?.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
            });
            let msg = format!("[{config}/{} #{i}] {why}", prop.arms[arm].name);
            write_replay(&path, prop.id, config, prop.arms[arm].name, &best, &msg, "", true);
            return Some((path, msg));
        }
    }
    None
}
